#include "worker_extra.h"
namespace glue
{
bool extraCommand(const std::string&, Toks&, std::string&)
{
    return false;
}
void extraInit()
{}
}
