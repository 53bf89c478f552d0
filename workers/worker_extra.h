// Commands added by particular worlds (see the EXTRA units); the default is none.
#pragma once
#include <string>
#include "worker.h"
namespace glue
{
Box* box(const std::string& h);
void keep(const std::string& h, std::unique_ptr<Box> b);
bool extraCommand(const std::string& op, Toks& t, std::string& result);
void extraInit();
}
