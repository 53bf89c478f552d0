// Files and JSON: one entry per type, generated by lib/docglue.py.
#pragma once
#include <istream>
#include <ostream>
#include "worker_extra.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/FileUtil.h"
#include "zserio/SerializeUtil.h"

namespace glue
{
struct Doc
{
    std::function<void(Box*, const std::string&)> save;
    std::function<std::unique_ptr<Box>(const std::string&, Toks&)> load;
    std::function<void(Box*, std::ostream&, int)> put;
    std::function<void(Box*, const std::string&, int)> putFile;
    std::function<std::unique_ptr<Box>(std::istream&)> get;
    std::function<std::unique_ptr<Box>(const std::string&)> getFile;
    std::function<std::unique_ptr<Box>(zserio::BasicJsonReader<Alloc>&)> next;
    std::function<const zserio::IBasicTypeInfo<Alloc>*()> info;
};
std::map<std::string, Doc>& docs();
void docRegister();
}
