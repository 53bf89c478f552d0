"""Glue for JSON, reflection and service data with the simulated memory (see workers/mem_extra.cpp)."""


def cpp(schema):
    from gluegen import cpp_name, top_types
    tops = [d for d in top_types(schema) if not d.params]
    o = ['#include "mem_extra.h"'] + ['#include "glue_%s.h"' % d.name for d in tops]
    o.append("namespace glue\n{\nvoid memRegister()\n{")
    for d in tops:
        t = cpp_name(d)
        o.append('    mems()["%s"] = Mem{' % d.name)
        o.append("        [](Box* b, int n) { return toJson(unbox<%s>(b), n); }," % t)
        o.append("        [](const std::string& s) { return fromJson<%s>(s); }," % t)
        o.append("        [](Box* b, const std::string& p) { return find(unbox<%s>(b), p); }," % t)
        o.append("        [](Box* b, const std::string& p) { return store(unbox<%s>(b), p); }," % t)
        o.append("        [](Box* b, char m) { return message(unbox<%s>(b), m); }};" % t)
    o.append("}\n}")
    return "\n".join(o) + "\n"
