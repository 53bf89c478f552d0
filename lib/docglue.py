"""Glue for files and JSON (see workers/doc_extra.h, DocExtra.java, docworker.py)."""


def cpp(schema):
    from gluegen import cap, cpp_name, top_types
    tops = top_types(schema)
    o = ['#include "doc_extra.h"'] + ['#include "glue_%s.h"' % d.name for d in tops]
    o.append("namespace glue\n{\nvoid docRegister()\n{")
    for d in tops:
        t = cpp_name(d)
        gets = "".join(", unbox<%s>(b).get%s()" % (t, cap(pn)) for _, pn in d.params)
        o.append('    docs()["%s"] = Doc{' % d.name)
        o.append("        [](Box* b, const std::string& p) { zserio::serializeToFile(unbox<%s>(b), p%s); }," % (t, gets))
        ps, refs = [], ""
        for i, (ti, pn) in enumerate(d.params):
            v = "std::decay_t<decltype(std::declval<const %s&>().get%s())>" % (t, cap(pn))
            ps.append("auto p%d = mk<%s>(); rd<'s'>(p%d, t, 's');" % (i, v, i))
            refs += ", p%d" % i
        o.append("        [](const std::string& p, Toks& t) { (void)t; %s return std::unique_ptr<Box>(new BoxT<%s>("
                 "zserio::deserializeFromFile<%s>(p%s))); }," % (" ".join(ps), t, t, refs))
        if d.params:
            o.append("        nullptr, nullptr, nullptr, nullptr, nullptr, []() { Window w; return &%s::typeInfo(); }};" % t)
            continue
        o.append("        [](Box* b, std::ostream& s, int n) { Window w; zserio::toJsonStream(unbox<%s>(b), s, static_cast<uint8_t>(n)); }," % t)
        o.append("        [](Box* b, const std::string& p, int n) { zserio::toJsonFile(unbox<%s>(b), p, static_cast<uint8_t>(n)); }," % t)
        o.append("        [](std::istream& s) { Window w; auto v = zserio::fromJsonStream<%s>(s); Pause p; return std::unique_ptr<Box>(new BoxT<%s>(std::move(v))); }," % (t, t))
        o.append("        [](const std::string& p) { return std::unique_ptr<Box>(new BoxT<%s>(zserio::fromJsonFile<%s>(p))); }," % (t, t))
        o.append("        [](zserio::BasicJsonReader<Alloc>& r) { return std::unique_ptr<Box>(new BoxT<%s>(std::move("
                 "zserio::ReflectableUtil::getValue<%s, Alloc>(r.read(%s::typeInfo()))))); }," % (t, t, t))
        o.append("        []() { Window w; return &%s::typeInfo(); }};" % t)
    o.append("}\n}")
    return "\n".join(o) + "\n"
