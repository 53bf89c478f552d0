"""Generates the glue between the generic workers and the generated classes of one schema."""
import docglue
import sqlglue
import zs


def cap(n):
    return n[0].upper() + n[1:]


def fq(d, sep):
    return sep.join((d.pkg.split(".") if d.pkg else []) + [d.name])


def cpp_name(d):
    return "::" + fq(d, "::")


def compounds(schema):
    return [d for d in schema.order if d.kind in ("struct", "choice", "union")]


def top_types(schema):
    return [d for d in compounds(schema) if not any(ti.is_compound() for ti, _ in d.params)]


def groups(schema, kind):
    return [d for d in schema.order if d.kind == kind]


# ------------------------------------------------------------------------------------------------ Java descriptor
def kind(ti):
    k = ti.kind
    if k in ("bit", "int", "dynbit", "dynint", "var"):
        return "i"
    if k == "bool":
        return "b"
    if k == "float":
        return "d" if ti.bits == 64 else "f"
    if k == "string":
        return "s"
    if k == "bytes":
        return "y"
    if k == "extern":
        return "x"
    return {"enum": "e:", "bitmask": "m:", "compound": "c:"}[k] + ti.decl.name


def descriptor(schema):
    out = []
    for d in schema.order:
        n = fq(d, ".")
        if d.kind in ("struct", "choice", "union"):
            out.append("C %s %s %s" % (d.name, n, d.kind))
            for ti, pn in d.params:
                out.append("P %s %s" % (kind(ti), pn))
            for f in d.fields:
                args = []
                if f.ti.is_compound():
                    for (pti, _), e in zip(f.ti.decl.params, f.ti.args):
                        args.append("f:" + e[1] if pti.is_compound() else "s")
                out.append("F %s %s %d %d %d %d %d %s" % (
                    f.name, kind(f.ti), f.array is not None, f.is_optional(), f.extend, f.default is not None,
                    f.cond is not None, " ".join(args)))
        elif d.kind == "enum":
            out.append("U %s %s" % (d.name, n))
        elif d.kind == "bitmask":
            out.append("K %s %s" % (d.name, n))
        elif d.kind == "pubsub":
            out.append("B %s %s" % (d.name, n))
            for name, mode, topic, ti in d.messages:
                out.append("M %s %s %s" % (name, topic, kind(ti)))
        elif d.kind == "service":
            out.append("V %s %s" % (d.name, n))
            for name, rti, qti in d.methods:
                out.append("D %s %s %s" % (name, kind(rti), kind(qti)))
    out += sqlglue.descriptor(schema)
    return "\n".join(x.rstrip() for x in out) + "\n"


# ------------------------------------------------------------------------------------------------ Java glue
def java_type(ti):
    return "byte[]" if ti.kind == "bytes" else fq(ti.decl, ".")


def java(world):
    s = world.schema
    files = {}
    g = ["final class Glue {",
         "  static Object client(String svc, zserio.runtime.service.ServiceClientInterface c) {"]
    for d in groups(s, "service"):
        n = fq(d, ".")
        g.append('    if (svc.equals("%s")) return new %s.%sClient(c);' % (d.name, n, d.name))
        o = ["public final class Glue_%s extends %s.%sService {" % (d.name, n, d.name),
             "  private final String name;",
             "  public Glue_%s(String name) { this.name = name; }" % d.name]
        for i, (m, rti, qti) in enumerate(d.methods):
            o.append("  @Override protected %s %sImpl(%s request, Object context) {" % (
                java_type(rti), m, java_type(qti)))
            o.append('    return (%s)Worker.impl(name, "%s", %d, request, context);\n  }' % (java_type(rti), d.name, i))
        o.append("}")
        files["Glue_%s.java" % d.name] = "\n".join(o) + "\n"
    g += ["    throw new RuntimeException(svc);", "  }", "  static void init() throws Exception {%s}" % (
        (" SqlExtra.register(); " if sqlglue.databases(s) else "") + (" DocExtra.register(); " if world.docs else "") +
                 (" ThrExtra.register(); " if world.weave else "")), "}"]
    files["Glue.java"] = "\n".join(g) + "\n"
    return files


# ------------------------------------------------------------------------------------------------ C++ glue
def cpp_field_kind(f):
    b = f.ti.kind == "bytes"
    if f.array is not None:
        return "A" if b else "a"
    return "b" if b else "s"


def cpp_g(d, settable=True):
    t = cpp_name(d)
    o = []
    np = len(d.params)
    o.append("template <> struct G<%s>\n{" % t)
    o.append("    using T = %s;" % t)
    o.append("    static constexpr int NP = %d;" % np)

    def val(f):
        return "std::decay_t<decltype(std::declval<const T&>().get%s())>" % cap(f.name)

    o.append("    static void set(T& o, int idx, Toks& t, char mode)\n    {\n        switch (idx)\n        {")
    for f in d.fields:
        o.append("        case %d: { auto v = mk<%s>(); rd<'%s'>(v, t, mode); o.set%s(std::move(v)); return; }" % (
            f.idx, val(f), cpp_field_kind(f), cap(f.name)))
    o.append('        default: throw std::logic_error("harness: field");\n        }\n    }')

    o.append("    static void get(const T& o, int idx, std::string& s)\n    {\n        (void)o; (void)s;\n"
             "        switch (idx)\n        {")
    for f in d.fields:
        if d.kind == "struct" and f.is_optional():
            o.append("        case %d: if (!o.is%sSet()) { s = \".\"; return; } put<'%s'>(s, o.get%s()); return;" % (
                f.idx, cap(f.name), cpp_field_kind(f), cap(f.name)))
        else:
            o.append("        case %d: put<'%s'>(s, o.get%s()); return;" % (f.idx, cpp_field_kind(f), cap(f.name)))
    o.append('        default: throw std::logic_error("harness: field");\n        }\n    }')

    o.append("    static void reset(T& o, int idx)\n    {\n        (void)o;\n        switch (idx)\n        {")
    if d.kind == "struct":
        for f in d.fields:
            if f.is_optional():
                o.append("        case %d: o.reset%s(); return;" % (f.idx, cap(f.name)))
    o.append('        default: throw std::logic_error("harness: field");\n        }\n    }')

    o.append("    static void nset(T& o, Toks& path, Toks& t, char mode)\n    {\n        const int idx = atoi(path.next().c_str());\n"
             "        if (path.done())\n        {\n            if (t.a[t.p] == \".\") reset(o, idx); else set(o, idx, t, mode);\n"
             "            return;\n        }\n        switch (idx)\n        {")
    for f in d.fields:
        if f.array is not None and f.ti.is_compound():
            o.append("        case %d: { auto& v = o.get%s(); const int k = atoi(path.next().c_str());\n"
                     "            if (path.done()) { auto e = mk<%s>(); rds(e, t, mode); v[k] = std::move(e); }"
                     " else G<%s>::nset(v[k], path, t, mode); return; }" % (f.idx, cap(f.name), cpp_name(f.ti.decl),
                                                                            cpp_name(f.ti.decl)))
        elif f.array is not None:
            o.append("        case %d: { auto& v = o.get%s(); const int k = atoi(path.next().c_str());\n"
                     "            auto e = mk<typename std::decay_t<decltype(v)>::value_type>(); rd<'%s'>(e, t, mode);"
                     " v[k] = std::move(e); return; }" % (f.idx, cap(f.name), "b" if f.ti.kind == "bytes" else "s"))
        elif f.ti.is_compound():
            o.append("        case %d: G<%s>::nset(o.get%s(), path, t, mode); return;" % (
                f.idx, cpp_name(f.ti.decl), cap(f.name)))
    o.append('        default: throw std::logic_error("harness: path");\n        }\n    }')

    o.append("    static std::string flags(const T& o, int idx)\n    {\n        (void)o;\n        switch (idx)\n        {")
    if d.kind == "struct":
        for f in d.fields:
            a = ["-", "-", "-"]
            if f.is_optional():
                a[0] = 'o.is%sUsed()' % cap(f.name)
                a[1] = 'o.is%sSet()' % cap(f.name)
            if f.extend:
                a[2] = 'o.is%sPresent()' % cap(f.name)
            e = " + std::string(\" \") + ".join('std::string("-")' if x == "-" else
                                               'std::string(%s ? "1" : "0")' % x for x in a)
            o.append("        case %d: return %s;" % (f.idx, e))
    o.append('        default: return "- - -";\n        }\n    }')

    o.append("    static void build(T& o, Toks& t, char mode, bool nested)\n    {\n        (void)o; (void)mode;")
    if np:
        has_cp = any(ti.is_compound() for ti, _ in d.params)
        o.append("        if (nested) t.p += NP;")
        if has_cp:
            o.append('        else throw std::logic_error("harness: compound parameter");')
        else:
            o.append("        else {")
            for i, (ti, pn) in enumerate(d.params):
                o.append("            auto p%d = mk<std::decay_t<decltype(std::declval<const T&>().get%s())>>();"
                         " rd<'%s'>(p%d, t, mode);" % (i, cap(pn), "b" if ti.kind == "bytes" else "s", i))
            if settable:
                # parameters are taken by reference for strings: keep them alive
                for i, (ti, pn) in enumerate(d.params):
                    if ti.kind in ("string", "bytes", "extern"):
                        o.append("            static std::vector<std::shared_ptr<void>> keep%d;"
                                 " auto k%d = std::make_shared<decltype(p%d)>(p%d); keep%d.push_back(k%d);" % (
                                     i, i, i, i, i, i))
                o.append("            pending = [=](T& x) { x.initialize(%s); };" % ", ".join(
                    ("*k%d" % i) if ti.kind in ("string", "bytes", "extern") else "p%d" % i
                    for i, (ti, _) in enumerate(d.params)))
            o.append("        }")
    else:
        o.append("        (void)nested;")
    if d.kind == "struct":
        if d.fields:
            o.append("        if (mode == 'c')\n        {")
            n = len(d.fields)
            for f in d.fields:
                o.append("            auto v%d = mk<%s>(); bool a%d = false;" % (f.idx, val(f), f.idx))
                body = "rd<'%s'>(v%d, t, mode);" % (cpp_field_kind(f), f.idx)
                if f.extend or f.is_optional():
                    body = "if (t.next() == \"+\") %s else a%d = true;" % (body, f.idx)
                o.append("            " + body)
            o.append("            o = T(%s, al());" % ", ".join("std::move(v%d)" % i for i in range(n)))
            for f in d.fields:
                if f.is_optional():
                    o.append("            if (a%d) o.reset%s();" % (f.idx, cap(f.name)))
            o.append("        }\n        else\n        {")
            for f in d.fields:
                s = "set(o, %d, t, mode);" % f.idx
                if f.is_optional():
                    s = "if (t.next() == \"+\") %s else o.reset%s();" % (s, cap(f.name))
                elif f.extend:
                    s = "if (t.next() == \"+\") %s" % s
                o.append("            " + s)
            o.append("        }")
    else:
        o.append("        const int tag = atoi(t.next().c_str());\n        if (tag >= 0) set(o, tag, t, mode);")
    if np and not any(ti.is_compound() for ti, _ in d.params):
        o.append("        if (pending) { auto p = pending; pending = nullptr; p(o); }")
    o.append("    }")
    if np:
        o.append("    static inline std::function<void(T&)> pending;")

    o.append("    static void dump(const T& o, std::string& s)\n    {\n        (void)o; (void)s;")
    for ti, pn in d.params:
        if ti.is_compound():
            o.append('        s += " @";')
        else:
            o.append("        put<'%s'>(s, o.get%s());" % ("b" if ti.kind == "bytes" else "s", cap(pn)))
    if d.kind == "struct":
        for f in d.fields:
            p = "put<'%s'>(s, o.get%s());" % (cpp_field_kind(f), cap(f.name))
            if f.is_optional():
                p = 'if (!o.is%sSet()) s += " ."; else { s += " +"; %s }' % (cap(f.name), p)
            elif f.extend:
                p = 's += " +"; ' + p
            if f.extend:
                p = 'if (!o.is%sPresent()) s += " !"; else { %s }' % (cap(f.name), p)
            o.append("        " + p)
    else:
        o.append('        s += " " + std::to_string(static_cast<int>(o.choiceTag()));')
        o.append("        if (o.choiceTag() >= 0) get(o, o.choiceTag(), s);")
    o.append("    }")

    o.append("    static void fn(const T& o, const std::string& n, std::string& s)\n    {\n        (void)o; (void)s;")
    for fname in d.functions:
        o.append('        if (n == "%s") { puts(s, static_cast<std::decay_t<decltype(o.func%s())>>(o.func%s())); '
                 'return; }' % (fname, cap(fname), cap(fname)))
    o.append('        throw std::logic_error("harness: function");\n    }')
    args = "".join(", o.get%s()" % cap(pn) for _, pn in d.params)
    o.append("    static auto serialize(T& o) { return zserio::serialize(o, al()%s); }" % args)
    o.append("    static auto serializeToBytes(T& o) { return zserio::serializeToBytes(o, al()%s); }" % args)
    o.append("};")
    return "\n".join(o) + "\n"


def cpp_reg(d):
    t = cpp_name(d)
    o = ['    types()["%s"] = Factory{makeBox<%s>, [](const std::string& how, size_t n, const std::vector<uint8_t>& '
         "data, Toks& t) -> std::unique_ptr<Box> {\n        (void)t;" % (d.name, t)]
    refs = []
    for i, (ti, pn) in enumerate(d.params):
        v = "std::decay_t<decltype(std::declval<const %s&>().get%s())>" % (t, cap(pn))
        if ti.kind in ("string", "bytes", "extern"):
            o.append("        static std::vector<std::shared_ptr<void>> keep%d; auto q%d = std::make_shared<%s>("
                     "mk<%s>()); keep%d.push_back(q%d); auto& p%d = *q%d;" % (i, i, v, v, i, i, i, i))
        else:
            o.append("        auto p%d = mk<%s>();" % (i, v))
        o.append("        rd<'%s'>(p%d, t, 's');" % ("b" if ti.kind == "bytes" else "s", i))
        refs.append(", p%d" % i)
    o.append("        return std::unique_ptr<Box>(new BoxT<%s>(decodeT<%s>(how, n, data%s)));\n    }};" % (
        t, t, "".join(refs)))
    return "\n".join(o)


def cpp_msg(ti):
    return "::zserio::Span<const uint8_t>" if ti.kind == "bytes" else cpp_name(ti.decl)


def cpp_put_msg(ti, v):
    return ("std::string s; putb(s, %s);" if ti.kind == "bytes" else "std::string s; G<%s>::dump(%%s, s);" %
            cpp_name(ti.decl)) % v


CB = """    template <class M, char K>
    struct Cb : %(t)s::%(n)sCallback<M>
    {
        std::string id;
        explicit Cb(const std::string& i) : id(i) {}
        void operator()(zserio::StringView topic, const M& message) override
        {
            std::string s;
            if constexpr (K == 'b') putb(s, message); else G<M>::dump(message, s);
            event("cb " + id + " " + std::string(topic.data(), topic.size()) + s);
        }
    };"""


def cpp_pubsub(d):
    t = cpp_name(d)
    subs = any(m[1] != "publish" for m in d.messages)
    o = ["""struct Ps_%(n)s : PsBase, zserio::IPubsub
{
    std::string name;
    std::map<size_t, std::shared_ptr<OnTopicCallback>> subs;
    %(t)s ps;
    explicit Ps_%(n)s(const std::string& h) : name(h), ps(static_cast<zserio::IPubsub&>(*this)) {}
    void publish(zserio::StringView topic, zserio::Span<const uint8_t> data, void* context) override
    {
        event("pub " + name + " " + std::string(topic.data(), topic.size()) + " " + hexOf(data) + " " + ctxOf(context));
    }
    SubscriptionId subscribe(zserio::StringView topic, const std::shared_ptr<OnTopicCallback>& cb, void* context) override
    {
        const size_t id = strtoull(event("sub " + name + " " + std::string(topic.data(), topic.size()) + " " + ctxOf(context)).c_str(), nullptr, 10);
        subs[id] = cb;
        return id;
    }
    void unsubscribe(size_t id) override
    {
        event("unsub " + name + " " + std::to_string(id));
        subs.erase(id);
    }
%(unsub)s
    void deliver(size_t id, const std::string& topic, const std::vector<uint8_t>& data) override
    {
        auto it = subs.find(id);
        if (it == subs.end()) throw std::logic_error("harness: no subscription");
        auto cb = it->second;
        (*cb)(zserio::StringView(topic.data(), topic.size()), zserio::Span<const uint8_t>(data.data(), data.size()));
    }
%(cb)s""" % {"n": d.name, "t": t, "cb": CB % {"n": d.name, "t": t} if subs else "",
                              "unsub": "    void unsub(size_t id) override { ps.unsubscribe(id); }" if subs else
                              "    void unsub(size_t) override {}"}]
    o.append("    void publish(int idx, Box* b, const std::vector<uint8_t>& raw, void* ctx) override\n    {\n"
             "        (void)b; (void)raw; (void)ctx;\n        switch (idx)\n        {")
    for i, (name, mode, topic, ti) in enumerate(d.messages):
        if mode != "subscribe":
            a = "zserio::Span<const uint8_t>(raw.data(), raw.size())" if ti.kind == "bytes" else \
                "unbox<%s>(b)" % cpp_msg(ti)
            o.append("        case %d: ps.publish%s(%s, ctx); return;" % (i, cap(name), a))
    o.append('        default: throw std::logic_error("harness: message");\n        }\n    }')
    o.append("    size_t subscribe(int idx, const std::string& cbid, void* ctx) override\n    {\n"
             "        (void)cbid; (void)ctx;\n        switch (idx)\n        {")
    for i, (name, mode, topic, ti) in enumerate(d.messages):
        if mode != "publish":
            o.append("        case %d: return ps.subscribe%s(std::make_shared<Cb<%s, '%s'>>(cbid), ctx);" % (
                i, cap(name), cpp_msg(ti), "b" if ti.kind == "bytes" else "s"))
    o.append('        default: throw std::logic_error("harness: message");\n        }\n    }\n};')
    return "\n".join(o) + "\n"


def cpp_service(d):
    t = cpp_name(d)
    o = ["struct Sv_%s : SvBase, %s::Service\n{" % (d.name, t),
         "    std::string name;\n    explicit Sv_%s(const std::string& h) : name(h) {}" % d.name,
         "    std::string call(const std::string& m, const std::vector<uint8_t>& data, void* ctx) override\n    {\n"
         "        auto r = callMethod(zserio::StringView(m.data(), m.size()), zserio::Span<const uint8_t>(data.data(), "
         "data.size()), ctx);\n        return hexOf(r->getData());\n    }"]
    for name, rti, qti in d.methods:
        rt = "::zserio::vector<uint8_t>" if rti.kind == "bytes" else cpp_name(rti.decl)
        qt = "::zserio::Span<const uint8_t>" if qti.kind == "bytes" else "const %s&" % cpp_name(qti.decl)
        o.append("    %s %sImpl(%s request, void* context) override\n    {" % (rt, name, qt))
        o.append("        %s" % cpp_put_msg(qti, "request"))
        o.append('        Toks t = split(event("impl " + name + " %s " + ctxOf(context) + " |" + s));' % name)
        o.append("        t.next(); char mode = t.next()[0]; mode = mode == 'k' ? 's' : mode;\n        (void)mode;")
        if rti.kind == "bytes":
            o.append("        return unhex(t.next(), 1);\n    }")
        else:
            o.append("        BoxT<%s> b; G<%s>::build(b.o, t, mode, false); b.prepare();"
                     " return std::move(b.o);\n    }" % (rt, rt))
    o.append("};")
    o.append("""struct Cl_%(n)s : ClBase, zserio::IServiceClient
{
    std::string name;
    %(t)s::Client cl;
    explicit Cl_%(n)s(const std::string& h) : name(h), cl(static_cast<zserio::IServiceClient&>(*this)) {}
    zserio::vector<uint8_t> callMethod(zserio::StringView m, const zserio::IServiceData& req, void* ctx) override
    {
        const std::string r = event("call " + name + " " + std::string(m.data(), m.size()) + " " + requestHex(req) + " " + ctxOf(ctx));
        return unhex(r, 3);
    }
    std::string call(int idx, Box* b, const std::vector<uint8_t>& raw, void* ctx) override
    {
        (void)b; (void)raw;
        switch (idx)
        {""" % {"n": d.name, "t": t})
    for i, (name, rti, qti) in enumerate(d.methods):
        a = "zserio::Span<const uint8_t>(raw.data(), raw.size())" if qti.kind == "bytes" else \
            "unbox<%s>(b)" % cpp_name(qti.decl)
        o.append("        case %d: { auto r = cl.%sMethod(%s, ctx); %s return s; }" % (
            i, name, a, cpp_put_msg(rti, "r")))
    o.append('        default: throw std::logic_error("harness: method");\n        }\n    }\n};')
    return "\n".join(o) + "\n"


def cpp(world):
    s = world.schema
    pmr = world.pmr
    cs = compounds(s)
    parts = world.glue_parts
    files = {}
    fwd = ["#pragma once", '#include "worker.h"']
    for d in cs:
        fwd.append("#include <%s.h>" % fq(d, "/"))
    body = ["namespace glue\n{"]
    decl = ["namespace glue\n{"]
    del body, decl
    # every G<> is declared before any is used: bodies live in headers, one per type, included in dependency order
    done = []
    by = {d.name: d for d in cs}

    def uses(d):
        return [f.ti.decl for f in d.fields if f.ti.is_compound()] + [ti.decl for ti, _ in d.params if ti.is_compound()]
    seen = set()

    def visit(d):
        if d.name in seen:
            return
        seen.add(d.name)
        for u in uses(d):
            visit(by[u.name])
        done.append(d)
    for d in cs:
        visit(d)
    for d in cs:
        deps = []
        for u in uses(d):
            if u.name not in deps and u.name != d.name:
                deps.append(u.name)
        files["glue_%s.h" % d.name] = "#pragma once\n#include \"worker.h\"\n#include <%s.h>\n%snamespace glue\n{\n%s}\n" % (
            fq(d, "/"), "".join('#include "glue_%s.h"\n' % x for x in deps), cpp_g(d))
    regs = []
    tops = top_types(s)
    chunks = [[] for _ in range(min(parts, max(1, len(tops))))]
    for i, d in enumerate(sorted(tops, key=lambda d: -len(d.fields))):
        chunks[i % len(chunks)].append(d)
    for i, c in enumerate(chunks):
        files["glue_types_%d.cpp" % i] = "%s\nnamespace glue\n{\nvoid reg_types_%d()\n{\n%s\n}\n}\n" % (
            "\n".join('#include "glue_%s.h"' % d.name for d in c), i, "\n".join(cpp_reg(d) for d in c))
        regs.append("reg_types_%d" % i)
    nets = [] if pmr else [d for d in s.order if d.kind in ("pubsub", "service")]
    for d in nets:
        inc = ['#include <%s.h>' % fq(d, "/")]
        tis = [x[3] for x in d.messages] if d.kind == "pubsub" else [t for m in d.methods for t in m[1:]]
        for ti in tis:
            if ti.is_compound() and ti.decl.name not in inc:
                inc.append('#include "glue_%s.h"' % ti.decl.name)
        if d.kind == "pubsub":
            b = cpp_pubsub(d)
            r = '    pubsubs()["%s"] = [](const std::string& h) { return std::unique_ptr<PsBase>(new Ps_%s(h)); };' % (
                d.name, d.name)
        else:
            b = cpp_service(d)
            r = ('    services()["%s"] = [](const std::string& h) { return std::unique_ptr<SvBase>(new Sv_%s(h)); };\n'
                 '    clients()["%s"] = [](const std::string& h) { return std::unique_ptr<ClBase>(new Cl_%s(h)); };' %
                 (d.name, d.name, d.name, d.name))
        files["glue_net_%s.cpp" % d.name] = "#include \"worker.h\"\n%s\nnamespace glue\n{\nnamespace\n{\n%s}\nvoid reg_%s()\n{\n%s\n}\n}\n" % (
            "\n".join(inc), b, d.name, r)
        regs.append("reg_" + d.name)
    if sqlglue.databases(s):
        files["glue_sql.cpp"] = sqlglue.cpp(s)
    if world.docs:
        files["glue_doc.cpp"] = docglue.cpp(s)
    if getattr(world, "mem", False):
        import memglue
        files["glue_mem.cpp"] = memglue.cpp(s)
    files["glue_main.cpp"] = "#include \"worker.h\"\nnamespace glue\n{\n%s\n}\nvoid glue_register()\n{\n%s\n}\n" % (
        "\n".join("void %s();" % r for r in regs), "\n".join("    glue::%s();" % r for r in regs))
    return files
