"""Glue for the SQL tables and databases of a schema (see workers/sql_extra.h, SqlExtra.java, sqlworker.py)."""


def sql_type(f):
    k = f.ti.kind
    if f.ti.is_compound():
        return "BLOB"
    if k == "string":
        return "TEXT"
    if k == "float":
        return "REAL"
    return "INTEGER"


def tables(schema):
    return [d for d in schema.order if d.kind == "sql_table"]


def databases(schema):
    return [d for d in schema.order if d.kind == "sql_database"]


def explicit(d):
    """names of the explicit parameters of a table, in order"""
    out = []
    for f in d.fields:
        for a in f.ti.args:
            if a[0] == "explicit" and a[1] not in [n for n, _ in out]:
                i = f.ti.args.index(a)
                out.append((a[1], f.ti.decl.params[i][0]))
    return sorted(out)


def descriptor(schema):
    from gluegen import fq, kind
    out = []
    for d in tables(schema):
        out.append("T %s %s %d" % (d.name, fq(d, "."), bool(explicit(d))))
        for f in d.fields:
            out.append("L %s %s %s" % (f.name, kind(f.ti), sql_type(f)))
    for d in databases(schema):
        out.append("O %s %s %s" % (d.name, fq(d, "."), " ".join("%s:%s" % (n, t.name) for t, n in d.tables)))
    return out


def cpp(schema):
    from gluegen import cap, cpp_field_kind, cpp_name, fq
    o = ['#include "sql_extra.h"']
    for d in databases(schema):
        o.append("#include <%s.h>" % fq(d, "/"))
    for d in schema.order:
        if d.kind in ("struct", "choice", "union"):
            o.append('#include "glue_%s.h"' % d.name)
    o.append("namespace glue\n{")
    for d in tables(schema):
        t = cpp_name(d)
        ex = explicit(d)
        o.append("template <> struct ST<%s>\n{\n    using T = %s;\n    using Row = T::Row;\n"
                 "    static constexpr int N = %d;\n    static constexpr bool PP = %s;" % (
                     t, t, len(d.fields), "true" if ex else "false"))
        o.append('    static const char* name() { return "%s"; }' % d.name)
        if ex:
            first = d.fields[0]
            o.append("    struct Provider : T::IParameterProvider\n    {")
            for n, ti in ex:
                ct = "decltype(std::declval<T::IParameterProvider&>().get%s(std::declval<Row&>()))" % cap(n)
                o.append('        %s get%s(Row& r) override\n        {\n            return static_cast<%s>(prov("%s", "%s", '
                         'r.is%sSet() ? std::to_string(r.get%s()) : std::string("-")));\n        }' % (
                             ct, cap(n), ct, d.name, n, cap(first.name), cap(first.name)))
            o.append("    };")
        o.append("    static void set(Row& r, int i, Toks& t)\n    {\n        switch (i)\n        {")
        for f in d.fields:
            o.append("        case %d: { auto v = mk<std::decay_t<decltype(std::declval<const Row&>().get%s())>>(); "
                     "rd<'%s'>(v, t, 's'); r.set%s(std::move(v)); return; }" % (
                         f.idx, cap(f.name), cpp_field_kind(f), cap(f.name)))
        o.append("        }\n    }")
        o.append("    static void get(const Row& r, int i, std::string& s)\n    {\n        switch (i)\n        {")
        for f in d.fields:
            o.append("        case %d: if (!r.is%sSet()) s += \" .\"; else { s += \" +\"; put<'%s'>(s, r.get%s()); } return;" % (
                f.idx, cap(f.name), cpp_field_kind(f), cap(f.name)))
        o.append("        }\n    }")
        o.append("};")
    for d in databases(schema):
        t = cpp_name(d)
        o.append("struct Db_%s : SqlDbBase\n{\n    %s db;" % (d.name, t))
        o.append("    Db_%s(const std::string& f, const std::map<std::string, std::string>& m) : db(zserio::string<>(f), "
                 "%s::TRelocationMap(m.begin(), m.end())) { init(); }" % (d.name, t))
        o.append("    Db_%s(sqlite3* c, const std::map<std::string, std::string>& m) : db(c, "
                 "%s::TRelocationMap(m.begin(), m.end())) { init(); }" % (d.name, t))
        o.append("    void init()\n    {")
        for td, n in d.tables:
            o.append('        tabs.emplace_back(new TabT<%s>(db.get%s(), "%s"));' % (cpp_name(td), cap(n), n))
        o.append("    }")
        o.append("    zserio::SqliteConnection& conn() override { return db.connection(); }")
        o.append("    void create() override { db.createSchema(); }")
        o.append("    void createBl(const std::set<std::string>& s) override { db.createSchema(s); }")
        o.append("    void del() override { db.deleteSchema(); }")
        pp = [(td, n) for td, n in d.tables if explicit(td)]
        if pp:
            o.append("    struct PP : %s::IParameterProvider\n    {" % t)
            for td, n in pp:
                o.append("        ST<%s>::Provider p_%s;\n        %s::IParameterProvider& get%sParameterProvider() override "
                         "{ return p_%s; }" % (cpp_name(td), n, cpp_name(td), cap(n), n))
            o.append("    };")
            o.append("    void validate(zserio::IValidationObserver& ob) override { PP pp; db.validate(ob, pp); }")
        else:
            o.append("    void validate(zserio::IValidationObserver& ob) override { db.validate(ob); }")
        o.append("};")
    o.append("void reg_sql()\n{")
    for d in databases(schema):
        o.append('    sqlFiles()["%s"] = [](const std::string& f, const std::map<std::string, std::string>& m) { return '
                 "std::unique_ptr<SqlDbBase>(new Db_%s(f, m)); };" % (d.name, d.name))
        o.append('    sqlConns()["%s"] = [](sqlite3* f, const std::map<std::string, std::string>& m) { return '
                 "std::unique_ptr<SqlDbBase>(new Db_%s(f, m)); };" % (d.name, d.name))
    o.append("}\n}")
    return "\n".join(o) + "\n"
