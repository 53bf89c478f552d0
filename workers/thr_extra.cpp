// Rounds of several threads under a simulated schedule, and walks through type information.
#define extraCommand docCommand
#define extraInit docInit
#include "doc_extra.cpp"
#undef extraCommand
#undef extraInit
#include "zsched.h"
#include <cxxabi.h>

namespace glue
{
std::string runCommand(Toks& t);

static void walk(const zserio::IBasicTypeInfo<Alloc>& i, int depth, std::string& r)
{
    r += std::string(i.getSchemaName().begin(), i.getSchemaName().end());
    r += ':' + std::to_string(static_cast<int>(i.getSchemaType())) + ':' + std::to_string(static_cast<int>(i.getCppType()));
    if (depth == 0)
        return;
    if (i.getSchemaType() == zserio::SchemaType::CHOICE)
        r += '@' + std::string(i.getSelector().begin(), i.getSelector().end());
    if (zserio::TypeInfoUtil::isCompound(i.getSchemaType()))
    {
        r += '{';
        for (const auto& p : i.getParameters())
        {
            r += '(' + std::string(p.schemaName.begin(), p.schemaName.end()) + ' ';
            walk(p.typeInfo, depth - 1, r);
            r += ')';
        }
        for (const auto& f : i.getFields())
        {
            r += std::string(f.schemaName.begin(), f.schemaName.end()) + (f.isArray ? "[" : "") + (f.isOptional ? "?" : "") +
                    (f.isPacked ? "p" : "") + std::to_string(f.typeArguments.size()) +
                    std::string(f.constraint.begin(), f.constraint.end()) + ' ';
            walk(f.typeInfo, depth - 1, r);
            r += ';';
        }
        r += '}';
    }
    else if (i.getSchemaType() == zserio::SchemaType::ENUM)
    {
        for (const auto& x : i.getEnumItems())
            r += ',' + std::string(x.schemaName.begin(), x.schemaName.end()) + '=' + std::to_string(x.value);
    }
    else if (i.getSchemaType() == zserio::SchemaType::BITMASK)
    {
        for (const auto& x : i.getBitmaskValues())
            r += ',' + std::string(x.schemaName.begin(), x.schemaName.end()) + '=' + std::to_string(x.value);
    }
}

static std::string one(Toks& t)
{
    try
    {
        return runCommand(t);
    }
    catch (const std::exception& e)
    {
        int st = 0;
        char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        std::string r = "ERR " + std::string(n ? n : "?") + " " + std::string(e.what()).substr(0, 200);
        free(n);
        for (auto& c : r)
            if (c < 32 || c > 126)
                c = '?';
        return r;
    }
}

bool extraCommand(const std::string& op, Toks& t, std::string& result)
{
    if (op == "tinfo") // Type depth
    {
        const auto* i = docs().at(t.next()).info();
        const int depth = atoi(t.next().c_str());
        std::string r;
        {
            Window w;
            walk(*i, depth, r);
        }
        Pause p;
        for (auto& c : r)
            if (c < 33 || c > 126)
                c = '_';
        result = r;
        return true;
    }
    if (op == "jround") // H2 H Type: through JSON
    {
        const std::string to = t.next(), from = t.next(), type = t.next();
        Toks w;
        w.a = {"jwrite", from, type, "0", "-1", "0"};
        const std::string text = runCommand(w).substr(5);
        Toks r;
        r.a = {"jread", to, type, "w", "", "-1", text};
        runCommand(r);
        return true;
    }
    if (op == "par") // step:thread,... program | program ...   with commands separated by ;
    {
        std::vector<std::pair<uint64_t, int>> plan;
        std::string s = t.next();
        if (s[0] == 'c')
            s.erase(0, 1);
        size_t p = 0;
        while (s != "-" && p < s.size())
        {
            size_t e = s.find(',', p);
            e = e == std::string::npos ? s.size() : e;
            const std::string x = s.substr(p, e - p);
            plan.emplace_back(strtoull(x.c_str(), nullptr, 10), atoi(x.c_str() + x.find(':') + 1));
            p = e + 1;
        }
        std::vector<std::vector<Toks>> progs(1, std::vector<Toks>(1));
        while (!t.done())
        {
            const std::string w = t.next();
            if (w == "|")
                progs.emplace_back(1);
            else if (w == ";")
                progs.back().emplace_back();
            else
                progs.back().back().a.push_back(w);
        }
        std::vector<std::string> out(progs.size());
        const auto o = sched::run(static_cast<int>(progs.size()), plan, [&](int n) {
            std::string& r = out[static_cast<size_t>(n)];
            for (auto& c : progs[static_cast<size_t>(n)])
            {
                const std::string x = one(c);
                Pause pause;
                r += x + " ; ";
            }
        });
        result = std::to_string(o.steps) + " " + std::to_string(o.switches) + " " + (o.stuck ? "stuck" : "done") + " " +
                (o.races.empty() ? "-" : o.races);
        if (!o.stuck)
            for (const auto& x : out)
                result += " | " + x;
        return true;
    }
    return docCommand(op, t, result);
}

void extraInit()
{
    docInit();
}
} // namespace glue
