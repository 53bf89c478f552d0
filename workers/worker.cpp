// Node hosting generated C++ code; executes one command line at a time (see DESIGN.md for the protocol).
#include "worker.h"

#include <cxxabi.h>
#include <iostream>
#include <sys/personality.h>
#include <unistd.h>

#include "zserio/CppRuntimeException.h"
#include "worker_extra.h"

namespace glue
{
#ifdef GLUE_PMR
zserio::pmr::MemoryResource* g_res = nullptr;
#endif

thread_local int g_window = 0, g_pause = 0;
int g_tail = 0;
static std::map<std::string, std::unique_ptr<Box>> H;
static std::map<std::string, std::unique_ptr<PsBase>> PS;
static std::map<std::string, std::unique_ptr<SvBase>> SV;
static std::map<std::string, std::unique_ptr<ClBase>> CL;

std::map<std::string, Factory>& types()
{
    static std::map<std::string, Factory> m;
    return m;
}
std::map<std::string, std::function<std::unique_ptr<PsBase>(const std::string&)>>& pubsubs()
{
    static std::map<std::string, std::function<std::unique_ptr<PsBase>(const std::string&)>> m;
    return m;
}
std::map<std::string, std::function<std::unique_ptr<SvBase>(const std::string&)>>& services()
{
    static std::map<std::string, std::function<std::unique_ptr<SvBase>(const std::string&)>> m;
    return m;
}
std::map<std::string, std::function<std::unique_ptr<ClBase>(const std::string&)>>& clients()
{
    static std::map<std::string, std::function<std::unique_ptr<ClBase>(const std::string&)>> m;
    return m;
}

static std::string inbuf;
static size_t inpos = 0;

static bool readLine(std::string& line)
{
    while (true)
    {
        const size_t i = inbuf.find('\n', inpos);
        if (i != std::string::npos)
        {
            line.assign(inbuf, inpos, i - inpos);
            inpos = i + 1;
            if (inpos == inbuf.size())
            {
                inbuf.clear();
                inpos = 0;
            }
            return true;
        }
        char b[65536];
        const ssize_t n = ::read(0, b, sizeof(b));
        if (n <= 0)
            return false;
        inbuf.append(b, static_cast<size_t>(n));
    }
}

static void say(std::string s)
{
    s += '\n';
    size_t p = 0;
    while (p < s.size())
    {
        const ssize_t n = ::write(1, s.data() + p, s.size() - p);
        if (n <= 0)
            _exit(0);
        p += static_cast<size_t>(n);
    }
}

static void handle(const std::string& line);

std::string event(const std::string& line)
{
    say("EV " + line);
    std::string ln;
    while (readLine(ln))
    {
        if (ln.compare(0, 3, "RET") == 0)
        {
            const std::string r = ln.size() > 4 ? ln.substr(4) : "";
            if (r.compare(0, 4, "fail") == 0)
                throw EnvFail(r);
            return r;
        }
        handle(ln);
    }
    _exit(0);
}

Toks split(const std::string& line)
{
    Toks t;
    size_t b = 0;
    while (b <= line.size())
    {
        size_t e = line.find(' ', b);
        if (e == std::string::npos)
            e = line.size();
        t.a.push_back(line.substr(b, e - b));
        b = e + 1;
    }
    return t;
}

std::string ctxOf(void* p)
{
    return p == nullptr ? "None" : std::to_string(reinterpret_cast<intptr_t>(p) - 1);
}

static void* ctx(const std::string& s)
{
    return s == "None" ? nullptr : reinterpret_cast<void*>(static_cast<intptr_t>(atoll(s.c_str()) + 1));
}

Box* box(const std::string& h)
{
    auto it = H.find(h);
    if (it == H.end())
        throw std::logic_error("harness: no object " + h);
    return it->second.get();
}

void keep(const std::string& h, std::unique_ptr<Box> b)
{
    H[h] = std::move(b);
}

static std::string command(Toks& t)
{
    const std::string op = t.next();
    if (op == "new")
    {
        const std::string h = t.next();
        auto f = types().find(t.next());
        char mode = t.next()[0];
        const bool keep = mode == 'k' && H.count(h) != 0;
        mode = mode == 'e' || mode == 'k' ? 's' : mode;
        if (f == types().end())
            throw std::logic_error("harness: unknown type");
        auto b = f->second.make(t, mode);
        if (!t.done())
            throw std::logic_error("harness: trailing tokens");
        if (keep)
            H[h]->assign(*b, false); // the object stays the same one
        else
            H[h] = std::move(b);
        return "";
    }
    if (op == "dump")
        return box(t.next())->dump();
    if (op == "enc")
    {
        Box* b = box(t.next());
        return b->enc(t.next());
    }
    if (op == "dec")
    {
        const std::string h = t.next();
        auto f = types().find(t.next());
        if (f == types().end())
            throw std::logic_error("harness: unknown type");
        const std::string how = t.next();
        const size_t nbits = strtoull(t.next().c_str(), nullptr, 10);
        const std::vector<uint8_t> data = unhex(t.next());
        if (how[0] == 'R')
        {
            auto b = f->second.dec("r" + how.substr(1), nbits, data, t);
            b->dirty = false;
            box(h)->assign(*b, true);
            return "";
        }
        auto b = f->second.dec(how, nbits, data, t);
        b->dirty = false;
        H[h] = std::move(b);
        return "";
    }
    if (op == "size")
    {
        Box* b = box(t.next());
        return std::to_string(b->size(strtoull(t.next().c_str(), nullptr, 10)));
    }
    if (op == "init")
    {
        Box* b = box(t.next());
        return std::to_string(b->init(strtoull(t.next().c_str(), nullptr, 10)));
    }
    if (op == "set")
    {
        Box* b = box(t.next());
        const int idx = atoi(t.next().c_str());
        const char mode = t.next()[0];
        b->set(idx, mode, t);
        return "";
    }
    if (op == "nset")
    {
        Box* b = box(t.next());
        Toks path;
        std::string cur;
        for (char c : t.next() + ",")
        {
            if (c == ',')
            {
                path.a.push_back(cur);
                cur.clear();
            }
            else
                cur += c;
        }
        const char mode = t.next()[0];
        b->nset(path, mode, t);
        return "";
    }
    if (op == "rst")
    {
        Box* b = box(t.next());
        b->reset(atoi(t.next().c_str()));
        return "";
    }
    if (op == "get")
    {
        Box* b = box(t.next());
        return b->get(atoi(t.next().c_str()));
    }
    if (op == "flags")
    {
        Box* b = box(t.next());
        return b->flags(atoi(t.next().c_str()));
    }
    if (op == "eq" || op == "lt")
    {
        Box* a = box(t.next());
        Box* b = box(t.next());
        return (op == "eq" ? a->eq(*b) : a->lt(*b)) ? "1" : "0";
    }
    if (op == "hash")
        return std::to_string(box(t.next())->hash());
    if (op == "copy")
    {
        const std::string h = t.next();
        Box* b = box(t.next());
        const char how = t.done() ? 'c' : t.next()[0];
        if (how == 'a' || how == 'M')
            box(h)->assign(*b, how == 'M');
        else
        {
            auto c = b->copy(how);
            H[h] = std::move(c);
        }
        return "";
    }
    if (op == "fn")
    {
        Box* b = box(t.next());
        return b->fn(t.next());
    }
    if (op == "del")
    {
        H.erase(t.next());
        return "";
    }
    if (op == "dirty")
    {
        g_tail = 1;
        return "";
    }
    if (op == "reset")
    {
        g_tail = 0;
        H.clear();
        PS.clear();
        SV.clear();
        CL.clear();
        return "";
    }
    if (op == "psnew")
    {
        const std::string h = t.next();
        PS[h] = pubsubs().at(t.next())(h);
        return "";
    }
    if (op == "pspub")
    {
        PsBase& p = *PS.at(t.next());
        const int idx = atoi(t.next().c_str());
        const std::string m = t.next();
        void* c = ctx(t.next());
        if (m[0] == 'b')
            p.publish(idx, nullptr, unhex(m, 1), c);
        else
            p.publish(idx, box(m), {}, c);
        return "";
    }
    if (op == "pssub")
    {
        PsBase& p = *PS.at(t.next());
        const int idx = atoi(t.next().c_str());
        const std::string cb = t.next();
        return std::to_string(p.subscribe(idx, cb, ctx(t.next())));
    }
    if (op == "psunsub")
    {
        PsBase& p = *PS.at(t.next());
        p.unsub(strtoull(t.next().c_str(), nullptr, 10));
        return "";
    }
    if (op == "psdel")
    {
        PsBase& p = *PS.at(t.next());
        const size_t id = strtoull(t.next().c_str(), nullptr, 10);
        const std::string topic = t.next();
        p.deliver(id, topic, unhex(t.next()));
        return "";
    }
    if (op == "svnew")
    {
        const std::string h = t.next();
        SV[h] = services().at(t.next())(h);
        return "";
    }
    if (op == "svcall")
    {
        SvBase& s = *SV.at(t.next());
        const std::string m = t.next();
        const auto data = unhex(t.next());
        return s.call(m, data, ctx(t.next()));
    }
    if (op == "clnew")
    {
        const std::string h = t.next();
        CL[h] = clients().at(t.next())(h);
        return "";
    }
    if (op == "clcall")
    {
        ClBase& c = *CL.at(t.next());
        const int idx = atoi(t.next().c_str());
        const std::string m = t.next();
        void* x = ctx(t.next());
        if (m[0] == 'b')
            return c.call(idx, nullptr, unhex(m, 1), x);
        return c.call(idx, box(m), {}, x);
    }
    std::string r;
    if (extraCommand(op, t, r))
        return r;
    throw std::logic_error("harness: unknown command " + op);
}

std::string runCommand(Toks& t)
{
    return command(t);
}

static void fail(const std::exception& e, bool doc)
{
    int st = 0;
    char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string name = n ? n : "?";
    free(n);
    for (auto& c : name)
        if (c == ' ')
            c = '_';
    std::string m = std::string(e.what()).substr(0, 200);
    for (auto& c : m)
        if (c < 32 || c > 126)
            c = '?';
    say("ERR " + name + (doc ? "/zserio " : " ") + m);
}

static void handle(const std::string& line)
{
    try
    {
        Toks t = split(line);
        std::string r = command(t);
        say(r.empty() ? "OK" : (r[0] == ' ' ? "OK" + r : "OK " + r));
    }
    catch (const zserio::CppRuntimeException& e)
    {
        fail(e, true);
    }
    catch (const std::exception& e)
    {
        fail(e, false);
    }
}
} // namespace glue

int main(int, char** argv)
{
    // library code may branch on the order of addresses, so they have to be the same in every run
    const int persona = personality(0xffffffff);
    if (persona != -1 && (persona & ADDR_NO_RANDOMIZE) == 0 && personality(persona | ADDR_NO_RANDOMIZE) != -1)
        execv("/proc/self/exe", argv);
    glue_register();
    glue::extraInit();
    glue::say("OK ready");
    std::string ln;
    while (glue::readLine(ln))
        glue::handle(ln);
    _exit(0);
}
