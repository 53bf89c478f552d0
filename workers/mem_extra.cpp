// Simulated memory: every allocation is counted, can be made to fail and is checked when it is returned.
#include "mem_extra.h"

#include <cxxabi.h>
#include <new>
#include <sanitizer/common_interface_defs.h>

#ifdef GLUE_PMR
#include "zserio/pmr/MemoryResource.h"
#endif

namespace glue
{
namespace
{
long g_allocs = 0; // allocations since the command began
long g_failAt = 0; // 0: never
int g_mode = 1; // 1: only that one, 0: that one and all following, 2: budget of bytes
long long g_budget = 0;
long g_fired = 0;
long g_bad = 0;
std::string* g_why = nullptr;

bool wanted(size_t bytes)
{
    ++g_allocs;
    if (g_failAt == 0)
        return true;
    bool f = false;
    if (g_mode == 2)
    {
        g_budget -= static_cast<long long>(bytes);
        f = g_budget < 0;
        if (f)
            g_budget += static_cast<long long>(bytes);
    }
    else
        f = g_mode == 1 ? g_allocs == g_failAt : g_allocs >= g_failAt;
    if (f)
    {
        ++g_fired;
        static const bool trace = getenv("ZMEM_TRACE") != nullptr;
        if (trace)
            __sanitizer_print_stack_trace();
    }
    return !f;
}

void bad(const char* what)
{
    ++g_bad;
    Pause p;
    if (g_why && g_why->empty())
        *g_why = what;
}

struct Ledger
{
    std::map<void*, std::pair<size_t, size_t>> live;
    long long bytes = 0;
    long count = 0; // allocations since the command began
    bool add(void* p, size_t n, size_t a)
    {
        Pause s;
        live[p] = {n, a};
        bytes += static_cast<long long>(n);
        ++count;
        return true;
    }
    bool remove(void* p, size_t n, size_t a, bool sized)
    {
        Pause s;
        auto it = live.find(p);
        if (it == live.end())
            return false;
        if (sized && (it->second.first != n || it->second.second != a))
            bad("size");
        bytes -= static_cast<long long>(it->second.first);
        live.erase(it);
        return true;
    }
};

#ifdef GLUE_PMR
struct SimResource : zserio::pmr::MemoryResource
{
    const bool plain;
    Ledger l;
    explicit SimResource(bool p) : plain(p)
    {}

private:
    void* doAllocate(size_t bytes, size_t align) override
    {
        if (!plain && !wanted(bytes))
            throw std::bad_alloc();
        static const bool trace = getenv("ZMEM_TRACE") != nullptr;
        if (plain && trace)
            __sanitizer_print_stack_trace();
        void* p = align > alignof(max_align_t) ? aligned_alloc(align, (bytes + align - 1) / align * align) : malloc(bytes ? bytes : 1);
        std::memset(p, 0xD7, bytes);
        l.add(p, bytes, align);
        return p;
    }
    void doDeallocate(void* p, size_t bytes, size_t align) override
    {
        if (!l.remove(p, bytes, align, true))
        {
            bad("foreign");
            return; // freeing it could bring the node down before it can tell
        }
        free(p);
    }
    bool doIsEqual(const zserio::pmr::MemoryResource& o) const noexcept override
    {
        return this == &o;
    }
};
SimResource *RA, *RB, *RD;
#endif
} // namespace

// operator new inside windows; outside of them it is only malloc
namespace heap
{
Ledger* l = nullptr;
long windowNews = 0;

void* get(size_t n, size_t a)
{
    const bool in = g_window > 0 && g_pause == 0 && l != nullptr;
    if (in)
    {
        ++windowNews;
#ifndef GLUE_PMR
        if (!wanted(n))
            throw std::bad_alloc();
#endif
    }
    void* p = a > alignof(max_align_t) ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1);
    if (p == nullptr)
        throw std::bad_alloc();
    if (in)
    {
        std::memset(p, 0xD7, n);
        l->add(p, n, 0);
    }
    return p;
}

void put(void* p)
{
    if (p == nullptr)
        return;
    if (l != nullptr && !l->live.empty())
        l->remove(p, 0, 0, false);
    free(p);
}
} // namespace heap

void disarm()
{
    g_failAt = 0;
}

std::map<std::string, Mem>& mems()
{
    static std::map<std::string, Mem> m;
    return m;
}

namespace
{
std::string named(const std::exception& e, bool doc)
{
    int st = 0;
    char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string name = n ? n : "?";
    free(n);
    for (auto& c : name)
        if (c == ' ')
            c = '_';
    std::string m = std::string(e.what()).substr(0, 120);
    for (auto& c : m)
        if (c < 32 || c > 126)
            c = '?';
    return "err " + name + (doc ? "/zserio " : " ") + m;
}

std::string attempt(Toks& t)
{
    const long k = atol(t.next().c_str());
    const int m = atoi(t.next().c_str());
    std::string res, why;
    g_allocs = g_fired = g_bad = 0;
    g_why = &why;
    heap::windowNews = 0;
#ifdef GLUE_PMR
    RA->l.count = RB->l.count = RD->l.count = 0;
#endif
    g_budget = k;
    g_mode = m;
    g_failAt = k;
    if (m == 2)
        g_failAt = 1;
    try
    {
        res = runCommand(t);
        g_failAt = 0;
        res = res.empty() ? "ok" : (res[0] == ' ' ? "ok" + res : "ok " + res);
    }
    catch (const zserio::CppRuntimeException& e)
    {
        g_failAt = 0;
        res = named(e, true);
    }
    catch (const std::exception& e)
    {
        g_failAt = 0;
        res = named(e, false);
    }
    g_why = nullptr;
    std::string o = std::to_string(g_fired) + " " + std::to_string(g_allocs);
#ifdef GLUE_PMR
    for (SimResource* r : {RA, RB, RD})
        o += " " + std::to_string(r->l.live.size()) + " " + std::to_string(r->l.count);
#else
    o += " " + std::to_string(heap::l->live.size()) + " " + std::to_string(heap::windowNews) + " 0 0 0 0";
#endif
    o += " " + std::to_string(heap::windowNews) + " " + std::to_string(g_bad) + (why.empty() ? "-" : why);
    return o + " " + res;
}
} // namespace

void extraInit()
{
#ifdef GLUE_PMR
    RA = new SimResource(false);
    RB = new SimResource(false);
    RD = new SimResource(true);
    g_res = RA;
    zserio::pmr::setDefaultResource(RD);
#endif
    memRegister();
    heap::l = new Ledger();
}

bool extraCommand(const std::string& op, Toks& t, std::string& r)
{
    if (op == "try")
    {
        r = attempt(t);
        return true;
    }
    if (op == "use")
    {
        const std::string w = t.next();
#ifdef GLUE_PMR
        g_res = w == "A" ? RA : RB;
#endif
        return true;
    }
    if (op == "into") // into H bits start: write into a buffer of exactly that many bits
    {
        Box* b = box(t.next());
        const size_t nbits = strtoull(t.next().c_str(), nullptr, 10);
        const size_t start = strtoull(t.next().c_str(), nullptr, 10);
        const size_t n = (nbits + 7) / 8;
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n]); // AddressSanitizer watches its ends
        std::memset(buf.get(), 0, n);
        zserio::BitStreamWriter w(buf.get(), nbits, zserio::BitsTag());
        std::string err;
        try
        {
            if (start)
                w.setBitPosition(start);
            b->write(w);
        }
        catch (const zserio::CppRuntimeException& e)
        {
            err = named(e, true);
        }
        if (n && nbits % 8 && (buf[n - 1] & (0xFF >> (nbits % 8))) != 0)
            err = "beyond"; // the bits behind the end of the buffer do not belong to it
        r = err.empty() ? bits(w.getBitPosition(), buf.get(), n) : err;
        return true;
    }
    if (op == "jout")
    {
        const std::string h = t.next();
        const std::string ty = t.next();
        r = mems().at(ty).jout(box(h), atoi(t.next().c_str()));
        return true;
    }
    if (op == "jin")
    {
        const std::string h = t.next();
        const std::string ty = t.next();
        const auto b = unhex(t.next());
        keep(h, mems().at(ty).jin(std::string(b.begin(), b.end())));
        return true;
    }
    if (op == "find" || op == "store" || op == "msg")
    {
        const std::string h = t.next();
        const Mem& m = mems().at(t.next());
        const std::string a = t.next();
        r = op == "find" ? m.find(box(h), a) : op == "store" ? m.store(box(h), a) : m.message(box(h), a[0]);
        return true;
    }
    return false;
}
} // namespace glue

void* operator new(size_t n)
{
    return glue::heap::get(n, 0);
}
void* operator new[](size_t n)
{
    return glue::heap::get(n, 0);
}
void* operator new(size_t n, std::align_val_t a)
{
    return glue::heap::get(n, static_cast<size_t>(a));
}
void* operator new[](size_t n, std::align_val_t a)
{
    return glue::heap::get(n, static_cast<size_t>(a));
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return glue::heap::get(n, 0);
    }
    catch (...)
    {
        return nullptr;
    }
}
void operator delete(void* p) noexcept
{
    glue::heap::put(p);
}
void operator delete[](void* p) noexcept
{
    glue::heap::put(p);
}
void operator delete(void* p, size_t) noexcept
{
    glue::heap::put(p);
}
void operator delete[](void* p, size_t) noexcept
{
    glue::heap::put(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    glue::heap::put(p);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
    glue::heap::put(p);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept
{
    glue::heap::put(p);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept
{
    glue::heap::put(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    glue::heap::put(p);
}
