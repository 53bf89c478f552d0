// Shared part of the C++ node: tokens, value access, boxes.  Specialisations of G<> are generated (lib/gluegen.py).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

#include "zserio/AllocatorPropagatingCopy.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Enums.h"
#include "zserio/SerializeUtil.h"
#include "zserio/Span.h"
#include "zserio/String.h"
#include "zserio/StringView.h"
#include "zserio/Vector.h"
#ifdef GLUE_PMR
#include "zserio/pmr/MemoryResource.h"
#include "zserio/pmr/PolymorphicAllocator.h"
#endif

namespace glue
{
#ifdef GLUE_PMR
using Alloc = zserio::pmr::PropagatingPolymorphicAllocator<uint8_t>;
extern zserio::pmr::MemoryResource* g_res;
inline Alloc al()
{
    return Alloc(g_res);
}
#else
using Alloc = std::allocator<uint8_t>;
inline Alloc al()
{
    return Alloc();
}
#endif

// library code runs inside windows, harness code outside of them (used by the simulated memory of mem_extra.cpp)
extern thread_local int g_window, g_pause;
extern int g_tail;
struct Window
{
    Window()
    {
        ++g_window;
    }
    ~Window()
    {
        --g_window;
    }
};
struct Pause
{
    Pause()
    {
        ++g_pause;
    }
    ~Pause()
    {
        --g_pause;
    }
};

struct EnvFail : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

std::string event(const std::string& line);

struct Toks
{
    std::vector<std::string> a;
    size_t p = 0;
    const std::string& next()
    {
        if (p >= a.size())
            throw std::logic_error("harness: out of tokens");
        return a[p++];
    }
    bool done() const
    {
        return p >= a.size();
    }
};

inline int nib(char c)
{
    return c <= '9' ? c - '0' : c - 'a' + 10;
}

inline std::vector<uint8_t> unhex(const std::string& s, size_t from = 0)
{
    Pause pause;
    std::vector<uint8_t> r;
    if (s.size() - from == 1 && s[from] == '-')
        return r;
    r.reserve((s.size() - from) / 2);
    for (size_t i = from; i + 1 < s.size(); i += 2)
        r.push_back(static_cast<uint8_t>(nib(s[i]) * 16 + nib(s[i + 1])));
    return r;
}

template <class C>
inline void hex(std::string& o, const C& c)
{
    static const char* d = "0123456789abcdef";
    for (uint8_t b : c)
    {
        o += d[b >> 4];
        o += d[b & 15];
    }
}

template <class C>
inline std::string hexOf(const C& c)
{
    std::string s;
    hex(s, c);
    return s.empty() ? "-" : s;
}

/** the bytes of a request, taken by a transport that tries once more after a failure */
template <typename R>
std::string requestHex(const R& request)
{
    std::string data;
    try
    {
        data = hexOf(request.getData());
    }
    catch (const std::exception&)
    {
        data = hexOf(request.getData());
    }
    if (hexOf(request.getData()) != data)
        throw std::logic_error("request data changed");
    return data;
}

template <class T>
struct G; // NP, build(T&, Toks&, mode, nested), dump(const T&, string&)

template <class T, class = void>
struct has_g : std::false_type
{};
template <class T>
struct has_g<T, std::void_t<decltype(G<T>::NP)>> : std::true_type
{};

template <class T>
T mk()
{
    if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>)
        return T();
    else if constexpr (std::is_constructible_v<T, Alloc>)
        return T(al());
    else
        return T();
}

// scalars ------------------------------------------------------------------------------------------------------
template <class T>
void rds(T& v, Toks& t, char mode)
{
    if constexpr (std::is_same_v<T, bool>)
        v = t.next() == "1";
    else if constexpr (std::is_same_v<T, float>)
    {
        uint32_t b = static_cast<uint32_t>(strtoull(t.next().c_str(), nullptr, 10));
        std::memcpy(&v, &b, 4);
    }
    else if constexpr (std::is_same_v<T, double>)
    {
        uint64_t b = strtoull(t.next().c_str(), nullptr, 10);
        std::memcpy(&v, &b, 8);
    }
    else if constexpr (std::is_integral_v<T>)
    {
        if constexpr (std::is_signed_v<T>)
            v = static_cast<T>(strtoll(t.next().c_str(), nullptr, 10));
        else
            v = static_cast<T>(strtoull(t.next().c_str(), nullptr, 10));
    }
    else if constexpr (std::is_enum_v<T>)
    {
        std::underlying_type_t<T> u;
        rds(u, t, mode);
        v = zserio::valueToEnum<T>(u);
    }
    else if constexpr (std::is_same_v<T, zserio::string<typename std::allocator_traits<Alloc>::template rebind_alloc<char>>> ||
            std::is_same_v<T, zserio::string<Alloc>>)
    {
        const auto b = unhex(t.next(), 1);
        v = T(reinterpret_cast<const char*>(b.data()), b.size(), al());
    }
    else if constexpr (std::is_same_v<T, zserio::BasicBitBuffer<Alloc>>)
    {
        const std::string& s = t.next();
        const size_t i = s.find(':');
        auto b = unhex(s, i + 1);
        const size_t n = strtoull(s.c_str() + 1, nullptr, 10);
        if (g_tail > 0) // what is behind the last bit does not belong to the value
        {
            ++g_tail;
            if (n % 8 != 0)
                b[b.size() - 1] = static_cast<uint8_t>(b[b.size() - 1] | (g_tail * 37 & (0xff >> n % 8)));
            b.resize(b.size() + static_cast<size_t>(g_tail % 4), 0xa5);
        }
        v = T(zserio::Span<const uint8_t>(b.data(), b.size()), n, al());
    }
    else if constexpr (has_g<T>::value)
        G<T>::build(v, t, mode, true);
    else // bitmask
    {
        typename T::underlying_type u;
        rds(u, t, mode);
        v = T(u);
    }
}

template <class T>
void puts(std::string& o, const T& v)
{
    if constexpr (has_g<T>::value)
    {
        G<T>::dump(v, o);
        return;
    }
    else
    {
        o += ' ';
        if constexpr (std::is_same_v<T, bool>)
            o += v ? '1' : '0';
        else if constexpr (std::is_same_v<T, float>)
        {
            uint32_t b;
            std::memcpy(&b, &v, 4);
            if (v != v)
                b = 0x7FC00000U; // which NaN is not part of the value
            o += std::to_string(b);
        }
        else if constexpr (std::is_same_v<T, double>)
        {
            uint64_t b;
            std::memcpy(&b, &v, 8);
            if (v != v)
                b = 0x7FF8000000000000ULL;
            o += std::to_string(b);
        }
        else if constexpr (std::is_integral_v<T>)
            o += std::to_string(v);
        else if constexpr (std::is_enum_v<T>)
            o += std::to_string(static_cast<std::underlying_type_t<T>>(v));
        else if constexpr (std::is_same_v<T, zserio::string<typename std::allocator_traits<Alloc>::template rebind_alloc<char>>> ||
                std::is_same_v<T, zserio::string<Alloc>> || std::is_same_v<T, zserio::StringView>)
        {
            o += 's';
            hex(o, v);
        }
        else if constexpr (std::is_same_v<T, zserio::BasicBitBuffer<Alloc>>)
        {
            o += 'e';
            o += std::to_string(v.getBitSize());
            o += ':';
            std::vector<uint8_t> b(v.getData().begin(), v.getData().begin() + (v.getBitSize() + 7) / 8);
            if (v.getBitSize() % 8 != 0 && !b.empty())
                b.back() = static_cast<uint8_t>(b.back() & (0xff00 >> v.getBitSize() % 8));
            hex(o, b);
        }
        else
            o += std::to_string(v.getValue());
    }
}

template <class C>
void putb(std::string& o, const C& v)
{
    o += " b";
    hex(o, v);
}

// kinds: 's' scalar or compound, 'b' bytes, 'a' array, 'A' array of bytes
template <char K, class T>
void rd(T& v, Toks& t, char mode)
{
    if constexpr (K == 's')
        rds(v, t, mode);
    else if constexpr (K == 'b')
    {
        const auto b = unhex(t.next(), 1);
        v.assign(b.begin(), b.end());
    }
    else
    {
        const size_t n = strtoull(t.next().c_str() + 1, nullptr, 10);
        v.clear();
        v.reserve(n);
        for (size_t i = 0; i < n; i++)
        {
            auto e = mk<typename T::value_type>();
            if constexpr (K == 'A')
                rd<'b'>(e, t, mode);
            else
                rds(e, t, mode);
            v.push_back(std::move(e));
        }
    }
}

template <char K, class T>
void put(std::string& o, const T& v)
{
    if constexpr (K == 's')
        puts(o, v);
    else if constexpr (K == 'b')
        putb(o, v);
    else
    {
        o += " #" + std::to_string(v.size());
        for (size_t i = 0; i < v.size(); i++)
        {
            if constexpr (K == 'A')
                putb(o, v[i]);
            else
                puts(o, static_cast<const typename T::value_type&>(v[i]));
        }
    }
}

// boxes --------------------------------------------------------------------------------------------------------
struct Box
{
    virtual ~Box() = default;
    bool dirty = true;
    virtual const std::type_info& type() const = 0;
    virtual void prepare() = 0;
    virtual std::string dump() = 0;
    virtual std::string enc(const std::string& how) = 0;
    virtual void write(zserio::BitStreamWriter& w) = 0;
    virtual size_t size(size_t pos) = 0;
    virtual size_t init(size_t pos) = 0;
    virtual void set(int idx, char mode, Toks& t) = 0;
    virtual void nset(Toks& path, char mode, Toks& t) = 0;
    virtual void reset(int idx) = 0;
    virtual std::string get(int idx) = 0;
    virtual std::string flags(int idx) = 0;
    virtual bool eq(Box& o) = 0;
    virtual bool lt(Box& o) = 0;
    virtual uint32_t hash() = 0;
    virtual std::unique_ptr<Box> copy(char how) = 0;
    virtual void assign(Box& from, bool move) = 0;
    virtual std::string fn(const std::string& name) = 0;
    virtual void* ptr() = 0;
};

template <class T, class = void>
struct has_init_children : std::false_type
{};
template <class T>
struct has_init_children<T, std::void_t<decltype(std::declval<T&>().initializeChildren())>> : std::true_type
{};

inline std::string bits(size_t n, const uint8_t* p, size_t bytes)
{
    return std::to_string(n) + " " + hexOf(zserio::Span<const uint8_t>(p, bytes));
}

template <class T>
struct BoxT : Box
{
    T o;
    BoxT() : o(al())
    {}
    explicit BoxT(T&& v) : o(std::move(v))
    {}
    const std::type_info& type() const override
    {
        return typeid(T);
    }
    void prepare() override
    {
        if (dirty)
        {
            Window w;
            if constexpr (has_init_children<T>::value)
                o.initializeChildren();
            dirty = false;
        }
    }
    std::string dump() override
    {
        prepare();
        std::string s;
        G<T>::dump(o, s);
        return s;
    }
    std::string enc(const std::string& how) override
    {
        if (how == "s")
        {
            Window w;
            const auto b = G<T>::serialize(o);
            dirty = false;
            Pause p;
            return bits(b.getBitSize(), b.getData().data(), b.getData().size());
        }
        if (how == "b")
        {
            Window w;
            const auto b = G<T>::serializeToBytes(o);
            dirty = false;
            Pause p;
            return bits(b.size() * 8, b.data(), b.size());
        }
        prepare();
        const size_t arg = strtoull(how.c_str() + 1, nullptr, 10);
        if (how[0] == 'f')
        {
            std::unique_ptr<uint8_t[]> buf(new uint8_t[(arg + 7) / 8]);
            std::memset(buf.get(), 0, (arg + 7) / 8);
            zserio::BitStreamWriter w(buf.get(), arg, zserio::BitsTag());
            {
                Window in;
                o.write(w);
            }
            return bits(w.getBitPosition(), buf.get(), (arg + 7) / 8);
        }
        size_t total = size_t(1) << 19;
        while (true)
        {
            std::vector<uint8_t> buf(total / 8);
            zserio::BitStreamWriter w(buf.data(), total, zserio::BitsTag());
            for (size_t i = 0; i < arg; i++)
                w.writeBool(false);
            try
            {
                Window in;
                if (how[0] == 'i')
                    o.initializeOffsets(arg);
                o.write(w);
            }
            catch (const zserio::BitStreamWriter::InsufficientCapacityException&)
            {
                total *= 8;
                if (total > (size_t(1) << 28))
                    throw;
                continue;
            }
            return bits(w.getBitPosition(), buf.data(), (w.getBitPosition() + 7) / 8);
        }
    }
    void write(zserio::BitStreamWriter& w) override
    {
        prepare();
        Window in;
        o.write(w);
    }
    size_t size(size_t pos) override
    {
        prepare();
        Window in;
        return o.bitSizeOf(pos);
    }
    size_t init(size_t pos) override
    {
        prepare();
        Window in;
        return o.initializeOffsets(pos);
    }
    void set(int idx, char mode, Toks& t) override
    {
        dirty = true;
        Window in;
        G<T>::set(o, idx, t, mode);
    }
    void nset(Toks& path, char mode, Toks& t) override
    {
        dirty = true;
        Window in;
        G<T>::nset(o, path, t, mode);
    }
    void reset(int idx) override
    {
        Window in;
        G<T>::reset(o, idx);
    }
    std::string get(int idx) override
    {
        prepare();
        std::string s = "+";
        G<T>::get(o, idx, s);
        return s;
    }
    std::string flags(int idx) override
    {
        return G<T>::flags(o, idx);
    }
    bool eq(Box& b) override
    {
        prepare();
        b.prepare();
        Window in;
        return o == static_cast<BoxT<T>&>(b).o;
    }
    bool lt(Box& b) override
    {
        prepare();
        b.prepare();
        Window in;
        return o < static_cast<BoxT<T>&>(b).o;
    }
    uint32_t hash() override
    {
        prepare();
        Window in;
        return o.hashCode();
    }
    std::unique_ptr<Box> copy(char how) override
    {
        std::unique_ptr<BoxT<T>> r;
        if (how == 'p')
            prepare(); // the parameters of a choice have to be there for this way of copying
        Window in;
        if (how == 'm')
            r = boxed(std::move(o));
        else if (how == 'p')
            r = boxed(T(zserio::PropagateAllocator, o, al()));
        else
            r = boxed(T(o));
        r->dirty = dirty;
        return r;
    }
    static std::unique_ptr<BoxT<T>> boxed(T&& v)
    {
        Pause p;
        return std::unique_ptr<BoxT<T>>(new BoxT<T>(std::move(v)));
    }
    void assign(Box& from, bool move) override
    {
        auto& f = static_cast<BoxT<T>&>(from);
        dirty = f.dirty || dirty;
        Window in;
        if (move)
            o = std::move(f.o);
        else
            o = f.o;
        dirty = f.dirty;
    }
    std::string fn(const std::string& name) override
    {
        prepare();
        std::string s;
        G<T>::fn(o, name, s);
        return s.empty() ? s : s.substr(1);
    }
    void* ptr() override
    {
        return &o;
    }
};

struct Factory
{
    std::function<std::unique_ptr<Box>(Toks&, char)> make;
    // how, bits, bytes, parameters
    std::function<std::unique_ptr<Box>(const std::string&, size_t, const std::vector<uint8_t>&, Toks&)> dec;
};

std::map<std::string, Factory>& types();
std::string runCommand(Toks& t);

template <class T>
std::unique_ptr<Box> makeBox(Toks& t, char mode)
{
    std::unique_ptr<BoxT<T>> b(new BoxT<T>());
    Window in;
    G<T>::build(b->o, t, mode, false);
    return b;
}

template <class T, class... A>
T decodeT(const std::string& how, size_t nbits, const std::vector<uint8_t>& data, A&&... a)
{
    Window in;
    if (how == "s")
    {
        const zserio::BasicBitBuffer<Alloc> b(zserio::Span<const uint8_t>(data.data(), data.size()), nbits, al());
        return zserio::deserialize<T>(b, std::forward<A>(a)..., al());
    }
    if (how == "b")
        return zserio::deserializeFromBytes<T>(
                zserio::Span<const uint8_t>(data.data(), data.size()), std::forward<A>(a)..., al());
    const size_t pos = strtoull(how.c_str() + 1, nullptr, 10);
    zserio::BitStreamReader r(data.data(), nbits, zserio::BitsTag());
    if (pos)
        r.setBitPosition(pos);
    return T(r, std::forward<A>(a)..., al());
}

// pub/sub and services -----------------------------------------------------------------------------------------
struct PsBase
{
    virtual ~PsBase() = default;
    virtual void publish(int idx, Box* b, const std::vector<uint8_t>& raw, void* ctx) = 0;
    virtual size_t subscribe(int idx, const std::string& cbid, void* ctx) = 0;
    virtual void unsub(size_t id) = 0;
    virtual void deliver(size_t id, const std::string& topic, const std::vector<uint8_t>& data) = 0;
};
struct SvBase
{
    virtual ~SvBase() = default;
    virtual std::string call(const std::string& method, const std::vector<uint8_t>& data, void* ctx) = 0;
};
struct ClBase
{
    virtual ~ClBase() = default;
    virtual std::string call(int idx, Box* b, const std::vector<uint8_t>& raw, void* ctx) = 0;
};
std::map<std::string, std::function<std::unique_ptr<PsBase>(const std::string&)>>& pubsubs();
std::map<std::string, std::function<std::unique_ptr<SvBase>(const std::string&)>>& services();
std::map<std::string, std::function<std::unique_ptr<ClBase>(const std::string&)>>& clients();
std::string ctxOf(void* p);
Toks split(const std::string& line);

template <class T>
T& unbox(Box* b)
{
    if (!b || b->type() != typeid(T))
        throw std::logic_error("harness: wrong object type");
    b->prepare();
    return static_cast<BoxT<T>*>(b)->o;
}
} // namespace glue

void glue_register();
