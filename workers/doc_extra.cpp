#include "doc_extra.h"

#include <algorithm>
#include <streambuf>

namespace glue
{
std::map<std::string, Doc>& docs()
{
    static std::map<std::string, Doc> m;
    return m;
}

namespace
{
std::vector<size_t> sizes(const std::string& s)
{
    std::vector<size_t> r;
    size_t p = 0;
    while (p < s.size())
    {
        size_t e = s.find(',', p);
        e = e == std::string::npos ? s.size() : e;
        r.push_back(strtoull(s.substr(p, e - p).c_str(), nullptr, 10));
        p = e + 1;
    }
    return r;
}

// delivers the text in pieces; mode 'x': short xsgetn, 'u': only through underflow, 'w': whole
struct Source : std::streambuf
{
    std::string text;
    char mode;
    std::vector<size_t> cuts;
    long fail;
    size_t pos = 0, cut = 0;
    std::string cur;
    Source(const std::string& t, char m, const std::vector<size_t>& c, long f) : text(t), mode(m), cuts(c), fail(f)
    {}
    size_t piece(size_t limit)
    {
        size_t n = mode == 'w' || cuts.empty() ? text.size() : cuts[cut++ % cuts.size()];
        n = std::min(std::min(n ? n : 1, limit), text.size() - pos);
        if (fail >= 0)
        {
            if (pos >= static_cast<size_t>(fail))
                throw EnvFail("stream failure");
            n = std::min(n, static_cast<size_t>(fail) - pos);
        }
        return n;
    }
    int_type underflow() override
    {
        const size_t n = piece(size_t(1) << 30);
        if (n == 0)
            return traits_type::eof();
        cur = text.substr(pos, n);
        pos += n;
        setg(&cur[0], &cur[0], &cur[0] + cur.size());
        return traits_type::to_int_type(cur[0]);
    }
    std::streamsize xsgetn(char* p, std::streamsize k) override
    {
        if (mode == 'u')
            return std::streambuf::xsgetn(p, k);
        if (gptr() != egptr())
        {
            const auto n = std::min<std::streamsize>(k, egptr() - gptr());
            memcpy(p, gptr(), static_cast<size_t>(n));
            gbump(static_cast<int>(n));
            return n;
        }
        const size_t n = piece(static_cast<size_t>(k));
        memcpy(p, text.data() + pos, n);
        pos += n;
        return static_cast<std::streamsize>(n);
    }
};

// takes `room` bytes, then fails: by exception or by refusing
struct Sink : std::streambuf
{
    std::string text;
    long room;
    bool raise;
    Sink(long r, bool e) : room(r), raise(e)
    {}
    bool full(size_t n)
    {
        if (room < 0 || text.size() + n <= static_cast<size_t>(room))
            return false;
        if (raise)
            throw EnvFail("stream failure");
        return true;
    }
    int_type overflow(int_type c) override
    {
        if (full(1))
            return traits_type::eof();
        text += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if (full(static_cast<size_t>(n)))
        {
            const size_t k = static_cast<size_t>(room) - text.size();
            text.append(p, k);
            return static_cast<std::streamsize>(k);
        }
        text.append(p, static_cast<size_t>(n));
        return n;
    }
};

std::string str(const std::string& h)
{
    const auto v = unhex(h);
    return std::string(v.begin(), v.end());
}
} // namespace

bool extraCommand(const std::string& op, Toks& t, std::string& result)
{
    if (op == "fsave") // H Type path
    {
        Box* b = box(t.next());
        const Doc& d = docs().at(t.next());
        d.save(b, str(t.next()));
        return true;
    }
    if (op == "fload") // H Type path params
    {
        const std::string h = t.next();
        const Doc& d = docs().at(t.next());
        const std::string p = str(t.next());
        keep(h, d.load(p, t));
        return true;
    }
    if (op == "bsave") // bits hex path
    {
        const size_t n = strtoull(t.next().c_str(), nullptr, 10);
        const auto v = unhex(t.next());
        zserio::writeBufferToFile(zserio::BitBuffer(v, n), str(t.next()));
        return true;
    }
    if (op == "bload")
    {
        const zserio::BitBuffer b = zserio::readBufferFromFile(str(t.next()));
        result = bits(b.getBitSize(), b.getBuffer(), b.getByteSize());
        return true;
    }
    if (op == "jsave") // H Type indent path
    {
        Box* b = box(t.next());
        const Doc& d = docs().at(t.next());
        const int n = atoi(t.next().c_str());
        d.putFile(b, str(t.next()), n);
        return true;
    }
    if (op == "jload") // H Type path
    {
        const std::string h = t.next();
        const Doc& d = docs().at(t.next());
        keep(h, d.getFile(str(t.next())));
        return true;
    }
    if (op == "jwrite") // H Type indent room raise
    {
        Box* b = box(t.next());
        const Doc& d = docs().at(t.next());
        const int n = atoi(t.next().c_str());
        const long room = atol(t.next().c_str());
        Sink s(room, t.next() == "1");
        std::ostream o(&s);
        d.put(b, o, n);
        o.flush();
        result = (o.good() ? "good " : "bad ") + hexOf(std::vector<uint8_t>(s.text.begin(), s.text.end()));
        return true;
    }
    if (op == "jread") // H Type mode cuts fail hex
    {
        const std::string h = t.next();
        const Doc& d = docs().at(t.next());
        const char m = t.next()[0];
        const auto c = sizes(t.next());
        const long f = atol(t.next().c_str());
        Source s(str(t.next()), m, c, f);
        std::istream in(&s);
        keep(h, d.get(in));
        return true;
    }
    if (op == "jmany") // n Type mode cuts fail hex: several objects from one reader
    {
        const int n = atoi(t.next().c_str());
        const Doc& d = docs().at(t.next());
        const char m = t.next()[0];
        const auto c = sizes(t.next());
        const long f = atol(t.next().c_str());
        Source s(str(t.next()), m, c, f);
        std::istream in(&s);
        zserio::BasicJsonReader<Alloc> r(in, al());
        for (int i = 0; i < n; i++)
            result += (i ? " /" : "/") + d.next(r)->dump();
        return true;
    }
    return false;
}

void extraInit()
{
    docRegister();
}
} // namespace glue
