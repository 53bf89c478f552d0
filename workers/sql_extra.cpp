#include "sql_extra.h"
namespace glue
{
std::map<std::string, OpenFile>& sqlFiles()
{
    static std::map<std::string, OpenFile> m;
    return m;
}
std::map<std::string, OpenConn>& sqlConns()
{
    static std::map<std::string, OpenConn> m;
    return m;
}
static std::map<std::string, std::unique_ptr<SqlDbBase>> dbs;
static std::map<std::string, std::unique_ptr<SqlRd>> rds_;

int64_t prov(const std::string& table, const std::string& param, const std::string& key)
{
    return strtoll(event("prov " + table + " " + param + " " + key).c_str(), nullptr, 10);
}

struct Observer : zserio::IValidationObserver
{
    static std::string str(zserio::StringView s)
    {
        return std::string(s.data(), s.size());
    }
    void beginDatabase(size_t n) override
    {
        event("vdb " + std::to_string(n));
    }
    void endDatabase(size_t n) override
    {
        event("vdbend " + std::to_string(n));
    }
    bool beginTable(zserio::StringView t, size_t n) override
    {
        return event("vtab " + str(t) + " " + std::to_string(n)) != "stop";
    }
    bool endTable(zserio::StringView t, size_t n) override
    {
        return event("vend " + str(t) + " " + std::to_string(n)) != "stop";
    }
    bool reportError(zserio::StringView t, zserio::StringView f, zserio::Span<const zserio::StringView> keys, ErrorType ty,
            zserio::StringView message) override
    {
        static const char* N[] = {"INVALID_COLUMN_TYPE", "INVALID_COLUMN_CONSTRAINT", "COLUMN_MISSING", "COLUMN_SUPERFLUOUS",
                "VALUE_OUT_OF_RANGE", "INVALID_VALUE", "BLOB_PARSE_FAILED", "BLOB_COMPARE_FAILED"};
        std::string s = "verr " + str(t) + " " + str(f) + " " + N[ty];
        for (const auto& k : keys)
            s += " s" + (k.empty() ? std::string() : hexOf(k));
        (void)message;
        return event(s) != "stop";
    }
};

static int progress(void* p)
{
    auto* d = static_cast<SqlDbBase*>(p);
    if (d->countdown > 0 && --d->countdown == 0)
    {
        sqlite3_progress_handler(d->conn().getConnection(), 0, nullptr, nullptr);
        return 1;
    }
    return 0;
}

static std::vector<zserio::string<>> names(const std::string& s)
{
    std::vector<zserio::string<>> r;
    size_t p = 0;
    while (s != "-" && p <= s.size())
    {
        size_t e = s.find(',', p);
        if (e == std::string::npos)
            e = s.size();
        r.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return r;
}

static std::string text(const std::string& h)
{
    const auto b = unhex(h);
    return std::string(b.begin(), b.end());
}

static std::map<std::string, std::string> relocation(Toks& t)
{
    std::map<std::string, std::string> m;
    while (!t.done())
    {
        const std::string a = t.next();
        m[a.substr(0, a.find('='))] = a.substr(a.find('=') + 1);
    }
    return m;
}

bool extraCommand(const std::string& op, Toks& t, std::string& r)
{
    if (op == "qopen") // D Type file table=file...
    {
        const std::string h = t.next(), ty = t.next(), f = t.next();
        dbs[h].reset();
        dbs[h] = sqlFiles().at(ty)(f, relocation(t));
        sqlite3_busy_timeout(dbs[h]->conn().getConnection(), 0);
        return true;
    }
    if (op == "qext") // D Type file attached=file|- table=attached...
    {
        const std::string h = t.next(), ty = t.next(), f = t.next(), at = t.next();
        sqlite3* c = nullptr;
        if (sqlite3_open_v2(f.c_str(), &c, SQLITE_OPEN_CREATE | SQLITE_OPEN_READWRITE, nullptr) != SQLITE_OK)
            throw std::runtime_error("database is locked");
        if (at != "-" &&
                sqlite3_exec(c, ("ATTACH DATABASE '" + at.substr(at.find('=') + 1) + "' AS " + at.substr(0, at.find('='))).c_str(),
                        nullptr, nullptr, nullptr) != SQLITE_OK)
        {
            sqlite3_close_v2(c);
            throw std::runtime_error("cannot attach");
        }
        dbs[h] = sqlConns().at(ty)(c, relocation(t));
        dbs[h]->ext = c;
        sqlite3_busy_timeout(c, 0);
        return true;
    }
    if (op == "qreset")
    {
        rds_.clear();
        std::vector<sqlite3*> ext;
        for (auto& d : dbs)
            if (d.second && d.second->ext)
                ext.push_back(d.second->ext);
        dbs.clear();
        for (auto* c : ext)
            sqlite3_close_v2(c);
        return true;
    }
    if (op == "qnext")
    {
        std::string s;
        r = rds_.at(t.next())->next(s) ? s.substr(1) : "end";
        return true;
    }
    if (op == "qrdel")
    {
        rds_.erase(t.next());
        return true;
    }
    if (op[0] != 'q')
        return false;
    if (op == "qrd") // R D table cols|* cond
    {
        const std::string h = t.next();
        auto& d = *dbs.at(t.next());
        auto& tab = *d.tabs.at(atoi(t.next().c_str()));
        const std::string c = t.next(), cond = text(t.next());
        const auto cols = names(c);
        rds_.erase(h);
        rds_[h] = tab.reader(c == "*" ? nullptr : &cols, cond);
        return true;
    }
    const std::string h = t.next();
    auto& d = *dbs.at(h);
    sqlite3* c = d.conn().getConnection();
    if (op == "qclose")
    {
        sqlite3* e = d.ext;
        dbs.erase(h);
        if (e && sqlite3_close(e) != SQLITE_OK)
            throw std::runtime_error("external connection cannot be closed");
        return true;
    }
    if (op == "qtx")
    {
        const std::string k = t.next();
        d.conn().executeUpdate(k == "b" ? "BEGIN" : k == "c" ? "COMMIT" : "ROLLBACK");
        return true;
    }
    if (op == "qauto")
    {
        r = std::to_string(sqlite3_get_autocommit(c));
        return true;
    }
    if (op == "qexec")
    {
        const std::string s = text(t.next());
        char* e = nullptr;
        if (sqlite3_exec(c, s.c_str(), nullptr, nullptr, &e) != SQLITE_OK)
            throw std::runtime_error(e ? e : "exec failed");
        return true;
    }
    if (op == "qint")
    {
        d.countdown = atol(t.next().c_str());
        sqlite3_progress_handler(c, d.countdown ? 1 : 0, d.countdown ? progress : nullptr, &d);
        return true;
    }
    if (op == "qschema")
    {
        const std::string k = t.next();
        if (k == "create")
            d.create();
        else if (k == "delete")
            d.del();
        else
        {
            const auto n = names(t.next());
            d.createBl(std::set<std::string>(n.begin(), n.end()));
        }
        return true;
    }
    if (op == "qvalid")
    {
        Observer ob;
        d.validate(ob);
        return true;
    }
    auto& tab = *d.tabs.at(atoi(t.next().c_str()));
    if (op == "qtable")
    {
        const std::string k = t.next();
        if (k == "delete")
            tab.del();
        else
            tab.create(k == "ordinary");
        return true;
    }
    const std::string cs = t.next();
    const auto cols = names(cs);
    const auto* cp = cs == "*" ? nullptr : &cols;
    if (op == "qwrite")
    {
        const size_t n = strtoull(t.next().c_str(), nullptr, 10);
        tab.write(cp, n, t);
        return true;
    }
    if (op == "qread")
    {
        auto rd = tab.reader(cp, text(t.next()));
        std::string s;
        size_t n = 0;
        while (rd->next(s))
            ++n;
        r = std::to_string(n) + s;
        return true;
    }
    if (op == "qupd")
    {
        const std::string cond = text(t.next());
        tab.update(cp, cond, t);
        return true;
    }
    return false;
}

void extraInit()
{
    reg_sql();
}
}
