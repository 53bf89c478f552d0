// Commands on generated SQL databases.
#pragma once
#include <map>
#include <set>
#include <sqlite3.h>
#include "worker_extra.h"
#include "zserio/IValidationObserver.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteException.h"
namespace glue
{
template <class T>
struct ST;

int64_t prov(const std::string& table, const std::string& param, const std::string& key);

struct SqlRd
{
    virtual ~SqlRd() = default;
    virtual bool next(std::string& s) = 0;
};

struct SqlTab
{
    std::string name;
    virtual ~SqlTab() = default;
    virtual void create(bool ordinary) = 0;
    virtual void del() = 0;
    virtual void write(const std::vector<zserio::string<>>* cols, size_t n, Toks& t) = 0;
    virtual std::unique_ptr<SqlRd> reader(const std::vector<zserio::string<>>* cols, const std::string& cond) = 0;
    virtual void update(const std::vector<zserio::string<>>* cols, const std::string& cond, Toks& t) = 0;
};

template <class T, class = void>
struct has_ordinary : std::false_type
{};
template <class T>
struct has_ordinary<T, std::void_t<decltype(std::declval<T&>().createOrdinaryRowIdTable())>> : std::true_type
{};

struct NoProvider
{};
template <class T, bool PP>
struct ProvOf
{
    using type = NoProvider;
};
template <class T>
struct ProvOf<T, true>
{
    using type = typename ST<T>::Provider;
};

template <class T>
struct TabT : SqlTab
{
    using S = ST<T>;
    using Row = typename T::Row;
    T& t_;
    typename ProvOf<T, S::PP>::type pp;
    TabT(T& t, const char* n) : t_(t)
    {
        name = n;
    }
    struct Rd : SqlRd
    {
        typename T::Reader r;
        explicit Rd(typename T::Reader&& x) : r(std::move(x))
        {}
        bool next(std::string& s) override
        {
            if (!r.hasNext())
                return false;
            const Row row = r.next();
            for (int i = 0; i < S::N; i++)
                S::get(row, i, s);
            return true;
        }
    };
    void create(bool ordinary) override
    {
        if constexpr (has_ordinary<T>::value)
        {
            if (ordinary)
                return t_.createOrdinaryRowIdTable();
        }
        t_.createTable();
    }
    void del() override
    {
        t_.deleteTable();
    }
    static void row(Row& r, Toks& t)
    {
        for (int i = 0; i < S::N; i++)
            if (t.next() == "+")
                S::set(r, i, t);
    }
    void write(const std::vector<zserio::string<>>* cols, size_t n, Toks& t) override
    {
        std::vector<Row> rows(n);
        for (auto& r : rows)
            row(r, t);
        if constexpr (S::PP)
        {
            if (cols)
                t_.write(pp, rows, *cols);
            else
                t_.write(pp, rows);
        }
        else
        {
            if (cols)
                t_.write(rows, *cols);
            else
                t_.write(rows);
        }
    }
    std::unique_ptr<SqlRd> reader(const std::vector<zserio::string<>>* cols, const std::string& cond) override
    {
        if constexpr (S::PP)
        {
            if (cols)
                return std::unique_ptr<SqlRd>(new Rd(t_.createReader(pp, *cols, cond)));
            return std::unique_ptr<SqlRd>(new Rd(t_.createReader(pp, cond)));
        }
        else
        {
            if (cols)
                return std::unique_ptr<SqlRd>(new Rd(t_.createReader(*cols, cond)));
            return std::unique_ptr<SqlRd>(new Rd(t_.createReader(cond)));
        }
    }
    void update(const std::vector<zserio::string<>>* cols, const std::string& cond, Toks& t) override
    {
        Row r;
        row(r, t);
        if constexpr (S::PP)
        {
            if (cols)
                t_.update(pp, r, *cols, cond);
            else
                t_.update(pp, r, cond);
        }
        else
        {
            if (cols)
                t_.update(r, *cols, cond);
            else
                t_.update(r, cond);
        }
    }
};

struct SqlDbBase
{
    std::vector<std::unique_ptr<SqlTab>> tabs;
    sqlite3* ext = nullptr;
    long countdown = 0;
    virtual ~SqlDbBase() = default;
    virtual zserio::SqliteConnection& conn() = 0;
    virtual void create() = 0;
    virtual void createBl(const std::set<std::string>& s) = 0;
    virtual void del() = 0;
    virtual void validate(zserio::IValidationObserver& ob) = 0;
};
using OpenFile = std::function<std::unique_ptr<SqlDbBase>(const std::string&, const std::map<std::string, std::string>&)>;
using OpenConn = std::function<std::unique_ptr<SqlDbBase>(sqlite3*, const std::map<std::string, std::string>&)>;
std::map<std::string, OpenFile>& sqlFiles();
std::map<std::string, OpenConn>& sqlConns();
void reg_sql();
}
