// Multi-versioning: random histories of row versions; a query at a time must equal the same query on the rows visible then.
#include "nat.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/catalog/TableFactory.hpp>
#include <fstream>
#include <sstream>
#include <unistd.h>

using namespace m;
using namespace hv;

struct Grab   // what is printed
{
    std::ostringstream o; std::streambuf *old;
    Grab() { old = std::cout.rdbuf(o.rdbuf()); }
    ~Grab() { std::cout.rdbuf(old); }
};

static std::string run(const std::string &sql, int64_t ts)
{
    std::ostringstream out, err;
    Diagnostic diag(false, out, err);
    Grab g;
    try {
        auto cmd = command_from_string(diag, sql);
        Scheduler::Transaction t;
        t.start_time(ts);
        cmd->transaction(&t);
        cmd->execute(diag);
    } catch (const std::exception &e) { return std::string("exception: ") + e.what() + ": " + err.str(); }
    if (diag.num_errors()) return "error: " + err.str();
    return g.o.str();
}

/** The same command executed within a transaction that lives across several commands. */
struct Tx
{
    Scheduler::Transaction t;
    explicit Tx(int64_t ts) { t.start_time(ts); }
    std::string operator()(const std::string &sql) {
        std::ostringstream out, err;
        Diagnostic diag(false, out, err);
        Grab g;
        try { auto cmd = command_from_string(diag, sql); cmd->transaction(&t); cmd->execute(diag); }
        catch (const std::exception &e) { return std::string("exception: ") + e.what() + ": " + err.str(); }
        if (diag.num_errors()) return "error: " + err.str();
        return g.o.str();
    }
};

static std::string canon(const std::string &s, bool ordered)
{
    std::vector<std::string> l; std::istringstream in(s); std::string x;
    while (std::getline(in, x)) if (x.size() > 5 and x.substr(x.size() - 5) == " rows") l.push_back("~" + x); else l.push_back(x);
    if (not ordered) std::sort(l.begin(), l.end());
    std::string r; for (auto &y : l) r += y + "\n";
    return r;
}

struct Row { std::vector<std::string> v; int64_t begin, end; };   // SQL literals
struct Tab { std::string name; std::vector<std::pair<std::string, std::string>> cols; std::vector<Row> rows; };

static std::string literal(Rng &r, const std::string &ty)
{
    if (r.p(.1)) return "NULL";
    if (ty == "INT(4)") return std::to_string(r.in(0, 6));
    if (ty == "INT(8)") return std::to_string(r.in(-3, 4));
    if (ty == "DOUBLE") return r.of({"0.5", "1.25", "2.0", "-3.75"});
    if (ty == "BOOL") return r.of({"TRUE", "FALSE"});
    return r.of({"\"a\"", "\"bb\"", "\"ccc\"", "\"\""});
}

static void use(const char *db) { Catalog &C = Catalog::Get(); C.set_database_in_use(C.get_database(C.pool(db))); }
static void factory(bool mv)
{
    Catalog &C = Catalog::Get();
    std::unique_ptr<TableFactory> f = std::make_unique<ConcreteTableFactory>();
    if (mv) f = C.apply_table_property(C.pool("multi-versioning"), std::move(f));
    C.table_factory(std::move(f));
}

static std::string query(Rng &r, const std::vector<Tab> &T, bool &ordered, std::string &shape)
{
    auto &t = T[r.u() % T.size()];
    std::vector<std::string> ints;
    for (auto &c : t.cols) if (c.second.substr(0, 3) == "INT") ints.push_back(c.first);
    auto k = [&]() { return std::to_string(r.in(-1, 6)); };
    auto i = [&]() { return r.pick(ints); };
    bool alias = r.p(.4);
    std::string from = t.name + (alias ? " AS x" : ""), q = alias ? "x." : (r.p(.3) ? t.name + "." : "");
    ordered = false;
    auto where = [&](const std::string &q) {
        switch (r.u() % 6) {
            case 0: return std::string();
            case 5: { std::string c; for (int n = int(r.in(2, 6)); n; --n) c += (c.empty() ? " WHERE " : " AND ") + q + i() + r.of({" > -", " < 1", " != "}) + k(); for (std::size_t p; (p = c.find("--")) != std::string::npos;) c.erase(p, 1); return c; }
            case 1: return " WHERE " + q + i() + " < " + k();
            case 2: return " WHERE " + q + i() + " = " + k() + " OR " + q + i() + " > " + k();
            case 3: return " WHERE NOT " + q + i() + " >= " + k() + " AND " + q + i() + " != " + k();
            default: return " WHERE " + q + i() + " + " + q + i() + " > " + k();
        }
    };
    auto conj = [&](const std::string &q) { std::string c; for (int n = int(r.in(1, 6)); n; --n) c += " AND " + q + r.of({"k < 7", "k > -1", "k != 9", "k <= 5", "k >= 0"}); return c; };
    switch (r.u() % 13) {
        case 0: shape = "star"; return "SELECT * FROM " + from + where(q) + ";";
        case 1: shape = "columns"; return "SELECT " + q + t.cols.back().first + ", " + q + i() + " FROM " + from + where(q) + ";";
        case 2: shape = "count"; return "SELECT COUNT() FROM " + from + where(q) + ";";
        case 3: shape = "aggregate"; return "SELECT COUNT(" + q + i() + "), MIN(" + q + i() + "), MAX(" + q + i() + ") FROM " + from + where(q) + ";";
        case 4: { shape = "group"; auto g = i(); return "SELECT " + g + ", COUNT() FROM " + t.name + where("") + " GROUP BY " + g + ";"; }
        case 5: { shape = "order"; ordered = true; std::string cs, ob; for (auto &c : t.cols) { cs += (cs.empty() ? "" : ", ") + q + c.first; ob += (ob.empty() ? "" : ", ") + q + c.first + (r.p(.5) ? " DESC" : ""); }
            return "SELECT " + cs + " FROM " + from + where(q) + " ORDER BY " + ob + (r.p(.5) ? " LIMIT " + std::to_string(r.in(1, 6)) : "") + ";"; }
        case 6: { shape = "join"; auto &u = T[r.u() % T.size()];
            return "SELECT x.k, y.k, y." + u.cols.back().first + " FROM " + t.name + " AS x, " + u.name + " AS y WHERE x.k = y.k" + (r.p(.5) ? " AND x.k < " + k() : "") + (r.p(.3) ? " AND y.k > " + k() : "") + (r.p(.3) ? conj("x.") : "") + (r.p(.3) ? conj("y.") : "") + ";"; }
        case 7: { if (T.size() < 2) break; shape = "join of tables";
            return "SELECT COUNT() FROM " + T[0].name + ", " + T[1].name + " WHERE " + T[0].name + ".k = " + T[1].name + ".k;"; }
        case 8: { shape = "nested"; return "SELECT z.k, z.n FROM (SELECT " + q + "k AS k, " + q + i() + " AS n FROM " + from + where(q) + ") AS z" + (r.p(.5) ? " WHERE z.k < " + k() : "") + ";"; }
        case 10: { shape = "deeply nested"; std::string in = "SELECT k FROM " + t.name + where("");
            for (int n = int(r.in(2, 3)); n; --n) { const std::string a = r.of({"z", "w", "v"}); in = "SELECT " + a + ".k FROM (" + in + ") AS " + a + (r.p(.3) ? " WHERE " + a + ".k < " + k() : ""); }
            return in + ";"; }
        case 11: { shape = "join within nested"; auto &u = T.back();
            return "SELECT z.k, y.k FROM (SELECT x.k AS k FROM " + u.name + " AS w, " + t.name + " AS x WHERE w.k = x.k" + (r.p(.5) ? conj("x.") : "") + ") AS z, " + u.name + " AS y WHERE z.k = y.k" + (r.p(.3) ? conj("y.") : "") + ";"; }
        case 12: { shape = "three sources"; auto &u = T.back();
            return "SELECT x.k, y.k, z.k FROM " + t.name + " AS x, " + u.name + " AS y, " + T[0].name + " AS z WHERE x.k = y.k AND y.k = z.k" + (r.p(.5) ? conj("x.") : "") + (r.p(.3) ? conj("y.") : "") + ";"; }
        case 9: { shape = "nested join"; return "SELECT z.c, y.k FROM (SELECT k, COUNT() AS c FROM " + t.name + where("") + " GROUP BY k) AS z, " + T.back().name + " AS y WHERE z.k = y.k;"; }
    }
    shape = "all"; return "SELECT k FROM " + t.name + ";";
}

static void history()
{
    Catalog &C = Catalog::Get();
    Options::Get().quiet = true; Options::Get().has_color = false;
    for (auto n : {"mv", "snap"}) C.add_database(C.pool(n));
    std::vector<std::string> layouts; for (auto it = C.data_layouts_begin(); it != C.data_layouts_end(); ++it) layouts.push_back(*it->first);
    std::sort(layouts.begin(), layouts.end());
    std::string csv = "/tmp/hv-mvcc-" + std::to_string(getpid()) + ".csv";
    cases([&](Rng &r, uint64_t) {
        C.default_data_layout(C.pool(r.pick(layouts).c_str()));
        std::vector<Tab> T;
        int nt = int(r.in(1, 2));
        static const char *types[] = {"INT(4)", "INT(8)", "DOUBLE", "CHAR(4)", "BOOL"};
        for (int i = 0; i != nt; ++i) {
            Tab t; t.name = i ? "u" : "t";
            t.cols.emplace_back("k", "INT(4)");
            for (int n = int(r.in(0, 3)); n; --n) t.cols.emplace_back("c" + std::to_string(t.cols.size()) + t.name, types[r.u() % 5]);
            T.push_back(t);
        }
        std::string log;
        auto must = [&](const std::string &res, const std::string &sql) { HV_CHECK(res.empty(), "mvcc-command", sql << " -> " << res); };
        use("mv"); factory(true);
        for (auto &t : T) {
            std::string s = "CREATE TABLE " + t.name + " ( "; for (auto &c : t.cols) s += (&c == &t.cols[0] ? "" : ", ") + c.first + " " + c.second; s += " );";
            log += s + " "; at(log); must(run(s, 0), s);
        }
        /*----- a history of writes: statements of transactions, imports, and versions that ended -----*/
        int64_t now = r.in(0, 3);
        int64_t maxts = now;
        for (int n = int(r.in(0, 14)); n; --n) {
            auto &t = r.pick(T);
            int64_t ts = r.p(.7) ? now : r.in(0, now);   // a transaction may write after a younger one
            auto lits = [&]() { std::vector<std::string> v; for (auto &c : t.cols) v.push_back(literal(r, c.second)); return v; };
            auto tuple = [](const std::vector<std::string> &v) { std::string s = "("; for (auto &x : v) s += (&x == &v[0] ? "" : ", ") + x; return s + ")"; };
            switch (r.u() % 4) {
                case 0: case 1: {
                    std::string s = "INSERT INTO " + t.name + " VALUES ";
                    for (int k = int(r.in(1, 4)), f = 1; k; --k, f = 0) { auto v = lits(); s += (f ? "" : ", ") + tuple(v); t.rows.push_back({v, ts, -1}); }
                    log += "@" + std::to_string(ts) + " " + s + "; "; at(log);
                    must(run(s + ";", ts), s);
                    break;
                }
                case 2: {
                    std::ofstream f(csv);
                    int k = int(r.in(1, 5)), only = r.p(.3) ? int(r.in(1, 6)) : 99;
                    for (int i = 0; i != k; ++i) { auto v = lits(); for (std::size_t i = 0; i != v.size(); ++i) f << (i ? "," : "") << (v[i] == "NULL" ? "" : v[i]); f << '\n'; if (i < only) t.rows.push_back({v, ts, -1}); }
                    f.close();
                    std::string s = "IMPORT INTO " + t.name + " DSV \"" + csv + "\"" + (only != 99 ? " ROWS " + std::to_string(only) : "") + ";";
                    log += "@" + std::to_string(ts) + " import; "; at(log);
                    must(run(s, ts), s);
                    count("imports");
                    break;
                }
                case 3: {   // a version that ended: written as later deletes would
                    if (t.rows.empty()) break;
                    auto &tab = C.get_database_in_use().get_table(C.pool(t.name.c_str()));
                    auto S = tab.schema();
                    Tuple tup(S);
                    auto v = lits(); std::size_t i = 0;
                    int64_t b = r.in(0, now), e = r.in(b, now + 3);
                    for (auto &c : t.cols) { auto id = tab.at(C.pool(c.first.c_str())).id;
                        auto &x = v[i++];
                        if (x == "NULL") { tup.null(id); continue; }
                        if (c.second == "INT(4)" or c.second == "INT(8)") tup.set(id, int64_t(std::stoll(x)));
                        else if (c.second == "DOUBLE") tup.set(id, std::stod(x));
                        else if (c.second == "BOOL") tup.set(id, x == "TRUE");
                        else { tup.not_null(id); memset(tup[id].as_p(), 0, 5); std::string y = x.substr(1, x.size() - 2); memcpy(tup[id].as_p(), y.data(), y.size()); }
                    }
                    tup.set(tab.at(C.pool("$ts_begin")).id, b);
                    tup.set(tab.at(C.pool("$ts_end")).id, e);
                    StoreWriter W(tab.store()); W.append(tup);
                    t.rows.push_back({v, b, e});
                    log += "version [" + std::to_string(b) + "," + std::to_string(e) + ") " + tuple(v) + "; "; at(log);
                    count("ended versions");
                    break;
                }
            }
            if (r.p(.5)) now += r.in(1, 3);
            maxts = now;
        }
        /*----- hidden attributes stay hidden -----*/
        for (auto &t : T) {
            auto &tab = C.get_database_in_use().get_table(C.pool(t.name.c_str()));
            HV_CHECK(tab.num_attrs() == t.cols.size(), "mvcc-hidden", "a table of " << t.cols.size() << " columns shows " << tab.num_attrs());
            std::string s = "INSERT INTO " + t.name + " VALUES (" ; for (std::size_t i = 0; i != t.cols.size() + 2; ++i) s += i ? ", NULL" : "NULL"; s += ");";
            if (r.p(.1)) { auto x = run(s, now); HV_CHECK(x.substr(0, 9) == "exception", "mvcc-hidden", "values for hidden attributes are accepted"); }
        }
        /*----- queries, in any order of time -----*/
        uint64_t h = hash(log); std::size_t vis = 0, all = 0;
        for (int n = int(r.in(1, 8)); n; --n) {
            int64_t ts = r.in(0, maxts + 2);
            use("snap"); factory(false);
            for (auto &t : T) {
                std::string s = "CREATE TABLE " + t.name + " ( "; for (auto &c : t.cols) s += (&c == &t.cols[0] ? "" : ", ") + c.first + " " + c.second; s += " );";
                must(run(s, 0), s);
                std::string ins;
                for (auto &x : t.rows) { ++all; if (x.begin <= ts and (x.end == -1 or x.end > ts)) {
                    ++vis; ins += ins.empty() ? "(" : ", ("; for (std::size_t i = 0; i != x.v.size(); ++i) ins += (i ? ", " : "") + x.v[i]; ins += ")"; } }
                if (not ins.empty()) must(run("INSERT INTO " + t.name + " VALUES " + ins + ";", 0), "insert");
            }
            Tx txn(ts);
            for (int m = int(r.in(1, 4)); m; --m) {
                bool ordered; std::string shape;
                std::string q = query(r, T, ordered, shape);
                at(log + " @" + std::to_string(ts) + " " + q);
                use("snap"); std::string want = canon(run(q, ts), ordered);
                HV_CHECK(want.find("rror") == std::string::npos and want.find("xception") == std::string::npos, "mvcc-query", q << " is rejected: " << want);
                use("mv"); std::string got = canon(txn(q), ordered);
                count("queries " + shape);
                HV_CHECK(got == want, "mvcc-visible", q << " at " << ts << " gives\n" << got << "instead of\n" << want);
                h = mix(h, hash(q));
            }
            use("snap");
            for (auto &t : T) must(run("DROP TABLE " + t.name + ";", 0), "drop");
        }
        use("mv");
        for (auto &t : T) must(run("DROP TABLE " + t.name + ";", 0), "drop");
        count("rows visible", vis); count("rows hidden", all - vis);
        C.timer().clear();
        ok(h, vis and vis != all);
        sample(log);
    });
    unlink(csv.c_str());
}

int main(int argc, char **argv) { m::init(); return nat_main(argc, argv, {{"history", history}}); }
