// Histories of definitions, insertions, imports and queries over several databases, against a model of the catalog.
#include "nat.hpp"
#include "lex/Lexer.hpp"
#include "parse/Parser.hpp"
#include "parse/Sema.hpp"
#include <mutable/catalog/TableFactory.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/storage/Index.hpp>
#include <fstream>
#include <optional>
#include <set>
#include <sstream>
#include <unistd.h>

using namespace m;
using namespace hv;

struct Cell { std::string lit, shown, dsv; bool null = false; };
struct Ref { std::string tab, col; };
struct Col { std::string name, decl; char k; bool unique = false, notnull = false, primary = false; std::optional<Ref> ref; };
struct Tab { std::vector<Col> cols; std::vector<std::vector<std::string>> rows; };
struct Ix { std::string tab, col; bool rmi, valid; };
struct Db { std::map<std::string, Tab> tabs; std::map<std::string, Ix> ixs; };
struct State { std::map<std::string, Db> dbs; std::string use; };

struct Ty { const char *decl; char k; };
static const Ty TY[] = {{"BOOL", 'b'}, {"INT(1)", '1'}, {"INT(2)", '2'}, {"INT(4)", '4'}, {"INT(8)", '8'}, {"DECIMAL(4, 1)", 'u'}, {"DECIMAL(9, 2)", 'v'}, {"DECIMAL(14, 4)", 'w'}, {"DECIMAL(5, 0)", 'x'}, {"FLOAT", 'f'}, {"DOUBLE", 'd'}, {"CHAR(4)", 's'}, {"VARCHAR(7)", 'S'}, {"DATE", 'D'}, {"DATETIME", 'T'}};
static int scale(char k) { return k == 'u' ? 1 : k == 'v' ? 2 : k == 'w' ? 4 : 0; }
static int64_t bound(char k) { switch (k) { case '1': return 127; case '2': return 32767; case '4': return 2147483647; case '8': return 9007199254740000; case 'u': return 9999; case 'v': return 999999999; case 'w': return 99999999999999; case 'x': return 99999; } return 0; }
/** The typed-out form of the number `v` / 10^`s`. */
static std::string dec(int64_t v, int s)
{
    std::string d = std::to_string(v < 0 ? -v : v); while (int(d.size()) <= s) d = "0" + d;
    return (v < 0 ? "-" : "") + d.substr(0, d.size() - std::size_t(s)) + (s ? "." + d.substr(d.size() - std::size_t(s)) : "");
}
static std::string fl(double x, int prec) { std::ostringstream o; o.precision(prec); o << x; return o.str(); }

static Cell value(Rng &r, const Col &c, bool plain = false)
{
    Cell x; char b[64];
    if (not c.notnull and r.p(.12)) { x.null = true; x.lit = "NULL"; x.shown = "NULL"; return x; }
    if (not plain and not c.notnull and r.p(.06)) { x.null = true; x.lit = "DEFAULT"; x.shown = "NULL"; return x; }   // no default is ever declared
    auto expr = [&](std::string s, bool num) {   // the same value by way of an operator
        if (plain or not r.p(.2)) return s;
        if (num) switch (r.u() % 4) { case 0: return "(" + s + ")"; case 1: return s + " + 0"; case 2: return "0 + " + s; default: return s + " - 0"; }
        return "(" + s + ")";
    };
    switch (c.k) {
        case 'b': { bool v = r.p(.5); x.lit = v ? "TRUE" : "FALSE"; x.shown = x.lit; if (not plain and r.p(.3)) x.lit = v ? r.of({"1 < 2", "NOT FALSE", "TRUE OR FALSE", "\"a\" = \"a\""}) : r.of({"2 < 1", "NOT TRUE", "TRUE AND FALSE"}); break; }
        case '1': case '2': case '4': case '8': {
            int64_t B = bound(c.k), v = r.p(.2) ? (r.p(.5) ? B : -B) : r.p(.5) ? r.in(-9, 9) : r.in(-B, B);
            x.shown = std::to_string(v); x.dsv = x.shown; x.lit = x.shown;
            if (not plain and r.p(.15)) { v = r.in(-100, 100); x.shown = std::to_string(v); x.lit = dec(v * 10, 1); x.dsv = x.shown; }   // a fractional constant of whole value
            x.lit = expr(x.lit, true); break; }
        case 'u': case 'v': case 'w': case 'x': {
            int s = scale(c.k); int64_t B = bound(c.k), v = r.p(.15) ? (r.p(.5) ? B : -B) : r.p(.6) ? r.in(-1200, 1200) : r.in(-B / 10, B / 10);
            if (not plain and r.p(.3)) { int64_t p = 1; for (int i = 0; i != s; ++i) p *= 10; int64_t q = r.in(-90, 90); v = q * p; x.shown = dec(v, s); x.lit = std::to_string(q); x.dsv = x.shown; }
            else { x.shown = dec(v, s); x.dsv = x.shown; x.lit = x.shown; }
            x.lit = expr(x.lit, true); break; }
        case 'f': case 'd': {
            int64_t q = r.p(.5) ? r.in(-64, 64) : r.in(-500000, 500000);
            if (r.p(.4)) { x.lit = std::to_string(q); x.shown = fl(double(q), c.k == 'f' ? 8 : 16); }
            else { x.lit = dec(q * 125, 3); x.shown = fl(double(q) / 8, c.k == 'f' ? 8 : 16); }
            x.dsv = x.lit; x.lit = expr(x.lit, true); break; }
        case 's': case 'S': {
            std::string s; for (auto n = r.in(0, c.k == 's' ? 4 : 7); n; --n) s += r.of({'a', 'b', 'Z', ' ', ',', '0', ';', '\'', '%'});
            x.shown = '"' + s + '"'; x.dsv = x.shown; x.lit = expr(x.shown, false);
            if (not plain and s.size() > 1 and r.p(.2)) x.lit = '"' + s.substr(0, 1) + "\" .. \"" + s.substr(1) + '"';
            break; }
        case 'D': snprintf(b, sizeof b, "%04d-%02d-%02d", int(r.p(.7) ? r.in(1900, 2100) : r.in(1, 9999)), int(r.in(1, 12)), int(r.in(1, 28))); x.shown = b; x.dsv = b; x.lit = "d'" + x.shown + "'"; break;
        case 'T': snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", int(r.p(.7) ? r.in(1900, 2100) : r.in(1, 9999)), int(r.in(1, 12)), int(r.in(1, 28)), int(r.in(0, 23)), int(r.in(0, 59)), int(r.in(0, 59))); x.shown = b; x.dsv = b; x.lit = "d'" + x.shown + "'"; break;
    }
    return x;
}

/** A value of a type that does not go into a column of kind `k`. */
static std::string wrong(Rng &r, char k)
{
    static const std::pair<const char*, char> all[] = {{"TRUE", 'b'}, {"1 < 2", 'b'}, {"17", 'n'}, {"4.5", 'n'}, {"-1", 'n'}, {"\"text\"", 's'}, {"\"1\"", 's'}, {"\"2020-01-01\"", 's'}, {"d'2020-01-01'", 'D'}, {"d'2020-01-01 00:00:00'", 'T'}};
    const char kind = k == 'b' or k == 'D' or k == 'T' ? k : k == 's' or k == 'S' ? 's' : 'n';
    while (true) { auto &x = all[r.u() % std::size(all)]; if (x.second != kind) return x.first; }
}

/** What one statement must do: print `out` (lines in any order if `rows`), complain or not, and change the model. */
struct Exp { std::string sql; bool fail = false, note = false, rows = false; std::string out; };

struct Grab { std::ostringstream o; std::streambuf *old; Grab() : old(std::cout.rdbuf(o.rdbuf())) { } ~Grab() { std::cout.rdbuf(old); } };
static std::string sorted(const std::string &s)
{
    std::vector<std::string> l; std::istringstream in(s); std::string x; while (std::getline(in, x)) l.push_back(x);
    std::sort(l.begin(), l.end()); std::string t; for (auto &y : l) t += y + "\n"; return t;
}

static ThreadSafePooledString P(const std::string &s) { return Catalog::Get().pool(s.c_str()); }

static bool note_line(const std::string &l) { return l.find(": note: ") != std::string::npos; }

/** The catalog against the model. */
static void verify(const State &M, const std::string &after)
{
    auto &C = Catalog::Get();
    HV_CHECK(C.num_databases() == M.dbs.size(), "catalog-databases", C.num_databases() << " databases instead of " << M.dbs.size() << " after " << after);
    HV_CHECK(C.has_database_in_use() == not M.use.empty(), "catalog-in-use", "a database is " << (M.use.empty() ? "" : "not ") << "in use after " << after);
    if (C.has_database_in_use() and not M.use.empty()) HV_CHECK(std::string(*C.get_database_in_use().name) == M.use, "catalog-in-use", "database " << C.get_database_in_use().name << " is in use after " << after);
    for (auto dn : {"d0", "d1", "d2"}) {
        auto it = M.dbs.find(dn);
        HV_CHECK(C.has_database(P(dn)) == (it != M.dbs.end()), "catalog-databases", "database " << dn << (it == M.dbs.end() ? " exists" : " does not exist") << " after " << after);
        if (it == M.dbs.end() or not C.has_database(P(dn))) continue;
        auto &D = C.get_database(P(dn));
        HV_CHECK(D.size() == it->second.tabs.size(), "catalog-tables", dn << " has " << D.size() << " tables instead of " << it->second.tabs.size() << " after " << after);
        std::set<std::string> seen; for (auto i = D.begin_tables(); i != D.end_tables(); ++i) seen.insert(*i->first);
        for (auto &[tn, t] : it->second.tabs) {
            HV_CHECK(D.has_table(P(tn)) and seen.count(tn), "catalog-tables", "no table " << tn << " in " << dn << " after " << after);
            if (not D.has_table(P(tn))) continue;
            auto &T = D.get_table(P(tn));
            HV_CHECK(std::string(*T.name()) == tn, "catalog-table", "table " << tn << " is named " << T.name());
            HV_CHECK(T.num_attrs() == t.cols.size(), "catalog-table", dn << "." << tn << " has " << T.num_attrs() << " attributes instead of " << t.cols.size() << " after " << after);
            HV_CHECK(T.store().num_rows() == t.rows.size(), "catalog-rows", dn << "." << tn << " has " << T.store().num_rows() << " rows instead of " << t.rows.size() << " after " << after);
            if (T.num_attrs() != t.cols.size()) continue;
            auto pk = T.primary_key(); std::size_t npk = 0, k = 0;
            for (auto a = T.begin(); a != T.end(); ++a, ++k) {
                auto &c = t.cols[k]; std::string w = std::string(dn) + "." + tn + "." + c.name;
                HV_CHECK(std::string(*a->name) == c.name, "catalog-attribute", w << " is named " << a->name);
                auto squeeze = [](std::string x) { x.erase(std::remove(x.begin(), x.end(), ' '), x.end()); return x; };
                std::ostringstream ty; ty << *a->type;
                HV_CHECK(squeeze(ty.str()) == squeeze(c.decl), "catalog-attribute", w << " has type " << ty.str() << " instead of " << c.decl);
                HV_CHECK(a->type->is_vectorial(), "catalog-attribute", w << " has a scalar type");
                HV_CHECK(a->unique == c.unique and a->not_nullable == c.notnull, "catalog-constraint", w << " is " << (a->unique ? "" : "not ") << "unique and " << (a->not_nullable ? "not " : "") << "nullable after " << after);
                bool inpk = false; for (auto &p : pk) inpk |= p.get().name == a->name;
                HV_CHECK(inpk == c.primary, "catalog-constraint", w << " is " << (inpk ? "" : "not ") << "in the primary key after " << after); npk += c.primary;
                HV_CHECK(bool(a->reference) == bool(c.ref), "catalog-reference", w << (a->reference ? " references something" : " references nothing") << " after " << after);
                if (a->reference and c.ref) HV_CHECK(std::string(*a->reference->name) == c.ref->col and std::string(*a->reference->table.name()) == c.ref->tab, "catalog-reference", w << " references " << a->reference->table.name() << "." << a->reference->name << " after " << after);
            }
            HV_CHECK(pk.size() == npk, "catalog-constraint", dn << "." << tn << " has a primary key of " << pk.size() << " attributes after " << after);
            auto S = T.schema(); std::size_t vis = 0;
            for (std::size_t i = 0; i != S.num_entries(); ++i) if (not (S[i].constraints & Schema::entry_type::IS_HIDDEN)) {
                auto &c = t.cols[vis++]; bool ref_unique = false;
                if (c.ref) for (auto &rc : it->second.tabs.at(c.ref->tab).cols) if (rc.name == c.ref->col) { int np = 0; for (auto &o : it->second.tabs.at(c.ref->tab).cols) np += o.primary; ref_unique = rc.unique or (rc.primary and np == 1); }
                HV_CHECK(S[i].nullable() == not c.notnull and S[i].unique() == (c.unique or c.primary) and bool(S[i].constraints & Schema::entry_type::REFERENCES_UNIQUE) == ref_unique, "catalog-schema", "schema of " << dn << "." << tn << " has constraints " << S[i].constraints << " for " << c.name << " after " << after);
            }
        }
        for (int i = 0; i != 4; ++i) {
            std::string n = "i" + std::to_string(i); bool has = it->second.ixs.count(n);
            HV_CHECK(D.has_index(P(n)) == has, "catalog-index", "index " << n << (has ? " is missing in " : " exists in ") << dn << " after " << after);
        }
        for (auto &[tn, t] : it->second.tabs) for (auto &c : t.cols) for (bool rmi : {false, true}) {
            bool want = false; for (auto &[n, x] : it->second.ixs) want |= x.valid and x.tab == tn and x.col == c.name and x.rmi == rmi;
            HV_CHECK(D.has_index(P(tn), P(c.name), rmi ? idx::IndexMethod::Rmi : idx::IndexMethod::Array) == want, "catalog-index", (want ? "no" : "an") << " index is offered for " << dn << "." << tn << "." << c.name << " after " << after);
        }
    }
}

static void histories()
{
    auto &C = Catalog::Get();
    Options::Get().has_color = false;
    std::vector<std::string> layouts; for (auto it = C.data_layouts_begin(); it != C.data_layouts_end(); ++it) layouts.push_back(*it->first);
    std::sort(layouts.begin(), layouts.end());
    const std::string csv = "/tmp/hv-catalog-" + std::to_string(getpid()) + ".csv";
    const std::string sqlfile = "/tmp/hv-catalog-" + std::to_string(getpid()) + ".sql";
    cases([&](Rng &r, uint64_t) {
        State M; std::string log; uint64_t changes = 0;
        const bool api = r.p(.2);      // the library's functions instead of the shell's
        const bool quiet = Options::Get().quiet = r.p(.3);
        C.default_data_layout(P(r.pick(layouts)));
        C.default_store(P(r.of({"PaxStore", "RowStore", "ColumnStore"})));
        const bool mv = r.p(.15);
        { std::unique_ptr<TableFactory> f = std::make_unique<ConcreteTableFactory>(); if (mv) f = C.apply_table_property(P("multi-versioning"), std::move(f)); C.table_factory(std::move(f)); }
        if (mv) log += "(multi-versioning) ";
        auto ms = [&](const std::string &s) { return quiet ? std::string() : s + ".\n"; };
        auto dbname = [&] { return "d" + std::to_string(r.u() % 3); };
        auto tabname = [&] { return std::string(r.of({"t", "u", "v"})); };

        bool noddl = false;   // only what execute_statement supports
        auto gen = [&]() -> Exp {
            Exp e; auto bad = [&] { e.fail = true; return e; };
            Db *D = M.use.empty() ? nullptr : &M.dbs.at(M.use);
            auto what = r.u() % 100;
            if (not D and r.p(.6)) what = r.u() % 12;
            if (what < 6 and (what < 2 or M.dbs.size() < 2)) { auto n = dbname(); e.sql = "CREATE DATABASE " + n; if (M.dbs.count(n)) return bad(); M.dbs[n]; e.out = ms("Created database " + n); return e; }
            if (what < 12) { auto n = dbname(); e.sql = "USE " + n; if (not M.dbs.count(n)) return bad(); M.use = n; e.out = ms("Using database " + n); return e; }
            if (what < 15 and not noddl) { auto n = dbname(); bool ie = r.p(.3); e.sql = std::string("DROP DATABASE ") + (ie ? "IF EXISTS " : "") + n; if (n == M.use) return bad(); if (not M.dbs.count(n)) { if (not ie) return bad(); e.note = true; return e; } M.dbs.erase(n); e.out = ms("Dropped database " + n); return e; }
            if (what < 18) { e.sql = r.of({"SELEC 1", "INSERT INTO t VALUES 1", "CREATE TABLE t ()", "CREATE TABLE t ( x FOO )", "DROP", "INSERT INTO t VALUES (", "UPDATE t SET c0 = 1", "DELETE FROM t", "SELECT c0 FROM", "IMPORT INTO t", "CREATE INDEX i0", "USE", "SELECT nosuch FROM t", "SELECT * FROM nosuch", "INSERT INTO nosuch VALUES (1)", "DROP TABLE nosuch", "SELECT 1 +"}); return bad(); }
            if (not D) { e.sql = r.of({"CREATE TABLE t ( a INT(4) )", "SELECT * FROM t", "INSERT INTO t VALUES (1)", "DROP TABLE t", "CREATE INDEX i0 ON t (a)", "DROP INDEX i0"}); return bad(); }
            auto tn = tabname(); auto it = D->tabs.find(tn);
            if (what < 22 or (it == D->tabs.end() and what < 80)) {
                Tab t; bool broken = false; std::string s; const bool allow_bad = r.p(.15);
                int n = int(r.p(.06) ? r.in(8, 30) : r.in(1, 6)); bool pk = false;
                for (int i = 0; i != n; ++i) {
                    Col c; auto &ty = TY[r.u() % std::size(TY)]; c.name = "c" + std::to_string(i); c.decl = ty.decl; c.k = ty.k;
                    if (allow_bad and i and r.p(.2)) { c.name = "c0"; broken = true; }
                    std::vector<std::string> con;
                    if (not pk and r.p(.12)) { pk = true; c.primary = true; con.push_back(" PRIMARY KEY"); }
                    else if (pk and allow_bad and r.p(.2)) { con.push_back(" PRIMARY KEY"); broken = true; }
                    if (r.p(.15)) { c.unique = true; con.push_back(" UNIQUE"); if (not api and r.p(.1)) { con.push_back(" UNIQUE"); e.note = true; } }
                    if (r.p(.2)) { c.notnull = true; con.push_back(" NOT NULL"); if (not api and r.p(.1)) { con.push_back(" NOT NULL"); e.note = true; } }
                    if (r.p(.1) and c.k >= '1' and c.k <= '8') con.push_back(" CHECK (" + c.name + " < 100000)");
                    else if (allow_bad and r.p(.05)) { con.push_back(r.of({" CHECK (1 + 2)", " CHECK (\"text\")", " CHECK (nosuch)", " CHECK (MIN(1) = 1)"})); broken = true; }
                    if (r.p(.35) and not D->tabs.empty()) {
                        std::vector<Ref> can, other; for (auto &[on, o] : D->tabs) for (auto &oc : o.cols) (oc.decl == c.decl ? can : other).push_back({on, oc.name});
                        auto ref = [](const Ref &x) { return " REFERENCES " + x.tab + "(" + x.col + ")"; };
                        if (allow_bad and r.p(.3)) {
                            switch (r.u() % 4) {
                                case 0: con.push_back(" REFERENCES nosuch(c0)"); broken = true; break;
                                case 1: con.push_back(" REFERENCES " + D->tabs.begin()->first + "(nosuch)"); broken = true; break;
                                case 2: if (not other.empty()) { con.push_back(ref(r.pick(other))); broken = true; } break;
                                default: if (not can.empty()) { con.push_back(ref(r.pick(can))); con.push_back(ref(r.pick(can))); broken = true; }
                            }
                        }
                        else if (not can.empty()) { c.ref = r.pick(can); con.push_back(ref(*c.ref)); }
                    }
                    std::string cons; while (not con.empty()) { auto k = r.u() % con.size(); cons += con[k]; con.erase(con.begin() + long(k)); }
                    s += (i ? ", " : "") + c.name + " " + c.decl + cons; t.cols.push_back(c);
                }
                e.sql = "CREATE TABLE " + tn + " ( " + s + " )";
                if (broken or it != D->tabs.end()) return bad();
                D->tabs[tn] = t; e.out = ms("Created table " + tn); return e;
            }
            if (it == D->tabs.end()) { e.sql = r.of({"SELECT * FROM ", "DROP TABLE ", "CREATE INDEX i0 ON "}) + tn; if (e.sql[0] == 'C') e.sql += " (c0)"; return bad(); }
            auto &t = it->second;
            if (what < 55) {
                std::vector<std::vector<std::string>> fresh; std::string s; int kind = r.p(.12) ? 1 + int(r.u() % 4) : 0; int n = int(r.p(.08) ? r.in(20, 200) : r.in(1, 5)), at = int(r.in(0, n - 1));
                bool broken = false;
                for (int i = 0; i != n; ++i) {
                    std::vector<std::string> row; std::string v;
                    for (auto &c : t.cols) { auto x = value(r, c); if (i == at and kind == 1 and c.notnull and not broken) { x.lit = "NULL"; broken = true; } if (i == at and kind == 2 and not broken) { x.lit = wrong(r, c.k); broken = true; } v += (v.empty() ? "" : ", ") + x.lit; row.push_back(x.shown); }
                    if (i == at and kind == 3) { v += ", 1"; broken = true; }
                    if (i == at and kind == 4) { if (t.cols.size() > 1) { v = "NULL"; broken = true; } }
                    s += (i ? ", (" : "(") + v + ")"; fresh.push_back(row);
                }
                e.sql = "INSERT INTO " + tn + " VALUES " + s;
                if (broken) return bad();
                t.rows.insert(t.rows.end(), fresh.begin(), fresh.end());
                for (auto &[n2, x] : D->ixs) if (x.tab == tn) x.valid = false;
                return e;
            }
            if (what < 62) {
                if (r.p(.15)) { e.sql = "IMPORT INTO " + tn + " DSV \"/tmp/hv-no-such-file.csv\""; return bad(); }
                int n = int(r.p(.2) ? r.in(6, 24) : r.in(0, 5)); long limit = r.p(.3) ? r.in(0, n + 2) : -1;
                const bool header = r.p(.4), skip = r.p(.3);   // a header that is to be skipped exists
                std::string d = r.p(.6) ? "," : r.of({";", "|", "\t", ":", " "}), q = r.p(.7) ? "\"" : r.of({"#", "$", "^"});
                if (r.p(.04)) q = d;
                const bool same = d == q;
                std::string content;
                if (header or skip) { for (auto &c : t.cols) content += (&c == &t.cols[0] ? "" : d) + (skip ? std::string("x") + std::to_string(r.u() % 3) : c.name); content += '\n'; }
                for (int i = 0; i != n; ++i) {
                    std::vector<std::string> row;
                    for (auto &c : t.cols) {
                        auto x = value(r, c, true); if (x.dsv.empty() and c.k == 'b') x.dsv = x.null ? "" : x.lit;
                        if (not x.null and (c.k == 's' or c.k == 'S')) x.dsv = q + x.dsv.substr(1, x.dsv.size() - 2) + q;
                        if (not x.null and (c.k == 'T') and (d == ":" or d == " ")) x.dsv = q + x.dsv + q;
                        content += (&c == &t.cols[0] ? "" : d) + (x.null ? "" : x.dsv); row.push_back(x.shown);
                    }
                    content += '\n';
                    if (not same and (limit < 0 or i < limit)) t.rows.push_back(row);
                }
                { std::ofstream f(csv); f << content; }
                std::string rows; if (limit >= 0) { std::ostringstream o; if (r.p(.3)) o << '0' << std::oct; o << limit; rows = " ROWS " + o.str(); }
                e.sql = "IMPORT INTO " + tn + " DSV \"" + csv + "\"" + rows + (d != "," or r.p(.1) ? " DELIMITER \"" + d + "\"" : "") + (q != "\"" ? " QUOTE \"" + q + "\"" : r.p(.1) ? " QUOTE \"\\\"\"" : "") + (header ? " HAS HEADER" : "") + (skip ? " SKIP HEADER" : "");
                if (same) return bad();
                e.note = skip and not header; count("rows imported", uint64_t(limit < 0 ? n : std::min<long>(limit, n)));
                for (auto &[n2, x] : D->ixs) if (x.tab == tn) x.valid = false;
                return e;
            }
            if (what < 68 and not noddl) {
                Ix x; x.tab = tn; auto &c = r.pick(t.cols); x.col = c.name; x.rmi = r.p(.3); x.valid = true; std::string n = "i" + std::to_string(r.u() % 4); bool ine = r.p(.2);
                bool miss = r.p(.08); if (miss) x.col = "nosuch";
                e.sql = std::string("CREATE INDEX ") + (ine ? "IF NOT EXISTS " : "") + n + " ON " + tn + (x.rmi ? " USING rmi" : r.p(.5) ? " USING array" : "") + " (" + x.col + ")";
                if (D->ixs.count(n)) { if (not ine) return bad(); e.note = true; return e; }
                if (miss or (x.rmi and (c.k == 'b' or c.k == 's' or c.k == 'S'))) return bad();
                D->ixs[n] = x; e.out = ms("Created index " + n); return e;
            }
            if (what < 72 and not noddl) {
                std::set<std::string> ns; for (auto k = r.in(1, 2); k; --k) ns.insert("i" + std::to_string(r.u() % 4)); bool ie = r.p(.3), miss = false; std::string s;
                for (auto &n : ns) { s += (s.empty() ? "" : ", ") + n; miss |= not D->ixs.count(n); }
                e.sql = std::string("DROP INDEX ") + (ie ? "IF EXISTS " : "") + s; if (miss and not ie) return bad(); e.note = miss;
                for (auto &n : ns) if (D->ixs.erase(n)) e.out += ms("Dropped index " + n);
                return e;
            }
            if (what < 78 and not noddl) {
                std::set<std::string> ns{tn}; if (r.p(.4)) ns.insert(tabname()); bool ie = r.p(.3), miss = false; std::string s;
                for (auto &n : ns) { s += (s.empty() ? "" : ", ") + n; miss |= not D->tabs.count(n); }
                e.sql = std::string("DROP TABLE ") + (ie ? "IF EXISTS " : "") + s; if (miss and not ie) return bad(); e.note = miss;
                for (auto &n : ns) if (D->tabs.erase(n)) {
                    e.out += ms("Dropped table " + n);
                    for (auto i = D->ixs.begin(); i != D->ixs.end(); ) if (i->second.tab == n) i = D->ixs.erase(i); else ++i;
                    for (auto &[on, o] : D->tabs) for (auto &c : o.cols) if (c.ref and c.ref->tab == n) c.ref.reset();
                }
                return e;
            }
            e.rows = true;
            std::vector<std::size_t> cols; if (r.p(.6)) { for (std::size_t i = 0; i != t.cols.size(); ++i) cols.push_back(i); e.sql = "SELECT * FROM " + tn; }
            else { std::string s; for (auto k = r.in(1, 4); k; --k) { auto i = r.u() % t.cols.size(); if (std::find(cols.begin(), cols.end(), i) != cols.end()) continue; cols.push_back(i); s += (s.empty() ? "" : ", ") + std::string(r.p(.3) ? tn + "." : "") + t.cols[i].name; } e.sql = "SELECT " + s + " FROM " + tn; }
            for (auto &row : t.rows) { std::string l; for (auto i : cols) l += (l.empty() ? "" : ",") + row[i]; e.out += l + "\n"; }
            if (not quiet) e.out += std::to_string(t.rows.size()) + " rows\n";
            count("rows printed", t.rows.size());
            return e;
        };

        auto note = [&](const std::string &s) { log += s + " "; at(log.size() > 3800 ? log.substr(log.size() - 3800) : log); };
        auto judge = [&](const std::vector<Exp> &es, const std::string &printed, const std::string &err, int nerr, const std::string &path) {
            std::string out, line; { std::istringstream in(printed); while (std::getline(in, line)) if (not note_line(line)) out += line + "\n"; }
            std::string want; bool fail = false, note = false, rows = false;
            for (auto &e : es) { want += e.out; fail |= e.fail; note |= e.note; rows |= e.rows; }
            std::string last = es.back().sql.substr(0, 300);
            if (fail) HV_CHECK(nerr > 0, "statement-accepted", path << " accepts " << last);
            else HV_CHECK(nerr == 0 and (note or err.empty()), "statement-rejected", path << " rejects " << last << ": " << err);
            HV_CHECK(rows ? sorted(out) == sorted(want) : out == want, "statement-output", path << " answers\n" << out.substr(0, 900) << "\ninstead of\n" << want.substr(0, 900) << "\nto " << last);
        };
        if (r.p(.8)) { std::istringstream in("CREATE DATABASE d0; USE d0;"); std::ostringstream o, e; process_stream(in, "-", Diagnostic(false, o, e)); M.dbs["d0"]; M.use = "d0"; log += "CREATE DATABASE d0; USE d0; "; }
        for (int steps = int(r.in(4, 26)); steps; --steps) {
            std::vector<Exp> es; std::string text, path;
            std::ostringstream out, err; int nerr = 0; std::string printed;
            if (api and r.p(.3)) {   // a file of statements, up to the first error
                int n = int(r.in(1, 4)); path = "execute_file"; bool anyfail = false; noddl = true;
                while (n--) { es.push_back(gen()); text += es.back().sql + ";\n"; anyfail |= es.back().fail; if (es.back().sql[0] != 'S') es.back().out.clear(); if (es.back().fail or es.back().rows or es.back().sql.substr(0, 2) == "IM") break; }
                noddl = false; note(text);
                { std::ofstream f(sqlfile); f << text; }
                Grab g; Diagnostic diag(false, out, err);
                try { execute_file(diag, sqlfile); nerr = anyfail ? diag.num_errors() or not err.str().empty() : 0; } catch (const std::exception&) { nerr = 1; }
                printed = g.o.str() + out.str();
                C.timer().clear(); count("files executed");
            } else if (api and r.p(.1) and not M.use.empty() and not M.dbs.at(M.use).tabs.empty()) {
                auto &D = M.dbs.at(M.use); auto &[tn, t] = *D.tabs.begin(); path = "load_from_CSV"; text = "[load_from_CSV " + tn + "]"; note(text);
                bool header = r.p(.4), skip = header and r.p(.5); long limit = r.p(.3) ? r.in(0, 4) : -1, n = r.in(0, 5); std::size_t fresh = 0;
                { std::ofstream f(csv); if (header) { for (auto &c : t.cols) f << (&c == &t.cols[0] ? "" : ",") << (skip ? "x" : c.name); f << '\n'; }
                  for (long i = 0; i != n; ++i) { std::vector<std::string> row; for (auto &c : t.cols) { auto x = value(r, c, true); if (x.dsv.empty() and c.k == 'b') x.dsv = x.null ? "" : x.lit; f << (&c == &t.cols[0] ? "" : ",") << (x.null ? "" : x.dsv); row.push_back(x.shown); } f << '\n'; if (limit < 0 or i < limit) { t.rows.push_back(row); ++fresh; } } }
                for (auto &[n2, x] : D.ixs) if (x.tab == tn) x.valid = false;
                es.push_back(Exp{text}); Diagnostic diag(false, out, err);
                try { load_from_CSV(diag, C.get_database_in_use().get_table(P(tn)), csv, limit < 0 ? std::numeric_limits<std::size_t>::max() : std::size_t(limit), header, skip); } catch (const std::exception &) { nerr = 1; }
                C.timer().clear(); count("rows loaded", fresh);
            } else if (api) {
                es.push_back(gen()); auto &e = es[0]; text = e.sql + ";"; note(text); path = "execute_statement";
                Grab g; Diagnostic diag(false, out, err);
                try {
                    if (e.sql.substr(0, 4) == "DROP" or e.sql.substr(0, 12) == "CREATE INDEX") {
                        auto cmd = command_from_string(diag, text); Scheduler::Transaction t; t.start_time(1); cmd->transaction(&t); cmd->execute(diag);
                        if (e.note) err.str("");
                    } else { auto stmt = statement_from_string(diag, text); execute_statement(diag, *stmt, false); if (e.sql[0] != 'S') e.out.clear(); }   // these functions announce nothing
                    nerr = int(diag.num_errors()) or not err.str().empty();
                } catch (const m::exception &) { nerr = 1; } catch (const std::exception &) { nerr = 1; }
                printed = g.o.str() + out.str();
                C.timer().clear();
            } else if (not mv and r.p(.5)) {
                es.push_back(gen()); text = es[0].sql + ";"; note(text); path = "the command interface";
                Grab g; Diagnostic diag(false, out, err);
                try { auto cmd = command_from_string(diag, text); Scheduler::Transaction t; t.start_time(1 + int64_t(changes)); cmd->transaction(&t); cmd->execute(diag); nerr = int(diag.num_errors()) or (not err.str().empty() and not es[0].note); }
                catch (const m::exception&) { nerr = 1; }
                printed = g.o.str() + out.str();
            } else {   // the shell reads several statements at once; imports read one file, so they end the group
                int n = int(r.in(1, 4)); bool anyfail = false; path = "the shell";
                while (n--) { es.push_back(gen()); text += es.back().sql + r.of({";", ";\n", " ;  ", ";;"}); anyfail |= es.back().fail; if (es.back().sql[0] == 'I' and es.back().sql[1] == 'M') break; if (es.back().fail or es.back().rows) break; }
                note(text);
                Grab g; std::istringstream in(text);
                process_stream(in, "-", Diagnostic(false, out, err));
                nerr = anyfail ? not err.str().empty() : 0;
                printed = out.str() + g.o.str();   // rows are printed to the standard output
                C.timer().clear();
            }
            judge(es, printed, err.str(), nerr, path);
            verify(M, text.substr(0, 300));
            for (auto &e : es) { changes += not e.fail; count(e.fail ? "statements refused" : "statements executed"); }
            if (Nat::get().fails) { C.unset_database_in_use(); for (auto n : {"d0", "d1", "d2"}) if (C.has_database(P(n))) C.drop_database(P(n)); return; }
        }
        /*----- the contents of every table, at the end -----*/
        for (auto &[dn, D] : M.dbs) {
            C.set_database_in_use(C.get_database(P(dn)));
            for (auto &[tn, t] : D.tabs) {
                std::ostringstream out, err; std::string printed; std::string sql = "SELECT * FROM " + tn + ";"; note("[" + dn + "] " + sql);
                { Grab g; std::istringstream in(sql); process_stream(in, "-", Diagnostic(false, out, err)); printed = out.str() + g.o.str(); }
                std::string want; for (auto &row : t.rows) { std::string l; for (auto &x : row) l += (l.empty() ? "" : ",") + x; want += l + "\n"; } if (not quiet) want += std::to_string(t.rows.size()) + " rows\n";
                HV_CHECK(sorted(printed) == sorted(want), "contents", dn << "." << tn << " has\n" << printed.substr(0, 900) << "\ninstead of\n" << want.substr(0, 900) << "\n" << err.str().substr(0, 200));
                count("tables read back");
            }
        }
        C.unset_database_in_use();
        for (auto &[dn, D] : M.dbs) C.drop_database(P(dn));
        C.timer().clear();
        ok(hash(log), changes > 2); sample(log);
    });
    unlink(csv.c_str()); unlink(sqlfile.c_str());
}

int main(int argc, char **argv) { m::init(); return nat_main(argc, argv, {{"histories", histories}}); }
