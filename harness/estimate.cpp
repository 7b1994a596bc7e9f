// Cardinality estimators: every estimate against a model computed from the rows, the injected file, and the query.
#include "nat.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <cmath>
#include <fstream>
#include <optional>
#include <set>
#include <sstream>
#include <unistd.h>

using namespace m;
using namespace hv;
using S = SmallBitset;
using u64 = uint64_t;
static unsigned below(Rng &r, u64 n) { return unsigned(r.u() % n); }
static ThreadSafePooledString P(const std::string &s) { return Catalog::Get().pool(s.c_str()); }
static u64 mul(u64 a, u64 b) { unsigned __int128 p = (unsigned __int128)a * b; return p >> 64 ? ~u64(0) : u64(p); }
static u64 limited(u64 n, u64 limit, u64 offset) { return offset > n ? 0 : std::min(n - offset, limit); }

/*----- Databases ----------------------------------------------------------------------------------------------------*/
struct Col { std::string name; char k; bool primary = false; };      // 'i'nt, 'b'ool, 'f'loat, 's'tring
using Row = std::vector<std::optional<double>>;
struct Tab { std::string name; std::vector<Col> cols; std::vector<Row> rows; };
struct Src { const Tab *t; std::string alias; const std::string &name() const { return alias.empty() ? t->name : alias; } };

static std::string lit(const Col &c, const std::optional<double> &v)
{
    if (not v) return "NULL";
    if (c.k == 'b') return *v ? "TRUE" : "FALSE";
    if (c.k == 's') return '"' + std::string(1, char('a' + int(*v))) + '"';
    std::ostringstream o; o << std::fixed; o.precision(c.k == 'f' ? 3 : 0); o << *v; return o.str();
}

static void sql(Diagnostic &diag, std::ostringstream &err, const std::string &text)
{
    auto stmt = statement_from_string(diag, text);
    execute_statement(diag, *stmt);
    HV_CHECK(err.str().empty(), "setup", text << ": " << err.str());
}

static std::vector<Tab> make_db(Rng &r, Diagnostic &diag, std::ostringstream &err, unsigned max_rows, bool typed)
{
    Catalog::Clear();
    auto &C = Catalog::Get();
    C.default_cardinality_estimator(P("CartesianProduct"));
    C.set_database_in_use(C.add_database(P("db")));
    std::vector<Tab> T(1 + below(r, 5));
    std::vector<std::string> names{ "A", "B", "Ab", "AB", "a", "b", "r_1", "zz", "T", "X9" };
    r.shuffle(names);
    for (std::size_t i = 0; i != T.size(); ++i) {
        auto &t = T[i];
        t.name = names[i];
        unsigned n = 1 + below(r, 4);
        for (unsigned c = 0; c != n; ++c) t.cols.push_back({ std::string(1, char('k' + c)), typed and r.p(.35) ? r.of({ 'b', 'f', 's' }) : 'i' });
        int pk = r.p(.6) ? int(below(r, n)) : -1;
        if (pk >= 0 and t.cols[pk].k == 'i' and n > 1) t.cols[pk].primary = true;
        std::string q = "CREATE TABLE " + t.name + " (";
        for (auto &c : t.cols) q += (&c == &t.cols[0] ? "" : ", ") + c.name + (c.k == 'i' ? " INT(4)" : c.k == 'b' ? " BOOL" : c.k == 'f' ? " DOUBLE" : " CHAR(1)") + (c.primary ? " PRIMARY KEY" : "");
        sql(diag, err, q + ");");
        unsigned m = r.p(.08) ? 0 : r.p(.2) ? 1 + below(r, 3) : 1 + below(r, max_rows);
        std::vector<unsigned> dom; std::vector<double> nulls;
        for (unsigned c = 0; c != n; ++c) { dom.push_back(r.p(.2) ? 1 : r.p(.5) ? 2 + below(r, 4) : 2 + below(r, 40)); nulls.push_back(r.p(.6) ? 0 : r.p(.7) ? .2 : .9); }
        q = "INSERT INTO " + t.name + " VALUES ";
        for (unsigned j = 0; j != m; ++j) {
            Row row;
            unsigned base = below(r, 8);
            for (unsigned c = 0; c != n; ++c) {
                auto &col = t.cols[c];
                if (col.primary) row.push_back(double(j));
                else if (r.p(nulls[c])) row.push_back(std::nullopt);
                else if (col.k == 'b') row.push_back(below(r, std::min(dom[c], 2u)));
                else if (col.k == 's') row.push_back(below(r, std::min(dom[c], 20u)));
                else if (col.k == 'f') row.push_back(below(r, 1000 * dom[c]) / 1000.);
                else row.push_back(double(c % 2 ? base % dom[c] : below(r, dom[c])) - double(dom[c] / 3));
            }
            q += j ? ", (" : "(";
            for (unsigned c = 0; c != n; ++c) q += (c ? ", " : "") + lit(t.cols[c], row[c]);
            q += ")";
            t.rows.push_back(std::move(row));
        }
        if (m) sql(diag, err, q + ";");
    }
    return T;
}

struct Pred { std::string text; unsigned col; int op; double v; bool supported; };
static const char *OP[] = { "=", "<", "<=", ">", ">=", "!=" };
static bool holds(int op, double x, double v) { switch (op) { case 0: return x == v; case 1: return x < v; case 2: return x <= v; case 3: return x > v; case 4: return x >= v; default: return x != v; } }
static int flip(int op) { switch (op) { case 1: return 3; case 2: return 4; case 3: return 1; case 4: return 2; default: return op; } }
static int inverse(int op) { switch (op) { case 0: return 5; case 1: return 4; case 2: return 3; case 3: return 2; case 4: return 1; default: return 0; } }

struct Qry
{
    std::vector<Src> src;
    std::vector<std::vector<Pred>> filters;             ///< per source
    struct Join { unsigned a, b, ca, cb; bool equi; std::string text; };
    std::vector<Join> joins;
    struct Group { unsigned s, c; std::string text, alias; bool plain; };
    std::vector<Group> groups;
    std::string text;
};

static Pred predicate(Rng &r, const Src &s, unsigned c)
{
    auto &col = s.t->cols[c];
    const std::string d = s.name() + "." + col.name;
    Pred p; p.col = c; p.supported = not col.primary;
    p.op = col.k == 's' or col.k == 'b' ? r.of({ 0, 5 }) : int(below(r, 6));
    std::optional<double> v = s.t->rows.empty() ? std::optional<double>(1.) : s.t->rows[r.u() % s.t->rows.size()][c];
    p.v = v ? *v : double(below(r, 2));
    if (col.k == 'i' and r.p(.3)) p.v += r.in(-2, 2);
    std::string l = lit(col, p.v);
    bool half = col.k == 'i' and r.p(.15);
    if (half) { p.v += .5; std::ostringstream o; o << std::fixed; o.precision(1); o << p.v; l = o.str(); }
    if (l[0] == '-') l = "(" + l + ")";
    const bool negative = p.v < 0;
    int shown = p.op;
    const bool negate = r.p(.25);
    if (negate) shown = inverse(shown);
    const bool swap = r.p(.3);
    if (swap) shown = flip(shown);
    p.text = swap ? l + " " + OP[shown] + " " + d : d + " " + OP[shown] + " " + l;
    if (negate) p.text = "NOT (" + p.text + ")";
    /* `NOT (a = 1)` becomes an unsupported `!=`; negative numbers are expressions, boolean equalities formulas; strings are not estimated. */
    if (p.op == 5 or negative or col.k == 's' or col.k == 'b') p.supported = false;
    if (r.p(.08)) { p.text = "(" + p.text + " OR " + d + " = " + lit(col, p.v < 0 ? 1. : half ? std::floor(p.v) + 1 : p.v) + ")"; p.supported = false; }
    else if (r.p(.05) and col.k == 'i') { p.text = d + " + 1 > 0"; p.supported = false; }
    return p;
}

static Qry make_query(Rng &r, const std::vector<Tab> &T)
{
    Qry Q;
    unsigned n = 1 + below(r, 5);
    std::set<std::string> used;
    for (unsigned i = 0; i != n; ++i) {
        Src s{ &T[r.u() % T.size()], "" };
        if (used.count(s.t->name) or r.p(.35)) { do s.alias = std::string(r.of({ "q", "A", "B", "zz", "u", "M" })) + (r.p(.5) ? std::to_string(below(r, 9)) : ""); while (used.count(s.alias)); }
        if (not used.insert(s.name()).second) { --i; if (used.size() > 20) break; continue; }
        Q.src.push_back(s);
        Q.filters.emplace_back();
        if (r.p(.6)) {
            std::vector<unsigned> order(s.t->cols.size());
            for (unsigned c = 0; c != order.size(); ++c) order[c] = c;
            r.shuffle(order);
            for (unsigned c = 0, k = 1 + below(r, order.size()); c != k; ++c) Q.filters.back().push_back(predicate(r, s, order[c]));
        }
    }
    auto ref = [&](unsigned s, unsigned c) { return Q.src[s].name() + "." + Q.src[s].t->cols[c].name; };
    std::set<std::pair<unsigned, unsigned>> pairs;
    for (unsigned i = 1; i < Q.src.size(); ++i) {
        unsigned j = below(r, i);
        unsigned a = i, b = j;
        if (r.p(.5)) std::swap(a, b);
        unsigned ca = below(r, Q.src[a].t->cols.size()), cb = below(r, Q.src[b].t->cols.size());
        auto num = [&](unsigned s, unsigned c) { return Q.src[s].t->cols[c].k == 'i'; };
        if (not num(a, ca) or not num(b, cb) or r.p(.1)) continue;
        pairs.insert({ std::min(a, b), std::max(a, b) });
        bool equi = r.p(.8);
        Q.joins.push_back({ a, b, ca, cb, equi, ref(a, ca) + (equi ? " = " : r.of({ " < ", " >= ", " != " })) + ref(b, cb) });
    }
    if (r.p(.6)) for (unsigned k = 1 + below(r, 3); k; --k) {
        unsigned s = below(r, Q.src.size()), c = below(r, Q.src[s].t->cols.size());
        bool dup = false;
        for (auto &g : Q.groups) dup |= g.s == s and g.c == c;
        if (dup) continue;
        bool plain = Q.src[s].t->cols[c].k != 'i' or r.p(.85);
        Q.groups.push_back({ s, c, plain ? ref(s, c) : ref(s, c) + " + 1", r.p(.4) or not plain ? "g" + std::to_string(k) : "", plain });
    }
    Q.text = "SELECT ";
    if (Q.groups.empty()) Q.text += r.p(.3) ? "COUNT()" : "1";
    else Q.text += "COUNT()";
    Q.text += " FROM ";
    for (auto &s : Q.src) Q.text += (&s == &Q.src[0] ? "" : ", ") + s.t->name + (s.alias.empty() ? "" : " AS " + s.alias);
    std::vector<std::string> where;
    for (auto &f : Q.filters) for (auto &p : f) where.push_back(p.text);
    for (auto &j : Q.joins) where.push_back(j.text);
    r.shuffle(where);
    for (auto &w : where) Q.text += (&w == &where[0] ? " WHERE " : " AND ") + w;
    if (not Q.groups.empty()) Q.text += " GROUP BY ";
    for (auto &g : Q.groups) Q.text += (&g == &Q.groups[0] ? "" : ", ") + g.text + (g.alias.empty() ? "" : " AS " + g.alias);
    Q.text += ";";
    return Q;
}

struct Case
{
    std::ostringstream out, err;
    Diagnostic diag{ false, out, err };
    std::vector<Tab> T;
    Qry Q;
    std::unique_ptr<ast::Stmt> stmt;
    std::unique_ptr<QueryGraph> G;
    std::vector<unsigned> pos;                           ///< position of the i-th source in `Q`

    bool build(Rng &r, unsigned max_rows, bool typed) {
        T = make_db(r, diag, err, max_rows, typed);
        return query(r);
    }
    bool query(Rng &r) {
        Q = make_query(r, T);
        at(Q.text);
        stmt = statement_from_string(diag, Q.text);
        HV_CHECK(diag.num_errors() == 0, "setup", Q.text << ": " << err.str());
        if (diag.num_errors()) return false;
        G = QueryGraph::Build(*stmt);
        pos.clear();
        for (auto &s : Q.src) {
            unsigned k = 0;
            while (k != G->num_sources() and std::string(*G->sources()[k]->name().assert_not_none()) != s.name()) ++k;
            if (k == G->num_sources()) return false;
            pos.push_back(k);
        }
        return true;
    }
    cnf::CNF condition(S left, S right) const {
        cnf::CNF c;
        for (auto &j : G->joins()) {
            S js;
            for (auto &ds : j->sources()) js |= S::Singleton(ds.get().id());
            if (js.is_subset(left | right) and not (js & left).empty() and not (js & right).empty()) c = c and j->condition();
        }
        return c;
    }
    cnf::CNF condition_all(S all) const {
        cnf::CNF c;
        for (auto &j : G->joins()) {
            S js;
            for (auto &ds : j->sources()) js |= S::Singleton(ds.get().id());
            if (js.is_subset(all)) c = c and j->condition();
        }
        return c;
    }
};

static u64 amount(Rng &r, u64 n) { switch (below(r, 6)) { case 0: return 0; case 1: return n; case 2: return n + 1; case 3: return n ? n - 1 : 0; case 4: return r.of({ ~u64(0), u64(1), u64(1) << 63 }); default: return below(r, 2 * std::min<u64>(n, 1u << 30) + 2); } }

struct Mod { std::unique_ptr<DataModel> dm; S s; u64 n; };

template<typename PT_t, typename CE_t>
static u64 join_all(const CE_t &CE, const Case &c, std::vector<Mod> &base, S all)
{
    PT_t PT(*c.G);
    std::vector<std::pair<S, unsigned>> back;
    for (unsigned i = 0; i != base.size(); ++i) { PT[base[i].s].model = std::move(base[i].dm); back.emplace_back(base[i].s, i); }
    cnf::CNF cond = c.condition_all(all);
    u64 n = CE.predict_cardinality(*CE.estimate_join_all(*c.G, PT, all, cond));
    for (auto [s, i] : back) base[i].dm = std::move(PT[s].model);
    return n;
}
template<typename CE_t>
static u64 any_join_all(Rng &r, const CE_t &CE, const Case &c, std::vector<Mod> &base, S all)
{
    return r.p(.5) ? join_all<PlanTableSmallOrDense>(CE, c, base, all) : join_all<PlanTableLargeAndSparse>(CE, c, base, all);
}

static std::string bits(S s) { std::string o = "{"; for (auto i : s) o += (o.size() > 1 ? "," : "") + std::to_string(i); return o + "}"; }

/*----- Cartesian products and injected cardinalities ----------------------------------------------------------------*/
struct File { std::string text; std::map<std::string, u64> table; unsigned warned = 0; };

static std::string jesc(const std::string &s) { std::string o = "\""; for (char ch : s) { if (ch == '"' or ch == '\\') o += '\\'; o += ch; } return o + "\""; }

static File make_file(Rng &r, const Case &c, const std::vector<std::string> &gids)
{
    File F;
    int kind = r.p(.9) ? 0 : 1 + int(below(r, 6));
    switch (kind) {
        case 1: F.text = r.of({ "", "{", "[1,", "{\"db\": [}", "nonsense" }); F.warned = 1; return F;
        case 2: F.text = "{\"other\": [{\"relations\": [\"" + c.T[0].name + "\"], \"size\": 7}]}"; F.warned = 1; return F;
        case 3: F.text = r.of({ "[]", "17", "\"db\"", "[{\"relations\": [\"A\"], \"size\": 7}]", "null" }); F.warned = 1; return F;
        case 4: F.text = "{\"db\": []}"; return F;
        case 5: F.text = r.of({ "{\"db\": 17}", "{\"db\": \"A\"}", "{\"db\": true}" }); F.warned = 1; return F;
        default: break;
    }
    std::vector<std::string> names;
    for (auto &s : c.Q.src) names.push_back(s.name());
    for (auto &t : c.T) if (r.p(.2)) names.push_back(t.name);
    std::string entries;
    auto add = [&](const std::string &e) { entries += (entries.empty() ? "" : ", ") + e; };
    for (unsigned k = 1 + below(r, 14); k; --k) {
        std::vector<std::string> rel;
        if (not gids.empty() and r.p(.25)) rel.push_back(gids[r.u() % gids.size()]);
        else { double p = r.of({ .2, .5, .8, 1. }); std::set<std::string> seen; for (auto &n : names) if (r.p(p) and seen.insert(n).second) rel.push_back(n); r.shuffle(rel); }
        std::string j = "[";
        for (auto &x : rel) j += (&x == &rel[0] ? "" : ", ") + jesc(x);
        j += "]";
        u64 size = r.p(.1) ? r.of({ u64(0), u64(1), ~u64(0), u64(1) << 63, u64(1) << 40, u64(1) << 32 }) : r.p(.5) ? below(r, 30) : below(r, 100000);
        std::string sz = std::to_string(size);
        if (r.p(.15) and size < (u64(1) << 40)) sz += r.of({ ".0", ".5", ".999" });
        else if (r.p(.05)) { size = 300; sz = r.of({ "3e2", "3E+2" }); }
        if (r.p(.13)) {
            switch (below(r, 7)) {
                case 0: add("{\"relations\": " + j + "}"); break;
                case 1: add("{\"size\": " + sz + "}"); break;
                case 2: add("{\"relations\": " + j + ", \"size\": " + r.of({ "\"12\"", "null", "[1]", "-5", "-0.5", "1e40", "true", "{}" }) + "}"); break;
                case 3: add(std::string("{\"relations\": ") + r.of({ "\"A\"", "null", "[1, 2]", "{}", "[[\"A\"]]", "[null]" }) + ", \"size\": " + sz + "}"); break;
                case 4: add(r.of({ "null", "1", "\"x\"", "[]", "{}" })); break;
                case 5: add("{\"relation\": " + j + ", \"size\": " + sz + "}"); break;
                default: add("{\"relations\": " + j + ", \"Size\": " + sz + "}"); break;
            }
            ++F.warned; count("malformed entries");
            continue;
        }
        std::sort(rel.begin(), rel.end());
        std::string id;
        for (auto &x : rel) id += (&x == &rel[0] ? "" : "$") + x;
        if (F.table.emplace(id, size).second) count("injected entries"); else { ++F.warned; count("duplicate entries"); }
        add(r.p(.5) ? "{\"relations\": " + j + ", \"size\": " + sz + "}" : "{\"note\": 1, \"size\": " + sz + ", \"relations\": " + j + "}");
    }
    F.text = "{\"other\": [], \"db\": [" + entries + "]}";
    return F;
}

static std::size_t lines(const std::string &s, const std::string &needle) { std::size_t n = 0; for (auto p = s.find(needle); p != s.npos; p = s.find(needle, p + 1)) ++n; return n; }

static void limit_and_group(Rng &r, const CardinalityEstimator &CE, const Case &c, const Mod &m, const std::map<std::string, u64> *table, const std::string &who)
{
    for (int k = 0; k != 2; ++k) {
        u64 l = amount(r, m.n), o = r.p(.4) ? 0 : amount(r, m.n);
        u64 n = CE.predict_cardinality(*CE.estimate_limit(*c.G, *m.dm, l, o));
        HV_CHECK(n == limited(m.n, l, o), "limit", who << " estimates " << n << " rows for LIMIT " << l << " OFFSET " << o << " of " << m.n);
    }
    u64 g = CE.predict_cardinality(*CE.estimate_grouping(*c.G, *m.dm, c.G->group_by()));
    u64 want = m.n;
    if (table) {
        if (c.Q.groups.empty()) want = 1;
        else {
            std::string id = "g";
            for (auto &x : c.Q.groups) id += "#" + (x.alias.empty() ? x.text : x.alias);
            if (auto it = table->find(id); it != table->end()) { want = std::min(m.n, it->second); count("injected groupings"); }
        }
    }
    HV_CHECK(g == want, "grouping", who << " estimates " << g << " instead of " << want << " groups of " << m.n << " rows in " << c.Q.text);
}

template<typename CE_t>
static void check_tree(Rng &r, const CE_t &CE, Case &c, const std::map<std::string, u64> *table, const std::string &who)
{
    auto &G = *c.G;
    auto id_of = [&](S s) {
        std::vector<std::string> names; for (auto i : s) names.push_back(*G.sources()[i]->name().assert_not_none());
        std::sort(names.begin(), names.end());
        std::string id; for (auto &x : names) id += (&x == &names[0] ? "" : "$") + x; return id;
    };
    auto lookup = [&](const std::string &id) -> std::optional<u64> { if (not table) return {}; auto it = table->find(id); return it == table->end() ? std::nullopt : std::optional<u64>(it->second); };

    HV_CHECK(CE.predict_cardinality(*CE.empty_model()) == 0, "empty", who << " estimates rows of the empty set");
    std::vector<Mod> base;
    for (unsigned q = 0; q != c.Q.src.size(); ++q) {
        S s = S::Singleton(c.pos[q]);
        auto dm = CE.estimate_scan(G, s);
        u64 n = CE.predict_cardinality(*dm), want = lookup(c.Q.src[q].name()).value_or(c.Q.src[q].t->rows.size());
        HV_CHECK(n == want, "scan", who << " estimates " << n << " rows of " << c.Q.src[q].name() << " instead of " << want);
        auto fm = CE.estimate_filter(G, *dm, G.sources()[c.pos[q]]->filter());
        u64 f = CE.predict_cardinality(*fm);
        HV_CHECK(f == n, "filter", who << " estimates " << f << " filtered rows of " << n);
        dm = std::move(fm);
        if (r.p(.2)) { u64 l = amount(r, n); dm = CE.estimate_limit(G, *dm, l, 0); n = limited(n, l, 0); HV_CHECK(CE.predict_cardinality(*dm) == n, "limit", who << " LIMIT " << l); }
        base.push_back({ std::move(dm), s, n });
        limit_and_group(r, CE, c, base.back(), table, who);
    }
    /*----- All at once. ---------------------------------------------------------------------------------------------*/
    for (int k = 0; k != 2; ++k) {
        S all; u64 product = 1;
        for (auto &b : base) if (k == 0 or r.p(.6)) { all |= b.s; product = mul(product, b.n); }
        if (all.empty()) continue;
        u64 n = any_join_all(r, CE, c, base, all), want = std::min(lookup(id_of(all)).value_or(product), product);
        HV_CHECK(n == want, "join-all", who << " estimates " << n << " instead of " << want << " rows for joining " << id_of(all) << " (product " << product << ")");
        count("joins of all");
    }
    /*----- One by one, in a random order. ---------------------------------------------------------------------------*/
    std::vector<Mod> work = std::move(base);
    while (work.size() > 1) {
        r.shuffle(work);
        Mod b = std::move(work.back()); work.pop_back();
        Mod a = std::move(work.back()); work.pop_back();
        auto dm = CE.estimate_join(G, *a.dm, *b.dm, c.condition(a.s, b.s));
        S s = a.s | b.s;
        u64 n = CE.predict_cardinality(*dm), product = mul(a.n, b.n), want = std::min(lookup(id_of(s)).value_or(product), product);
        HV_CHECK(n == want, "join", who << " estimates " << n << " instead of " << want << " rows for the join of " << bits(a.s) << " with " << a.n << " and " << bits(b.s) << " with " << b.n << " rows, " << id_of(s));
        if (lookup(id_of(s))) count("injected joins");
        if (product == ~u64(0)) count("saturated joins");
        if (r.p(.15)) { dm->assign_to(s); HV_CHECK(CE.predict_cardinality(*dm) == n, "assign", who << " changes its estimate on assignment"); }
        work.push_back({ std::move(dm), s, n });
        limit_and_group(r, CE, c, work.back(), table, who);
        count("joins");
    }
}

static void inject()
{
    Options::Get().quiet = true;
    cases([&](Rng &r, u64) {
        Case c;
        if (not c.build(r, 30, true)) return;
        std::string id = "g";
        for (auto &x : c.Q.groups) id += "#" + (x.alias.empty() ? x.text : x.alias);
        std::vector<std::string> gids; if (not c.Q.groups.empty()) gids.push_back(id);
        CartesianProductEstimator CPE;
        check_tree(r, CPE, c, nullptr, "CartesianProduct");
        for (int k = 0; k != 2; ++k) {
            File F = make_file(r, c, gids);
            at(c.Q.text + "  " + F.text);
            std::ostringstream o, e;
            Diagnostic d(false, o, e);
            std::istringstream in(F.text);
            InjectionCardinalityEstimator ICE(d, P("db"), in);
            std::size_t w = lines(e.str(), "warning");
            HV_CHECK(w == F.warned and d.num_errors() == 0, "warnings", w << " warnings instead of " << F.warned << " for " << F.text << ": " << e.str());
            check_tree(r, ICE, c, &F.table, "Injected");
            if (k == 0 and r.p(.2)) {                     // another database does not use the entries
                std::istringstream in2(F.text);
                InjectionCardinalityEstimator other(d, P("another"), in2);
                check_tree(r, other, c, std::vector<std::map<std::string, u64>>(1).data(), "Injected for another database");
            }
            if (k == 0 and r.p(.2)) {                     // by file
                std::string path = "cards." + std::to_string(getpid()) + ".json";
                std::ofstream(path) << F.text;
                auto &C = Catalog::Get();
                const char *argv[] = { "x", "--use-cardinality-file", path.c_str(), nullptr };
                C.arg_parser().parse_args(3, argv);
                std::ostringstream cap; auto *ob = std::cout.rdbuf(cap.rdbuf()), *eb = std::cerr.rdbuf(cap.rdbuf());
                auto E = C.create_cardinality_estimator(P("Injected"), P("db"));
                std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
                unlink(path.c_str());
                check_tree(r, static_cast<InjectionCardinalityEstimator&>(*E), c, &F.table, "Injected from file");
                count("files");
            }
        }
        ok(hash(c.Q.text), c.Q.src.size() > 1);
        sample(c.Q.text);
        Catalog::Get().timer().clear();
    });
}

/** Large cardinalities: products saturate. */
static void large()
{
    Options::Get().quiet = true;
    cases([&](Rng &r, u64) {
        Case c;
        if (not c.build(r, 3, false)) return;
        File F; F.text = "{\"db\": [";
        for (auto &s : c.Q.src) {
            u64 n = r.p(.1) ? r.of({ u64(0), u64(1), ~u64(0) }) : u64(1) << below(r, 64);
            if (r.p(.5)) n = std::max<u64>(n, 1) - 1 + below(r, 3);
            if (not F.table.emplace(s.name(), n).second) continue;
            F.text += (F.table.size() > 1 ? ", " : "") + std::string("{\"relations\": [") + jesc(s.name()) + "], \"size\": " + std::to_string(n) + "}";
        }
        F.text += "]}";
        at(c.Q.text + "  " + F.text);
        std::istringstream in(F.text);
        InjectionCardinalityEstimator ICE(c.diag, P("db"), in);
        HV_CHECK(c.err.str().empty(), "warnings", c.err.str());
        check_tree(r, ICE, c, &F.table, "Injected");
        CartesianProductEstimator CPE;
        using DM = CartesianProductEstimator::CartesianProductDataModel;
        std::vector<u64> sizes; u64 product = 1; auto acc = std::make_unique<DM>(1);
        for (unsigned k = 2 + below(r, 5); k; --k) {
            u64 n = r.p(.1) ? 0 : (u64(1) << below(r, 40)) + below(r, 5); product = mul(product, n); sizes.push_back(n);
            auto next = CPE.estimate_join(*c.G, *acc, DM(n), cnf::CNF());
            acc = std::make_unique<DM>(CPE.predict_cardinality(*next));
            HV_CHECK(acc->size == product, "join", "CartesianProduct estimates " << acc->size << " instead of " << product << " rows");
        }
        ok(hash(c.Q.text + F.text), c.Q.src.size() > 1);
        Catalog::Get().timer().clear();
    });
}

/*----- Sum-product networks -----------------------------------------------------------------------------------------*/
static u64 matching(const Tab &t, const Pred &p) { u64 n = 0; for (auto &row : t.rows) n += row[p.col] and holds(p.op, *row[p.col], p.v); return n; }
static u64 distinct(const Tab &t, unsigned c) { std::set<double> s; for (auto &row : t.rows) if (row[c]) s.insert(*row[c]); return s.size(); }

static void spn()
{
    Options::Get().quiet = true;
    cases([&](Rng &r, u64) {
        Case c;
        if (not c.build(r, r.p(.1) ? 400 : 80, true)) return;
        SpnEstimator E(P("db"));
        { std::ostringstream cap; auto *ob = std::cout.rdbuf(cap.rdbuf()); E.learn_spns(); std::cout.rdbuf(ob); }
        const bool grown = r.p(.15);
        auto learned = c.T;                              // the rows at the time of learning
        if (grown) for (auto &t : c.T) {                  // estimates describe the rows learned
            std::string q = "INSERT INTO " + t.name + " VALUES (";
            for (auto &col : t.cols) q += (&col == &t.cols[0] ? "" : ", ") + lit(col, col.k == 'i' ? 1000. : 1.);
            sql(c.diag, c.err, q + ");");
        }
        for (int again = 0; again != 4; ++again) {
            if (again and not c.query(r)) return;
            auto &G = *c.G; auto &Q = c.Q;
            auto card = [&](const std::unique_ptr<DataModel> &m) -> u64 { return E.predict_cardinality(*m); };
            HV_CHECK(card(E.empty_model()) == 0, "empty", "Spn estimates rows of the empty set");
            std::vector<Mod> base, scans;
            for (unsigned q = 0; q != Q.src.size(); ++q) {
                auto &src = Q.src[q]; auto &t = *src.t;
                const u64 rows = t.rows.size();
                S s = S::Singleton(c.pos[q]);
                auto scan = E.estimate_scan(G, s);
                HV_CHECK(card(scan) == rows, "scan", "Spn estimates " << card(scan) << " rows of " << src.name() << " learned from " << rows);
                /*----- Filters. -------------------------------------------------------------------------------------*/
                auto filtered = E.estimate_filter(G, *scan, G.sources()[c.pos[q]]->filter());
                const u64 f = card(filtered);
                u64 upper = rows; unsigned supported = 0; bool all_discrete = true; u64 exact = rows;
                for (auto &p : Q.filters[q]) if (p.supported) {
                    ++supported;
                    u64 n = matching(t, p);
                    const bool disc = t.cols[p.col].k != 'f';
                    all_discrete &= disc;
                    if (disc) upper = std::min(upper, n), exact = n;
                }
                const u64 slack = 1 + rows / 1000;
                HV_CHECK(f <= upper + (supported ? slack : 0), "filter", "Spn estimates " << f << " rows of " << src.name() << " where a predicate matches only " << upper << " of " << rows << ": " << Q.text);
                HV_CHECK(f <= rows, "filter-more", "Spn estimates " << f << " filtered rows of " << rows);
                if (supported == 0) HV_CHECK(f == rows, "filter-none", "Spn estimates " << f << " of " << rows << " rows of " << src.name() << " without a predicate it can represent: " << Q.text);
                if (supported == 1 and all_discrete) { HV_CHECK(f + slack >= exact, "filter", "Spn estimates " << f << " rows of " << src.name() << " where the predicate matches " << exact << " of " << rows << ": " << Q.text); count("exact filters"); }
                if (supported > 1) count("conjunctions");
                /*----- Limits and groups of the scan and the filtered scan. ---------------------------------------------*/
                for (int k = 0; k != 2; ++k) {
                    u64 l = amount(r, f), o = r.p(.4) ? 0 : amount(r, f);
                    u64 n = card(E.estimate_limit(G, *filtered, l, o));
                    HV_CHECK(n == limited(f, l, o), "limit", "Spn estimates " << n << " rows for LIMIT " << l << " OFFSET " << o << " of " << f);
                }
                scans.push_back({ std::move(scan), s, rows });
                base.push_back({ std::move(filtered), s, f });
            }
            /*----- Joins. -----------------------------------------------------------------------------------------------*/
            std::vector<const Qry::Join*> on(Q.src.size() * Q.src.size(), nullptr);
            for (auto &j : Q.joins) {
                auto &a = base[j.a], &b = base[j.b];
                auto cond = c.condition(a.s, b.s);
                u64 ab = card(E.estimate_join(G, *a.dm, *b.dm, cond)), ba = card(E.estimate_join(G, *b.dm, *a.dm, cond)), product = mul(a.n, b.n);
                HV_CHECK(ab == ba, "join-symmetric", "Spn estimates " << ab << " rows for " << j.text << " but " << ba << " with the inputs swapped");
                HV_CHECK(ab <= product, "join-product", "Spn estimates " << ab << " rows for " << j.text << " of " << a.n << " and " << b.n << " rows");
                if (not j.equi) HV_CHECK(ab == product, "join-other", "Spn estimates " << ab << " instead of " << product << " rows for " << j.text);
                else {
                    auto &ta = *Q.src[j.a].t; auto &tb = *Q.src[j.b].t;
                    /* Bounds by the most and least frequent values that are possible for the estimated distinct values. */
                    auto most = [](const Tab &t, unsigned col, u64 n) -> std::pair<u64, u64> {
                        if (t.cols[col].primary) return { 1, 1 };
                        u64 d = distinct(t, col);
                        return { 1, std::max<u64>(d ? n / d : 1, 1) };
                    };
                    auto fa = most(ta, j.ca, a.n), fb = most(tb, j.cb, b.n);
                    u64 hi = ~u64(0);
                    hi = std::min(hi, std::min(mul(a.n, fb.second), mul(b.n, fa.second)));
                    HV_CHECK(ab <= hi, "join-frequency", "Spn estimates " << ab << " rows for " << j.text << " of " << a.n << " and " << b.n << " rows with at most " << fa.second << " and " << fb.second << " equal values: " << Q.text);
                    if (ta.cols[j.ca].primary and tb.cols[j.cb].primary) { HV_CHECK(ab == std::min(a.n, b.n), "join-keys", "Spn estimates " << ab << " rows for joining keys of " << a.n << " and " << b.n << " rows"); count("key joins"); }
                }
                u64 all = any_join_all(r, E, c, base, a.s | b.s);
                bool several = false;
                for (auto &k : Q.joins) several |= &k != &j and std::min(k.a, k.b) == std::min(j.a, j.b) and std::max(k.a, k.b) == std::max(j.a, j.b);
                if (not several) HV_CHECK(all == ab, "join-all-two", "Spn estimates " << all << " rows for joining all of two and " << ab << " for their join " << j.text);
                count("pairs");
            }
            /*----- All, and one by one. ---------------------------------------------------------------------------------*/
            {
                S all; u64 product = 1;
                for (auto &b : base) { all |= b.s; product = mul(product, b.n); }
                u64 n = any_join_all(r, E, c, base, all);
                HV_CHECK(n <= product, "join-all-product", "Spn estimates " << n << " rows for joining all of a product of " << product << ": " << Q.text);
                bool equi = false;
                for (auto &j : Q.joins) equi |= j.equi;
                if (not equi) { HV_CHECK(n == product, "join-all-none", "Spn estimates " << n << " instead of " << product << " rows without equi join: " << Q.text); count("products"); }
            }
            /*----- Groups of scans. -------------------------------------------------------------------------------------*/
            auto groups_of = [&](std::vector<unsigned> which) { std::vector<CardinalityEstimator::group_type> g; for (auto i : which) g.push_back(G.group_by()[i]); return g; };
            HV_CHECK(card(E.estimate_grouping(G, *base[0].dm, {})) == 1, "grouping-none", "Spn does not estimate a single group without keys");
            for (unsigned k = 0; k != Q.groups.size(); ++k) {
                auto &g = Q.groups[k]; auto &t = *Q.src[g.s].t;
                u64 n = card(E.estimate_grouping(G, *scans[g.s].dm, groups_of({ k }))), rows = t.rows.size();
                if (not g.plain) { HV_CHECK(n == rows, "grouping-composed", "Spn estimates " << n << " groups of " << rows << " rows by " << g.text); continue; }
                u64 d = distinct(t, g.c);
                HV_CHECK(n <= rows and n >= (t.cols[g.c].k == 's' ? std::min<u64>(d, 1) : d), "grouping", "Spn estimates " << n << " groups by " << g.text << " with " << d << " values in " << rows << " rows");
                if (t.cols[g.c].primary or t.cols[g.c].k == 'f') HV_CHECK(n == rows, "grouping-key", "Spn estimates " << n << " groups by " << g.text << " of " << rows << " rows");
                u64 m = card(E.estimate_grouping(G, *base[g.s].dm, groups_of({ k })));
                HV_CHECK(m == std::min(n, base[g.s].n), "grouping-clamp", "Spn estimates " << m << " groups of " << base[g.s].n << " rows with " << n << " values");
                count("single groups");
            }
            std::vector<Mod> work = std::move(base);
            while (work.size() > 1) {
                r.shuffle(work);
                Mod b = std::move(work.back()); work.pop_back();
                Mod a = std::move(work.back()); work.pop_back();
                auto cond = c.condition(a.s, b.s);
                auto dm = E.estimate_join(G, *a.dm, *b.dm, cond);
                u64 n = card(dm), product = mul(a.n, b.n);
                bool equi = false;
                for (auto &j : Q.joins) {
                    S sa = S::Singleton(c.pos[j.a]), sb = S::Singleton(c.pos[j.b]);
                    equi |= j.equi and ((sa.is_subset(a.s) and sb.is_subset(b.s)) or (sb.is_subset(a.s) and sa.is_subset(b.s)));
                }
                if (not equi) HV_CHECK(n == product, "join-other", "Spn estimates " << n << " instead of " << product << " rows for a product: " << Q.text);
                if ((a.n == 0 or b.n == 0)) HV_CHECK(n == 0, "join-empty", "Spn estimates " << n << " rows for a join with an empty input: " << Q.text);
                S s = a.s | b.s;
                work.push_back({ std::move(dm), s, n });
                u64 g = card(E.estimate_grouping(G, *work.back().dm, G.group_by()));
                HV_CHECK(g <= n or Q.groups.empty(), "grouping-clamp", "Spn estimates " << g << " groups of " << n << " joined rows");
                u64 f = card(E.estimate_limit(G, *work.back().dm, 3, 1));
                HV_CHECK(f == limited(n, 3, 1), "limit", "Spn estimates " << f << " rows for LIMIT 3 OFFSET 1 of " << n);
                count("joins");
            }
            /*----- All groups: the product of their numbers, at most the rows. ----------------------------------------------*/
            if (Q.groups.size() > 1 and work.size() == 1) {
                u64 want = 1; bool plain = true;
                std::vector<unsigned> all;
                for (unsigned k = 0; k != Q.groups.size(); ++k) {
                    all.push_back(k); plain &= Q.groups[k].plain;
                    if (plain) want = mul(want, card(E.estimate_grouping(G, *scans[Q.groups[k].s].dm, groups_of({ k }))));
                }
                u64 n = card(E.estimate_grouping(G, *work[0].dm, groups_of(all))), rows = work[0].n;
                bool nulls = false;                       // a column of NULLs has no value, but one group
                if (plain and not nulls) HV_CHECK(n == std::min(want, rows), "grouping-product", "Spn estimates " << n << " groups instead of " << std::min(want, rows) << " of " << rows << " rows: " << Q.text);
                else HV_CHECK(n == rows, "grouping-composed", "Spn estimates " << n << " groups of " << rows << " rows: " << Q.text);
                count("several groups");
            }
            ok(hash(Q.text), Q.src.size() > 1 or not Q.filters[0].empty());
            sample(Q.text);
        }
        Catalog::Get().timer().clear();
    });
}

int main(int argc, char **argv)
{
    m::init();
    return nat_main(argc, argv, { { "inject", inject }, { "large", large }, { "spn", spn } });
}
