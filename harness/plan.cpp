// Join graphs of queries, plan tables, plan enumerators: against brute force.
#include "graph.hpp"
#include <cmath>
#include <mutable/mutable.hpp>
#include <mutable/catalog/CostFunctionCout.hpp>
#include <mutable/IR/PlanEnumerator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/Options.hpp>
#include <optional>
#include <set>
#include <sstream>
#include "IR/PartialPlanGenerator.hpp"

/*----- estimators and cost functions ---------------------------------------------------------------------------------*/
struct Model : DataModel { u64 s; double size; Model(u64 s, double size) : s(s), size(size) { } void assign_to(Subproblem x) override { s = u64(x); } };

struct Est : CardinalityEstimatorCRTP<Est> {
    std::function<double(u64)> f;
    std::unique_ptr<DataModel> mk(u64 s) const { return std::make_unique<Model>(s, f(s)); }
    static const Model & of(const DataModel &m) { return static_cast<const Model&>(m); }
    std::unique_ptr<DataModel> empty_model() const override { return std::make_unique<Model>(0, 0); }
    std::unique_ptr<DataModel> estimate_scan(const QueryGraph&, Subproblem P) const override { return mk(u64(P)); }
    std::unique_ptr<DataModel> estimate_filter(const QueryGraph&, const DataModel &d, const cnf::CNF&) const override { return mk(of(d).s); }
    std::unique_ptr<DataModel> estimate_limit(const QueryGraph&, const DataModel &d, const std::size_t, const std::size_t) const override { return mk(of(d).s); }
    std::unique_ptr<DataModel> estimate_grouping(const QueryGraph&, const DataModel &d, const std::vector<group_type>&) const override { return mk(of(d).s); }
    std::unique_ptr<DataModel> estimate_join(const QueryGraph&, const DataModel &l, const DataModel &r, const cnf::CNF&) const override {
        HV_CHECK((of(l).s & of(r).s) == 0, "estimate-overlap", "join of overlapping subproblems " << bits(of(l).s) << " " << bits(of(r).s));
        return mk(of(l).s | of(r).s);
    }
    template<typename PT> std::unique_ptr<DataModel> operator()(estimate_join_all_tag, PT &&, const QueryGraph&, Subproblem s, const cnf::CNF&) const { return mk(u64(s)); }
    std::size_t predict_cardinality(const DataModel &d) const override { return std::size_t(of(d).size); }
    void print(std::ostream &o) const override { o << "Est"; }
};

/** A cost that is not commutative and differs for every join. */
struct CostRand : CostFunctionCRTP<CostRand> {
    u64 seed = 0, range = 1000;
    double own(u64 l, u64 r) const { return double(mix(mix(seed, l), r) % range); }
    template<typename PT> double operator()(calculate_filter_cost_tag, const PT &, const QueryGraph &, const CardinalityEstimator &, Subproblem, const cnf::CNF &) const { return 0; }
    template<typename PT> double operator()(calculate_join_cost_tag, const PT &P, const QueryGraph &, const CardinalityEstimator &, Subproblem l, Subproblem r, const cnf::CNF &) const { return own(u64(l), u64(r)) + P[l].cost + P[r].cost; }
    template<typename PT> double operator()(calculate_grouping_cost_tag, const PT &, const QueryGraph &, const CardinalityEstimator &, Subproblem, const std::vector<const ast::Expr*> &) const { return 0; }
};

struct problem {
    graph g;
    std::unique_ptr<ast::Stmt> stmt;
    std::unique_ptr<QueryGraph> G;
    std::function<double(u64)> card;
    std::function<double(u64, u64)> own; ///< cost of one join
    std::vector<double> opt; ///< without Cartesian products
    std::string desc;
};

static Est *the_est;
static constexpr std::size_t MAXN = 13;

static void make_db() {
    auto &C = Catalog::Get();
    auto &DB = C.add_database(C.pool("db"));
    C.set_database_in_use(DB);
    for (std::size_t i = 0; i != MAXN; ++i) {
        auto &T = DB.add_table(C.pool(("t" + std::to_string(i)).c_str()));
        for (std::size_t j = 0; j != MAXN; ++j) T.push_back(C.pool(("c" + std::to_string(j)).c_str()), Type::Get_Integer(Type::TY_Vector, 4));
        T.layout(C.data_layout());
        T.store(C.create_store(T));
    }
    auto e = std::make_unique<Est>();
    the_est = e.get();
    DB.cardinality_estimator(std::move(e));
}

static problem make_problem(Rng &r, std::size_t n, bool independent = false) {
    problem p;
    p.g = rand_graph(r, n);
    std::string q = "SELECT t0.c0 FROM ";
    for (std::size_t i = 0; i != n; ++i) q += (i ? ", t" : "t") + std::to_string(i);
    std::vector<std::string> conds;
    for (std::size_t i = 0; i != n; ++i) for (std::size_t j = i + 1; j != n; ++j) if (p.g.adj[i] >> j & 1) {
        for (int k = r.p(.1) ? 2 : 1; k; --k) {
            std::string a = "t" + std::to_string(i) + ".c" + std::to_string(j), b = "t" + std::to_string(j) + ".c" + std::to_string(r.in(0, MAXN - 1));
            if (r.p(.5)) std::swap(a, b);
            conds.push_back(a + (r.p(.8) ? " = " : " < ") + b);
        }
    }
    r.shuffle(conds);
    for (std::size_t i = 0; i != conds.size(); ++i) q += (i ? " AND " : " WHERE ") + conds[i];
    std::ostringstream out, err;
    Diagnostic diag(false, out, err);
    p.stmt = statement_from_string(diag, q + ";");
    if (diag.num_errors()) { fail("query-rejected", err.str() + " for " + q); return p; }
    p.G = QueryGraph::Build(*p.stmt);
    /* cardinalities */
    const u64 seed = r.u();
    auto h = [seed](u64 s) { return mix(seed, s); };
    const auto &g = p.g;
    switch (independent ? 4 : r.in(0, 4)) {
        case 0: p.desc = "arbitrary"; p.card = [=](u64 s) { return double(h(s) % 100000); }; break;
        case 1: p.desc = "many ties"; p.card = [=](u64 s) { return double(h(s) % 3); }; break;
        case 2: p.desc = "monotone"; p.card = [=](u64 s) { double x = 0; for (; s; s &= s - 1) x += double(h(s & -s) % 1000); return x; }; break;
        default: { // independence: product of cardinalities and selectivities
            p.desc = "independent";
            const graph gg = g;
            p.card = [=](u64 s) {
                double x = 1;
                for (u64 y = s; y; y &= y - 1) {
                    const u64 v = y & -y;
                    x *= double(1 + h(v) % 1000);
                    for (u64 z = gg.adj[__builtin_ctzll(v)] & s & (v - 1); z; z &= z - 1) x /= double(1 + h(v * 64 + __builtin_ctzll(z)) % 800);
                }
                return std::floor(std::min(x, 1e12)) + 1;
            };
        }
    }
    return p;
}

static void solve(problem &p, bool cout_) {
    const u64 all = p.g.all();
    if (cout_) p.own = [&p](u64 l, u64 r) { return p.card(l | r); };
    p.opt.assign(all + 1, std::numeric_limits<double>::infinity());
    for (u64 s = 1; s <= all; ++s) {
        if (not (s & (s - 1))) { p.opt[s] = 0; continue; }
        if (not p.g.conn(s)) continue;
        for (u64 a = (s - 1) & s; a; a = (a - 1) & s) {
            const u64 b = s ^ a;
            if (std::isinf(p.opt[a]) or std::isinf(p.opt[b])) continue;
            p.opt[s] = std::min(p.opt[s], p.own(a, b) + (p.opt[a] + p.opt[b]));
        }
    }
}

static bool close(double a, double b) { return a == b or (std::isfinite(a) and std::isfinite(b) and std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b))); }

template<typename PT> static void init_table(const problem &p, PT &T) {
    for (std::size_t i = 0; i != p.g.n; ++i) { T[S(1ull << i)].cost = 0; T[S(1ull << i)].model = the_est->estimate_scan(*p.G, S(1ull << i)); }
}

/** Checks the tree of the final plan and returns its cost, recomputed. */
template<typename PT> static double tree(const problem &p, const PT &T, u64 s, bool products, const std::string &who, bool &deep) {
    if (not (s & (s - 1))) return 0;
    if (not T.has_plan(S(s))) { fail(who + ":no-plan", "no plan for " + bits(s) + " " + p.desc); return -1; }
    auto &e = T[S(s)];
    const u64 l = u64(e.left), r = u64(e.right);
    if ((l & r) or (l | r) != s or not l or not r) { fail(who + ":not-a-partition", bits(s) + " by " + bits(l) + " and " + bits(r) + " " + p.desc); return -1; }
    if (not products and (not p.g.conn(l) or not p.g.conn(r))) { fail(who + ":cartesian-product", bits(s) + " by " + bits(l) + " and " + bits(r) + " " + p.desc); return -1; }
    if ((l & (l - 1)) and (r & (r - 1))) deep = false;
    const double cl = tree(p, T, l, products, who, deep), cr = tree(p, T, r, products, who, deep);
    if (cl < 0 or cr < 0) return -1;
    const double c = p.own(l, r) + (cl + cr);
    if (not close(c, e.cost)) { std::ostringstream o; o << "entry of " << bits(s) << " says " << e.cost << ", its plan costs " << c << " " << p.desc; fail(who + ":wrong-cost", o.str()); return -1; }
    return c;
}

static std::set<std::set<u64>> shape_of(const std::map<u64, std::pair<u64, u64>> &t) { std::set<std::set<u64>> s; for (auto &[k, v] : t) s.insert({k}); return s; }
template<typename PT> static void joins(const PT &T, u64 s, std::set<u64> &out) { if (s & (s - 1)) { out.insert(s); joins(T, u64(T[S(s)].left), out); joins(T, u64(T[S(s)].right), out); } }

/** The joins of greedy operator ordering, if no step is a tie. */
static std::optional<std::set<u64>> goo(const problem &p) {
    std::vector<u64> nodes; for (std::size_t i = 0; i != p.g.n; ++i) nodes.push_back(1ull << i);
    std::set<u64> out;
    while (nodes.size() > 1) {
        double best = std::numeric_limits<double>::infinity(); int ties = 0; std::size_t x = 0, y = 0;
        for (std::size_t i = 0; i != nodes.size(); ++i) for (std::size_t j = i + 1; j != nodes.size(); ++j) if (p.g.neigh(nodes[i]) & nodes[j]) {
            double c = p.card(nodes[i] | nodes[j]);
            if (c < best) { best = c; ties = 0; x = i; y = j; } else if (c == best) ++ties;
        }
        if (ties) return {};
        nodes[x] |= nodes[y]; nodes.erase(nodes.begin() + y); out.insert(nodes[x]);
    }
    return out;
}
static std::optional<std::set<u64>> tdgoo(const problem &p) {
    std::vector<u64> work{p.g.all()};
    std::set<u64> out;
    while (not work.empty()) {
        u64 s = work.back(); work.pop_back();
        if (not (s & (s - 1))) continue;
        out.insert(s);
        double best = std::numeric_limits<double>::infinity(); int ties = 0; u64 l = 0;
        for (u64 a = (s - 1) & s; a; a = (a - 1) & s) if (a < (s ^ a) and p.g.conn(a) and p.g.conn(s ^ a)) {
            double c = p.card(a) + p.card(s ^ a);
            if (c < best) { best = c; ties = 0; l = a; } else if (c == best) ++ties;
        }
        if (ties) return {};
        work.push_back(l); work.push_back(s ^ l);
    }
    return out;
}

/** All forests whose trees are parts of the plan for `s`, that cover `s`: the whole tree, or one forest for each child. */
template<typename PT> static std::set<std::vector<u64>> forests(const PT &T, u64 s) {
    std::set<std::vector<u64>> out{{s}};
    if (not (s & (s - 1))) return out;
    const auto L = forests(T, u64(T[S(s)].left)), R = forests(T, u64(T[S(s)].right));
    for (auto &l : L) for (auto &r : R) { auto f = l; f.insert(f.end(), r.begin(), r.end()); std::sort(f.begin(), f.end()); out.insert(std::move(f)); }
    return out;
}
template<typename PT> static void partial(problem &p, const PT &T, const std::string &who) {
    const auto expect = forests(T, p.g.all());
    std::set<std::vector<u64>> got;
    PartialPlanGenerator{}.for_each_complete_partial_plan(T, [&](const PartialPlanGenerator::partial_plan_type &P) {
        std::vector<u64> f; for (auto s : P) f.push_back(u64(s));
        std::sort(f.begin(), f.end());
        HV_CHECK(expect.count(f), "partial-plan-wrong", f.size() << " trees, the plan of " << who << " " << p.desc);
        HV_CHECK(got.insert(f).second, "partial-plan-twice", f.size() << " trees, the plan of " << who << " " << p.desc);
    });
    HV_CHECK(got.size() == expect.size(), "partial-plan-missing", got.size() << " of " << expect.size() << " partial plans, the plan of " << who << " " << p.desc);
    /* As text, also when it is not the first. */
    std::ostringstream o;
    PartialPlanGenerator{}.write_partial_plans_JSON(o, *p.G, T, [&](PartialPlanGenerator::callback_type cb) { PartialPlanGenerator{}.for_each_complete_partial_plan(T, cb); });
    auto text = [&](u64 s, auto &self) -> std::string {
        if (not (s & (s - 1))) { std::ostringstream n; n << p.G->sources()[__builtin_ctzll(s)]->name(); return n.str(); }
        return "@ " + self(u64(T[S(s)].left), self) + " " + self(u64(T[S(s)].right), self);
    };
    std::multiset<std::vector<std::string>> lines, lines_want;
    for (auto &f : expect) { std::vector<std::string> l; for (u64 s : f) l.push_back(text(s, text)); std::sort(l.begin(), l.end()); lines_want.insert(l); }
    const std::string js = o.str(); std::size_t i = 0; bool valid = true;
    auto skip = [&] { while (i < js.size() and isspace((unsigned char)js[i])) ++i; };
    auto eat = [&](char c) { skip(); if (i < js.size() and js[i] == c) { ++i; return true; } return false; };
    valid = eat('[');
    if (valid and not eat(']')) do {
        std::vector<std::string> l;
        valid = eat('[');
        if (valid) do {
            valid = eat('"'); std::string w; while (valid and i < js.size() and js[i] != '"') w += js[i++];
            valid = valid and eat('"'); l.push_back(w);
        } while (valid and eat(','));
        valid = valid and eat(']');
        std::sort(l.begin(), l.end()); lines.insert(l);
        if (valid and eat(']')) break;
        valid = valid and eat(',');
    } while (valid);
    skip();
    HV_CHECK(valid and i == js.size(), "partial-plan-json-invalid", js.substr(0, 300));
    HV_CHECK(lines == lines_want, "partial-plan-json-wrong", js.substr(0, 300));
    count("partial plans", got.size()); if (got.size() > 20) count("plans with more than 20 partial plans");
}

template<typename PT> static void enum_one(problem &p, const std::string &name, const CostFunction &CF, const std::string &tab, double *ikkbz) {
    auto &C = Catalog::Get();
    PT T(*p.G);
    init_table(p, T);
    C.plan_enumerator(C.pool(name.c_str()))(*p.G, CF, T);
    const std::string who = name;
    const u64 all = p.g.all();
    bool deep = true;
    const double c = tree(p, T, all, name == "PEall", who, deep);
    if (c < 0) return;
    if (p.g.n <= 8) partial(p, T, who);
    static const std::set<std::string> complete{"DPccp", "DPsize", "DPsizeOpt", "DPsizeSub", "DPsub", "DPsubOpt"}, topdown{"TDbasic", "TDMinCutAGaT"};
    if (complete.count(name) or topdown.count(name)) {
        HV_CHECK(close(c, p.opt[all]), who + ":not-optimal", "cost " << c << " instead of " << p.opt[all] << " with " << tab << " " << p.desc);
        for (u64 s = 1; s <= all; ++s) if (s & (s - 1)) {
            const bool has = T.has_plan(S(s));
            if (not p.g.conn(s)) { if (has) { fail(who + ":disconnected", "plan for " + bits(s) + " " + p.desc); break; } continue; }
            if (complete.count(name) and not has) { fail(who + ":subproblem-missing", "no plan for " + bits(s) + " " + p.desc); break; }
            if (has and not close(T[S(s)].cost, p.opt[s])) { fail(who + ":subproblem-not-optimal", bits(s) + " " + p.desc); break; }
        }
    } else if (name == "PEall") {
        std::vector<double> o(all + 1, std::numeric_limits<double>::infinity());
        for (u64 s = 1; s <= all; ++s) {
            if (not (s & (s - 1))) { o[s] = 0; continue; }
            for (u64 a = (s - 1) & s; a; a = (a - 1) & s) o[s] = std::min(o[s], p.own(a, s ^ a) + (o[a] + o[s ^ a]));
        }
        HV_CHECK(close(c, o[all]), who + ":not-optimal", "cost " << c << " instead of " << o[all] << " " << p.desc);
    } else {
        HV_CHECK(c > p.opt[all] or close(c, p.opt[all]), who + ":impossible", "cost " << c << " below the optimum " << p.opt[all]);
        if (name == "IKKBZ") { HV_CHECK(deep, who + ":not-linear", "bushy plan " << p.desc); *ikkbz = c; }
        if (name == "LinearizedDP") HV_CHECK(c <= *ikkbz or close(c, *ikkbz), who + ":worse-than-ikkbz", c << " > " << *ikkbz << " " << p.desc);
        std::set<u64> js; joins(T, all, js);
        if (name == "GOO") if (auto e = goo(p)) { count("greedy plans compared"); HV_CHECK(js == *e, who + ":not-greedy", p.desc); }
        if (name == "TDGOO") if (auto e = tdgoo(p)) { count("greedy plans compared"); HV_CHECK(js == *e, who + ":not-greedy", p.desc); }
    }
    count("plans:" + name);
}

static const char *ENUMS[] = {"DPccp", "DPsize", "DPsizeOpt", "DPsizeSub", "DPsub", "DPsubOpt", "GOO", "TDGOO", "IKKBZ", "LinearizedDP", "TDbasic", "TDMinCutAGaT", "PEall"};

static void enumerators() {
    make_db();
    cases([](Rng &r, u64) {
        const std::size_t n = r.p(.1) ? r.in(1, 2) : r.p(.1) ? r.in(8, Nat::get().thorough ? 10 : 9) : r.in(3, 7);
        at("n=" + std::to_string(n));
        problem p = make_problem(r, n);
        if (not p.G) return;
        at(p.g.show() + " " + p.desc);
        the_est->f = p.card;
        const AdjacencyMatrix &M = p.G->adjacency_matrix();
        HV_CHECK(p.G->num_sources() == n, "graph-sources", p.G->num_sources());
        for (std::size_t i = 0; i != n; ++i) for (std::size_t j = 0; j != n; ++j) HV_CHECK(bool(M(i, j)) == bool(p.g.adj[i] >> j & 1), "graph-edge", i << "-" << j << " of the join graph of the query");
        CostFunctionCout Cout; CostRand Crand;
        const bool asym = r.p(.5);
        Crand.seed = r.u(); Crand.range = r.of({2, 20, 100000});
        if (asym) { p.own = [&](u64 a, u64 b) { return Crand.own(a, b); }; p.desc += " asymmetric cost"; }
        solve(p, not asym);
        const CostFunction &CF = asym ? static_cast<const CostFunction&>(Crand) : Cout;
        double ikkbz[2] = {0, 0};
        for (auto e : ENUMS) {
            if (n > 8 and (std::string(e) == "PEall" or std::string(e) == "DPsize")) continue;
            at(p.g.show() + " " + p.desc + " " + e);
            enum_one<PlanTableSmallOrDense>(p, e, CF, "dense", &ikkbz[0]);
            enum_one<PlanTableLargeAndSparse>(p, e, CF, "sparse", &ikkbz[1]);
        }
        count("shape:" + p.g.shape); count("card:" + p.desc);
        ok(mix(hash(p.g.show()), r.u()), n > 2);
    });
}

/*----- heuristic search -----------------------------------------------------------------------------------------------*/
struct hs_conf { const char *expand, *heuristic, *search; };
static const hs_conf CONFS[] = {
    {"BottomUpComplete", "zero", "AStar"}, {"BottomUpComplete", "zero", "AStar_with_cbp"}, {"BottomUpComplete", "zero", "beam_search"}, {"BottomUpComplete", "zero", "beam_search_with_cbp"},
    {"BottomUpComplete", "zero", "dynamic_beam_search"}, {"BottomUpComplete", "zero", "anytimeAStar"}, {"BottomUpComplete", "zero", "weighted_anytimeAStar"}, {"BottomUpComplete", "zero", "anytimeAStar_with_cbp"},
    {"BottomUpComplete", "zero", "weighted_anytimeAStar_with_cbp"},
    {"BottomUpComplete", "sum", "AStar"}, {"BottomUpComplete", "sum", "AStar_with_cbp"}, {"BottomUpComplete", "sum", "weighted_AStar"}, {"BottomUpComplete", "sum", "lazyAStar"}, {"BottomUpComplete", "sum", "beam_search"},
    {"BottomUpComplete", "sum", "dynamic_beam_search"}, {"BottomUpComplete", "sum", "anytimeAStar"}, {"BottomUpComplete", "sum", "weighted_anytimeAStar"}, {"BottomUpComplete", "sum", "anytimeAStar_with_cbp"},
    {"BottomUpComplete", "sum", "weighted_anytimeAStar_with_cbp"},
    {"BottomUpComplete", "scaled_sum", "AStar"}, {"BottomUpComplete", "scaled_sum", "beam_search"}, {"BottomUpComplete", "scaled_sum", "dynamic_beam_search"},
    {"BottomUpComplete", "avg_sel", "AStar"}, {"BottomUpComplete", "avg_sel", "beam_search"}, {"BottomUpComplete", "product", "AStar"},
    {"BottomUpComplete", "GOO", "AStar"}, {"BottomUpComplete", "GOO", "AStar_with_cbp"}, {"BottomUpComplete", "GOO", "weighted_AStar"}, {"BottomUpComplete", "GOO", "beam_search"}, {"BottomUpComplete", "GOO", "dynamic_beam_search"},
    {"BottomUpComplete", "GOO", "anytimeAStar"}, {"BottomUpComplete", "GOO", "weighted_anytimeAStar"}, {"BottomUpComplete", "GOO", "anytimeAStar_with_cbp"}, {"BottomUpComplete", "GOO", "weighted_anytimeAStar_with_cbp"},
    {"TopDownComplete", "zero", "AStar"}, {"TopDownComplete", "zero", "AStar_with_cbp"}, {"TopDownComplete", "zero", "beam_search"}, {"TopDownComplete", "zero", "dynamic_beam_search"}, {"TopDownComplete", "zero", "anytimeAStar"},
    {"TopDownComplete", "zero", "weighted_anytimeAStar"}, {"TopDownComplete", "zero", "anytimeAStar_with_cbp"}, {"TopDownComplete", "zero", "weighted_anytimeAStar_with_cbp"}, {"TopDownComplete", "sqrt_sum", "AStar"},
    {"TopDownComplete", "sum", "AStar"}, {"TopDownComplete", "sum", "AStar_with_cbp"}, {"TopDownComplete", "sum", "weighted_AStar"}, {"TopDownComplete", "sum", "beam_search"}, {"TopDownComplete", "sum", "dynamic_beam_search"},
    {"TopDownComplete", "sum", "anytimeAStar"}, {"TopDownComplete", "sum", "weighted_anytimeAStar"}, {"TopDownComplete", "sum", "anytimeAStar_with_cbp"}, {"TopDownComplete", "sum", "weighted_anytimeAStar_with_cbp"},
    {"TopDownComplete", "GOO", "AStar"}, {"TopDownComplete", "GOO", "AStar_with_cbp"}, {"TopDownComplete", "GOO", "weighted_AStar"}, {"TopDownComplete", "GOO", "beam_search"}, {"TopDownComplete", "GOO", "dynamic_beam_search"},
    {"TopDownComplete", "GOO", "anytimeAStar"}, {"TopDownComplete", "GOO", "weighted_anytimeAStar"}, {"TopDownComplete", "GOO", "anytimeAStar_with_cbp"}, {"TopDownComplete", "GOO", "weighted_anytimeAStar_with_cbp"},
};

template<typename PT> static void hs_one(problem &p, const hs_conf &c, const CostFunction &CF, bool bounded, const std::string &who) {
    auto &C = Catalog::Get();
    PT T(*p.G);
    init_table(p, T);
    C.plan_enumerator(C.pool("HeuristicSearch"))(*p.G, CF, T);
    const u64 all = p.g.all();
    bool deep = true;
    const double cost = tree(p, T, all, false, who, deep);
    if (cost < 0) return;
    HV_CHECK(cost > p.opt[all] or close(cost, p.opt[all]), who + ":impossible", "cost " << cost << " below the optimum " << p.opt[all]);
    const std::string h = c.heuristic, s = c.search;
    const bool admissible = h == "zero" or (h == "sum" and c.expand[0] == 'T');
    const bool complete = s == "AStar" or s == "lazyAStar" or s == "AStar_with_cbp" or (bounded == false and s.find("anytime") != s.npos);
    if (admissible and complete) { count("optimal searches"); HV_CHECK(close(cost, p.opt[all]), who + ":not-optimal", "cost " << cost << " instead of " << p.opt[all] << " " << p.desc); }
}

/** One configuration per process: the options cannot be reset. */
static void hs() {
    make_db();
    auto &C = Catalog::Get();
    auto &N = Nat::get();
    const std::size_t idx = std::stoull(N.opt.at("conf"));
    const hs_conf &c = CONFS[idx / 2 % (sizeof(CONFS) / sizeof(*CONFS))];
    const bool second = idx % 2;
    const std::string s = c.search;
    const bool anytime = s.find("anytime") != s.npos, weighted = s.find("weighted") != s.npos, cbp = s.find("cbp") != s.npos;
    static std::vector<std::string> a{"x", "--hs-expand", c.expand, "--hs-heuristic", c.heuristic, "--hs-search", c.search, "--quiet"};
    Rng r0(mix(N.seed, idx));
    bool weights = false;
    if (second) {
        if (anytime) { a.push_back("--hs-budget"); a.push_back(std::to_string(r0.of({1, 2, 5, 20, 100}))); }
        if (weighted and r0.p(.5)) { a.push_back("--hs-wf"); a.push_back(r0.of({"2", "0.5", "10"})); weights = true; }
        if (cbp) a.push_back("--hs-init-upper-bound");
    }
    static std::vector<const char*> argv;
    for (auto &x : a) argv.push_back(x.c_str());
    argv.push_back(nullptr);
    C.arg_parser()(argv.size() - 1, argv.data());
    const std::string who = std::string("hs:") + (c.expand[0] == 'T' ? "top-down:" : "bottom-up:") + c.heuristic + ":" + c.search + (second ? ":options" : "");
    CostFunctionCout Cout;
    cases([&](Rng &r, u64) {
        const std::size_t n = r.p(.1) ? r.in(2, 3) : r.in(3, 8);
        problem p = make_problem(r, n, std::string(c.heuristic) == "avg_sel"); // selectivities must be below one
        if (not p.G) return;
        std::string o; for (auto &x : a) o += x + " ";
        at(p.g.show() + " " + p.desc + " " + o);
        the_est->f = p.card;
        solve(p, true);
        hs_one<PlanTableSmallOrDense>(p, c, Cout, second and (anytime or weights), who);
        hs_one<PlanTableLargeAndSparse>(p, c, Cout, second and (anytime or weights), who);
        count("searches:" + std::string(c.expand) + ":" + c.search);
        ok(mix(hash(p.g.show() + who), r.u()), n > 2);
    });
}

int main(int argc, char **argv) {
    m::init();
    return nat_main(argc, argv, {{"enum", enumerators}, {"hs", hs}});
}
