// Connected subgraphs, cuts and matrix algorithms: against brute force.
#include "graph.hpp"
#include <mutable/util/MinCutAGaT.hpp>

/*----- graph algorithms ----------------------------------------------------------------------------------------------*/
static void csg() {
    cases([](Rng &r, u64) {
        /* A small graph, placed somewhere among up to 64 vertices. */
        const std::size_t k = r.in(1, Nat::get().thorough ? 11 : 9);
        graph small = rand_graph(r, k, false), g;
        g.n = r.p(.5) ? k : r.in(k, 64); g.shape = small.shape;
        std::vector<std::size_t> v;
        for (std::size_t i = 0; i != g.n; ++i) v.push_back(i);
        r.shuffle(v); v.resize(k);
        if (g.n > k and r.p(.3)) v[0] = g.n - 1; // may repeat, fixed below
        { std::set<std::size_t> s(v.begin(), v.end()); for (auto &x : v) if (std::count(v.begin(), v.end(), x) > 1) { for (std::size_t y = 0; y != g.n; ++y) if (not s.count(y)) { x = y; s.insert(y); break; } } }
        for (std::size_t i = 0; i != k; ++i) for (std::size_t j = 0; j != k; ++j) if (small.adj[i] >> j & 1) g.edge(v[i], v[j]);
        u64 used = 0; for (auto x : v) used |= 1ull << x;
        const AdjacencyMatrix M = matrix(g);
        at(g.show());
        const u64 super = r.p(.5) ? used : used & r.u(), source = r.p(.5) ? super : used & r.u();
        /* connected subgraphs */
        std::map<u64, int> got;
        M.for_each_CSG_undirected(S(super), S(source), [&](S s) { ++got[u64(s)]; });
        std::size_t ncsg = 0, npair = 0;
        std::vector<u64> csgs;
        for (u64 s = super; s; s = (s - 1) & super) if (g.conn(s)) {
            csgs.push_back(s);
            const bool expect = s & source;
            ncsg += expect;
            auto it = got.find(s);
            const int n = it == got.end() ? 0 : it->second;
            if (n != int(expect)) { fail(n > 1 ? "csg-duplicate" : expect ? "csg-missing" : "csg-spurious", bits(s) + " enumerated " + std::to_string(n) + " times, super " + bits(super) + " source " + bits(source)); break; }
        }
        HV_CHECK(got.size() == ncsg, "csg-spurious", got.size() << " subgraphs, " << ncsg << " connected ones");
        got.clear();
        if (source == super) {
            std::size_t n = 0;
            M.for_each_CSG_undirected(S(super), [&](S) { ++n; });
            HV_CHECK(n == csgs.size(), "csg-count", n << " instead of " << csgs.size());
        }
        /* pairs of connected subgraphs */
        std::map<std::pair<u64, u64>, int> pairs;
        std::vector<std::pair<u64, u64>> order;
        M.for_each_CSG_pair_undirected(S(super), [&](S a, S b) { ++pairs[{std::min(u64(a), u64(b)), std::max(u64(a), u64(b))}]; order.emplace_back(a, b); });
        /* dynamic programming: a subproblem must be complete before it is used */
        std::map<u64, std::size_t> last;
        for (std::size_t i = 0; i != order.size(); ++i) last[order[i].first | order[i].second] = i + 1;
        for (std::size_t i = 0; i != order.size(); ++i) {
            const u64 late = last[order[i].first] > i ? order[i].first : last[order[i].second] > i ? order[i].second : 0;
            if (late) { fail("pair-order", bits(order[i].first) + " " + bits(order[i].second) + " before all pairs that make up " + bits(late)); break; }
        }
        for (u64 a : csgs) for (u64 b : csgs) if (a < b and not (a & b) and (g.neigh(a) & b)) {
            ++npair;
            auto it = pairs.find({a, b});
            const int n = it == pairs.end() ? 0 : it->second;
            if (n != 1) { fail(n ? "pair-duplicate" : "pair-missing", bits(a) + " " + bits(b) + " enumerated " + std::to_string(n) + " times, super " + bits(super)); goto done; }
        }
done:
        HV_CHECK(pairs.size() == npair, "pair-spurious", pairs.size() << " pairs, " << npair << " connected ones");
        /* minimal cuts */
        for (int t = 0; t < 4 and not csgs.empty(); ++t) {
            const u64 s = csgs[r.in(0, csgs.size() - 1)];
            if (not (s & (s - 1))) continue;
            std::map<u64, int> cuts;
            bool bad = false;
            MinCutAGaT{}.partition(M, [&](S a, S b) { if ((u64(a) & u64(b)) or (u64(a) | u64(b)) != s or not g.conn(u64(a)) or not g.conn(u64(b))) bad = true; ++cuts[std::min(u64(a), u64(b))]; }, S(s));
            HV_CHECK(not bad, "cut-invalid", "not a partition into connected subgraphs of " << bits(s));
            std::size_t n = 0;
            for (u64 a = (s - 1) & s; a; a = (a - 1) & s) if (a < (s ^ a) and g.conn(a) and g.conn(s ^ a)) {
                ++n;
                if (cuts[a] != 1) { fail(cuts[a] ? "cut-duplicate" : "cut-missing", bits(a) + " | " + bits(s ^ a) + " enumerated " + std::to_string(cuts[a]) + " times"); break; }
            }
            HV_CHECK(cuts.size() == n, "cut-spurious", cuts.size() << " cuts of " << bits(s) << ", expected " << n);
            count("cuts", n);
        }
        count("csgs", ncsg); count("csg pairs", npair); count("shape:" + g.shape);
        ok(mix(mix(hash(g.show()), super), source), npair > 1);
    });
}

static void matrices() {
    cases([](Rng &r, u64) {
        const std::size_t n = r.p(.1) ? r.in(60, 64) : r.in(1, 24);
        graph g = rand_graph(r, n, false);
        at("matrix " + g.show());
        AdjacencyMatrix M = matrix(g);
        for (std::size_t i = 0; i != n; ++i) for (std::size_t j = 0; j != n; ++j) HV_CHECK(bool(M(i, j)) == bool(g.adj[i] >> j & 1) and bool(M.at(i, j)) == bool(M(i, j)), "matrix-entry", i << "," << j);
        bool thrown = false; try { (void) bool(M.at(r.in(0, n), n)); } catch (out_of_range&) { thrown = true; }
        HV_CHECK(thrown, "matrix-at", "no exception beyond the bounds");
        for (int t = 0; t < 12; ++t) {
            const u64 s = (r.p(.3) ? 1ull << r.in(0, n - 1) : r.u() & (r.p(.5) ? r.u() : ~0ull)) & g.all(), in = r.u() & (r.p(.5) ? ~0ull : r.u() | r.u()) & g.all();
            HV_CHECK(u64(M.neighbors(S(s))) == g.neigh(s), "neighbors", bits(s));
            HV_CHECK(u64(M.reachable(S(s))) == g.reach(s, g.all()), "reachable", bits(s));
            HV_CHECK(u64(M.reachable(S(s), S(in))) == g.reach(s, in), "reachable-within", bits(s) << " within " << bits(in));
            if (s) HV_CHECK(M.is_connected(S(s)) == g.conn(s), "is_connected", bits(s));
            const u64 o = in & ~s;
            if (s and o) HV_CHECK(M.is_connected(S(s), S(o)) == bool(g.neigh(s) & o), "is_connected-pair", bits(s) << " " << bits(o));
        }
        if (n <= 24) {
            AdjacencyMatrix C = M.transitive_closure_undirected();
            for (std::size_t i = 0; i != n; ++i) for (std::size_t j = 0; j != n; ++j) {
                /* a finite path of at least one edge */
                const bool e = (g.reach(1ull << i, g.all()) >> j & 1) and (i != j or g.adj[i]);
                HV_CHECK(bool(C(i, j)) == e, "closure-undirected", i << " " << j);
            }
            HV_CHECK(M.transitive_closure_directed() == C, "closure-agree", "closures of a symmetric matrix differ");
            /* directed */
            graph d; d.n = n;
            for (std::size_t k = r.in(0, 2 * n); k; --k) d.adj[r.in(0, n - 1)] |= 1ull << r.in(0, n - 1);
            AdjacencyMatrix D = matrix(d).transitive_closure_directed();
            for (std::size_t i = 0; i != n; ++i) HV_CHECK([&] { u64 e = d.reach(d.adj[i], d.all()); for (std::size_t j = 0; j != n; ++j) if (bool(D(i, j)) != bool(e >> j & 1)) return false; return true; }(), "closure-directed", "row " << i);
            /* minimum spanning forest */
            std::map<std::pair<std::size_t, std::size_t>, double> w;
            const int range = r.of({2, 10, 100000});
            for (std::size_t i = 0; i != n; ++i) for (std::size_t j = 0; j < i; ++j) w[{i, j}] = r.in(0, range);
            auto weight = [&](std::size_t a, std::size_t b) { return w.at({std::max(a, b), std::min(a, b)}); };
            AdjacencyMatrix F = M.minimum_spanning_forest(weight);
            graph f; f.n = n; double sum = 0; std::size_t edges = 0;
            for (std::size_t i = 0; i != n; ++i) for (std::size_t j = 0; j < i; ++j) {
                HV_CHECK(bool(F(i, j)) == bool(F(j, i)), "forest-symmetric", i << " " << j);
                if (F(i, j)) { HV_CHECK(g.adj[i] >> j & 1, "forest-edge", i << "-" << j << " is no edge"); f.edge(i, j); sum += weight(i, j); ++edges; }
            }
            std::vector<std::tuple<double, std::size_t, std::size_t>> es;
            for (auto &[k, x] : w) if (g.adj[k.first] >> k.second & 1) es.emplace_back(x, k.first, k.second);
            std::sort(es.begin(), es.end());
            graph kr; kr.n = n; double best = 0; std::size_t ke = 0;
            for (auto &[x, a, b] : es) if (not (kr.reach(1ull << a, g.all()) >> b & 1)) { kr.edge(a, b); best += x; ++ke; }
            HV_CHECK(edges == ke, "forest-spanning", edges << " edges instead of " << ke);
            HV_CHECK(sum == best, "forest-minimal", "weight " << sum << " instead of " << best);
            for (std::size_t i = 0; i != n; ++i) HV_CHECK(f.reach(1ull << i, g.all()) == g.reach(1ull << i, g.all()), "forest-spanning", "component of " << i);
            /* tree directed away from a root */
            const u64 root = 1ull << r.in(0, n - 1), comp = f.reach(root, g.all());
            AdjacencyMatrix T = matrix(f).tree_directed_away_from(S(root));
            std::map<u64, u64> depth; depth[root] = 0;
            for (u64 layer = root, seen = root, dist = 1; layer; ++dist) { u64 nx = f.neigh(layer) & ~seen; for (u64 y = nx; y; y &= y - 1) depth[y & -y] = dist; seen |= nx; layer = nx; }
            for (std::size_t i = 0; i != n; ++i) for (std::size_t j = 0; j != n; ++j) {
                const bool e = (f.adj[i] >> j & 1) and (comp >> i & 1) and depth[1ull << j] == depth[1ull << i] + 1;
                HV_CHECK(bool(T(i, j)) == e, "directed-tree", i << "->" << j << " root " << bits(root));
            }
        }
        AdjacencyMatrix M2(M);
        HV_CHECK(M2 == M, "matrix-copy", "copy differs");
        if (n > 1) { auto a = r.in(0, n - 1), b = r.in(0, n - 1); M2(a, b) = not bool(M2(a, b)); HV_CHECK(M2 != M, "matrix-equality", "equal despite " << a << "," << b); }
        ok(hash(g.show()), n > 2);
    });
}

int main(int argc, char **argv) { return nat_main(argc, argv, {{"csg", csg}, {"matrices", matrices}}); }
