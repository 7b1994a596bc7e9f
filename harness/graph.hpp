#pragma once
#include "nat.hpp"
#include <mutable/util/AdjacencyMatrix.hpp>
#include <sstream>
#include <set>

using namespace m;
using namespace hv;
using S = SmallBitset;
using u64 = uint64_t;

/*----- graphs -------------------------------------------------------------------------------------------------------*/
struct graph {
    std::size_t n = 0;
    u64 adj[64] = {0};
    std::string shape;
    void edge(std::size_t a, std::size_t b) { if (a != b) { adj[a] |= 1ull << b; adj[b] |= 1ull << a; } }
    u64 neigh(u64 s) const { u64 r = 0; for (u64 x = s; x; x &= x - 1) r |= adj[__builtin_ctzll(x)]; return r & ~s; }
    u64 reach(u64 src, u64 in) const { u64 r = src & in; for (;;) { u64 x = r; for (u64 y = r; y; y &= y - 1) x |= adj[__builtin_ctzll(y)] & in; if (x == r) return r; r = x; } }
    bool conn(u64 s) const { return s and reach(s & -s, s) == s; }
    u64 all() const { return n == 64 ? ~0ull : (1ull << n) - 1; }
    std::string show() const {
        std::string o = shape + " " + std::to_string(n) + ":";
        for (std::size_t i = 0; i != n; ++i) for (std::size_t j = i + 1; j != n; ++j) if (adj[i] >> j & 1) o += " " + std::to_string(i) + "-" + std::to_string(j);
        return o;
    }
};
static graph rand_graph(Rng &r, std::size_t n, bool connected = true) {
    graph g; g.n = n;
    std::vector<std::size_t> p;
    for (std::size_t i = 0; i != n; ++i) p.push_back(i);
    r.shuffle(p);
    if (r.p(.3)) std::sort(p.begin(), p.end());
    switch (r.in(0, connected ? 6 : 7)) {
        case 0: g.shape = "chain"; for (std::size_t i = 1; i < n; ++i) g.edge(p[i - 1], p[i]); break;
        case 1: g.shape = "cycle"; for (std::size_t i = 0; i < n; ++i) g.edge(p[i], p[(i + 1) % n]); break;
        case 2: g.shape = "star"; for (std::size_t i = 1; i < n; ++i) g.edge(p[0], p[i]); break;
        case 3: g.shape = "clique"; for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < i; ++j) g.edge(i, j); break;
        case 4: g.shape = "tree"; for (std::size_t i = 1; i < n; ++i) g.edge(p[i], p[r.in(0, i - 1)]); break;
        case 7: g.shape = "random"; for (std::size_t k = r.in(0, 2 * n); k; --k) g.edge(r.in(0, n - 1), r.in(0, n - 1)); break;
        default:
            g.shape = "mixed";
            for (std::size_t i = 1; i < n; ++i) g.edge(p[i], p[r.in(r.p(.5) ? 0 : std::max<int>(0, int(i) - 2), i - 1)]);
            for (std::size_t k = r.in(0, n); k; --k) g.edge(r.in(0, n - 1), r.in(0, n - 1));
    }
    return g;
}
static AdjacencyMatrix matrix(const graph &g) {
    AdjacencyMatrix M(g.n);
    for (std::size_t i = 0; i != g.n; ++i) for (std::size_t j = 0; j != g.n; ++j) if (g.adj[i] >> j & 1) M(i, j) = true;
    return M;
}
static std::string bits(u64 s) { std::string o = "{"; for (; s; s &= s - 1) o += std::to_string(__builtin_ctzll(s)) + (s & (s - 1) ? "," : ""); return o + "}"; }

