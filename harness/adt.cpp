// Containers, sets, allocators and utility functions against executable models.
#include "nat.hpp"
#include <mutable/util/ArgParser.hpp>
#include <mutable/util/Timer.hpp>
#include <mutable/util/ADT.hpp>
#include <mutable/util/fn.hpp>
#include <mutable/util/list_allocator.hpp>
#include <mutable/util/malloc_allocator.hpp>
#include <mutable/util/memory.hpp>
#include <mutable/util/Pool.hpp>
#include <mutable/util/unsharable_shared_ptr.hpp>
#include "util/algorithms.hpp"
#include "util/container/RefCountingHashMap.hpp"
#include <bitset>
#include <list>
#include <sys/stat.h>
#include <set>

using namespace m;
using namespace hv;

/*----- small sets ---------------------------------------------------------------------------------------------------*/
static uint64_t rand_bits(Rng &r) {
    switch (r.in(0, 6)) {
        case 0: return r.u();
        case 1: return r.u() & r.u() & r.u();
        case 2: return r.u() | r.u() | r.u();
        case 3: return 1ull << r.in(0, 63);
        case 4: return r.in(0, 64) == 64 ? ~0ull : (1ull << r.in(0, 63)) - 1;
        case 5: return r.of({0ull, ~0ull, 1ull, 1ull << 63, (1ull << 63) | 1, ~0ull - 1});
        default: return r.u() & ((1ull << r.in(1, 12)) - 1);
    }
}
static std::set<unsigned> elems(uint64_t b) { std::set<unsigned> s; for (unsigned i = 0; i != 64; ++i) if (b >> i & 1) s.insert(i); return s; }
static std::set<unsigned> elems(SmallBitset s) { return elems(uint64_t(s)); }

static void bitset() {
    cases([](Rng &r, uint64_t) {
        const uint64_t a = rand_bits(r), b = rand_bits(r);
        at("bitset " + std::to_string(a) + " " + std::to_string(b));
        SmallBitset A(a), B(b);
        auto ea = elems(a), eb = elems(b);
        std::vector<std::size_t> it;
        for (auto i = A.begin(); i != A.end(); ++i) it.push_back(*i);
        HV_CHECK(std::equal(it.begin(), it.end(), ea.begin(), ea.end()), "bitset-iterate", "forward iteration of " << a);
        it.clear();
        for (auto i = A.rbegin(); i != A.rend(); ++i) it.push_back(*i);
        HV_CHECK(std::equal(it.begin(), it.end(), ea.rbegin(), ea.rend()), "bitset-riterate", "reverse iteration of " << a);
        std::size_t n = 0;
        for (auto i = A.begin(); i != A.end(); i++, ++n) HV_CHECK(elems(i.as_set()) == std::set<unsigned>{unsigned(*i)}, "bitset-as-set", a);
        for (auto i = A.rbegin(); i != A.rend(); i++) HV_CHECK(elems(i.as_set()) == std::set<unsigned>{unsigned(*i)}, "bitset-as-set", a);
        HV_CHECK(A.size() == ea.size() and n == ea.size() and A.empty() == ea.empty() and bool(A) == not ea.empty() and A.is_singleton() == (ea.size() == 1), "bitset-size", a);
        if (a) {
            HV_CHECK(elems(A.hi()) == std::set<unsigned>{*ea.rbegin()}, "bitset-hi", a);
            std::set<unsigned> lo; for (unsigned i = 0; i <= *ea.begin(); ++i) lo.insert(i);
            HV_CHECK(elems(A.mask_to_lo()) == lo, "bitset-mask-to-lo", a);
            HV_CHECK(elems(least_subset(A)) == std::set<unsigned>{*ea.begin()}, "bitset-least", a);
            if (A.is_singleton()) { lo.erase(*ea.begin()); HV_CHECK(elems(A.singleton_to_lo_mask()) == lo, "bitset-singleton-mask", a); }
        }
        std::set<unsigned> u, x, d, c;
        for (unsigned i = 0; i != 64; ++i) {
            bool p = ea.count(i), q = eb.count(i);
            if (p or q) u.insert(i);
            if (p and q) x.insert(i);
            if (p and not q) d.insert(i);
            if (not p) c.insert(i);
            HV_CHECK(bool(A[i]) == p and bool(A(i)) == p and bool(A.at(i)) == p, "bitset-access", a << " at " << i);
        }
        HV_CHECK(elems(A | B) == u and elems(unify(A, B)) == u, "bitset-union", a << ' ' << b);
        HV_CHECK(elems(A & B) == x and elems(intersect(A, B)) == x, "bitset-intersect", a << ' ' << b);
        HV_CHECK(elems(A - B) == d and elems(subtract(A, B)) == d, "bitset-subtract", a << ' ' << b);
        HV_CHECK(elems(~A) == c, "bitset-complement", a);
        auto M = A; M |= B; HV_CHECK(elems(M) == u, "bitset-union", a);
        M = A; M &= B; HV_CHECK(elems(M) == x, "bitset-intersect", a);
        M = A; M -= B; HV_CHECK(elems(M) == d, "bitset-subtract", a);
        HV_CHECK(A.is_subset(B) == std::includes(eb.begin(), eb.end(), ea.begin(), ea.end()), "bitset-subset", a << ' ' << b);
        HV_CHECK((A == B) == (ea == eb) and (A != B) == (ea != eb), "bitset-eq", a << ' ' << b);
        unsigned k = r.in(0, 63); bool v = r.p(.5);
        auto C = A; C[k] = v; auto ec = ea; if (v) ec.insert(k); else ec.erase(k);
        HV_CHECK(elems(C) == ec, "bitset-assign", a << ' ' << k << v);
        C = A; C.at(k) = B[k]; ec = ea; if (eb.count(k)) ec.insert(k); else ec.erase(k);
        HV_CHECK(elems(C) == ec, "bitset-assign", a << ' ' << k);
        HV_CHECK(elems(SmallBitset::Singleton(k)) == std::set<unsigned>{k}, "bitset-singleton", k);
        std::set<unsigned> all; for (unsigned i = 0; i < k; ++i) all.insert(i);
        HV_CHECK(elems(SmallBitset::All(k)) == all, "bitset-all", k);
        all = elems(~0ull); HV_CHECK(elems(SmallBitset::All(64)) == all, "bitset-all", 64);
        bool threw = false;
        try { (void) bool(A.at(64 + k)); } catch (m::out_of_range&) { threw = true; }
        HV_CHECK(threw, "bitset-at", "at() accepts " << 64 + k);
        if (~a) { auto P = A; ++P; HV_CHECK(uint64_t(P) == a + 1, "bitset-inc", a); }
        if (a) { auto P = A; P--; HV_CHECK(uint64_t(P) == a - 1, "bitset-dec", a); }
        std::ostringstream ss; ss << A; HV_CHECK(ss.str() == std::bitset<64>(a).to_string(), "bitset-print", a);
        ok(mix(a, b), a != 0);
    });
}

/** Every subset (of a size) exactly once, for every base set. */
static void subsets() {
    cases([](Rng &r, uint64_t) {
        unsigned n = r.in(1, 11);
        uint64_t base = 0;
        while (SmallBitset(base).size() < n) base |= 1ull << r.in(0, 63);
        at("subsets of " + std::to_string(base));
        SmallBitset S(base);
        std::set<uint64_t> seen;
        uint64_t last = 0; bool first = true;
        for (auto sub = least_subset(S); sub != S; sub = next_subset(sub, S)) {   // proper, non-empty
            HV_CHECK(sub.is_subset(S) and sub and seen.insert(uint64_t(sub)).second, "next-subset", "subset " << uint64_t(sub) << " of " << base);
            HV_CHECK(first or uint64_t(sub) > last, "next-subset-order", base);
            last = uint64_t(sub); first = false;
            if (seen.size() > 5000) break;
        }
        HV_CHECK(seen.size() == (1ull << n) - 2, "next-subset-count", seen.size() << " proper subsets of a set of " << n);
        for (unsigned k = 0; k <= n; ++k) {
            std::set<uint64_t> a, b;
            for (SubsetEnumerator E(S, k); E; ++E) {
                auto x = *E;
                HV_CHECK(x.is_subset(S) and x.size() == k and a.insert(uint64_t(x)).second, "subset-enumerator", uint64_t(x) << " of " << base << " k=" << k);
                if (a.size() > 5000) break;
            }
            uint64_t prev = 0; bool start = true;
            for (auto G = GospersHack::enumerate_all(k, n); G; ++G) {
                auto x = *G;
                HV_CHECK(x.size() == k and uint64_t(x) < (1ull << n) and (start or uint64_t(x) > prev) and b.insert(uint64_t(x)).second, "gosper", uint64_t(x) << " k=" << k << " n=" << n);
                prev = uint64_t(x); start = false;
                if (b.size() > 5000) break;
            }
            uint64_t choose = 1; for (unsigned i = 1; i <= k; ++i) choose = choose * (n - k + i) / i;
            HV_CHECK(a.size() == choose, "subset-enumerator-count", a.size() << " of " << choose << " k=" << k << " n=" << n);
            HV_CHECK(b.size() == choose, "gosper-count", b.size() << " of " << choose << " k=" << k << " n=" << n);
            {   // continue from a given subset
                auto it = b.begin(); std::advance(it, r.in(0, choose - 1));
                std::set<uint64_t> c;
                for (auto G = GospersHack::enumerate_from(SmallBitset(*it), n); G; ++G) { c.insert(uint64_t(*G)); if (c.size() > 5000) break; }
                HV_CHECK(c == std::set<uint64_t>(it, b.end()), "gosper-from", *it << " n=" << n);
            }
            count("subsets enumerated", choose);
        }
        ok(base);
    });
}

/*----- lists --------------------------------------------------------------------------------------------------------*/
static long live = 0;
struct Obj {   // counts instances; owns heap memory
    std::string s;
    Obj(int i) : s("element number " + std::to_string(i) + " with a long text") { ++live; }
    Obj(const Obj &o) : s(o.s) { ++live; }
    Obj(Obj &&o) : s(std::move(o.s)) { ++live; }
    Obj & operator=(const Obj&) = default;
    Obj & operator=(Obj&&) = default;
    ~Obj() { --live; }
    bool operator==(const Obj &o) const { return s == o.s; }
    bool operator!=(const Obj &o) const { return s != o.s; }
};

template<typename L>
static void compare_list(L &l, std::list<int> &m, const char *op) {
    std::vector<int> f, b;
    for (auto it = l.cbegin(); it != l.cend(); ++it) { f.push_back(*it); if (f.size() > m.size() + 3) break; }
    for (auto it = l.rbegin(); it != l.rend(); ++it) { b.push_back(*it); if (b.size() > m.size() + 3) break; }
    HV_CHECK(std::equal(f.begin(), f.end(), m.begin(), m.end()), std::string("list-forward:") + op, "forward traversal after " << op);
    HV_CHECK(std::equal(b.begin(), b.end(), m.rbegin(), m.rend()), std::string("list-backward:") + op, "backward traversal after " << op);
    HV_CHECK(l.size() == m.size() and l.empty() == m.empty(), std::string("list-size:") + op, l.size() << " vs " << m.size());
    std::vector<int> d;
    if (not m.empty()) {
        HV_CHECK(l.front() == m.front() and l.back() == m.back(), std::string("list-ends:") + op, op);
        auto it = l.end();
        for (std::size_t i = 0; i != m.size(); ++i) { --it; d.push_back(*it); }
        HV_CHECK(std::equal(d.begin(), d.end(), m.rbegin(), m.rend()), std::string("list-decrement:") + op, op);
    }
}

static void list() {
    cases([](Rng &r, uint64_t) {
        doubly_linked_list<int> l;
        std::list<int> m;
        uint64_t h = 0; int next = 0;
        std::string log;
        const int steps = r.in(5, 60);
        /* An iterator that an operation returned stands where it should: it walks to both ends from there. */
        auto stands = [&](auto x, std::list<int>::iterator mx, const char *op) {
            auto y = x; auto my = mx;
            for (; my != m.end(); ++my, ++y) { HV_CHECK(y != l.end() and *y == *my, std::string("list-result-forward:") + op, "walking forward from the returned iterator"); if (y == l.end()) return; }
            HV_CHECK(y == l.end(), std::string("list-result-end:") + op, "walking forward from the returned iterator does not end");
            while (mx != m.begin()) { --mx; --x; HV_CHECK(*x == *mx, std::string("list-result-backward:") + op, "walking backward from the returned iterator"); }
            HV_CHECK(x == l.begin(), std::string("list-result-begin:") + op, "walking backward from the returned iterator does not reach the start");
        };
        auto pos = [&](auto &li, std::list<int>::iterator &mi) {
            std::size_t k = r.in(0, m.size());
            mi = m.begin(); auto i = li.begin();
            for (std::size_t j = 0; j != k; ++j) { ++i; ++mi; }
            return i;
        };
        for (int s = 0; s != steps; ++s) {
            int op = r.in(0, 15);
            if (m.size() > 40) op = 14;
            const char *name = "";
            at(log);
            switch (op) {
                case 0: case 1: l.push_back(next); m.push_back(next++); name = "push_back"; break;
                case 2: l.push_front(next); m.push_front(next++); name = "push_front"; break;
                case 3: if (not m.empty()) { HV_CHECK(l.pop_back() == m.back(), "list-pop-back", "value"); m.pop_back(); } name = "pop_back"; break;
                case 4: if (not m.empty()) { HV_CHECK(l.pop_front() == m.front(), "list-pop-front", "value"); m.pop_front(); } name = "pop_front"; break;
                case 5: case 6: { std::list<int>::iterator mi; auto i = pos(l, mi); auto x = l.insert(i, next); HV_CHECK(*x == next, "list-insert-result", next);
                    auto mx = m.insert(mi, next++); stands(x, mx, "insert"); while (++mx != m.end()) { ++x; HV_CHECK(*x == *mx, "list-insert-iterator", "successor"); } name = "insert"; break; }
                case 7: case 8: if (not m.empty()) { std::list<int>::iterator mi; auto i = pos(l, mi); if (mi == m.end()) { --i; --mi; }
                    auto x = l.erase(i); auto mx = m.erase(mi); stands(x, mx, "erase"); if (r.p(.3)) { x = l.insert(x, next); mx = m.insert(mx, next++); stands(x, mx, "insert-after-erase"); } for (; mx != m.end(); ++mx, ++x) HV_CHECK(*x == *mx, "list-erase-iterator", "successor");
                    HV_CHECK(x == l.end(), "list-erase-end", "end"); } name = "erase"; break;
                case 9: l.reverse(); m.reverse(); name = "reverse"; break;
                case 10: { std::list<int>::iterator mi; auto i = pos(l, mi); std::vector<int> v; for (int k = r.in(0, 4); k; --k) v.push_back(next++);
                    auto x = l.insert(i, v.begin(), v.end()); stands(x, m.insert(mi, v.begin(), v.end()), "insert-range"); name = "insert-range"; break; }
                case 11: { std::list<int>::iterator mi; auto i = pos(l, mi); std::size_t k = r.in(0, 4); auto x = l.insert(i, k, next); stands(x, m.insert(mi, k, next++), "insert-count"); name = "insert-count"; break; }
                case 12: { doubly_linked_list<int> c(l); compare_list(c, m, "copy"); c.push_back(-1); name = "copied-from"; break; }
                case 13: { doubly_linked_list<int> c(std::move(l)); compare_list(c, m, "move"); HV_CHECK(l.empty(), "list-moved", "moved-from list holds " << l.size());
                    doubly_linked_list<int> o; o.push_back(99); l = std::move(c); (void) o; name = "move"; break; }
                case 14: l.clear(); m.clear(); name = "clear"; break;
                case 15: { doubly_linked_list<int> o(m.begin(), m.end()); o.push_back(next); m.push_back(next++); using std::swap; swap(l, o); name = "swap"; break; }
            }
            log += name; log += ' ';
            h = mix(h, op * 100 + m.size());
            compare_list(l, m, name);
        }
        ok(h);
        count("list operations", steps);
    });
}

/*----- hash map -----------------------------------------------------------------------------------------------------*/
using PairSet = std::multiset<std::pair<int, int>>;
struct WeakHash { int kind; std::size_t operator()(int k) const { return kind == 0 ? murmur3_64(k) : kind == 1 ? std::size_t(k) : kind == 2 ? std::size_t(k % 4) : kind == 3 ? 7 : std::size_t(k) << 3; } };

static void refmap() {
    cases([](Rng &r, uint64_t) {
        const int kind = r.in(0, 4);
        const std::size_t cap = r.of({1, 2, 3, 4, 8, 16, 31, 64, 100});
        RefCountingHashMap<int, int, WeakHash> map(cap, WeakHash{kind});
        if (r.p(.5)) map.max_load_factor(r.of({.25f, .5f, .7f, .9f, .99f}));
        std::multimap<int, int> model;
        const bool dups = r.p(.6), mixed = r.p(.2);
        const int range = r.of({3, 10, 50, 100000});
        int v = 0;
        uint64_t h = mix(kind, cap);
        std::string what = "refmap hash=" + std::to_string(kind) + " cap=" + std::to_string(cap) + " dups=" + std::to_string(dups);
        at(what);
        auto check = [&] {
            HV_CHECK(map.size() == model.size(), "refmap-size", map.size() << " vs " << model.size());
            PairSet seen;
            std::size_t guard = 0;
            for (auto it = map.begin(); it != map.end(); ++it) { seen.emplace(it->first, it->second); if (++guard > 2 * model.size() + 10) break; }
            HV_CHECK(seen == PairSet(model.begin(), model.end()), "refmap-iterate", "iteration delivers " << seen.size() << " of " << model.size() << " entries");
            for (int q = 0; q != 20; ++q) {
                int k = r.in(0, range + 2);
                if (not model.empty() and r.p(.6)) { auto it = model.begin(); std::advance(it, r.in(0, std::min<int>(model.size() - 1, 60))); k = it->first; }
                auto [a, b] = model.equal_range(k);
                std::multiset<int> want, got;
                for (auto i = a; i != b; ++i) want.insert(i->second);
                map.for_all(k, [&](std::pair<const int, int> &p) { HV_CHECK(p.first == k, "refmap-for-all", "wrong key"); got.insert(p.second); });
                HV_CHECK(want == got, "refmap-for-all", "key " << k << ": " << got.size() << " of " << want.size() << " entries");
                HV_CHECK(map.count(k) == want.size(), "refmap-count", "key " << k);
                auto f = map.find(k);
                if (want.empty()) HV_CHECK(f == map.end(), "refmap-find", "absent key " << k << " found");
                else { HV_CHECK(f != map.end() and f->first == k and want.count(f->second), "refmap-find", "key " << k << " not found"); }
                count("lookups");
            }
        };
        const int ops = kind >= 2 and kind != 4 ? r.in(1, 60) : r.in(1, 250);
        for (int i = 0; i != ops; ++i) {
            int k = r.in(0, range);
            if (mixed ? r.p(.5) : dups) { auto it = map.insert_with_duplicates(k, v); HV_CHECK(it->first == k and it->second == v, "refmap-insert-result", k); model.emplace(k, v++); }
            else {
                bool fresh = not model.count(k);
                auto [it, ins] = map.insert_without_duplicates(k, v);
                HV_CHECK(ins == fresh, "refmap-insert-unique", "key " << k << " inserted=" << ins << " expected " << fresh);
                HV_CHECK(it->first == k, "refmap-insert-unique", "iterator");
                if (fresh) model.emplace(k, v++);
            }
            if (r.p(.02)) map.resize(r.in(1, 600));
            if (r.p(.01) and map.size() <= map.watermark_high()) map.rehash();
            if (r.p(.01)) map.shrink_to_fit();
            if (r.p(.1)) check();
            h = mix(h, k);
        }
        check();
        HV_CHECK(is_pow_2(map.capacity()) and map.size() <= map.capacity(), "refmap-capacity", map.capacity());
        const auto &cm = map;
        for (auto &[k, v] : model) { HV_CHECK(cm.find(k) != cm.end() and cm.count(k) == model.count(k), "refmap-const", k); }
        ok(h);
    });
}

/*----- arrays, views, pointers --------------------------------------------------------------------------------------*/
static void arrays() {
    cases([](Rng &r, uint64_t) {
        const long before = live;
        {
            std::vector<int> v; for (int n = r.in(0, 40); n; --n) v.push_back(r.in(-5, 5));
            dyn_array<int> a(v.begin(), v.end());
            HV_CHECK(a.size() == v.size() and std::equal(a.begin(), a.end(), v.begin(), v.end()) and std::equal(a.cbegin(), a.cend(), v.begin(), v.end()), "dyn-array-range", v.size());
            dyn_array<int> b(a), c(std::move(a));
            HV_CHECK(b == c and not (b != c), "dyn-array-copy", v.size());
            dyn_array<int> z(v.size()); for (auto x : z) HV_CHECK(x == 0, "dyn-array-init", x);
            if (not v.empty()) { auto i = r.in(0, v.size() - 1); b[i] += 1; HV_CHECK(b != c and not (b == c), "dyn-array-ne", i); HV_CHECK(c.at(i) == v[i], "dyn-array-at", i); }
            bool threw = false; try { c.at(v.size()); } catch (m::out_of_range&) { threw = true; }
            HV_CHECK(threw, "dyn-array-at", "out of bounds accepted");
            b = dyn_array<int>(3); HV_CHECK(b.size() == 3, "dyn-array-assign", b.size());
            dyn_array<int> s(v.begin(), v.begin() + v.size() / 2); HV_CHECK((s == c) == v.empty(), "dyn-array-size-ne", v.size());
            /* views */
            using It = std::vector<int>::iterator;
            std::vector<std::pair<int, int>> ps; for (auto x : v) ps.emplace_back(x, -x);
            m::range R(v.begin(), v.end());
            HV_CHECK(R.size() == v.size() and R.empty() == v.empty() and std::equal(R.begin(), R.end(), v.begin(), v.end()), "range", v.size());
            auto RR = R.reverse(); HV_CHECK(std::equal(RR.begin(), RR.end(), v.rbegin(), v.rend()), "range-reverse", v.size());
            m::view V(v.begin(), v.end(), [](It it) -> int& { return *it; });
            std::vector<int> w; for (auto it = V.begin(); it != V.end(); ++it) w.push_back(*it);
            HV_CHECK(w == v, "view", v.size());
            w.clear(); for (auto it = V.begin(); it != V.end();) w.push_back(*it++);
            HV_CHECK(w == v, "view-postfix", v.size());
            if (not v.empty()) { auto it = V.begin(); it += int(v.size()) - 1; HV_CHECK(*it == v.back() and it - V.begin() == long(v.size()) - 1, "view-jump", v.size()); }
            /* sorted vectors */
            {
                sorted_vector<int> S; sorted_vector<int, std::greater<int>> D; std::vector<int> m;
                auto half = v.begin() + r.in(0, v.size());
                for (auto it = v.begin(); it != half; ++it) { auto pos = S.insert(*it); HV_CHECK(*pos == *it, "sorted-vector-insert", *it); HV_CHECK(*D.insert(*it) == *it, "sorted-vector-insert", *it); }
                S.insert(half, v.end()); D.insert(half, v.end());
                m = v; std::sort(m.begin(), m.end());
                HV_CHECK(S.size() == m.size() and S.empty() == m.empty() and std::equal(S.begin(), S.end(), m.begin()), "sorted-vector-order", m.size());
                HV_CHECK(D.size() == m.size() and std::equal(D.cbegin(), D.cend(), m.rbegin()), "sorted-vector-order-greater", m.size());
                for (int x = -7; x <= 7; ++x) {
                    bool has = std::find(m.begin(), m.end(), x) != m.end();
                    HV_CHECK(S.contains(x) == has and D.contains(x) == has, "sorted-vector-contains", x);
                }
            }
            /* qsort */
            auto q = v; m::qsort(q.begin(), q.end(), partition_predicated_naive{});
            auto e = v; std::sort(e.begin(), e.end()); HV_CHECK(q == e, "qsort", v.size());
            std::vector<int64_t> big; for (int n = r.in(0, 200); n; --n) big.push_back(r.p(.1) ? r.in(-3, 3) : r.in(-1000000, 1000000));
            auto be = big; m::qsort(big.begin(), big.end(), partition_predicated_naive{}); std::sort(be.begin(), be.end()); HV_CHECK(big == be, "qsort", big.size());
            if (not v.empty()) {
                auto p = v; int pivot = p[r.in(0, p.size() - 1)];
                auto mid = partition_predicated_naive{}(pivot, p.begin(), p.end());
                HV_CHECK(std::all_of(p.begin(), mid, [&](int x) { return x <= pivot; }) and std::all_of(mid, p.end(), [&](int x) { return x >= pivot; }), "partition", pivot);
                HV_CHECK(verify_partition(p.begin(), mid, p.end()), "verify-partition", pivot);
                auto sp = p; std::sort(sp.begin(), sp.end()); HV_CHECK(sp == e, "partition-permutation", pivot);
                auto x = v; unsigned k = r.in(0, x.size());
                bool part = true; for (unsigned i = 0; i < k; ++i) for (unsigned j = k; j < x.size(); ++j) part &= x[i] <= x[j];
                HV_CHECK(verify_partition(x.begin(), x.begin() + k, x.end()) == part, "verify-partition", k);
            }
            /* shared pointers that can be unshared */
            std::vector<unsharable_shared_ptr<Obj>> sh; sh.push_back(make_unsharable_shared<Obj>(1));
            for (int n = r.in(0, 3); n; --n) sh.push_back(sh[0]);
            if (sh.size() > 1) { bool t = false; try { sh[0].exclusive_shared_to_unique(); } catch (m::invalid_state&) { t = true; } HV_CHECK(t, "unshare", "unshared while " << sh.size() << " references exist"); }
            while (sh.size() > 1) sh.pop_back();
            HV_CHECK(live == before + 1, "unshare-live", live - before);
            auto u = sh[0].exclusive_shared_to_unique();
            HV_CHECK(u and u->s == Obj(1).s and sh[0].get() == nullptr, "unshare", "value lost");
            if (r.p(.5)) sh.clear();
            HV_CHECK(live == before + 1, "unshare-live", live - before);
            unsharable_shared_ptr<Obj> none; HV_CHECK(none.exclusive_shared_to_unique() == nullptr, "unshare-null", "");
            uint64_t h = 7; for (auto x : v) h = mix(h, x); for (auto x : be) h = mix(h, x);
            ok(h, v.size() > 1);
        }
        HV_CHECK(live == before, "instances-leaked", live - before);
    });
}

/*----- LIKE and strings ---------------------------------------------------------------------------------------------*/
static bool like_model(const std::string &s, std::size_t i, const std::string &p, std::size_t j, char esc) {
    if (j == p.size()) return i == s.size();
    if (p[j] == esc) return i < s.size() and s[i] == p[j + 1] and like_model(s, i + 1, p, j + 2, esc);
    if (p[j] == '%') { for (std::size_t k = i; k <= s.size(); ++k) if (like_model(s, k, p, j + 1, esc)) return true; return false; }
    return i < s.size() and (p[j] == '_' or p[j] == s[i]) and like_model(s, i + 1, p, j + 1, esc);
}
static void strings() {
    cases([](Rng &r, uint64_t) {
        const char esc = r.of({'\\', '!', '#'});
        const std::string abc = r.p(.4) ? "ab" : r.p(.4) ? std::string("a_%") + esc : "ab%_.\\!#*+(){}[]^$|?\"";
        std::string s, p;
        for (int n = r.in(0, 8); n; --n) s += r.pick(abc);
        bool valid = true;
        if (r.p(.7)) {   // derive the pattern from the string, so that matches are frequent
            for (std::size_t i = 0; i < s.size(); ++i) {
                switch (r.in(0, 5)) {
                    case 0: p += '%'; i += r.in(0, 3); break;
                    case 1: p += '_'; break;
                    case 2: p += s[i]; if (p.back() == esc) p += esc; break;
                    case 3: if (s[i] == '%' or s[i] == '_' or s[i] == esc) { p += esc; p += s[i]; break; } [[fallthrough]];
                    default: p += s[i]; if (p.back() == esc) p += esc; if (r.p(.1)) p += '%';
                }
            }
            if (r.p(.2)) p += '%';
        } else for (int n = r.in(0, 7); n; --n) { p += r.pick(abc); if (r.p(.3)) p += r.of({'%', '_'}); }
        if (s.size() and r.p(.25)) s[r.in(0, s.size() - 1)] = r.of({'_', '%', esc, 'a'}); // the string nearly matches
        for (std::size_t j = 0; j < p.size(); ++j) if (p[j] == esc) { if (j + 1 == p.size() or (p[j + 1] != esc and p[j + 1] != '%' and p[j + 1] != '_')) valid = false; ++j; }
        at("like '" + s + "' '" + p + "' " + esc);
        bool threw = false, got = false;
        try { got = like(s, p, esc); } catch (const m::runtime_error&) { threw = true; }
        HV_CHECK(threw == not valid, "like-escape", "pattern " << p << " escape " << esc << (threw ? " rejected" : " accepted"));
        bool want = false;
        if (valid and not threw) {
            want = like_model(s, 0, p, 0, esc);
            HV_CHECK(got == want, "like", '\'' << s << "' LIKE '" << p << "' escape " << esc << ": " << got);
            bool rx = false; try { rx = std::regex_match(s, pattern_to_regex(p.c_str(), r.p(.5), esc)); HV_CHECK(rx == want, "like-regex", '\'' << s << "' LIKE '" << p << "' escape " << esc); }
            catch (const std::exception &e) { HV_CHECK(false, "like-regex", "pattern " << p << " throws " << e.what()); }
            count(want ? "matches" : "mismatches");
        }
        if (r.p(.003)) {   // long strings: blocks of a known structure
            const std::size_t n = r.in(1000, 6000), m = r.in(1000, 6000);
            const std::string A(n, 'a'), P = std::string(std::min(n, m), r.p(.5) ? 'a' : '_') + (r.p(.5) ? "%" : "");
            const bool want = P.back() == '%' ? std::min(n, m) <= n : std::min(n, m) == n;
            at("like with strings of length " + std::to_string(n) + " and " + std::to_string(P.size()));
            HV_CHECK(like(A, P) == want, "like-long", n << ' ' << m);
            HV_CHECK(not like(A, P + "b"), "like-long", n << ' ' << m);
            HV_CHECK(like(A + "b", "%" + std::string(m, '_') + "b") == (m <= n), "like-long", n << ' ' << m);
            count("long strings");
        }
        /* escaping round trips */
        std::string t; for (int n = r.in(0, 12); n; --n) t += r.of({'a', '\\', '"', '\'', '\n', 'n', '%', char(200), '\t'});
        char q = r.of({'"', '\''});
        HV_CHECK(unescape(escape(t, '\\', q), '\\', q) == t, "escape-roundtrip", t);
        HV_CHECK(unquote(std::string(1, q) + t + q, q) == t, "unquote", t);
        HV_CHECK(interpret(std::string(1, q) + escape(t, '\\', q) + q, '\\', q) == t, "interpret", t);
        { auto e = escape(t, '\\', q); bool raw = false; for (std::size_t i = 0; i < e.size(); ++i) { if (e[i] == '\\') { ++i; continue; } raw |= e[i] == q or e[i] == '\n'; } HV_CHECK(not raw, "escape-complete", e); }
        std::string from, to, str; for (int n = r.in(1, 2); n; --n) from += r.of({'a', 'b'}); for (int n = r.in(0, 3); n; --n) to += r.of({'a', 'c'}); for (int n = r.in(0, 12); n; --n) str += r.of({'a', 'b', 'x'});
        std::string want2; for (std::size_t i = 0; i < str.size();) if (str.compare(i, from.size(), from) == 0) { want2 += to; i += from.size(); } else want2 += str[i++];
        HV_CHECK(replace_all(str, from, to) == want2, "replace-all", str << ' ' << from << ' ' << to);
        std::string html; for (int n = r.in(0, 8); n; --n) html += r.of({'<', '>', '&', 'a'});
        std::string hw; for (char c : html) hw += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : std::string(1, c);
        HV_CHECK(html_escape(html) == hw, "html-escape", html);
        std::string ws; for (int n = r.in(0, 5); n; --n) ws += r.of({' ', '\t', '\n', ' ', 'x'});
        HV_CHECK(m::isspace(ws.c_str()) == (ws.find('x') == ws.npos), "isspace", ws);
        for (int c = -128; c < 256; c += r.in(1, 9)) {
            bool d = c >= '0' and c <= '9', l = c >= 'a' and c <= 'z', u = c >= 'A' and c <= 'Z';
            HV_CHECK(is_dec(c) == d and is_lower(c) == l and is_upper(c) == u and is_alpha(c) == (l or u) and is_alnum(c) == (d or l or u) and
                     is_oct(c) == (c >= '0' and c <= '7') and is_hex(c) == (d or (c >= 'a' and c <= 'f') or (c >= 'A' and c <= 'F')), "char-class", c);
        }
        StrHash SH; StrEqual SE; StrEqualWithNull SN;
        HV_CHECK(SH(str.c_str()) == SH(str) and SH(str.c_str()) == SH(std::string_view(str)) and SH(str.c_str()) == SH(str.c_str(), str.size()), "strhash", str);
        std::string str2 = r.p(.5) ? str : t;
        if (str2.find('\0') == str2.npos) HV_CHECK(SE(str.c_str(), str2.c_str()) == (str == str2) and SE(std::string_view(str), std::string_view(str2)) == (str == str2) and SN(str.c_str(), str2.c_str()) == (str == str2), "strequal", str);
        HV_CHECK(not SN(nullptr, "") and not SN("", nullptr) and SN(nullptr, nullptr), "strequal-null", "");
        ok(mix(hash(s + "/" + p), hash(t)), want);
    });
}

/*----- arguments and timers -----------------------------------------------------------------------------------------*/
static std::string argname(Rng &r) { std::string s; for (int n = r.in(1, 4); n--;) s += r.of({'a', 'b', '-', '='}); return s; }
static void args() {
    cases([](Rng &r, uint64_t) {
        /* Options under short and long names, which may be prefixes of each other. */
        std::vector<std::string> log, expect;                         // calls of callbacks, with the value
        std::vector<std::pair<std::string, int>> names;               // name, kind
        std::vector<std::pair<int, int>> ids;
        std::list<std::string> keep;                                  // storage of all strings
        std::set<std::string> used{"--"};
        ArgParser A;
        auto str = [](auto v) { std::ostringstream s; s << std::setprecision(30) << v; return s.str(); };
        const int n = r.in(0, 8);
        for (int i = 0; i != n; ++i) {
            std::string S = "-" + argname(r), L = "--" + argname(r);
            const int kind = r.in(0, 11);
            const bool s = r.p(.6) and used.insert(S).second, l = (r.p(.7) or not s) and used.insert(L).second;
            if (not s and not l) continue;
            keep.push_back(S); const char *ps = s ? keep.back().c_str() : nullptr;
            keep.push_back(L); const char *pl = l ? keep.back().c_str() : nullptr;
            const char *group = r.p(.5) ? nullptr : r.of({"g", "h"});
            const std::string tag = std::to_string(i) + ":";
            #define ADD(K, T) case K: A.add<T>(group, ps, pl, "text", [&log, tag, str](T v) { log.push_back(tag + str(v)); }); break;
            switch (kind) {
                ADD(0, bool) ADD(1, int) ADD(2, long) ADD(3, long long) ADD(4, unsigned) ADD(5, unsigned long) ADD(6, unsigned long long) ADD(7, float) ADD(8, double) ADD(9, long double)
                ADD(10, const char*)
                default: A.add<std::vector<std::string_view>>(group, ps, pl, "text", [&log, tag](std::vector<std::string_view> v) { auto t = tag + std::to_string(v.size()); for (auto &x : v) { t += "|"; t += x; } log.push_back(t); });
            }
            #undef ADD
            if (s) { names.emplace_back(S, kind); ids.emplace_back(i, kind); }
            if (l) { names.emplace_back(L, kind); ids.emplace_back(i, kind); }
        }
        auto word = [&] { std::string s; for (int k = r.in(0, 4); k--;) s += r.of({'a', '-', ',', 'b', '='}); return s; };
        std::vector<std::string> av{"prog"}, pos;
        std::string warn;
        bool ended = false;
        for (int m = r.in(0, 12); m--;) {
            if (not ended and names.size() and r.p(.6)) {
                auto k = r.in(0, int(names.size()) - 1);
                av.push_back(names[k].first);
                std::string v, e;
                auto num = [&](auto lo, auto hi) { using T = decltype(lo); T x; switch (r.in(0, 3)) { case 0: x = lo; break; case 1: x = hi; break; case 2: x = T(r.u()); break; default: x = T(r.in(0, 99)); } v = e = std::to_string(x); if (r.p(.2)) v = (e[0] == '-' ? "-00" + e.substr(1) : r.p(.5) ? "+" + e : "0" + e); };
                switch (names[k].second) {
                    case 0: e = "1"; break;
                    case 1: num(std::numeric_limits<int>::lowest(), std::numeric_limits<int>::max()); break;
                    case 2: num(std::numeric_limits<long>::lowest(), std::numeric_limits<long>::max()); break;
                    case 3: num(std::numeric_limits<long long>::lowest(), std::numeric_limits<long long>::max()); break;
                    case 4: num(0u, ~0u); break;
                    case 5: num(0ul, ~0ul); break;
                    case 6: num(0ull, ~0ull); break;
                    case 7: { float f = float(r.in(-1000000, 1000000)) / 1024; v = str(f); e = str(f); } break;
                    case 8: { double f = double(int64_t(r.u()) >> 11) / 65536; v = str(f); e = str(f); } break;
                    case 9: { long double f = (long double)(int64_t(r.u())) / 65536; v = str(f); e = str(f); } break;
                    case 10: v = r.p(.2) ? names[r.in(0, int(names.size()) - 1)].first : r.p(.1) ? "--" : word(); e = v; break;
                    default: { v = word(); std::vector<std::string> parts; if (v.size()) { parts.emplace_back(); for (char c : v) if (c == ',') parts.emplace_back(); else parts.back() += c; }
                               e = std::to_string(parts.size()); for (auto &p : parts) e += "|" + p; }
                }
                if (names[k].second) av.push_back(v);
                expect.push_back(std::to_string(ids[k].first) + ":" + e); count("options given");
            } else if (not ended and r.p(.08)) { av.push_back("--"); ended = true; count("ends of options"); }
            else {
                std::string w = r.p(.3) ? "-" + argname(r) : r.p(.2) ? "--" + argname(r) : ended and names.size() and r.p(.5) ? names[r.in(0, int(names.size()) - 1)].first : word();
                if (not ended and w == "--") continue;
                if (not ended and used.count(w)) continue;
                av.push_back(w);
                if (not ended and w.substr(0, 2) == "--") { warn += "warning: ignore unknown option " + w + "\n"; count("unknown options"); } else { pos.push_back(w); count("positional arguments"); }
            }
        }
        std::vector<const char*> argv; std::string what;
        for (auto &a : av) { argv.push_back(a.c_str()); what += "'" + a + "' "; }
        for (auto &[nm, kind] : names) what += " " + nm + "/" + std::to_string(kind);
        argv.push_back(nullptr);
        at("arguments " + what);
        std::ostringstream err;
        auto *old = std::cerr.rdbuf(err.rdbuf());
        A(int(av.size()), argv.data());
        std::cerr.rdbuf(old);
        HV_CHECK(log == expect, "args-options", [&] { std::string t; for (auto &x : log) t += x + " "; t += "instead of "; for (auto &x : expect) t += x + " "; return t; }() << "for " << what);
        HV_CHECK(std::vector<std::string>(A.args().begin(), A.args().end()) == pos, "args-positional", A.args().size() << " instead of " << pos.size() << " positional arguments for " << what);
        HV_CHECK(err.str() == warn, "args-warning", err.str() << " instead of " << warn << " for " << what);

        /* A timer is a sequence of named measurements, one per name in order of first use. */
        Timer T;
        std::vector<std::string> order; std::map<std::string, int> state; // 1 running, 2 finished
        std::map<std::string, std::unique_ptr<Timer::TimingProcess>> procs;
        auto check = [&](const std::string &op) {
            HV_CHECK(T.measurements().size() == order.size(), "timer-size", T.measurements().size() << " after " << op);
            for (std::size_t i = 0; i != order.size(); ++i) {
                auto &M = T.get(i);
                HV_CHECK(M.name == order[i] and &T.get(order[i]) == &M, "timer-name", M.name << " instead of " << order[i] << " after " << op);
                const bool run = state[order[i]] == 1;
                HV_CHECK(M.has_started() and not M.is_unused() and M.is_active() == run and M.is_finished() == not run and M.has_ended() == not run, "timer-state", order[i] << " after " << op);
                if (not run) HV_CHECK(M.duration().count() >= 0 and M.end - M.begin == M.duration(), "timer-duration", order[i]);
            }
        };
        std::string ops;
        for (int k = r.in(0, 15); k--;) {
            const std::string nm(1, r.of({'a', 'b', 'c', 'd'}));
            switch (r.in(0, 3)) {
                case 0: case 1: {
                    ops += "start " + nm + ";";
                    if (state[nm] == 1) {
                        bool thrown = false; try { auto P = T.create_timing(nm); } catch (const m::invalid_argument&) { thrown = true; }
                        HV_CHECK(thrown, "timer-restart", "measurement already in progress");
                    } else {
                        if (not state[nm]) order.push_back(nm);
                        state[nm] = 1; procs[nm].reset(new Timer::TimingProcess(T.create_timing(nm)));
                    }
                    break; }
                case 2: if (state[nm] == 1) { ops += "stop " + nm + ";"; procs[nm]->stop(); state[nm] = 2; procs[nm].reset(); } break;
                default: if (state[nm] == 1) { ops += "leave " + nm + ";"; procs[nm].reset(); state[nm] = 2; } break;
            }
            check(ops);
        }
        for (auto &[nm, P] : procs) if (P) { P.reset(); state[nm] = 2; }
        Timer::duration sum(0); for (auto &M : T) sum += M.end - M.begin;
        HV_CHECK(T.total() == sum, "timer-total", ops);
        bool thrown = false; try { T.get("x"); } catch (const m::out_of_range&) { thrown = true; } HV_CHECK(thrown, "timer-unknown", "x");
        thrown = false; try { T.get(order.size()); } catch (const m::out_of_range&) { thrown = true; } HV_CHECK(thrown, "timer-unknown", "index");
        ok(mix(hash(what), hash(ops)), expect.size() > 1 or order.size() > 1);
        sample(what);
    });
}

/*----- numbers ------------------------------------------------------------------------------------------------------*/
template<typename T>
static void numbers_of(Rng &r, const char *name) {
    using W = unsigned __int128;
    const int bits = sizeof(T) * 8;
    T n = r.p(.3) ? T(rand_bits(r)) : r.p(.5) ? T(T(1) << r.in(0, bits - 1)) + T(r.in(-1, 1)) : T(r.in(0, 300));
    at(std::string("numbers ") + name + " " + std::to_string(n));
    HV_CHECK(is_pow_2(n) == (std::bitset<64>(n).count() == 1), "is-pow-2", +n);
    W c = 1; while (c < n) c <<= 1;
    if (c <= std::numeric_limits<T>::max() and (n << 1) <= std::numeric_limits<T>::max() + W(0)) HV_CHECK(ceil_to_pow_2(n) == T(c), "ceil-to-pow-2", name << ' ' << +n << " -> " << +ceil_to_pow_2(n));
    unsigned fl = 0; for (W x = n; x > 1; x >>= 1) ++fl;
    unsigned ce = 0; while ((W(1) << ce) < n) ++ce;
    if (n) HV_CHECK(log2_floor(n) == fl, "log2-floor", name << ' ' << +n << " -> " << +log2_floor(n));
    HV_CHECK(log2_ceil(n) == ce, "log2-ceil", name << ' ' << +n << " -> " << +log2_ceil(n));
    T p = T(T(1) << r.in(0, bits - 2));
    W cm = (W(n) + p - 1) / p * p;
    if (cm <= std::numeric_limits<T>::max()) HV_CHECK(ceil_to_multiple_of_pow_2(n, p) == T(cm), "ceil-to-multiple", name << ' ' << +n << ' ' << +p);
    T f = T(r.in(1, 100));
    W ru = (W(n) + f - 1) / f * f;
    if (ru <= std::numeric_limits<T>::max()) HV_CHECK(round_up_to_multiple(n, f) == T(ru), "round-up", name << ' ' << +n << ' ' << +f);
    T b = T(rand_bits(r));
    const W mx = std::numeric_limits<T>::max();
    HV_CHECK(add_wo_overflow(n, b) == T(std::min(mx, W(n) + b)) and sum_wo_overflow(n, b, n) == T(std::min(mx, W(n) + b + n)), "add-wo-overflow", name << ' ' << +n << ' ' << +b);
    HV_CHECK(mul_wo_overflow(n, b) == T(std::min(mx, W(n) * b)) , "mul-wo-overflow", name << ' ' << +n << ' ' << +b);
    T w = T(rand_bits(r)); unsigned k = r.in(0, bits - 1); bool v = r.p(.5);
    T wb = w; setbit(&wb, v, k); HV_CHECK(wb == T(v ? w | (T(1) << k) : w & ~(T(1) << k)), "setbit", name << ' ' << +w << ' ' << k);
}
template<typename T>
static void range_of(Rng &r, const char *name) {
    T a = T(rand_bits(r)), b = r.p(.4) ? T(std::make_unsigned_t<T>(a) + std::make_unsigned_t<T>(r.in(-4, 4))) : T(rand_bits(r));
    __int128 lo = std::min(a, b), hi = std::max(a, b);
    __int128 cnt = hi - lo + 1;
    uint64_t n = r.p(.5) ? uint64_t(std::max<__int128>(0, std::min<__int128>(cnt + r.in(-2, 2), ~0ull))) : r.p(.5) ? r.in(0, 300) : rand_bits(r);
    HV_CHECK(is_range_wide_enough(a, b, n) == (cnt >= __int128(n)), "range-wide-enough", name << " [" << +a << ", " << +b << "] " << n);
}
static void numbers() {
    cases([](Rng &r, uint64_t) {
        numbers_of<uint32_t>(r, "u32"); numbers_of<uint64_t>(r, "u64"); numbers_of<unsigned long long>(r, "ull");
        range_of<int8_t>(r, "i8"); range_of<int16_t>(r, "i16"); range_of<int32_t>(r, "i32"); range_of<int64_t>(r, "i64"); range_of<uint32_t>(r, "u32"); range_of<uint64_t>(r, "u64");
        int64_t base = r.in(-9, 9); unsigned e = r.in(0, 18); int64_t pw = 1; for (unsigned i = 0; i < e; ++i) pw *= base;
        HV_CHECK(powi(base, e) == pw, "powi", base << '^' << e);
        const uint64_t wide = r.in(0, 3000), ub = rand_bits(r); uint64_t up = 1; for (uint64_t i = 0; i < wide; ++i) up *= ub;
        HV_CHECK(powi(ub, wide) == up and powi(ub, unsigned(wide)) == up, "powi", ub << '^' << wide);
        HV_CHECK(powi(-1, wide) == (wide % 2 ? -1 : 1), "powi", "1^" << wide);
        double x = r.p(.5) ? std::ldexp(double(r.in(-1000000, 1000000)), r.in(-1060, 1000)) : r.of({0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1.7976931348623157e308, 2.2250738585072014e-308});
        if (std::isfinite(x)) { double y = std::nextafter(x, INFINITY); HV_CHECK((y == 0 and x == 0) or sequence_number(y) == sequence_number(x) + 1, "sequence-number", num(x)); }
        float xf = float(r.in(-100000, 100000)) * std::ldexp(1.f, r.in(-140, 100)); if (std::isfinite(xf)) { float y = std::nextafter(xf, INFINITY); HV_CHECK(sequence_number(y) == sequence_number(xf) + 1, "sequence-number-f", xf); }
        { double a = x, b = x; unsigned steps = r.in(0, 40); for (unsigned i = 0; i < steps; ++i) b = std::nextafter(b, INFINITY); uint64_t n = r.in(0, 45);
          if (std::isfinite(b)) { bool w = n <= steps + 1; HV_CHECK(is_range_wide_enough(a, b, n) == w and is_range_wide_enough(b, a, n) == w, "range-wide-double", num(a) << ' ' << steps << ' ' << n); } }
        uint64_t pg = get_pagesize(), z = r.in(1, 1 << 20);
        HV_CHECK(Ceil_To_Next_Page(z) == (z + pg - 1) / pg * pg and bool(Is_Page_Aligned(z)) == (z % pg == 0) and Is_Page_Aligned(z / pg * pg), "page", z);
        std::tm tm{}; tm.tm_year = r.in(-1899, 8099); tm.tm_mon = r.in(0, 11); tm.tm_mday = r.in(1, 28); tm.tm_hour = r.in(0, 23); tm.tm_min = r.in(0, 59); tm.tm_sec = r.in(0, 59);
        std::stringstream ss; ss << put_tm(tm); std::tm g{}; ss >> get_tm(g);
        char want[64]; snprintf(want, sizeof want, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
        HV_CHECK(ss.str() == want, "put-tm", ss.str() << " for " << want);
        HV_CHECK(g.tm_year == tm.tm_year and g.tm_mon == tm.tm_mon and g.tm_mday == tm.tm_mday and g.tm_hour == tm.tm_hour and g.tm_min == tm.tm_min and g.tm_sec == tm.tm_sec, "get-tm", want);
        ok(mix(hash(num(x)), r.u()));
    });
}

/*----- allocators ---------------------------------------------------------------------------------------------------*/
struct Block { uint8_t *p; std::size_t size; uint8_t pattern; };
static void fill(Block &b) { memset(b.p, b.pattern, b.size); }
static bool intact(const Block &b) { for (std::size_t i = 0; i != b.size; ++i) if (b.p[i] != b.pattern) return false; return true; }

template<typename A>
static void exercise(Rng &r, A &alloc, std::vector<Block> &blocks, int steps, std::size_t max, uint64_t &h) {
    auto pick_size = [&]() -> std::size_t { return r.p(.5) ? r.in(1, 40) : r.p(.7) ? r.in(1, 600) : r.p(.5) ? r.of({8, 16, 24, 32, 64, 4080, 4088, 4096, 4097, 8192}) : r.in(1, max); };
    for (int s = 0; s != steps; ++s) {
        if (blocks.empty() or r.p(.55)) {
            Block b; b.size = pick_size(); b.pattern = uint8_t(r.u());
            const std::size_t al = r.p(.5) ? 0 : std::size_t(1) << r.in(0, r.p(.1) ? 14 : 7);
            at("allocate " + std::to_string(b.size) + " align " + std::to_string(al) + " step " + std::to_string(s));
            b.p = static_cast<uint8_t*>(alloc.allocate(b.size, al));
            HV_CHECK(b.p != nullptr, "alloc-null", b.size);
            if (al) HV_CHECK(uintptr_t(b.p) % al == 0, "alloc-align", (void*) b.p << " not aligned to " << al);
            for (auto &o : blocks) HV_CHECK(b.p + b.size <= o.p or o.p + o.size <= b.p, "alloc-overlap", "allocation of " << b.size << " overlaps a live one of " << o.size);
            fill(b);
            blocks.push_back(b);
            count("allocations");
        } else {
            std::size_t i = r.p(.3) ? blocks.size() - 1 : r.in(0, blocks.size() - 1);
            HV_CHECK(intact(blocks[i]), "alloc-corrupt", "a live block of " << blocks[i].size << " was overwritten");
            at("deallocate " + std::to_string(blocks[i].size) + " step " + std::to_string(s));
            alloc.deallocate(blocks[i].p, blocks[i].size);
            blocks.erase(blocks.begin() + i);
            count("deallocations");
        }
        h = mix(h, blocks.size() * 7919 + (blocks.empty() ? 0 : blocks.back().size));
        if (s % 16 == 0) for (auto &b : blocks) HV_CHECK(intact(b), "alloc-corrupt", "a live block of " << b.size << " was overwritten");
    }
    for (auto &b : blocks) HV_CHECK(intact(b), "alloc-corrupt", "a live block of " << b.size << " was overwritten");
}
static void release(Rng &r, auto &alloc, std::vector<Block> &blocks) {
    r.shuffle(blocks);
    for (auto &b : blocks) { HV_CHECK(intact(b), "alloc-corrupt", b.size); alloc.deallocate(b.p, b.size); }
    blocks.clear();
}
static long maps() { long n = 0; FILE *f = fopen("/proc/self/maps", "r"); char l[512]; while (fgets(l, sizeof l, f)) n += strstr(l, "rewire_allocator") != nullptr; fclose(f); return n; }
[[maybe_unused]] static std::size_t vmsize() { FILE *f = fopen("/proc/self/statm", "r"); long n = 0; if (fscanf(f, "%ld", &n) != 1) n = 0; fclose(f); return n; }

static void alloc() {
    cases([](Rng &r, uint64_t) {
        std::vector<Block> blocks;
        uint64_t h = 1;
        const int steps = r.in(20, 250);
        switch (r.in(0, 4)) {
            case 0: { malloc_allocator A; exercise(r, A, blocks, steps, 100000, h); release(r, A, blocks); break; }
            default: {
                list_allocator A(r.of({0, 1, 64, 4096, 5000, 1 << 16}), r.p(.5) ? AllocationStrategy::Linear : AllocationStrategy::Exponential);
                exercise(r, A, blocks, steps, 30000, h);
                if (r.p(.3)) {   // moving the allocator moves its chunks
                    list_allocator B(std::move(A));
                    exercise(r, B, blocks, steps / 2, 30000, h);
                    A = std::move(B);
                    exercise(r, A, blocks, steps / 2, 30000, h);
                }
                if (r.p(.2)) { list_allocator C(A); std::vector<Block> o; exercise(r, C, o, 20, 5000, h); release(r, C, o); }
                HV_CHECK(A.allocate(0) == nullptr, "alloc-zero", ""); A.deallocate(nullptr, 0);
                release(r, A, blocks);
                /* everything was returned: each fresh chunk must be whole again, hence a big block fits without growing */
                std::size_t n = A.num_chunks_available();
                void *p = A.allocate(16); A.deallocate(p, 16);
                HV_CHECK(A.num_chunks_available() == std::max<std::size_t>(n, 1), "alloc-coalesce", n << " chunks before and " << A.num_chunks_available() << " after an allocation was returned");
                count("chunks", n);
                break;
            }
        }
        ok(h);
    });
}

/** Returned chunks coalesce: after all blocks are returned, an allocation of the initial size needs no fresh memory. */
static void coalesce() {
    cases([](Rng &r, uint64_t) {
        const std::size_t pages = r.in(1, 6), total = pages * get_pagesize();
        list_allocator A(total);
        HV_CHECK(A.num_chunks_available() == 1, "coalesce-initial", A.num_chunks_available());
        std::vector<Block> bl; uint64_t h = total;
        std::size_t used = 0;
        while (true) {
            std::size_t s = r.in(1, 300);
            if (used + s + 64 > total / 2) break;
            Block b{static_cast<uint8_t*>(A.allocate(s)), s, uint8_t(r.u())}; fill(b); bl.push_back(b); used += s + 32; h = mix(h, s);
        }
        uint8_t *lo = nullptr; for (auto &b : bl) if (not lo or b.p < lo) lo = b.p;
        release(r, A, bl);
        HV_CHECK(A.num_chunks_available() == 1, "coalesce", A.num_chunks_available() << " chunks remain after everything was returned to a single-chunk allocator");
        void *p = A.allocate(total - sizeof(std::size_t));
        HV_CHECK(bl.empty() and (not lo or p == lo), "coalesce-reuse", "the whole chunk is not reused");
        HV_CHECK(A.num_chunks_available() == 0, "coalesce-whole", A.num_chunks_available());
        A.deallocate(p, total - sizeof(std::size_t));
        ok(h);
    });
}

static void mem() {
    cases([](Rng &r, uint64_t) {
        using namespace m::memory;
        const std::size_t P = get_pagesize();
        LinearAllocator A;
        struct M { Memory mem; uint64_t tag; };
        std::vector<M> live;
        auto write = [&](M &x) { auto p = x.mem.as<uint64_t*>(); for (std::size_t i = 0; i < x.mem.size() / 8; i += 64) p[i] = x.tag + i; };
        auto check = [&](M &x, const char *when) { auto p = x.mem.as<uint64_t*>(); for (std::size_t i = 0; i < x.mem.size() / 8; i += 64) if (p[i] != x.tag + i) { HV_CHECK(false, std::string("memory-content:") + when, "offset " << i * 8); return; } };
        uint64_t h = 3; uint64_t tag = 1;
        const long maps0 = maps();
        const bool big = r.p(.02); if (big) count("histories with megabytes");
        const std::size_t span = big ? 600 : 5;
        for (int s = big ? r.in(5, 25) : r.in(5, 60); s; --s) {
            int op = r.in(0, 9);
            if (op <= 4 or live.empty()) {
                std::size_t sz = r.p(.3) ? r.in(1, span) * P : r.in(1, span * P);
                auto m = A.allocate(sz);
                HV_CHECK(m.size() >= sz and m.size() % P == 0 and m.size() - sz < P and uintptr_t(m.addr()) % P == 0 and m.offset() % P == 0, "memory-size", sz << " -> " << m.size());
                for (auto &o : live) {
                    HV_CHECK(m.offset() + m.size() <= o.mem.offset() or o.mem.offset() + o.mem.size() <= m.offset(), "memory-overlap", "file ranges overlap");
                    HV_CHECK(m.as<char*>() + m.size() <= o.mem.as<char*>() or o.mem.as<char*>() + o.mem.size() <= m.as<char*>(), "memory-overlap", "addresses overlap");
                }
                HV_CHECK(A.offset() == m.offset() + m.size(), "memory-offset", A.offset());
                live.push_back({std::move(m), tag}); tag += 1000003; write(live.back());
                h = mix(h, sz);
            } else if (op <= 7) {
                std::size_t i = r.p(.5) ? live.size() - 1 : r.in(0, live.size() - 1);
                check(live[i], "before-free");
                live.erase(live.begin() + i);   // exercises move assignment of Memory, too
                h = mix(h, i);
                /* reclaiming: nothing may lie beyond the end of the last live allocation */
                std::size_t end = 0; for (auto &o : live) end = std::max(end, o.mem.offset() + o.mem.size());
                HV_CHECK(A.offset() == end, "memory-reclaim", "next offset " << A.offset() << " but the last live allocation ends at " << end);
                struct stat st; fstat(A.fd(), &st); HV_CHECK(std::size_t(st.st_size) == end, "memory-truncate", "file of " << st.st_size << " bytes, " << end << " in use");
            } else {   // map parts of several allocations into one contiguous address space
                std::size_t pages = big ? r.in(1, 1000) : r.in(1, 12);
                AddressSpace vm(pages * P - (r.p(.5) ? r.in(0, P - 1) : 0));
                HV_CHECK(vm.size() == pages * P, "address-space-size", vm.size());
                std::vector<std::pair<M*, std::size_t>> owner(pages, {nullptr, 0});
                for (int k = r.in(1, 5); k; --k) {
                    auto &x = r.pick(live);
                    std::size_t n = x.mem.size() / P, src = r.in(0, n - 1), len = r.in(1, n - src), dst = r.in(0, pages - 1);
                    len = std::min(len, pages - dst);
                    x.mem.map(len * P, src * P, vm, dst * P);
                    for (std::size_t i = 0; i != len; ++i) owner[dst + i] = {&x, src + i};
                    count("mappings");
                }
                for (std::size_t i = 0; i != pages; ++i) {
                    if (not owner[i].first) continue;
                    auto a = reinterpret_cast<uint64_t*>(vm.as<char*>() + i * P); auto b = reinterpret_cast<uint64_t*>(owner[i].first->mem.as<char*>() + owner[i].second * P);
                    HV_CHECK(memcmp(a, b, P) == 0, "rewire-read", "page " << i);
                    a[5] ^= 0xabcdef; HV_CHECK(a[5] == b[5], "rewire-alias", "page " << i); a[5] ^= 0xabcdef;
                }
            }
            for (auto &o : live) check(o, "step");
        }
        while (not live.empty()) { check(live.back(), "end"); live.pop_back(); }
        HV_CHECK(A.offset() == 0, "memory-reclaim", "offset " << A.offset() << " after everything was returned");
        HV_CHECK(A.allocate(0).addr() == nullptr, "memory-zero", "");
        HV_CHECK(maps() == maps0, "memory-unmap", maps() - maps0 << " mappings remain");
        ok(h);
    });
}

/*----- pools --------------------------------------------------------------------------------------------------------*/
static void pool() {
    cases([](Rng &r, uint64_t) {
        uint64_t h = 5;
        {
            StringPool P(r.of({1, 8, 1024}));
            std::map<std::string, const char*> addr;
            std::map<std::string, unsigned> refs;
            struct H { std::string s; PooledString p; };
            std::vector<H> hs;
            std::vector<PooledOptionalString> opt; std::vector<std::string> opts;
            for (int s = r.in(10, 120); s; --s) {
                int op = r.in(0, 9);
                if (op <= 3 or hs.empty()) {
                    std::string k(r.in(0, 3), 'a'); for (auto &c : k) c = r.of({'a', 'b', char(200)});
                    H x{k, r.p(.5) ? P(k.c_str()) : P(std::string_view(k + "zzz").substr(0, k.size()))};
                    HV_CHECK(std::string(*x.p) == k, "pool-value", k);
                    auto [it, fresh] = addr.emplace(k, *x.p);
                    HV_CHECK(it->second == *x.p, "pool-intern", "equal strings at different addresses: " << k);
                    hs.push_back(std::move(x)); ++refs[k];
                } else if (op <= 5) { auto i = r.in(0, hs.size() - 1); hs.push_back(H{hs[i].s, PooledString(hs[i].p)}); ++refs[hs[i].s]; }
                else if (op == 6) { auto i = r.in(0, hs.size() - 1), j = r.in(0, int64_t(hs.size()) - 1); --refs[hs[i].s]; hs[i].s = hs[j].s; hs[i].p = hs[j].p; ++refs[hs[j].s]; }
                else if (op == 7) { auto i = r.in(0, hs.size() - 1); --refs[hs[i].s]; std::swap(hs[i], hs.back()); hs.pop_back(); }
                else if (op == 8) { auto i = r.in(0, hs.size() - 1); opts.push_back(hs[i].s); opt.emplace_back(hs[i].p); ++refs[hs[i].s]; }
                else if (not opt.empty()) {
                    HV_CHECK(opt.back().has_value() and std::string(*opt.back()) == opts.back(), "pool-optional", opts.back());
                    if (r.p(.5)) { PooledString q(std::move(opt.back())); HV_CHECK(std::string(*q) == opts.back(), "pool-optional", "moved"); HV_CHECK(not opt.back().has_value(), "pool-optional", "moved-from has a value"); --refs[opts.back()]; opt.pop_back(); }
                    else { auto q = opt.back().assert_not_none(); HV_CHECK(std::string(*q) == opts.back() and q.count() == refs[opts.back()] + 1, "pool-optional", "copy"); --refs[opts.back()]; opt.pop_back(); }
                    opts.pop_back();
                }
                for (int k = 0; k != 3 and not hs.empty(); ++k) {
                    auto &a = r.pick(hs); auto &b = r.pick(hs);
                    HV_CHECK((a.p == b.p) == (a.s == b.s) and (a.p != b.p) == (a.s != b.s), "pool-equal", a.s << ' ' << b.s);
                    HV_CHECK(a.p.count() == refs[a.s], "pool-count", a.s << ": " << a.p.count() << " references, expected " << refs[a.s]);
                    HV_CHECK(*a.p == addr[a.s], "pool-stable", "the address of " << a.s << " changed");
                    HV_CHECK(std::hash<PooledString>{}(a.p) == std::hash<PooledString>{}(PooledString(a.p)), "pool-hash", a.s);
                }
                HV_CHECK(P.size() == addr.size(), "pool-size", P.size() << " vs " << addr.size());
                h = mix(h, op * 31 + hs.size());
            }
            PooledOptionalString none; bool threw = false; try { none.assert_not_none(); } catch (m::invalid_argument&) { threw = true; }
            HV_CHECK(threw and not none.has_value() and none.count() == 0, "pool-none", "");
        }
        ok(h);
    });
}

int main(int argc, char **argv) {
    return nat_main(argc, argv, {{"bitset", bitset}, {"subsets", subsets}, {"list", list}, {"refmap", refmap}, {"arrays", arrays}, {"strings", strings}, {"args", args},
                                 {"numbers", numbers}, {"alloc", alloc}, {"coalesce", coalesce}, {"mem", mem}, {"pool", pool}});
}
