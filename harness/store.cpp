// Data layouts, stores, compiled loads and stores, bulk data generation: against a bit-level model of the layout tree.
#include "nat.hpp"
#include "backend/Interpreter.hpp"
#include "backend/StackMachine.hpp"
#include "storage/ColumnStore.hpp"
#include "storage/PaxStore.hpp"
#include "storage/RowStore.hpp"
#include "storage/store_manip.hpp"
#include <mutable/mutable.hpp>
#include <mutable/storage/DataLayout.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>

using namespace m;
using namespace m::storage;
using namespace hv;

static const Type *rand_type(Rng &r) {
    switch (r.in(0, 11)) {
        case 0: return Type::Get_Integer(Type::TY_Vector, 1);
        case 1: return Type::Get_Integer(Type::TY_Vector, 2);
        case 2: return Type::Get_Integer(Type::TY_Vector, 4);
        case 3: return Type::Get_Integer(Type::TY_Vector, 8);
        case 4: { unsigned d = r.in(1, 18); return Type::Get_Decimal(Type::TY_Vector, d, r.in(0, d)); }
        case 5: return Type::Get_Float(Type::TY_Vector);
        case 6: return Type::Get_Double(Type::TY_Vector);
        case 7: return Type::Get_Char(Type::TY_Vector, r.p(.1) ? r.in(30, 700) : r.in(1, 9));
        case 8: return Type::Get_Varchar(Type::TY_Vector, r.p(.1) ? r.in(30, 700) : r.in(1, 9));
        case 9: return Type::Get_Date(Type::TY_Vector);
        case 10: return Type::Get_Datetime(Type::TY_Vector);
        default: return Type::Get_Boolean(Type::TY_Vector);
    }
}
static std::string show(const std::vector<const Type*> &ts) { std::ostringstream o; for (auto t : ts) o << *t << ' '; return o.str(); }
static std::string name_of(const DataLayoutFactory &f) { std::ostringstream o; o << f; return o.str(); }

static std::unique_ptr<DataLayoutFactory> rand_factory(Rng &r) {
    switch (r.in(0, 3)) {
        case 0: return std::make_unique<RowLayoutFactory>();
        case 1: return std::make_unique<PAXLayoutFactory>(PAXLayoutFactory::NTuples, r.p(.5) ? r.of({1, 2, 3, 7, 8, 16, 17, 31, 64, 100, 128}) : r.in(1, 300));
        default: return std::make_unique<PAXLayoutFactory>(PAXLayoutFactory::NBytes, r.p(.5) ? r.of({256, 1024, 4096, 4096, 16384, 65536, 1 << 19, 1 << 22}) : 8 * r.in(8, 1200));
    }
}

/*----- reference: where is the value of leaf `idx` in row `row`? -----------------------------------------------------*/
struct leaf_t { const Type *type; uint64_t bit; };
static void locate(const DataLayout::INode &n, uint64_t base, std::size_t row, std::map<std::size_t, leaf_t> &out) {
    for (std::size_t i = 0; i != n.num_children(); ++i) {
        auto &c = n[i];
        if (auto l = cast<const DataLayout::Leaf>(c.ptr.get())) {
            out[l->index()] = {l->type(), base + c.offset_in_bits + row * c.stride_in_bits};
        } else {
            auto &in = as<const DataLayout::INode>(*c.ptr);
            locate(in, base + c.offset_in_bits + (row / in.num_tuples()) * c.stride_in_bits, row % in.num_tuples(), out);
        }
    }
}
static std::map<std::size_t, leaf_t> locate(const DataLayout &L, std::size_t row) {
    std::map<std::size_t, leaf_t> m; locate(static_cast<const DataLayout::INode&>(L), 0, row, m); return m;
}

/*----- layouts made by factories ------------------------------------------------------------------------------------*/
static void layout() {
    cases([](Rng &r, uint64_t) {
        std::vector<const Type*> ts;
        const std::size_t k = r.p(.15) ? r.in(20, 64) : r.in(1, 10);
        for (std::size_t i = 0; i != k; ++i) ts.push_back(rand_type(r));
        auto f = rand_factory(r);
        const std::size_t num = r.p(.5) ? 0 : r.in(2, 3000);
        at("layout " + name_of(*f) + " " + std::to_string(num) + " " + show(ts));
        auto f2 = f->clone();
        const DataLayout L = (r.p(.5) ? f : f2)->make(ts, num);
        HV_CHECK(L.is_finite() == (num != 0) and (not num or L.num_tuples() == num), "layout-tuples", "number of tuples");
        auto &root = static_cast<const DataLayout::INode&>(L);
        HV_CHECK(root.num_children() == 1 and is<const DataLayout::INode>(*root[0].ptr), "layout-root", "one inner node");
        auto &block = as<const DataLayout::INode>(L.child());
        const uint64_t n = block.num_tuples(), stride = L.stride_in_bits();
        HV_CHECK(n >= 1, "layout-empty-block", "block for zero tuples");
        std::vector<std::tuple<uint64_t, uint64_t, std::size_t>> cols;
        std::set<std::size_t> seen;
        for (std::size_t c = 0; c != block.num_children(); ++c) {
            auto &ch = block[c];
            auto &leaf = as<const DataLayout::Leaf>(*ch.ptr);
            HV_CHECK(seen.insert(leaf.index()).second, "layout-duplicate", "attribute " << leaf.index() << " occurs twice");
            const bool bitmap = leaf.index() == k;
            HV_CHECK(bitmap ? leaf.type()->is_bitmap() : leaf.index() < k and leaf.type() == ts[leaf.index()], "layout-type", "type of attribute " << leaf.index());
            const uint64_t sz = leaf.type()->size(), al = leaf.type()->alignment();
            if (bitmap) HV_CHECK(sz >= k, "layout-bitmap-size", "NULL bitmap has " << sz << " bits");
            HV_CHECK(n == 1 or ch.stride_in_bits >= sz, "layout-stride", "stride " << ch.stride_in_bits << " of attribute " << leaf.index() << " of size " << sz);
            HV_CHECK(ch.offset_in_bits % al == 0 and (n == 1 or ch.stride_in_bits % al == 0) and (stride % al == 0), "layout-alignment",
                     "attribute " << leaf.index() << " at " << ch.offset_in_bits << " stride " << ch.stride_in_bits << " block stride " << stride << " alignment " << al);
            cols.emplace_back(ch.offset_in_bits, ch.offset_in_bits + (n - 1) * ch.stride_in_bits + sz, leaf.index());
        }
        HV_CHECK(seen.size() == k + 1, "layout-missing", seen.size() << " of " << k + 1 << " columns");
        std::sort(cols.begin(), cols.end());
        for (std::size_t i = 0; i + 1 < cols.size(); ++i)
            HV_CHECK(std::get<1>(cols[i]) <= std::get<0>(cols[i + 1]), "layout-overlap", "columns " << std::get<2>(cols[i]) << " and " << std::get<2>(cols[i + 1]) << " overlap");
        HV_CHECK(std::get<1>(cols.back()) <= stride, "layout-exceeds-block", "column " << std::get<2>(cols.back()) << " ends at " << std::get<1>(cols.back()) << " of " << stride);
        /* The traversal of sibling leaves reports the same places. */
        std::size_t leaves = 0;
        L.for_sibling_leaves([&](const std::vector<DataLayout::leaf_info_t> &ls, const DataLayout::level_info_stack_t &lv, uint64_t off) {
            HV_CHECK(lv.size() == 1 and lv[0].num_tuples == n and lv[0].stride_in_bits == stride and off == 0, "layout-siblings", "levels");
            for (auto &l : ls) {
                ++leaves;
                auto e = locate(L, 1);
                HV_CHECK(e.at(l.leaf.index()).bit == (n > 1 ? l.offset_in_bits + l.stride_in_bits : stride + l.offset_in_bits), "layout-siblings", "leaf " << l.leaf.index());
            }
        });
        HV_CHECK(leaves == k + 1, "layout-siblings", leaves << " leaves");
        count("layouts:" + std::string(n == 1 ? "rowwise" : "blocks"));
        ok(mix(mix(hash(show(ts)), hash(name_of(*f))), num), k > 1);
    });
}

/*----- random layouts of several levels -----------------------------------------------------------------------------*/
static uint64_t up(uint64_t x, uint64_t a) { return (x + a - 1) / a * a; }

/** Adds the leaves `ls` to `n` and returns the number of bits of an instance. */
static uint64_t fill(Rng &r, DataLayout::INode &n, std::vector<std::pair<std::size_t, const Type*>> ls, unsigned depth, unsigned &inodes) {
    const uint64_t T = n.num_tuples();
    uint64_t off = 0;
    r.shuffle(ls);
    std::size_t i = 0;
    while (i != ls.size()) {
        if (depth and (r.p(.35))) { // inner node for some of the leaves
            std::size_t m = r.in(1, ls.size() - i);
            std::vector<std::pair<std::size_t, const Type*>> sub(ls.begin() + i, ls.begin() + i + m);
            i += m;
            std::vector<uint64_t> divs;
            for (uint64_t d = 1; d <= T; ++d) if (T % d == 0) divs.push_back(d);
            const uint64_t k = r.pick(divs);
            /* The stride is known only after the children are: build twice with the same choices. */
            Rng saved(r.u());
            Rng r1 = saved;
            DataLayout scratch; unsigned dummy = 0;
            auto &probe = scratch.add_inode(k, 64);
            uint64_t bits = up(fill(r1, probe, sub, depth - 1, dummy), 64) + 64 * (r.p(.3) ? r.in(0, 3) : 0);
            off = up(off, 64);
            auto &in = n.add_inode(k, off, T == 1 ? 0 : bits);
            ++inodes;
            Rng r2 = saved;
            fill(r2, in, sub, depth - 1, inodes);
            off += bits * (T / k);
        } else {
            auto [idx, ty] = ls[i++];
            uint64_t stride = ty->size(), al = std::max<uint64_t>(8, ty->alignment());
            if (ty->is_boolean()) stride = r.p(.7) ? 1 : r.of({8, 16, 64});
            else if (ty->is_bitmap()) stride = r.p(.5) ? stride : r.p(.5) ? up(stride, 8) : stride + r.in(0, 9);
            else if (r.p(.2)) stride = up(stride + r.in(0, 3) * al, al);
            if (T == 1) { al = ty->alignment(); stride = 0; }
            off = up(off, al) + (r.p(.1) ? al : 0);
            n.add_leaf(ty, idx, off, stride);
            off += T == 1 ? ty->size() : T * stride; // blocks hold whole strides
        }
    }
    return off;
}

static DataLayout rand_layout(Rng &r, const std::vector<const Type*> &ts, bool bitmap, std::size_t &rows, unsigned &inodes) {
    const uint64_t n = r.of({1, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 24, 30, 64});
    std::vector<std::pair<std::size_t, const Type*>> ls;
    for (std::size_t i = 0; i != ts.size(); ++i) ls.emplace_back(i, ts[i]);
    if (bitmap) ls.emplace_back(ts.size(), (const Type*) Type::Get_Bitmap(Type::TY_Vector, ts.size()));
    Rng saved(r.u());
    const unsigned depth = r.in(0, 3);
    DataLayout scratch; unsigned dummy = 0;
    Rng r1 = saved;
    const uint64_t bits = up(fill(r1, scratch.add_inode(n, 64), ls, depth, dummy), 64) + 64 * (r.p(.3) ? r.in(0, 3) : 0);
    rows = n * r.in(1, 4);
    const bool finite = rows != 1 and r.p(.3);
    DataLayout L(finite ? rows : 0);
    Rng r2 = saved;
    fill(r2, L.add_inode(n, bits), ls, depth, inodes);
    return L;
}

/*----- compiled loads and stores ------------------------------------------------------------------------------------*/
struct cell_t { bool null; std::string v; bool operator==(const cell_t &o) const { return null == o.null and (null or v == o.v); } };

static std::string raw(const uint8_t *p, uint64_t bit, const Type *t) {
    if (t->is_boolean()) return std::string(1, char('0' + ((p[bit / 8] >> (bit % 8)) & 1)));
    std::string s(reinterpret_cast<const char*>(p + bit / 8), t->size() / 8);
    if (auto c = cast<const CharacterSequence>(t)) { s.resize(std::min<std::size_t>(s.size(), c->length)); if (auto z = s.find('\0'); z != s.npos) s.resize(z); }
    return s;
}
static std::string of_value(const Value &v, const Type *t) {
    if (t->is_boolean()) return v.as_b() ? "1" : "0";
    if (t->is_character_sequence()) return reinterpret_cast<const char*>(v.as_p());
    if (t->is_float()) { float f = v.as_f(); return std::string(reinterpret_cast<char*>(&f), 4); }
    if (t->is_double()) { double f = v.as_d(); return std::string(reinterpret_cast<char*>(&f), 8); }
    int64_t i = v.as_i();
    const std::size_t n = t->size() / 8;
    if (n < 8 and i >> (8 * n - 1) != 0 and i >> (8 * n - 1) != -1) return "value out of range";
    return std::string(reinterpret_cast<char*>(&i), n);
}
static std::string rand_cell(Rng &r, const Type *t) {
    if (t->is_boolean()) return r.p(.5) ? "1" : "0";
    if (auto c = cast<const CharacterSequence>(t)) {
        std::string s(r.p(.3) ? c->length : r.in(0, c->length), 'x');
        for (auto &x : s) x = char(r.p(.1) ? r.in(128, 255) : r.in(1, 127));
        return s;
    }
    if (t->is_float()) { float f = float(r.in(-1000, 1000)) / 8; return std::string(reinterpret_cast<char*>(&f), 4); }
    if (t->is_double()) { double f = double(r.in(-100000, 100000)) / 8; return std::string(reinterpret_cast<char*>(&f), 8); }
    uint64_t u = r.p(.2) ? (r.p(.5) ? ~0ull : 1ull << (t->size() - 1)) : r.u();
    return std::string(reinterpret_cast<char*>(&u), t->size() / 8);
}
static void put(Tuple &tup, std::size_t i, const std::string &v, const Type *t) {
    if (t->is_boolean()) tup.set(i, v == "1");
    else if (t->is_character_sequence()) { tup.not_null(i); strcpy(reinterpret_cast<char*>(tup[i].as_p()), v.c_str()); }
    else if (t->is_float()) { float f; memcpy(&f, v.data(), 4); tup.set(i, f); }
    else if (t->is_double()) { double f; memcpy(&f, v.data(), 8); tup.set(i, f); }
    else { int64_t x = 0; memcpy(&x, v.data(), v.size()); const unsigned s = 64 - 8 * v.size(); x = int64_t(uint64_t(x) << s) >> s; tup.set(i, x); }
}

static void accesses() {
    auto &C = Catalog::Get();
    cases([&](Rng &r, uint64_t) {
        std::vector<const Type*> ts;
        const std::size_t k = r.p(.1) ? r.in(12, 40) : r.in(1, 8);
        const double pbool = r.of({.05, .4, .9});
        for (std::size_t i = 0; i != k; ++i) ts.push_back(r.p(pbool) ? (const Type*) Type::Get_Boolean(Type::TY_Vector) : rand_type(r));
        Schema LS;
        std::vector<bool> nullable;
        const bool bitmap = r.p(.9);
        const double pnn = r.of({.0, .3, 1.});
        for (std::size_t i = 0; i != k; ++i) {
            nullable.push_back(not r.p(pnn));
            LS.add(Schema::Identifier(C.pool("t"), C.pool(("a" + std::to_string(i)).c_str())), ts[i], nullable[i] ? Schema::entry_type::constraints_t(0) : Schema::entry_type::NOT_NULLABLE);
        }
        std::size_t rows; unsigned inodes = 1;
        const bool nested = r.p(.65);
        std::unique_ptr<DataLayoutFactory> f;
        DataLayout L;
        std::string desc;
        if (nested) {
            L = rand_layout(r, ts, bitmap, rows, inodes);
        } else {
            f = rand_factory(r);
            desc = name_of(*f);
            L = f->make(ts, r.p(.3) ? 2000 : 0);
            rows = std::min<std::size_t>(600, as<const DataLayout::INode>(L.child()).num_tuples() * 2 + r.in(1, 30));
        }
        const bool has_bitmap = nested ? bitmap : true;
        std::ostringstream o; o << L;
        at("access " + desc + " rows=" + std::to_string(rows) + " " + o.str());
        const uint64_t root_n = as<const DataLayout::INode>(L.child()).num_tuples();
        const std::size_t bytes = L.stride_in_bits() / 8 * ((rows + root_n - 1) / root_n);
        uint8_t *mem = static_cast<uint8_t*>(aligned_alloc(64, up(bytes, 64)));
        for (std::size_t i = 0; i != bytes; ++i) mem[i] = uint8_t(r.u());
        std::vector<std::map<std::size_t, leaf_t>> where;
        for (std::size_t i = 0; i != rows; ++i) where.push_back(locate(L, i));
        auto decode = [&](std::size_t row, std::size_t a) {
            auto &w = where[row];
            const bool null = has_bitmap and nullable[a] and (mem[(w.at(k).bit + a) / 8] >> ((w.at(k).bit + a) % 8) & 1);
            return cell_t{null, raw(mem, w.at(a).bit, ts[a])};
        };
        std::vector<std::vector<cell_t>> model(rows);
        for (std::size_t i = 0; i != rows; ++i) for (std::size_t a = 0; a != k; ++a) model[i].push_back(decode(i, a));
        bool bad = false;
        uint64_t h = hash(o.str()), moved = 0;
        for (unsigned op = 0, ops = r.in(4, 10); op != ops and not bad; ++op) {
            std::vector<std::size_t> sub(k);
            std::iota(sub.begin(), sub.end(), 0);
            r.shuffle(sub);
            sub.resize(r.p(.4) ? k : r.in(1, k));
            Schema TS;
            std::vector<const Type*> tys;
            for (auto a : sub) { TS.add(LS[a].id, ts[a]); tys.push_back(ts[a]); }
            const std::size_t row = r.p(.2) ? 0 : r.in(0, rows - 1), cnt = std::min<std::size_t>(rows - row, r.p(.3) ? rows : r.in(1, 70));
            const std::size_t tid = r.p(.2) ? 1 : 0;
            Tuple other, tup(TS);
            Tuple *args[2] = {&other, &other};
            args[tid] = &tup;
            const bool store = r.p(.5);
            h = mix(h, row * 1000003 + cnt * 2 + store);
            StackMachine SM = store ? Interpreter::compile_store(TS, mem, L, LS, row, tid) : Interpreter::compile_load(TS, mem, L, LS, row, tid);
            for (std::size_t i = 0; i != cnt; ++i) {
                if (store) {
                    for (std::size_t j = 0; j != sub.size(); ++j) {
                        const bool null = has_bitmap and nullable[sub[j]] and r.p(.3);
                        std::string v = rand_cell(r, tys[j]);
                        if (null and r.p(.5)) tup.null(j);
                        else { put(tup, j, v, tys[j]); if (null) tup.null(j); }
                        model[row + i][sub[j]] = cell_t{null, v};
                    }
                    SM(args);
                } else {
                    for (std::size_t j = 0; j != sub.size(); ++j) { put(tup, j, rand_cell(r, tys[j]), tys[j]); if (r.p(.5)) tup.null(j); }
                    SM(args);
                    for (std::size_t j = 0; j != sub.size() and not bad; ++j) {
                        cell_t got{tup.is_null(j), {}};
                        if (not got.null) got.v = of_value(tup[j], tys[j]);
                        if (not (got == model[row + i][sub[j]])) {
                            bad = true;
                            fail(std::string("load-") + (nested ? "nested" : "factory"), "loading attribute " + std::to_string(sub[j]) + " of row " + std::to_string(row + i) + " (from row " + std::to_string(row) + ")" +
                                 (got.null ? " NULL" : "") + (model[row + i][sub[j]].null ? ", expected NULL" : "") + " from " + desc + o.str());
                        }
                    }
                    if (bad) break;
                }
                ++moved;
            }
            if (store) {
                for (std::size_t i = 0; i != rows and not bad; ++i) for (std::size_t a = 0; a != k and not bad; ++a) {
                    cell_t got = decode(i, a);
                    if (not (got == model[i][a])) {
                        bad = true;
                        const bool own = i >= row and i < row + cnt and std::count(sub.begin(), sub.end(), a);
                        fail(own ? "store-value" : "store-neighbour", std::string(own ? "stored" : "undisturbed") + " attribute " + std::to_string(a) + " of row " + std::to_string(i) + " after storing rows " +
                             std::to_string(row) + "+" + std::to_string(cnt) + " in " + desc + o.str());
                    }
                    model[i][a] = got; // the payload under a NULL is free
                }
            }
        }
        free(mem);
        count("tuples moved", moved);
        count(nested ? "nested layouts, inner nodes" : "factory layouts", nested ? inodes : 1);
        if (not nested and root_n < rows) count("block boundaries crossed");
        ok(h, moved > 1);
    });
}

/*----- stores -------------------------------------------------------------------------------------------------------*/
static void stores() {
    auto &C = Catalog::Get();
    auto &DB = C.add_database(C.pool("db"));
    cases([&](Rng &r, uint64_t i) {
        auto nm = C.pool(("t" + std::to_string(i)).c_str());
        auto &T = DB.add_table(nm);
        std::vector<const Type*> ts;
        const std::size_t k = r.p(.1) ? r.in(20, 64) : r.in(1, 10);
        for (std::size_t a = 0; a != k; ++a) { ts.push_back(rand_type(r)); T.push_back(C.pool(("a" + std::to_string(a)).c_str()), as<const PrimitiveType>(ts[a])); }
        at("stores " + show(ts));
        std::unique_ptr<Store> s;
        const int kind = r.in(0, 2);
        uint64_t row_bits = k;
        for (auto t : ts) row_bits += t->size();
        auto disjoint = [&](std::vector<std::tuple<uint64_t, uint64_t>> v, uint64_t end, const char *what) {
            std::sort(v.begin(), v.end());
            for (std::size_t a = 0; a + 1 < v.size(); ++a) HV_CHECK(std::get<1>(v[a]) <= std::get<0>(v[a + 1]), what, "overlapping columns");
            HV_CHECK(std::get<1>(v.back()) <= end, what, "columns end at " << std::get<1>(v.back()) << " of " << end);
        };
        if (kind == 0) {
            auto p = std::make_unique<RowStore>(T);
            std::vector<std::tuple<uint64_t, uint64_t>> v;
            for (std::size_t a = 0; a <= k; ++a) v.emplace_back(p->offset(a), p->offset(a) + (a == k ? k : ts[a]->size()));
            for (std::size_t a = 0; a != k; ++a) HV_CHECK(p->offset(a) % ts[a]->alignment() == 0 and p->row_size() % ts[a]->alignment() == 0, "rowstore-alignment", "attribute " << a);
            disjoint(v, p->row_size(), "rowstore-offsets");
            s = std::move(p);
        } else if (kind == 1) {
            const uint32_t bs = r.p(.5) ? PaxStore::BLOCK_SIZE : r.in(512, 20000);
            auto p = std::make_unique<PaxStore>(T, bs);
            const uint64_t n = p->num_rows_per_block();
            std::vector<std::tuple<uint64_t, uint64_t>> v;
            for (std::size_t a = 0; a <= k; ++a) v.emplace_back(p->offset(a), p->offset(a) + n * (a == k ? k : ts[a]->size()));
            if (n) disjoint(v, 8ull * bs, "paxstore-offsets");
            HV_CHECK(p->block_size() == bs and (n + 1) * row_bits + 7 * k > 8ull * bs, "paxstore-rows", n << " rows per block of " << bs);
            s = std::move(p);
        } else {
            auto p = std::make_unique<ColumnStore>(T);
            HV_CHECK(p->row_size() == row_bits, "columnstore-row", p->row_size() << " bits per row");
            for (std::size_t a = 0; a <= k; ++a)
                HV_CHECK((uint8_t*)p->memory(a) - (uint8_t*)p->memory().addr() == int64_t(ColumnStore::ALLOCATION_SIZE * a), "columnstore-columns", "column " << a);
            HV_CHECK(p->memory().size() >= ColumnStore::ALLOCATION_SIZE * (k + 1), "columnstore-columns", "size");
            s = std::move(p);
        }
        HV_CHECK(s->num_rows() == 0 and &s->table() == &T and s->memory().addr(), "store-fresh", "a fresh store is empty");
        std::size_t n = 0, ops = r.in(1, 200);
        uint64_t h = hash(show(ts));
        for (std::size_t j = 0; j != ops; ++j) {
            if (n == 0 or r.p(.7)) { s->append(); ++n; } else { s->drop(); --n; }
            HV_CHECK(s->num_rows() == n, "store-rows", s->num_rows() << " rows instead of " << n);
            h = mix(h, n);
        }
        count("stores");
        ok(h);
        s.reset();
        DB.drop_table(nm);
    });
}

/*----- bulk generation of data ---------------------------------------------------------------------------------------*/
template<typename T> static void manip_uniform(Rng &r, uint64_t &h) {
    const std::size_t n = r.in(1, 300), b = r.p(.4) ? 0 : r.in(0, n - 1), e = r.in(b + 1, n), d = r.in(1, 40);
    std::vector<T> col(n), vals;
    for (auto &x : col) x = T(77);
    for (std::size_t i = 0; i != d; ++i) vals.push_back(T(i) - T(10));
    at("fill_uniform " + std::to_string(n) + " " + std::to_string(b) + " " + std::to_string(e) + " " + std::to_string(d));
    fill_uniform(col.data(), vals, b, e, std::mt19937_64(r.u()));
    std::map<T, std::size_t> c;
    for (std::size_t i = 0; i != n; ++i)
        if (i < b or i >= e) HV_CHECK(col[i] == T(77), "fill-neighbour", "row " << i << " of [" << b << ", " << e << ")");
        else { ++c[col[i]]; if ((i - b) % d == d - 1) { std::set<T> s(col.begin() + (i + 1 - d), col.begin() + (i + 1)); HV_CHECK(s.size() == d, "fill-uniform", "values repeat within a round"); } }
    for (auto &[v, k] : c) HV_CHECK(std::count(vals.begin(), vals.end(), v) and k >= (e - b) / d and k <= (e - b + d - 1) / d, "fill-uniform", +v << " occurs " << k << " times");
    h = mix(h, n * 7919 + b * 31 + e);
}
template<typename T> static void manip_column(Rng &r, const Type *ty, Table &tbl, uint64_t &h) {
    const std::size_t n = r.in(1, 400), b = r.p(.4) ? 0 : r.in(0, n - 1), e = r.in(b + 1, n), d = r.in(1, std::min<std::size_t>(e - b, 100));
    std::vector<T> col(n, T(77));
    at("generate_column_data " + std::to_string(n) + " " + std::to_string(b) + " " + std::to_string(e) + " " + std::to_string(d));
    generate_column_data(col.data(), tbl[0UL], d, b, e);
    std::map<T, std::size_t> c;
    for (std::size_t i = 0; i != n; ++i)
        if (i < b or i >= e) HV_CHECK(col[i] == T(77), "generate-neighbour", "row " << i << " of [" << b << ", " << e << ")"); else ++c[col[i]];
    HV_CHECK(c.size() == d, "generate-distinct", c.size() << " distinct values instead of " << d);
    for (auto &[v, k] : c) HV_CHECK(k >= (e - b) / d and k <= (e - b + d - 1) / d, "generate-uniform", +v << " occurs " << k << " times");
    h = mix(h, n * 7919 + b * 31 + e);
}

static void manip() {
    auto &C = Catalog::Get();
    auto &DB = C.add_database(C.pool("db"));
    struct { const Type *t; } tys[] = {{Type::Get_Integer(Type::TY_Vector, 2)}, {Type::Get_Integer(Type::TY_Vector, 4)}, {Type::Get_Integer(Type::TY_Vector, 8)}, {Type::Get_Float(Type::TY_Vector)}, {Type::Get_Double(Type::TY_Vector)}, {Type::Get_Integer(Type::TY_Vector, 1)}};
    std::vector<Table*> tabs;
    for (std::size_t i = 0; i != 6; ++i) { auto &T = DB.add_table(C.pool(("t" + std::to_string(i)).c_str())); T.push_back(C.pool("val"), as<const PrimitiveType>(tys[i].t)); tabs.push_back(&T); }
    cases([&](Rng &r, uint64_t) {
        uint64_t h = r.u() & 0xff;
        switch (r.in(0, 4)) {
            case 0: { // NULL bits
                const std::size_t k = r.in(1, 40), n = r.in(1, 200);
                std::size_t b = r.p(.3) ? 0 : r.in(0, n - 1), e = r.in(b + 1, n);
                if (k * b / 8 == k * e / 8) break; // documented: first and last row lie in different bytes
                std::vector<uint8_t> m((k * n + 7) / 8 + 1);
                for (auto &x : m) x = r.u();
                auto old = m;
                const bool null = r.p(.5);
                at(std::string(null ? "set_all_null " : "set_all_not_null ") + std::to_string(k) + " " + std::to_string(b) + " " + std::to_string(e));
                (null ? set_all_null : set_all_not_null)(m.data(), k, b, e);
                for (std::size_t i = 0; i != k * n; ++i) {
                    const bool got = m[i / 8] >> (i % 8) & 1, was = old[i / 8] >> (i % 8) & 1;
                    const bool in = i >= k * b and i < k * e;
                    if (got != (in ? null : was)) { fail(in ? "null-bits" : "null-bits-neighbour", "NULL bit " + std::to_string(i % k) + " of row " + std::to_string(i / k)); break; }
                }
                h = mix(h, k * 1000003 + b * 1009 + e);
                break;
            }
            case 1: { // primary keys
                const std::size_t n = r.in(1, 300), b = r.p(.3) ? 0 : r.in(0, n - 1), e = r.in(b + 1, n);
                at("generate_primary_keys " + std::to_string(b) + " " + std::to_string(e));
                std::vector<int32_t> c4(n, -1); std::vector<int64_t> c8(n, -1);
                const bool four = r.p(.5);
                if (four) generate_primary_keys(c4.data(), *tys[1].t, b, e); else generate_primary_keys(c8.data(), *tys[2].t, b, e);
                for (std::size_t i = 0; i != n; ++i) {
                    int64_t g = four ? c4[i] : c8[i];
                    HV_CHECK(g == (i >= b and i < e ? int64_t(i) : -1), "primary-keys", "row " << i << " is " << g);
                }
                h = mix(h, n * 7919 + b * 31 + e);
                break;
            }
            case 2:
                switch (r.in(0, 3)) {
                    case 0: manip_uniform<int32_t>(r, h); break;
                    case 1: manip_uniform<int64_t>(r, h); break;
                    case 2: manip_uniform<float>(r, h); break;
                    default: manip_uniform<double>(r, h); break;
                }
                break;
            case 3:
                switch (r.in(0, 4)) {
                    case 0: manip_column<int16_t>(r, tys[0].t, *tabs[0], h); break;
                    case 1: manip_column<int32_t>(r, tys[1].t, *tabs[1], h); break;
                    case 2: manip_column<int64_t>(r, tys[2].t, *tabs[2], h); break;
                    case 3: manip_column<float>(r, tys[3].t, *tabs[3], h); break;
                    default: manip_column<double>(r, tys[4].t, *tabs[4], h); break;
                }
                break;
            default: { // correlated columns
                const bool four = r.p(.5);
                const std::size_t dl = r.in(1, 60), dr = r.in(1, 60), dm = r.in(0, std::min(dl, dr)), nl = r.in(dl, 300), nr = r.in(dr, 300);
                at("generate_correlated_column_data " + std::to_string(dl) + " " + std::to_string(dr) + " " + std::to_string(dm) + " " + std::to_string(nl) + " " + std::to_string(nr));
                std::vector<int32_t> l4(nl + 1), r4(nr + 1); std::vector<int64_t> l8(nl + 1), r8(nr + 1);
                l4[nl] = r4[nr] = 77; l8[nl] = r8[nr] = 77;
                generate_correlated_column_data(four ? (void*)l4.data() : l8.data(), four ? (void*)r4.data() : r8.data(), (*tabs[four ? 1 : 2])[0UL], dl, dr, nl, nr, dm);
                std::set<int64_t> sl, sr, both;
                for (std::size_t i = 0; i != nl; ++i) sl.insert(four ? l4[i] : l8[i]);
                for (std::size_t i = 0; i != nr; ++i) sr.insert(four ? r4[i] : r8[i]);
                for (auto x : sl) if (sr.count(x)) both.insert(x);
                HV_CHECK(sl.size() == dl and sr.size() == dr and both.size() == dm, "correlated", sl.size() << "," << sr.size() << "," << both.size() << " instead of " << dl << "," << dr << "," << dm);
                HV_CHECK((four ? l4[nl] : l8[nl]) == 77 and (four ? r4[nr] : r8[nr]) == 77, "correlated-neighbour", "written beyond the end");
                h = mix(h, dl * 1000003 + dr * 1009 + dm);
            }
        }
        ok(h);
    });
}

int main(int argc, char **argv) {
    m::init();
    return nat_main(argc, argv, {{"layout", layout}, {"access", accesses}, {"stores", stores}, {"manip", manip}});
}
