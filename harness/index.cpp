// Indexes: contents, order, lookups of sorted-array and recursive-model indexes; their life in the catalog.
#include "nat.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/catalog/TableFactory.hpp>
#include <mutable/storage/Index.hpp>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <limits>
#include <sstream>
#include <unistd.h>

using namespace m;
using namespace m::idx;
using namespace hv;

template<typename K> static std::string str(K k) { std::ostringstream o; if constexpr (std::is_same_v<K, const char*>) o << '"' << k << '"'; else o << std::setprecision(17) << +k; return o.str(); }
template<typename K> static bool less(K a, K b) { if constexpr (std::is_same_v<K, const char*>) return strcmp(a, b) < 0; else return a < b; }
template<typename K> static bool eq(K a, K b) { return not less(a, b) and not less(b, a); }

/** Contents, order and lookups of `index` against the multiset of entries it must hold. */
template<typename K>
static void verify(Rng &r, const ArrayIndex<K> &index, std::vector<std::pair<K, std::size_t>> want, const char *what, std::vector<K> probes)
{
    auto cmp = [](auto &a, auto &b) { return less(a.first, b.first) or (not less(b.first, a.first) and a.second < b.second); };
    std::sort(want.begin(), want.end(), cmp);
    HV_CHECK(index.num_entries() == want.size(), "index-size", what << " holds " << index.num_entries() << " of " << want.size() << " entries");
    if (index.num_entries() != want.size()) return;
    HV_CHECK(index.finalized(), "index-finalized", what << " is not finalized");
    std::vector<std::pair<K, std::size_t>> got(index.begin(), index.end());
    for (std::size_t i = 1; i < got.size(); ++i) HV_CHECK(not less(got[i].first, got[i - 1].first), "index-order", what << ": " << str(got[i].first) << " after " << str(got[i - 1].first));
    std::sort(got.begin(), got.end(), cmp);
    for (std::size_t i = 0; i != got.size(); ++i) HV_CHECK(eq(got[i].first, want[i].first) and got[i].second == want[i].second, "index-entry", what << " has entry " << str(got[i].first) << "@" << got[i].second << " instead of " << str(want[i].first) << "@" << want[i].second);
    for (auto &e : want) if (want.size() < 40 or r.p(40. / double(want.size()))) probes.push_back(e.first);
    for (K k : probes) {
        std::size_t lo = 0, hi = 0;
        for (auto &e : want) { lo += less(e.first, k); hi += not less(k, e.first); }
        auto l = index.lower_bound(k) - index.begin(), u = index.upper_bound(k) - index.begin();
        HV_CHECK(l == long(lo), "index-lower", what << " of " << want.size() << " entries: lower bound of " << str(k) << " is entry " << l << " instead of " << lo);
        HV_CHECK(u == long(hi), "index-upper", what << " of " << want.size() << " entries: upper bound of " << str(k) << " is entry " << u << " instead of " << hi);
        count("lookups");
    }
}

template<typename K>
static K key(Rng &r, int shape, int64_t base)
{
    using L = std::numeric_limits<K>;
    if constexpr (std::is_same_v<K, bool>) return r.p(.5);
    else switch (shape) {
        case 0: return K(r.in(-20, 20));
        case 1: return K(base % 100);                                         // one value
        case 2: return K(r.u());                                              // everywhere
        case 3: { auto v = r.in(0, 3); return v == 0 ? L::lowest() : v == 1 ? L::max() : K(r.in(-2, 2)); }
        case 4: return K(std::floor(std::pow(2., r.unit() * (sizeof(K) == 1 ? 6.9 : sizeof(K) == 2 ? 14.9 : 30.9))));   // crowded at one end
        case 5: return K(r.p(.95) ? r.in(0, 5) : r.in(100, 120));              // an outlying group
        default:
            if constexpr (std::is_floating_point_v<K>) { switch (r.u() % 5) { case 0: return L::denorm_min() * K(r.in(0, 50)); case 1: return K(r.unit()); case 2: return K((r.unit() - .5) * 1e30); case 3: return -K(0); default: return K(r.in(-3, 3)) / 8; } }
            else return K(r.in(0, 100) * (sizeof(K) == 1 ? 1 : 300));
    }
}

template<typename K, template<typename> typename I>
static void arrays_of(Rng &r, const char *name)
{
    I<K> index; auto &A = index; auto &base = static_cast<ArrayIndex<K>&>(A);
    HV_CHECK(index.num_entries() == 0, "index-fresh", "a fresh index holds entries");
    const int shape = int(r.in(0, 6)); const int64_t b = r.in(0, 1000);
    std::vector<std::pair<K, std::size_t>> want;
    int rounds = r.p(.2) ? 2 : 1;
    uint64_t h = hash(name);
    for (int round = 0; round != rounds; ++round) {
        std::size_t n = std::size_t(r.p(.15) ? 0 : r.p(.6) ? r.in(1, 30) : r.p(.8) ? r.in(100, 900) : r.in(1000, 4000));
        at(std::string(name) + " shape " + std::to_string(shape) + " n " + std::to_string(n));
        static std::vector<std::string> pool; if (pool.empty()) for (int i = 0; i != 60; ++i) { std::string s; for (int k = i % 7; k; --k) s += char('a' + (i * 7 + k * k) % 9); if (i % 11 == 5) s += '\xe9'; if (i % 3 == 1) s = std::string(std::size_t(i) * 4, 'p') .substr(0, std::size_t(8 + i % 4 * 20)) + s; pool.push_back(s); }
        for (std::size_t i = 0; i != n; ++i) {
            K k; if constexpr (std::is_same_v<K, const char*>) k = pool[std::size_t(r.in(0, 59))].c_str(); else k = key<K>(r, shape, b);
            if constexpr (std::is_same_v<K, const char*>) { std::string copy = k; index.add(copy.c_str(), want.size()); } else index.add(k, want.size());
            want.emplace_back(k, want.size());
            if constexpr (std::is_floating_point_v<K>) { uint64_t x = 0; memcpy(&x, &k, sizeof k); h = mix(h, x); } else if constexpr (std::is_same_v<K, const char*>) h = mix(h, hash(k)); else h = mix(h, uint64_t(k));
        }
        if (n) { bool thrown = false; K k{}; if constexpr (std::is_same_v<K, const char*>) k = ""; try { (void) (r.p(.5) ? base.lower_bound(k) : base.upper_bound(k)); } catch (const m::exception&) { thrown = true; }
            HV_CHECK(thrown and not index.finalized(), "index-unfinalized", "lookup in an index that is not finalized"); }
        base.finalize();
        std::vector<K> probes;
        for (int i = 0; i != 24; ++i) {
            if constexpr (std::is_same_v<K, const char*>) probes.push_back(pool[std::size_t(r.in(0, 59))].c_str());
            else { probes.push_back(key<K>(r, r.p(.5) ? shape : int(r.in(0, 6)), b)); if constexpr (not std::is_same_v<K, bool>) if (i == 0) { probes.push_back(std::numeric_limits<K>::max()); probes.push_back(std::numeric_limits<K>::lowest()); } }
        }
        verify<K>(r, base, want, name, probes);
    }
    count(std::string("indexes ") + name);
    count("entries", want.size());
    ok(h, want.size() > 1);
}
template<typename K> using ARR = ArrayIndex<K>;
template<typename K> using RMI = RecursiveModelIndex<K>;

static void arrays()
{
    cases([&](Rng &r, uint64_t i) {
        switch (i % 14) {
            case 0: return arrays_of<bool, ARR>(r, "array<bool>");
            case 1: return arrays_of<int8_t, ARR>(r, "array<int8>");
            case 2: return arrays_of<int16_t, ARR>(r, "array<int16>");
            case 3: return arrays_of<int32_t, ARR>(r, "array<int32>");
            case 4: return arrays_of<int64_t, ARR>(r, "array<int64>");
            case 5: return arrays_of<float, ARR>(r, "array<float>");
            case 6: return arrays_of<double, ARR>(r, "array<double>");
            case 7: return arrays_of<const char*, ARR>(r, "array<string>");
            case 8: return arrays_of<int8_t, RMI>(r, "rmi<int8>");
            case 9: return arrays_of<int16_t, RMI>(r, "rmi<int16>");
            case 10: return arrays_of<int32_t, RMI>(r, "rmi<int32>");
            case 11: return arrays_of<int64_t, RMI>(r, "rmi<int64>");
            case 12: return arrays_of<float, RMI>(r, "rmi<float>");
            default: return arrays_of<double, RMI>(r, "rmi<double>");
        }
    });
}

/*----- in the catalog -------------------------------------------------------------------------------------------------*/
struct Col { std::string name, decl; char k; int len = 0; };   // k: b, 1, 2, 4, 8, f, d, s, D (date), T (datetime)
struct Cell { bool null = true; int64_t i = 0; double d = 0; std::string s; std::string lit() const { return lit_; } std::string lit_ = "NULL"; };
struct Tab { std::string name; std::vector<Col> cols; std::vector<std::vector<Cell>> rows; };
struct Ix { std::string name, tab, col; bool rmi, valid; char k; std::vector<std::pair<Cell, std::size_t>> entries; };

static Cell value(Rng &r, const Col &c)
{
    Cell x; if (r.p(.15)) return x;
    x.null = false; char b[64];
    switch (c.k) {
        case 'b': x.i = r.p(.5); x.lit_ = x.i ? "TRUE" : "FALSE"; break;
        case '1': x.i = r.in(-100, 100); x.lit_ = std::to_string(x.i); break;
        case '2': x.i = r.in(-30000, 30000); x.lit_ = std::to_string(x.i); break;
        case '4': x.i = r.p(.3) ? r.of({2147483647l, -2147483647l}) : r.in(-50, 50); x.lit_ = std::to_string(x.i); break;
        case '8': x.i = r.p(.3) ? r.of({9223372036854775807l, -9223372036854775807l, 5000000000l}) : r.in(-9, 9); x.lit_ = std::to_string(x.i); break;
        case 'c': { x.i = r.in(-9999, 9999); snprintf(b, sizeof b, "%s%d.%02d", x.i < 0 ? "-" : "", int(std::abs(x.i) / 100), int(std::abs(x.i) % 100)); x.lit_ = b; break; }
        case 'f': case 'd': x.d = double(r.in(-64, 64)) / 8; snprintf(b, sizeof b, "%.3f", x.d); x.lit_ = b; break;
        case 's': x.s = r.of({"", "a", "ab", "b", "abc", "zz"}); if (c.len > 20 and r.p(.7)) x.s = std::string(std::size_t(r.of({7, 8, 15, 16, 31})), 'q') + x.s; x.lit_ = "\"" + x.s + "\""; break;
        case 'D': { int y = int(r.in(1, 3000)), m = int(r.in(1, 12)), d = int(r.in(1, 28)); snprintf(b, sizeof b, "d'%04d-%02d-%02d'", y, m, d); x.lit_ = b; x.i = y << 9 | m << 5 | d; break; }
        case 'T': { int y = int(r.in(1, 3000)), m = int(r.in(1, 12)), d = int(r.in(1, 28)); snprintf(b, sizeof b, "d'%04d-%02d-%02d 01:02:03'", y, m, d); x.lit_ = b;
            std::tm t{}; t.tm_year = y - 1900; t.tm_mon = m - 1; t.tm_mday = d; t.tm_hour = 1; t.tm_min = 2; t.tm_sec = 3; x.i = timegm(&t); break; }
    }
    return x;
}

template<typename K> static void check_as(Rng &r, const IndexBase &b, const Ix &x, const std::string &what)
{
    auto p = dynamic_cast<const ArrayIndex<K>*>(&b);
    HV_CHECK(p, "index-key", what << " does not have the key type of " << x.col);
    if (not p) return;
    std::vector<std::pair<K, std::size_t>> want; std::vector<K> probes;
    for (auto &[c, id] : x.entries) {
        if constexpr (std::is_same_v<K, const char*>) want.emplace_back(c.s.c_str(), id);
        else if constexpr (std::is_floating_point_v<K>) want.emplace_back(K(c.d), id);
        else want.emplace_back(K(c.i), id);
    }
    verify<K>(r, *p, want, what.c_str(), probes);
}
static void check_index(Rng &r, const IndexBase &b, const Ix &x)
{
    std::string what = "index " + x.name + " on " + x.tab + "." + x.col;
    HV_CHECK(b.method() == (x.rmi ? IndexMethod::Rmi : IndexMethod::Array), "index-method", what << " has another method");
    switch (x.k) {
        case 'b': return check_as<bool>(r, b, x, what);
        case '1': return check_as<int8_t>(r, b, x, what);
        case '2': return check_as<int16_t>(r, b, x, what);
        case '4': case 'D': case 'c': return check_as<int32_t>(r, b, x, what);
        case '8': case 'T': return check_as<int64_t>(r, b, x, what);
        case 'f': return check_as<float>(r, b, x, what);
        case 'd': return check_as<double>(r, b, x, what);
        case 's': return check_as<const char*>(r, b, x, what);
    }
}

static std::string run(const std::string &sql, int64_t ts = 1)
{
    std::ostringstream out, err;
    Diagnostic diag(false, out, err);
    try { auto cmd = command_from_string(diag, sql); Scheduler::Transaction t; t.start_time(ts); cmd->transaction(&t); cmd->execute(diag); }
    catch (const std::exception &e) { return std::string("exception: ") + e.what() + ": " + err.str(); }
    return diag.num_errors() ? "error: " + err.str() : "";
}

static void catalog()
{
    Catalog &C = Catalog::Get();
    Options::Get().quiet = true; Options::Get().has_color = false;
    auto &DB = C.add_database(C.pool("d"));
    C.set_database_in_use(DB);
    std::vector<std::string> layouts; for (auto it = C.data_layouts_begin(); it != C.data_layouts_end(); ++it) layouts.push_back(*it->first);
    std::sort(layouts.begin(), layouts.end());
    const std::string csv = "/tmp/hv-index-" + std::to_string(getpid()) + ".csv";
    static const std::pair<const char*, char> TY[] = {{"BOOL", 'b'}, {"INT(1)", '1'}, {"INT(2)", '2'}, {"INT(4)", '4'}, {"INT(8)", '8'}, {"DECIMAL(6, 2)", 'c'}, {"FLOAT", 'f'}, {"DOUBLE", 'd'}, {"CHAR(3)", 's'}, {"VARCHAR(5)", 's'}, {"CHAR(40)", 's'}, {"VARCHAR(40)", 's'}, {"DATE", 'D'}, {"DATETIME", 'T'}};
    cases([&](Rng &r, uint64_t) {
        C.default_data_layout(C.pool(r.pick(layouts).c_str()));
        const bool mv = r.p(.2);
        { std::unique_ptr<TableFactory> f = std::make_unique<ConcreteTableFactory>(); if (mv) f = C.apply_table_property(C.pool("multi-versioning"), std::move(f)); C.table_factory(std::move(f)); }
        std::string log = mv ? "(multi-versioning) " : "";
        std::map<std::string, Tab> T; std::vector<Ix> X;
        auto exec = [&](const std::string &s, bool good) {
            log += s + " "; at(log.size() > 3500 ? log.substr(log.size() - 3500) : log);
            auto e = run(s); HV_CHECK(e.empty() == good, "index-command", s << (good ? " fails: " : " is accepted") << e);
            return e.empty();
        };
        auto create = [&](const std::string &n) {
            Tab t; t.name = n; std::string s;
            for (int i = 0, k = int(r.in(1, 4)); i != k; ++i) { auto &ty = TY[r.u() % 14]; t.cols.push_back({"c" + std::to_string(i), ty.first, ty.second}); t.cols.back().len = strstr(ty.first, "(40)") ? 40 : 0; s += (i ? ", c" : "c") + std::to_string(i) + " " + ty.first; }
            exec("CREATE TABLE " + n + " ( " + s + " );", true); T[n] = t;
        };
        auto name = [&]() { return r.of({"t", "u"}); };
        create("t");
        uint64_t made = 0;
        for (int n = int(r.in(3, 25)); n; --n) {
            std::string tn = name(); auto it = T.find(tn);
            switch (r.u() % 10) {
                case 0: if (it == T.end()) create(tn); break;
                case 1: case 2: case 3: { if (it == T.end()) break;
                    std::string s; for (int k = int(r.in(1, r.p(.1) ? 60 : 6)); k; --k) { std::vector<Cell> row; std::string v; for (auto &c : it->second.cols) { row.push_back(value(r, c)); v += (v.empty() ? "" : ", ") + row.back().lit(); } s += (s.empty() ? "(" : ", (") + v + ")"; it->second.rows.push_back(row); }
                    exec("INSERT INTO " + tn + " VALUES " + s + ";", true);
                    for (auto &x : X) if (x.tab == tn) x.valid = false;
                    break; }
                case 4: { if (it == T.end()) break;
                    { std::ofstream f(csv); for (int k = int(r.in(0, 4)); k; --k) { std::vector<Cell> row; for (std::size_t i = 0; i != it->second.cols.size(); ++i) { auto c = value(r, it->second.cols[i]); row.push_back(c);
                        auto l = c.lit(); if (l[0] == 'd') l = l.substr(2, l.size() - 3); f << (i ? "," : "") << (c.null ? "" : l); } f << '\n'; it->second.rows.push_back(row); } }
                    exec("IMPORT INTO " + tn + " DSV \"" + csv + "\";", true);
                    for (auto &x : X) if (x.tab == tn) x.valid = false;
                    break; }
                case 5: case 6: case 7: { if (it == T.end()) { exec("CREATE INDEX i9 ON " + tn + " (c0);", false); break; }
                    Ix x; x.name = "i" + std::to_string(r.in(0, 3)); x.tab = tn; auto &col = r.pick(it->second.cols); x.col = col.name; x.k = col.k; x.valid = true;
                    int m = int(r.in(0, 3)); x.rmi = m == 3;
                    bool exists = false; for (auto &y : X) if (y.name == x.name) exists = true;
                    const bool inapt = x.rmi and (x.k == 's' or x.k == 'b');
                    const bool ine = r.p(.2);
                    bool done = exec("CREATE INDEX " + std::string(ine ? "IF NOT EXISTS " : "") + x.name + " ON " + tn + (m == 0 ? "" : m == 1 ? " USING DEFAULT" : m == 2 ? " USING array" : " USING rmi") + " (" + x.col + ");", exists ? ine : not inapt);
                    if (exists or inapt or not done) break;
                    std::size_t ci = 0; while (it->second.cols[ci].name != x.col) ++ci;
                    for (std::size_t i = 0; i != it->second.rows.size(); ++i) if (not it->second.rows[i][ci].null) x.entries.emplace_back(it->second.rows[i][ci], i);
                    X.push_back(x); ++made; count(x.rmi ? "rmi indexes of columns" : "array indexes of columns"); break; }
                case 8: { std::string nm = "i" + std::to_string(r.in(0, 3)); auto y = std::find_if(X.begin(), X.end(), [&](auto &x) { return x.name == nm; }); const bool ie = r.p(.2);
                    exec("DROP INDEX " + std::string(ie ? "IF EXISTS " : "") + nm + ";", ie or y != X.end()); if (y != X.end()) X.erase(y); break; }
                case 9: { if (it == T.end()) break;
                    if (r.p(.3)) { exec("DROP TABLE " + tn + ";", true); T.erase(it); X.erase(std::remove_if(X.begin(), X.end(), [&](auto &x) { return x.tab == tn; }), X.end()); }
                    else { log += "[select] "; std::ostringstream o, e2; Diagnostic d(false, o, e2); std::streambuf *old = std::cout.rdbuf(o.rdbuf()); run("SELECT COUNT() FROM " + tn + ";"); std::cout.rdbuf(old); }   // reading leaves indexes valid
                    break; }
            }
            /*----- the indexes of the catalog -----*/
            for (int i = 0; i != 4; ++i) {
                auto nm = C.pool(("i" + std::to_string(i)).c_str());
                auto y = std::find_if(X.begin(), X.end(), [&](auto &x) { return x.name == *nm; });
                HV_CHECK(DB.has_index(nm) == (y != X.end()), "index-exists", "index " << *nm << (y == X.end() ? " exists" : " does not exist"));
                if (y == X.end()) { bool thrown = false; try { (void) DB.get_index(nm); } catch (const m::invalid_argument&) { thrown = true; } HV_CHECK(thrown, "index-exists", "index " << *nm << " is found"); }
                else if (r.p(.5)) check_index(r, DB.get_index(nm), *y);
            }
            for (auto &[tn2, t] : T) for (auto &c : t.cols) for (bool rmi : {false, true}) {
                std::vector<const Ix*> v; for (auto &x : X) if (x.valid and x.tab == tn2 and x.col == c.name and x.rmi == rmi) v.push_back(&x);
                auto m = rmi ? IndexMethod::Rmi : IndexMethod::Array;
                bool has = DB.has_index(C.pool(tn2.c_str()), C.pool(c.name.c_str()), m);
                HV_CHECK(has == not v.empty(), "index-valid", (has ? "an index" : "no index") << " on " << tn2 << "." << c.name << " is offered to queries");
                if (has and not v.empty()) {
                    auto &b = DB.get_index(C.pool(tn2.c_str()), C.pool(c.name.c_str()), m);
                    bool one = false; for (auto x : v) if (&DB.get_index(C.pool(x->name.c_str())) == &b) one = true;
                    HV_CHECK(one, "index-valid", "the index offered for " << tn2 << "." << c.name << " is not one of its valid indexes");
                    count("valid indexes offered");
                }
            }
        }
        for (auto &[n, t] : T) { auto e = run("DROP TABLE " + n + ";"); HV_CHECK(e.empty(), "index-command", e); }
        for (auto &x : X) HV_CHECK(not DB.has_index(C.pool(x.name.c_str())), "index-exists", "index " << x.name << " outlives its table");
        C.timer().clear();
        ok(hash(log), made > 0); sample(log);
    });
    unlink(csv.c_str());
}

int main(int argc, char **argv) { m::init(); return nat_main(argc, argv, {{"arrays", arrays}, {"catalog", catalog}}); }
