// Types, schemas, tables, databases and components: the description of data against a model of what was declared.
#include "nat.hpp"
#include <mutable/mutable.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Schema.hpp>
#include <mutable/catalog/TableFactory.hpp>
#include <mutable/catalog/Type.hpp>
#include <mutable/storage/Index.hpp>
#include <map>
#include <set>
#include <sstream>

using namespace m;
using namespace hv;

template<typename T> static std::string text(const T &t) { std::ostringstream o; o << t; return o.str(); }

/*===== Types =======================================================================================================*/
struct Desc {
    enum K { ERR, NONE, BOOL, BITMAP, CHAR, VARCHAR, DATE, DATETIME, INT, FLOAT, DOUBLE, DECIMAL, FN } k = ERR;
    bool vec = false;
    unsigned a = 0, b = 0;
    std::vector<Desc> sub;                                                     // return type, parameters

    bool prim() const { return k >= BOOL and k <= DECIMAL; }
    bool num() const { return k >= INT and k <= DECIMAL; }
    bool str() const { return k == CHAR or k == VARCHAR; }
    std::string id() const {
        std::string s = std::to_string(k) + (vec ? "v" : "s") + std::to_string(a) + "," + std::to_string(b);
        if (k == FN) { s += "("; for (auto &d : sub) s += d.id() + ";"; s += ")"; }
        return s;
    }
    std::string sql() const {
        switch (k) {
            case ERR: return "[ErrorType]"; case NONE: return "[none]"; case BOOL: return "BOOL"; case DATE: return "DATE"; case DATETIME: return "DATETIME";
            case BITMAP: return "BITMAP(" + std::to_string(a) + ")"; case CHAR: return "CHAR(" + std::to_string(a) + ")"; case VARCHAR: return "VARCHAR(" + std::to_string(a) + ")";
            case INT: return "INT(" + std::to_string(a) + ")"; case FLOAT: return "FLOAT"; case DOUBLE: return "DOUBLE"; case DECIMAL: return "DECIMAL(" + std::to_string(a) + ", " + std::to_string(b) + ")";
            case FN: { std::string s = "("; for (std::size_t i = 1; i < sub.size(); ++i) s += (i > 1 ? ", " : "") + sub[i].sql(); return s + ") -> " + sub[0].sql(); }
        }
        return "";
    }
    /** The size in bits: what the largest value needs. */
    uint64_t bits() const {
        switch (k) {
            case NONE: return 0; case BOOL: return 1; case BITMAP: return a; case CHAR: return 8 * uint64_t(a); case VARCHAR: return 8 * (uint64_t(a) + 1); case DATE: return 32; case DATETIME: return 64;
            case INT: return 8 * a; case FLOAT: return 32; case DOUBLE: return 64;
            case DECIMAL: { __int128 max = 1; for (unsigned i = 0; i != a; ++i) max *= 10; uint64_t s = 8; while ((__int128(1) << s) < max) s *= 2; return s; }
            default: return 0;
        }
    }
    uint64_t align() const { return str() ? 8 : k == BOOL or k == BITMAP or k == NONE ? 1 : bits(); }
};
static Desc random_desc(Rng &r, int depth = 0)
{
    Desc d;
    d.k = Desc::K(r.in(r.p(.1) ? 0 : 2, depth < 2 ? 12 : 11));
    d.vec = r.p(.5);
    switch (d.k) {
        case Desc::ERR: case Desc::NONE: d.vec = false; break;
        case Desc::BITMAP: d.a = r.in(1, r.p(.5) ? 6 : 64); break;
        case Desc::CHAR: case Desc::VARCHAR: d.a = r.p(.7) ? r.in(1, 6) : r.in(1, 70000); break;
        case Desc::INT: d.a = 1u << r.in(0, 3); break;
        case Desc::DECIMAL: d.a = r.in(1, 19); d.b = r.in(0, d.a); break;
        case Desc::FN: { d.vec = false; for (int n = r.in(1, 4); n--;) d.sub.push_back(random_desc(r, depth + 1)); break; }
        default: break;
    }
    return d;
}
static const Type * make(const Desc &d)
{
    auto c = d.vec ? Type::TY_Vector : Type::TY_Scalar;
    switch (d.k) {
        case Desc::ERR: return Type::Get_Error(); case Desc::NONE: return Type::Get_None(); case Desc::BOOL: return Type::Get_Boolean(c); case Desc::BITMAP: return Type::Get_Bitmap(c, d.a);
        case Desc::CHAR: return Type::Get_Char(c, d.a); case Desc::VARCHAR: return Type::Get_Varchar(c, d.a); case Desc::DATE: return Type::Get_Date(c); case Desc::DATETIME: return Type::Get_Datetime(c);
        case Desc::INT: return Type::Get_Integer(c, d.a); case Desc::FLOAT: return Type::Get_Float(c); case Desc::DOUBLE: return Type::Get_Double(c); case Desc::DECIMAL: return Type::Get_Decimal(c, d.a, d.b);
        case Desc::FN: { std::vector<const Type*> p; for (std::size_t i = 1; i < d.sub.size(); ++i) p.push_back(make(d.sub[i])); return Type::Get_Function(make(d.sub[0]), std::move(p)); }
    }
    return nullptr;
}
/** The type both numeric types combine to. */
static Desc join(const Desc &x, const Desc &y)
{
    auto rank = [](const Desc &d) { return d.k == Desc::INT ? 0 : d.k == Desc::DECIMAL ? 2 : 1; };
    /** decimal digits that the bits of a type are worth */
    auto digits = [](const Desc &d) -> unsigned { if (d.k == Desc::DECIMAL) return d.a; switch (d.bits()) { case 8: return 2; case 16: return 4; case 32: return 9; default: return 19; } };
    Desc z; z.vec = x.vec or y.vec;
    switch (std::max(rank(x), rank(y))) {
        case 0: z.k = Desc::INT; z.a = std::max(x.a, y.a); break;
        case 1: z.k = x.bits() == 64 or y.bits() == 64 ? Desc::DOUBLE : Desc::FLOAT; break;
        default: z.k = Desc::DECIMAL; z.a = std::max(digits(x), digits(y)); z.b = std::max(x.k == Desc::DECIMAL ? x.b : 0, y.k == Desc::DECIMAL ? y.b : 0);
    }
    return z;
}
static void types()
{
    static std::map<std::string, const Type*> known;
    static std::map<const Type*, std::string> owner;
    cases([&](Rng &r, uint64_t) {
        Desc d = random_desc(r), e = r.p(.3) ? d : random_desc(r);
        if (r.p(.3)) { e = d; if (r.p(.5)) e.vec = e.prim() and not e.vec; else if (e.k == Desc::CHAR) e.k = Desc::VARCHAR; else if (e.k == Desc::DECIMAL) e.b = r.in(0, e.a); else if (e.k == Desc::FLOAT) e.k = Desc::DOUBLE; else if (e.k == Desc::FN) { if (r.p(.5) and e.sub.size() > 1) e.sub.pop_back(); else r.shuffle(e.sub); } }
        const std::string sd = d.id() + " " + d.sql(), se = e.id() + " " + e.sql();
        at(sd + " and " + se);
        const Type *td = make(d), *te = make(e);
        for (auto &[x, t] : {std::make_pair(&d, td), std::make_pair(&e, te)}) {
            auto [it, fresh] = known.emplace(x->id(), t);
            HV_CHECK(it->second == t, "type-intern", "two types for " << x->sql() << " (" << x->id() << ")");
            auto [ow, mine] = owner.emplace(t, x->id());
            HV_CHECK(ow->second == x->id(), "type-shared", "one type for " << ow->second << " and " << x->id() << " (" << x->sql() << ")");
            HV_CHECK(text(*t) == x->sql(), "type-print", "type " << x->sql() << " prints as " << text(*t));
            HV_CHECK(t->hash() == make(*x)->hash(), "type-hash", "hash of " << x->sql() << " varies");
            const bool is[] = { t->is_error(), t->is_none(), t->is_primitive(), t->is_boolean(), t->is_bitmap(), t->is_character_sequence(), t->is_date(), t->is_date_time(), t->is_numeric(), t->is_integral(), t->is_decimal(), t->is_floating_point(), t->is_float(), t->is_double() };
            const bool want[] = { x->k == Desc::ERR, x->k == Desc::NONE, x->prim(), x->k == Desc::BOOL, x->k == Desc::BITMAP, x->str(), x->k == Desc::DATE, x->k == Desc::DATETIME, x->num(), x->k == Desc::INT, x->k == Desc::DECIMAL, x->k == Desc::FLOAT or x->k == Desc::DOUBLE, x->k == Desc::FLOAT, x->k == Desc::DOUBLE };
            const char *names[] = { "error", "none", "primitive", "boolean", "bitmap", "character_sequence", "date", "date_time", "numeric", "integral", "decimal", "floating_point", "float", "double" };
            for (std::size_t i = 0; i != std::size(is); ++i) HV_CHECK(is[i] == want[i], "type-kind", "is_" << names[i] << " of " << x->sql() << " is " << is[i]);
            if (x->prim() or x->k == Desc::NONE) {
                HV_CHECK(t->size() == x->bits(), "type-size", x->sql() << " has " << t->size() << " instead of " << x->bits() << " bits");
                HV_CHECK(t->alignment() == x->align(), "type-align", x->sql() << " is aligned to " << t->alignment() << " instead of " << x->align() << " bits");
            } else {
                bool threw = false; try { (void) t->size(); } catch (std::logic_error&) { threw = true; }
                HV_CHECK(threw, "type-size", x->sql() << " has a size");
            }
            if (x->prim()) {
                auto p = as<const PrimitiveType>(t);
                HV_CHECK(p->is_scalar() != x->vec and p->is_vectorial() == x->vec, "type-category", x->id() << " has the wrong category");
                Desc s = *x, v = *x; s.vec = false; v.vec = true;
                HV_CHECK(p->as_scalar() == make(s), "type-scalar", "as_scalar of " << x->id() << " is " << text(*p->as_scalar()) << " of another kind");
                HV_CHECK(p->as_vectorial() == make(v), "type-vector", "as_vectorial of " << x->id() << " is " << text(*p->as_vectorial()) << " of another kind");
                HV_CHECK(is_convertible<bool>(p) == (x->k == Desc::BOOL) and is_convertible<std::string>(p) == x->str() and is_convertible<int>(p) == x->num() and is_convertible<double>(p) == x->num(), "type-convertible", "is_convertible of " << x->sql());
            }
            count("types");
        }
        const bool same = d.id() == e.id();
        HV_CHECK((td == te) == same and (*td == *te) == same and (*te == *td) == same and (*td != *te) == not same, "type-equal", sd << " and " << se << ": " << (td == te) << (*td == *te) << (*te == *td));
        auto cls = [](const Desc &x) { return x.num() ? 100 : x.str() ? 101 : x.k == Desc::BOOL ? 102 : x.k == Desc::DATE ? 103 : x.k == Desc::DATETIME ? 104 : -1; };
        HV_CHECK(is_comparable(td, te) == (cls(d) >= 0 and cls(d) == cls(e)), "type-comparable", sd << " and " << se << " comparable: " << is_comparable(td, te));
        if (d.num() and e.num()) {
            auto a = as<const Numeric>(td), b = as<const Numeric>(te);
            const Desc j = join(d, e);
            HV_CHECK(arithmetic_join(a, b) == make(j), "type-join", "join of " << sd << " and " << se << " is " << text(*arithmetic_join(a, b)) << (arithmetic_join(a, b)->is_vectorial() ? " vectorial" : " scalar") << " instead of " << j.id() << " " << j.sql());
            HV_CHECK(arithmetic_join(b, a) == arithmetic_join(a, b), "type-join", "join of " << sd << " and " << se << " depends on the order");
            HV_CHECK(arithmetic_join(a, a) == a, "type-join", "join of " << sd << " with itself is " << text(*arithmetic_join(a, a)));
            count("joins");
        }
        ok(hash(sd + "|" + se), d.k != Desc::ERR);
        sample(sd + " and " + se);
    });
}

/*===== Schemas =====================================================================================================*/
struct Entry { std::string prefix, name; const Type *type; unsigned con; };       // prefix "" = none
using Model = std::vector<Entry>;
static std::string sid(const Entry &e) { return (e.prefix.empty() ? "" : e.prefix + ".") + e.name; }
static bool same(const Entry &a, const Entry &b) { return a.prefix == b.prefix and a.name == b.name; }
static Schema::Identifier ident(const Entry &e) { auto &C = Catalog::Get(); return e.prefix.empty() ? Schema::Identifier(C.pool(e.name.c_str())) : Schema::Identifier(C.pool(e.prefix.c_str()), C.pool(e.name.c_str())); }
static Schema::entry_type::constraints_t con(unsigned c) { return Schema::entry_type::constraints_t(c); }
static std::size_t times(const Model &m, const Entry &e) { std::size_t n = 0; for (auto &x : m) n += same(x, e); return n; }
static std::string show(const Model &m) { std::string s; for (auto &e : m) s += (s.empty() ? "" : ", ") + sid(e) + " " + text(*e.type) + "/" + std::to_string(e.con); return "[" + s + "]"; }
static Model of(const Schema &s)
{
    Model m;
    for (auto &e : s) m.push_back({e.id.prefix.has_value() ? *e.id.prefix : "", *e.id.name, e.type, unsigned(e.constraints)});
    return m;
}
static bool equal(const Model &a, const Model &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i != a.size(); ++i) if (not same(a[i], b[i]) or a[i].type != b[i].type or a[i].con != b[i].con) return false;
    return true;
}
static void verify(Rng &r, const Schema &s, const Model &m, const std::string &what)
{
    HV_CHECK(equal(of(s), m), "schema", what << " is " << show(of(s)) << " instead of " << show(m));
    HV_CHECK(s.num_entries() == m.size() and s.empty() == m.empty() and s.entries().size() == m.size(), "schema-size", what << " counts " << s.num_entries() << " entries of " << m.size());
    std::string print = "{["; for (std::size_t i = 0; i != m.size(); ++i) print += (i ? ", " : " ") + sid(m[i]) + " :" + text(*m[i].type);
    HV_CHECK(text(s) == print + " ]}", "schema-print", what << " prints as " << text(s) << " instead of " << print << " ]}");
    for (std::size_t i = 0; i != m.size() + 2; ++i) {
        bool threw = false; try { auto &e = s.at(i); HV_CHECK(i < m.size() and e.id == ident(m[i]), "schema-at", what << " at " << i << " is " << text(e.id)); } catch (m::out_of_range&) { threw = true; }
        HV_CHECK(threw == (i >= m.size()), "schema-at", what << " of " << m.size() << " entries: at(" << i << ") " << (threw ? "threw" : "did not throw"));
        if (i < m.size()) {
            auto &e = s[i];
            HV_CHECK(e.nullable() == not (m[i].con & 1) and e.unique() == bool(m[i].con & 2) and e.references_unique() == bool(m[i].con & 4), "schema-constraints", what << ": constraints of " << sid(m[i]));
            HV_CHECK(e.id.is_constant() == (m[i].prefix.empty() and m[i].name == "$const"), "schema-const", sid(m[i]) << " is_constant: " << e.id.is_constant());
        }
    }
    Model probes = m;
    for (int i = 0; i != 3; ++i) probes.push_back({r.of<const char*>({"", "A", "B", "c"}), r.of<const char*>({"x", "y", "z", "A", "$const"}), nullptr, 0});
    for (auto &p : probes) {
        const auto n = times(m, p);
        std::size_t first = 0; while (first < m.size() and not same(m[first], p)) ++first;
        const auto id = ident(p);
        int f = 0, h = 0, a = 0;                                                // 0 absent, 1 found, 2 ambiguous
        try { auto it = s.find(id); f = it != s.end(); if (f) HV_CHECK(it - s.begin() == long(first), "schema-find", what << ": find(" << sid(p) << ") is entry " << it - s.begin()); } catch (m::invalid_argument&) { f = 2; }
        try { h = s.has(id); } catch (m::invalid_argument&) { h = 2; }
        try { auto [i, e] = s.at(id); a = 1; HV_CHECK(i == first and e.id == id, "schema-find", what << ": at(" << sid(p) << ") is entry " << i); } catch (m::out_of_range&) { } catch (m::invalid_argument&) { a = 2; }
        const int want = n > 1 ? 2 : int(n);
        HV_CHECK(f == want and h == want and a == want, "schema-find", what << " " << show(m) << ": " << sid(p) << " occurs " << n << " times; find " << f << ", has " << h << ", at " << a);
        if (n == 1) { auto [i, e] = s[id]; HV_CHECK(i == first and e.id == id, "schema-find", what << ": [" << sid(p) << "] is entry " << i); }
        count("lookups");
    }
}
static void schemas()
{
    auto &C = Catalog::Get();
    cases([&](Rng &r, uint64_t) {
        const Type *tys[] = { Type::Get_Boolean(Type::TY_Vector), Type::Get_Integer(Type::TY_Vector, 4), Type::Get_Integer(Type::TY_Scalar, 4), Type::Get_Char(Type::TY_Vector, 3), Type::Get_Double(Type::TY_Vector) };
        std::vector<Model> ms(2 + r.u() % 2);
        std::vector<Schema> ss(ms.size());
        const bool unique = r.p(.6), typed = r.p(.8);                           // without duplicates; one type per identifier
        std::string desc;
        for (std::size_t k = 0; k != ms.size(); ++k) {
            for (int n = r.in(0, 7); n--;) {
                Entry e{r.of<const char*>({"", "A", "B"}), r.of<const char*>({"x", "y", "z", "A", "$const"}), nullptr, unsigned(r.u() % 16)};
                e.type = typed ? tys[hv::hash(e.prefix + "." + e.name) % 5] : tys[r.u() % 5];
                if (unique and times(ms[k], e)) continue;
                ms[k].push_back(e);
                switch (r.u() % 3) {
                    case 0: ss[k].add(ident(e), e.type, con(e.con)); break;
                    case 1: ss[k].add(Schema::entry_type(ident(e), e.type, con(e.con))); break;
                    default: if (e.con == 0) ss[k].add(ident(e), e.type); else ss[k].add(ident(e), e.type, con(e.con));
                }
            }
            desc += show(ms[k]) + " ";
        }
        at(desc);
        for (std::size_t k = 0; k != ms.size(); ++k) verify(r, ss[k], ms[k], "the schema");

        /* scalar and vectorial entries go together, the first one determines the type */
        auto alike = [](const Type *a, const Type *b) {
            auto x = cast<const PrimitiveType>(a), y = cast<const PrimitiveType>(b);
            return x and y ? x->as_vectorial() == y->as_vectorial() : a == b;
        };
        auto dup = [](const Model &m) { for (auto &e : m) if (times(m, e) > 1) return true; return false; };
        for (std::size_t i = 0; i != ms.size(); ++i) for (std::size_t j = 0; j != ms.size(); ++j) {
            const auto &A = ms[i], &B = ms[j];
            const std::string ab = show(A) + " and " + show(B);
            /* + keeps duplicates */
            Model sum = A; sum.insert(sum.end(), B.begin(), B.end());
            verify(r, ss[i] + ss[j], sum, "the sum of " + ab);
            { Schema s = ss[i]; if (i != j) { s += ss[j]; HV_CHECK(equal(of(s), sum), "schema-add", "+= of " << ab << " is " << show(of(s))); } }
            /* | adds what is missing; an identifier that occurs twice on the left cannot be looked up */
            Model uni = A; bool amb = false;
            for (auto &e : B) { auto n = times(uni, e); if (n > 1) amb = true; if (n == 0) uni.push_back(e); }
            bool threw = false; Schema u;
            try { u = ss[i] | ss[j]; } catch (m::invalid_argument&) { threw = true; }
            HV_CHECK(threw == amb, "schema-union", "union of " << ab << (threw ? " threw" : " did not throw"));
            if (not threw and not amb) verify(r, u, uni, "the union of " + ab);
            /* & keeps the common ones with the constraints of both */
            Model inter; amb = false; bool mismatch = false;
            for (auto &e : A) { auto n = times(B, e); if (n > 1) { amb = true; break; } if (n == 1) { auto &o = *std::find_if(B.begin(), B.end(), [&](auto &x) { return same(x, e); }); if (not alike(o.type, e.type)) { mismatch = true; break; } inter.push_back({e.prefix, e.name, e.type, e.con | o.con}); } }
            threw = false; Schema n;
            try { n = ss[i] & ss[j]; } catch (m::invalid_argument&) { threw = true; }
            HV_CHECK(threw == (amb or mismatch), "schema-intersect", "intersection of " << ab << (threw ? " threw" : " did not throw"));
            if (not threw and not (amb or mismatch)) verify(r, n, inter, "the intersection of " + ab);
            /* == compares the sets of identifiers */
            if (not dup(A) and not dup(B)) {
                bool eq = true; for (auto &e : A) eq = eq and times(B, e); for (auto &e : B) eq = eq and times(A, e);
                HV_CHECK((ss[i] == ss[j]) == eq and (ss[i] != ss[j]) == not eq, "schema-equal", ab << " are " << (eq ? "not " : "") << "equal");
            }
            count("pairs");
        }
        {
            Model d, c;
            for (auto &e : ms[0]) { if (not times(d, e)) d.push_back(e); if (not (e.prefix.empty() and e.name == "$const")) c.push_back(e); }
            verify(r, ss[0].deduplicate(), d, "deduplicated " + show(ms[0]));
            verify(r, ss[0].drop_constants(), c, "without constants " + show(ms[0]));
            HV_CHECK(equal(of(ss[0]), ms[0]), "schema-const", "the schema changed to " << show(of(ss[0])));
        }
        /* identifiers */
        {
            Entry a{r.of<const char*>({"", "A", "B"}), r.of<const char*>({"x", "y", "A"}), nullptr, 0}, b{r.of<const char*>({"", "A", "B"}), r.of<const char*>({"x", "y", "A"}), nullptr, 0};
            auto x = ident(a), y = ident(b);
            HV_CHECK((x == y) == same(a, b) and (x != y) == not same(a, b), "identifier", sid(a) << " and " << sid(b) << " equal: " << (x == y));
            HV_CHECK(text(x) == sid(a), "identifier", sid(a) << " prints as " << text(x));
            if (same(a, b)) HV_CHECK(std::hash<Schema::Identifier>{}(x) == std::hash<Schema::Identifier>{}(y), "identifier", "hashes of " << sid(a) << " differ");
            bool threw = false; try { Schema::Identifier(C.pool(""), C.pool("x")); } catch (m::invalid_argument&) { threw = true; }
            HV_CHECK(threw, "identifier", "an empty prefix is accepted");
        }
        ok(hash(desc), ms[0].size() + ms[1].size() > 2);
        sample(desc);
    });
}

/*===== Tables ======================================================================================================*/
struct Attr { std::string name; const PrimitiveType *type; bool notnull = false, unique = false, hidden = false, key = false; const Attribute *ref = nullptr; bool ref_unique = false; };
template<typename It> static void iterate(Rng &r, It b, It e, const std::vector<std::size_t> &want, const char *what)
{
    std::vector<std::size_t> got; std::size_t steps = 0;
    for (auto it = b; it != e and steps++ < 100; ++it) got.push_back(it->id);
    HV_CHECK(got == want, "table-iterate", what << " attributes iterated: " << got.size() << " instead of " << want.size());
    if (got != want) return;
    { std::vector<std::size_t> g; steps = 0; for (auto it = b; it != e and steps++ < 100;) { auto o = it++; g.push_back((*o).id); } HV_CHECK(g == want, "table-iterate", what << " attributes by it++"); }
    HV_CHECK(e - b == long(want.size()) and b - e == -long(want.size()), "table-distance", what << ": " << want.size() << " attributes, distance " << (e - b) << " and " << (b - e));
    if (want.size()) { auto it = e; for (std::size_t i = want.size(); i--;) { if (r.p(.5)) --it; else it--; HV_CHECK(it->id == want[i], "table-backward", what << " attribute " << i << " backwards is " << it->id << " instead of " << want[i]); } }
    for (int k = 0; k != 3 and want.size(); ++k) {
        std::size_t i = r.u() % want.size(), j = r.u() % want.size(); if (i > j) std::swap(i, j);
        auto x = b; x += int(i); auto y = x; y += int(j - i);
        HV_CHECK(x->id == want[i] and y->id == want[j], "table-advance", what << ": advanced by " << i << " and " << j);
        HV_CHECK(y - x == long(j - i) and x - y == long(i) - long(j), "table-distance", what << ": distance of attributes " << i << " and " << j << " is " << (y - x));
        y -= int(j - i);
        HV_CHECK(y == x and y->id == want[i], "table-backward", what << ": back by " << j - i << " from attribute " << j << " is " << y->id << " instead of " << want[i]);
    }
}
static void verify(Rng &r, const Table &T, const std::string &name, const std::vector<Attr> &m)
{
    auto &C = Catalog::Get();
    std::vector<std::size_t> vis, hid, all, key;
    for (std::size_t i = 0; i != m.size(); ++i) { (m[i].hidden ? hid : vis).push_back(i); all.push_back(i); if (m[i].key) key.push_back(i); }
    HV_CHECK(*T.name() == name, "table-name", "table " << *T.name());
    HV_CHECK(T.num_attrs() == vis.size() and T.num_hidden_attrs() == hid.size() and T.num_all_attrs() == all.size(), "table-count", T.num_attrs() << "+" << T.num_hidden_attrs() << " of " << T.num_all_attrs() << " attributes instead of " << vis.size() << "+" << hid.size());
    if (T.num_all_attrs() != m.size()) return;
    if (m.size()) {
        iterate(r, T.begin(), T.end(), vis, "visible"); iterate(r, T.cbegin(), T.cend(), vis, "visible");
        iterate(r, T.begin_hidden(), T.end_hidden(), hid, "hidden"); iterate(r, T.cbegin_hidden(), T.cend_hidden(), hid, "hidden");
        iterate(r, T.begin_all(), T.end_all(), all, "all"); iterate(r, T.cbegin_all(), T.cend_all(), all, "all");
    }
    for (std::size_t i = 0; i != m.size(); ++i) {
        auto n = C.pool(m[i].name.c_str());
        auto &a = T.at(i);
        HV_CHECK(a.id == i and *a.name == m[i].name and a.type == m[i].type, "table-attribute", "attribute " << i << " is " << text(a) << " instead of " << m[i].name << " " << text(*m[i].type));
        HV_CHECK(a.not_nullable == m[i].notnull and a.unique == m[i].unique and a.is_hidden == m[i].hidden and a.reference == m[i].ref, "table-attribute", "constraints of attribute " << m[i].name);
        HV_CHECK(&T[i] == &a and &T.at(n) == &a and &T[n] == &a and T.has_attribute(n), "table-lookup", "attribute " << m[i].name << " found elsewhere");
        HV_CHECK(a.is_unique() == (m[i].unique or (m[i].key and key.size() == 1)), "table-unique", "attribute " << m[i].name << (a.is_unique() ? " is" : " is not") << " unique; " << key.size() << " attributes in the key");
        HV_CHECK(T[i] == a and (m.size() < 2 or T[(i + 1) % m.size()] != a), "table-attribute", "attribute " << m[i].name << " compares wrongly");
    }
    for (auto *missing : {"nowhere", "A0", ""}) {
        auto n = C.pool(missing); bool threw = false; try { (void) T.at(n); } catch (std::out_of_range&) { threw = true; }
        HV_CHECK(threw and not T.has_attribute(n), "table-lookup", "attribute \"" << missing << "\" found");
    }
    bool threw = false; try { (void) T.at(m.size() + r.u() % 3); } catch (std::out_of_range&) { threw = true; }
    HV_CHECK(threw, "table-lookup", "an attribute beyond the last");
    auto pk = T.primary_key(); std::vector<std::size_t> got; for (auto &a : pk) got.push_back(a.get().id);
    HV_CHECK(got == key, "table-key", "primary key of " << got.size() << " instead of " << key.size() << " attributes");
    for (std::size_t i = 0; i != vis.size(); ++i) { auto id = const_cast<Table&>(T).convert_id(i); HV_CHECK(id == vis[i], "table-convert", "visible attribute " << i << " is " << id << " instead of " << vis[i]); }
    for (auto *alias : {"", "al"}) {
        Model s;
        for (auto &a : m) s.push_back({*alias ? alias : name, a.name, a.type, unsigned(a.notnull) | unsigned(a.unique or (a.key and key.size() == 1)) << 1 | unsigned(a.ref and a.ref_unique) << 2 | unsigned(a.hidden) << 3});
        ThreadSafePooledOptionalString al; if (*alias) al = C.pool(alias);
        auto S = T.schema(al);
        HV_CHECK(equal(of(S), s), "table-schema", "schema " << show(of(S)) << " instead of " << show(s));
    }
    count("tables");
}
static void tables()
{
    auto &C = Catalog::Get();
    cases([&](Rng &r, uint64_t) {
        const PrimitiveType *tys[] = { Type::Get_Boolean(Type::TY_Vector), Type::Get_Integer(Type::TY_Vector, 8), Type::Get_Char(Type::TY_Vector, 5), Type::Get_Date(Type::TY_Vector), Type::Get_Decimal(Type::TY_Vector, 8, 2) };
        std::vector<std::unique_ptr<Table>> ts; std::vector<std::vector<Attr>> ms; std::vector<std::string> names;
        std::string desc;
        for (int k = 0; k != 2; ++k) {
            const std::string name = k ? "U" : "T";
            auto T = std::unique_ptr<Table>(std::make_unique<ConcreteTable>(C.pool(name.c_str())));
            std::vector<Attr> m;
            const int n = r.in(0, r.p(.1) ? 60 : 8), versioned = r.p(.3) ? int(r.in(0, n)) : -1;
            const double hide = r.p(.5) ? 0 : r.p(.3) ? .8 : .3;
            for (int i = 0; i <= n; ++i) {
                if (i == versioned) {
                    T = std::make_unique<MultiVersioningTable>(std::move(T));
                    for (auto *h : {"$ts_begin", "$ts_end"}) { Attr a{h, Type::Get_Integer(Type::TY_Vector, 8)}; a.hidden = a.notnull = true; m.push_back(a); }
                }
                if (i == n) break;
                Attr a{"a" + std::to_string(r.in(0, n + 2)), tys[r.u() % 5]};
                const bool known = std::any_of(m.begin(), m.end(), [&](auto &x) { return x.name == a.name; });
                bool threw = false;
                if (r.p(.1)) {                                                  // only vectorial types are attributes
                    try { T->push_back(C.pool(a.name.c_str()), a.type->as_scalar()); } catch (std::invalid_argument&) { threw = true; } catch (m::invalid_argument&) { threw = true; }
                    HV_CHECK(threw, "table-scalar", "an attribute of scalar type is accepted");
                    HV_CHECK(T->has_attribute(C.pool(a.name.c_str())) == known and T->num_all_attrs() == m.size(), "table-scalar", "a refused attribute of scalar type is known to the table");
                    threw = false;
                }
                try { T->push_back(C.pool(a.name.c_str()), a.type); } catch (std::invalid_argument&) { threw = true; }
                HV_CHECK(threw == known, "table-duplicate", "attribute " << a.name << (threw ? " refused" : " accepted twice"));
                desc += a.name + " " + text(*a.type) + (threw ? " refused; " : "; ");
                if (not threw) m.push_back(a);
            }
            for (std::size_t i = 0; i != m.size(); ++i) {                       // constraints, in any order
                auto &a = m[i]; auto &A = r.p(.5) ? T->at(i) : (*T)[C.pool(a.name.c_str())];
                if (a.name[0] == '$') continue;
                if (r.p(.3)) A.not_nullable = a.notnull = true;
                if (r.p(.3)) A.unique = a.unique = true;
                if (r.p(hide)) A.is_hidden = a.hidden = true;
                desc += a.name + (a.notnull ? " NOT NULL" : "") + (a.unique ? " UNIQUE" : "") + (a.hidden ? " hidden" : "") + "; ";
            }
            for (int keys = r.p(.3) ? 0 : r.p(.5) ? 1 : r.in(2, 4); keys-- and m.size();) { auto i = r.u() % m.size(); m[i].key = true; T->add_primary_key(C.pool(m[i].name.c_str())); desc += "key " + m[i].name + "; "; }
            bool threw = false; try { T->add_primary_key(C.pool("nowhere")); } catch (std::out_of_range&) { threw = true; }
            HV_CHECK(threw, "table-key", "an unknown attribute in the primary key");
            at(desc);
            ts.push_back(std::move(T)); ms.push_back(std::move(m)); names.push_back(name);
            desc += "| ";
        }
        const auto keys = std::count_if(ms[0].begin(), ms[0].end(), [](auto &a) { return a.key; });
        for (std::size_t i = 0; i != ms[1].size() and ms[0].size(); ++i) if (r.p(.4)) {       // U references T
            auto j = r.u() % ms[0].size();
            ts[1]->at(i).reference = ms[1][i].ref = &ts[0]->at(j);
            ms[1][i].ref_unique = ms[0][j].unique or (ms[0][j].key and keys == 1);
            desc += ms[1][i].name + " -> " + ms[0][j].name + "; ";
        }
        at(desc);
        for (int k = 0; k != 2; ++k) verify(r, *ts[k], names[k], ms[k]);
        HV_CHECK(*ts[0] == *ts[0] and *ts[1] == *ts[1] and not (*ts[0] == *ts[1]) and not (*ts[1] == *ts[0]), "table-equal", "tables compare wrongly");
        if (ms[0].size() and ms[1].size()) HV_CHECK(ts[0]->at(0) != ts[1]->at(0), "table-equal", "attributes of two tables compare equal");
        ok(hash(desc), ms[0].size() > 1);
        sample(desc);
    });
}

/*===== Databases ===================================================================================================*/
static void databases()
{
    using namespace m::idx;
    struct Index { std::string name, table, attr; IndexMethod method; const IndexBase *ptr; bool valid; };
    struct DB { std::map<std::string, std::set<std::string>> tables; std::vector<Index> idx; };
    auto &C = Catalog::Get();
    cases([&](Rng &r, uint64_t) {
        Catalog::Clear();
        std::map<std::string, DB> dbs; std::string use, log;
        auto P = [&](const std::string &s) { return C.pool(s.c_str()); };
        auto throws = [](auto f) { try { f(); } catch (std::logic_error&) { return true; } catch (m::exception&) { return true; } return false; };
        for (int step = r.in(4, 40); step--;) {
            const std::string d = r.of<const char*>({"d", "e", "T"}), t = r.of<const char*>({"T", "U", "V", "d"}), a = r.of<const char*>({"x", "y", "z"}), i = r.of<const char*>({"i", "j", "k", "l", "T"});
            const auto method = r.p(.5) ? IndexMethod::Array : IndexMethod::Rmi;
            const int op = r.u() % 12;
            log += std::to_string(op) + ":" + d + "." + t + "." + a + "." + i + (method == IndexMethod::Array ? "A " : "R ");
            at(log);
            auto it = dbs.find(d);
            if (op == 0) {
                bool e = throws([&] { C.add_database(P(d)); });
                HV_CHECK(e == (it != dbs.end()), "db-add", "adding database " << d << (e ? " threw" : " twice"));
                if (it == dbs.end()) dbs[d];
            } else if (op == 1 and r.p(.5)) {
                bool e = throws([&] { C.drop_database(P(d)); });
                HV_CHECK(e == (it == dbs.end() or use == d), "db-drop", "dropping database " << d << (e ? " threw" : " went through"));
                if (it != dbs.end() and use != d) dbs.erase(it);
            } else if (op == 2) {
                if (it != dbs.end() and r.p(.7)) { C.set_database_in_use(C.get_database(P(d))); use = d; }
                else { C.unset_database_in_use(); use.clear(); }
            } else if (it != dbs.end()) {
                auto &D = C.get_database(P(d)); auto &M = it->second;
                auto tb = M.tables.find(t);
                const bool has_t = tb != M.tables.end(), has_a = has_t and tb->second.count(a);
                auto named = std::find_if(M.idx.begin(), M.idx.end(), [&](auto &x) { return x.name == i; });
                if (op <= 5) {
                    bool e;
                    if (r.p(.5)) e = throws([&] { D.add_table(P(t)); });
                    else { auto T = std::make_unique<ConcreteTable>(P(t)); e = throws([&] { D.add(std::move(T)); }); }
                    HV_CHECK(e == has_t, "db-table", "adding table " << t << (e ? " threw" : " twice"));
                    if (not has_t) for (auto *n : {"x", "y", "z"}) if (r.p(.8)) { D.get_table(P(t)).push_back(P(n), Type::Get_Integer(Type::TY_Vector, 4)); M.tables[t].insert(n); } else M.tables[t];
                } else if (op == 6) {
                    bool e = throws([&] { D.drop_table(P(t)); });
                    HV_CHECK(e == not has_t, "db-table", "dropping table " << t << (e ? " threw" : " which is unknown"));
                    if (has_t) { M.tables.erase(tb); std::erase_if(M.idx, [&](auto &x) { return x.table == t; }); }
                } else if (op <= 9) {
                    std::unique_ptr<IndexBase> I; if (method == IndexMethod::Array) I = std::make_unique<ArrayIndex<int32_t>>(); else I = std::make_unique<RecursiveModelIndex<int32_t>>();
                    auto *p = I.get();
                    bool e = throws([&] { D.add_index(std::move(I), P(t), P(a), P(i)); });
                    HV_CHECK(e == (not has_a or named != M.idx.end()), "db-index", "adding index " << i << " on " << t << "." << a << (e ? " threw" : " went through"));
                    if (has_a and named == M.idx.end()) M.idx.push_back({i, t, a, method, p, true});
                } else if (op == 10) {
                    if (r.p(.5)) {
                        bool e = throws([&] { D.drop_index(P(i)); });
                        HV_CHECK(e == (named == M.idx.end()), "db-index", "dropping index " << i << (e ? " threw" : " which is unknown"));
                        if (named != M.idx.end()) M.idx.erase(named);
                    } else {
                        bool e = throws([&] { D.drop_indexes(P(t)); });
                        HV_CHECK(e == not has_t, "db-index", "dropping the indexes of " << t << (e ? " threw" : " which is unknown"));
                        std::erase_if(M.idx, [&](auto &x) { return x.table == t; });
                    }
                } else {
                    bool e = throws([&] { D.invalidate_indexes(P(t)); });
                    HV_CHECK(e == not has_t, "db-index", "invalidating the indexes of " << t << (e ? " threw" : " which is unknown"));
                    for (auto &x : M.idx) if (x.table == t) x.valid = false;
                }
            }
            /* everything is as the model says */
            HV_CHECK(C.num_databases() == dbs.size(), "db-count", C.num_databases() << " instead of " << dbs.size() << " databases");
            HV_CHECK(C.has_database_in_use() == not use.empty(), "db-use", "a database in use: " << C.has_database_in_use());
            if (not use.empty() and C.has_database_in_use()) HV_CHECK(*C.get_database_in_use().name == use, "db-use", *C.get_database_in_use().name << " in use instead of " << use);
            if (use.empty()) HV_CHECK(throws([&] { C.get_database_in_use(); }), "db-use", "a database in use");
            for (auto *n : {"d", "e", "T", "nowhere"}) {
                auto f = dbs.find(n);
                HV_CHECK(C.has_database(P(n)) == (f != dbs.end()), "db-has", "database " << n << " known: " << C.has_database(P(n)));
                bool e = throws([&] { HV_CHECK(*C.get_database(P(n)).name == std::string(n), "db-has", "database " << n << " is another"); });
                HV_CHECK(e == (f == dbs.end()), "db-has", "get_database of " << n << (e ? " threw" : " succeeded"));
                if (f == dbs.end() or e) continue;
                auto &D = C.get_database(P(n)); auto &M = f->second;
                HV_CHECK(D.size() == M.tables.size(), "db-tables", n << " has " << D.size() << " instead of " << M.tables.size() << " tables");
                std::set<std::string> seen; for (auto x = D.begin_tables(); x != D.end_tables(); ++x) { HV_CHECK(x->first == x->second->name(), "db-tables", "table " << *x->first << " has another name"); seen.insert(*x->first); }
                for (auto *tn : {"T", "U", "V", "d"}) {
                    auto tm = M.tables.find(tn); const bool known = tm != M.tables.end();
                    HV_CHECK(D.has_table(P(tn)) == known and seen.count(tn) == known and throws([&] { D.get_table(P(tn)); }) == not known, "db-tables", "table " << n << "." << tn << " known: " << D.has_table(P(tn)));
                    for (auto *an : {"x", "y", "z"}) for (auto me : {IndexMethod::Array, IndexMethod::Rmi}) {
                        std::vector<const IndexBase*> want;
                        for (auto &x : M.idx) if (x.valid and x.table == tn and x.attr == an and x.method == me) want.push_back(x.ptr);
                        const bool there = known and tm->second.count(an);
                        bool has = false; bool e2 = throws([&] { has = D.has_index(P(tn), P(an), me); });
                        HV_CHECK(e2 == not there and has == not want.empty(), "db-index", "index on " << tn << "." << an << (e2 ? " threw" : "") << ": " << has << " instead of " << want.size());
                        const IndexBase *got = nullptr; e2 = throws([&] { got = &D.get_index(P(tn), P(an), me); });
                        HV_CHECK(e2 == want.empty() and (e2 or std::find(want.begin(), want.end(), got) != want.end()), "db-index", "get_index on " << tn << "." << an << (e2 ? " threw" : " gives another index"));
                    }
                }
                for (auto *in : {"i", "j", "k", "l", "T"}) {
                    auto x = std::find_if(M.idx.begin(), M.idx.end(), [&](auto &y) { return y.name == in; });
                    const IndexBase *got = nullptr; bool e2 = throws([&] { got = &D.get_index(P(in)); });
                    HV_CHECK(D.has_index(P(in)) == (x != M.idx.end()) and e2 == (x == M.idx.end()) and (e2 or got == x->ptr), "db-index", "index " << in << " known: " << D.has_index(P(in)));
                }
                HV_CHECK(not throws([&] { HV_CHECK(*D.get_function(P("COUNT"))->name == std::string("COUNT") and D.get_function(P("COUNT"))->is_aggregate(), "db-function", "COUNT"); }) and throws([&] { D.get_function(P("NOSUCH")); }), "db-function", "functions");
            }
            count("steps");
        }
        ok(hash(log), dbs.size() > 0);
        sample(log);
    });
    Catalog::Clear();
}

/*===== Components ==================================================================================================*/
static void components()
{
    auto &C = Catalog::Get();
    cases([&](Rng &r, uint64_t) {
        ComponentSet<int> S; std::map<std::string, int> m; std::string def, log;
        auto P = [&](const std::string &s) { return C.pool(s.c_str()); };
        for (int step = r.in(2, 30); step--;) {
            const std::string n = "c" + std::to_string(r.in(0, r.p(.2) ? 40 : 5)); const int v = r.in(0, 1000000);
            const bool add = r.p(.6), known = m.count(n);
            log += (add ? "+" : "!") + n + " "; at(log);
            bool threw = false;
            try { if (add) S.add(P(n), Component<int>("d", std::make_unique<int>(v))); else S.set_default(P(n)); } catch (std::invalid_argument&) { threw = true; }
            HV_CHECK(threw == (add == known), "component", (add ? "adding " : "selecting ") << n << (threw ? " threw" : " went through"));
            if (add and not known) { m[n] = v; if (def.empty()) def = n; }
            if (not add and known) def = n;
            HV_CHECK(S.has_default() == not def.empty(), "component-default", "default: " << S.has_default());
            if (not def.empty()) HV_CHECK(*S.get_default_name() == def and S.get_default() == m[def], "component-default", "default " << *S.get_default_name() << " instead of " << def);
            std::size_t seen = 0; for (auto &[k, c] : S) { ++seen; HV_CHECK(m.count(*k) and m[*k] == *c, "component", "component " << *k << " is another"); }
            HV_CHECK(seen == m.size(), "component", seen << " instead of " << m.size() << " components");
            for (int i = 0; i != 4; ++i) { const std::string q = "c" + std::to_string(r.in(0, 41)); bool e = false; try { HV_CHECK(S.get(P(q)) == (m.count(q) ? m[q] : -1), "component", "component " << q << " is another"); } catch (std::invalid_argument&) { e = true; } HV_CHECK(e == not m.count(q), "component", "get " << q << (e ? " threw" : " succeeded")); }
            count("steps");
        }
        ok(hash(log), m.size() > 1);
        sample(log);
    });
}

int main(int argc, char **argv)
{
    m::init();
    return nat_main(argc, argv, {{"types", types}, {"schemas", schemas}, {"tables", tables}, {"databases", databases}, {"components", components}});
}
