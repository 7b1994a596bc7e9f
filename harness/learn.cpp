// Learned models: sum-product networks, clustering, linear regression, grid search.
#include "nat.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/util/LinearModel.hpp>
#include "catalog/SpnWrapper.hpp"
#include "util/GridSearch.hpp"
#include "util/datagen.hpp"
#include "util/Kmeans.hpp"
#include "util/RDC.hpp"
#include "util/Spn.hpp"
#include <cmath>
#include <iomanip>
#include <sstream>

using namespace m;
using namespace hv;

using Val = std::optional<float>;
static unsigned below(Rng &r, uint64_t n) { return unsigned(r.u() % n); }
using Rows = std::vector<std::vector<Val>>;

struct Column
{
    bool discrete;
    int shape;          ///< how values are chosen
    double nulls;       ///< fraction of NULL
    float scale, offset;

    Column(Rng &r, bool is_discrete) : discrete(is_discrete), shape(below(r, 7)), nulls(r.p(.6) ? 0. : r.p(.5) ? .15 : r.p(.6) ? .9 : 1.)
    {
        scale = discrete ? (r.p(.7) ? 1.f : .5f) : std::ldexp(1.f + below(r, 100) / 100.f, int(below(r, 30)) - 10);
        offset = r.p(.5) ? 0.f : float(int(below(r, 2000)) - 1000);
    }

    float pick(Rng &r, float base) {
        float v;
        switch (shape) {
            case 0: v = 3; break;                                               // constant
            case 1: v = below(r, 2); break;
            case 2: v = below(r, 6); break;
            case 3: v = below(r, 50); break;
            case 4: v = std::floor(base); break;                                // dependent on the row
            case 5: v = std::floor(base / 4) + below(r, 2); break;               // noisily dependent on the row
            default: v = r.p(.9) ? below(r, 4) : 900 + below(r, 3); break;        // outliers
        }
        if (not discrete and shape != 0 and r.p(.8)) v += below(r, 1000) / 1000.f;
        return v * scale + offset;
    }
};

struct Table_
{
    std::vector<Column> cols;
    Rows rows;

    Table_(Rng &r, unsigned max_cols, unsigned max_rows) {
        unsigned n = 1 + below(r, max_cols);
        int kind = below(r, 3);
        for (unsigned i = 0; i != n; ++i) cols.emplace_back(r, kind == 0 ? true : kind == 1 ? r.p(.5) : false);
        unsigned m = r.p(.05) ? 0 : r.p(.3) ? 1 + below(r, 6) : 1 + below(r, max_rows);
        for (unsigned i = 0; i != m; ++i) rows.push_back(row(r, true));
    }
    std::vector<Val> row(Rng &r, bool nulls) {
        float base = below(r, 24);
        std::vector<Val> row;
        for (auto &c : cols) { float v = c.pick(r, base); row.push_back(nulls and r.p(c.nulls) ? Val() : Val(v)); }
        return row;
    }
};

static const char *OP[] = { "=", "<", "<=", ">", ">=" };
static const Spn::SpnOperator SOP[] = { Spn::EQUAL, Spn::LESS, Spn::LESS_EQUAL, Spn::GREATER, Spn::GREATER_EQUAL };
static bool holds(int op, float x, float v) { switch (op) { case 0: return x == v; case 1: return x < v; case 2: return x <= v; case 3: return x > v; default: return x >= v; } }
static double fraction(const Rows &rows, unsigned c, int op, float v) {
    std::size_t n = 0;
    for (auto &r : rows) n += r[c] and holds(op, *r[c], v);
    return rows.empty() ? 0. : double(n) / double(rows.size());
}
static double null_fraction(const Rows &rows, unsigned c) {
    std::size_t n = 0;
    for (auto &r : rows) n += not r[c];
    return rows.empty() ? 0. : double(n) / double(rows.size());
}

/** Checks everything `spn` answers about single attributes against the rows it represents. */
template<typename S>
static void marginals(Rng &r, const S &spn, const std::vector<Column> &cols, const Rows &rows, double tol, const char *when, bool updated)
{
    HV_CHECK(spn.num_rows() == rows.size(), "spn-rows", when << " the SPN has " << spn.num_rows() << " of " << rows.size() << " rows");
    for (unsigned c = 0; c != cols.size(); ++c) {
        const Spn::Filter isnull{ { c, { Spn::IS_NULL, 0.f } } };
        HV_CHECK(std::abs(spn.likelihood(isnull) - null_fraction(rows, c)) <= tol, "spn-null", when << " P(a" << c << " IS NULL) of " << rows.size() << " rows is " << spn.likelihood(isnull) << " instead of " << null_fraction(rows, c));
        std::vector<float> vals;
        float lo = 0, hi = 0; double sum = 0;
        for (auto &row : rows) if (row[c]) { if (vals.empty()) lo = hi = *row[c]; lo = std::min(lo, *row[c]); hi = std::max(hi, *row[c]); vals.push_back(*row[c]); sum += *row[c]; }
        std::vector<float> probes{ -1e6f, 1e6f, 0.f, lo, hi, std::nextafter(lo, -1e30f), std::nextafter(lo, 1e30f), std::nextafter(hi, 1e30f), std::nextafter(hi, -1e30f), lo + (hi - lo) / 2 };
        for (int i = 0; i != 4 and not vals.empty(); ++i) { probes.push_back(vals[below(r, vals.size())]); probes.push_back(lo + (hi - lo) * (below(r, 1000) / 1000.f)); }
        std::sort(probes.begin(), probes.end());
        double prev = 0;
        for (float v : probes) {
            for (int op = 0; op != 5; ++op) {
                const Spn::Filter f{ { c, { SOP[op], v } } };
                const double p = spn.likelihood(f), l = spn.lower_bound(f), u = spn.upper_bound(f), t = fraction(rows, c, op, v);
                if (rows.empty()) { HV_CHECK(p == 0, "spn-empty", "P(a" << c << ' ' << OP[op] << ' ' << v << ") without rows is " << p); continue; }
                count("marginals");
                if (cols[c].discrete) {
                    HV_CHECK(std::abs(p - t) <= tol, "spn-marginal", when << " P(a" << c << ' ' << OP[op] << ' ' << std::setprecision(9) << v << ") of " << rows.size() << " rows is " << p << " instead of " << t);
                    HV_CHECK(std::abs(l - t) <= tol and std::abs(u - t) <= tol, "spn-discrete-bounds", when << " P(a" << c << ' ' << OP[op] << ' ' << std::setprecision(9) << v << ") of " << rows.size() << " rows is " << t << " but bounded by " << l << " and " << u);
                } else {
                    HV_CHECK(std::isfinite(p) and p >= -tol and p <= 1 + tol, "spn-probability", when << " P(a" << c << ' ' << OP[op] << ' ' << std::setprecision(9) << v << ") is " << p);
                    if (op == 0) HV_CHECK(u >= t - tol, "spn-upper", when << " P(a" << c << " = " << std::setprecision(9) << v << ") is " << t << " but bounded by " << u);
                    else HV_CHECK(l <= t + tol and u >= t - tol and l <= p + tol and p <= u + tol, "spn-bounds", when << " P(a" << c << ' ' << OP[op] << ' ' << std::setprecision(9) << v << ") of " << rows.size() << " rows is " << t << ", estimated as " << p << " and bounded by " << l << " and " << u);
                }
                if (op == 1) { HV_CHECK(p >= prev - tol, "spn-monotone", when << " P(a" << c << " < v) decreases to " << p << " from " << prev << " at v = " << std::setprecision(9) << v); prev = p; }
            }
            if (rows.empty()) continue;
            const double lt = spn.likelihood(Spn::Filter{ { c, { Spn::LESS, v } } }), ge = spn.likelihood(Spn::Filter{ { c, { Spn::GREATER_EQUAL, v } } });
            HV_CHECK(std::abs(lt + ge + null_fraction(rows, c) - 1) <= tol, "spn-complement", when << " P(a" << c << " < v) = " << lt << " and P(a" << c << " >= v) = " << ge << " with NULL " << null_fraction(rows, c) << " at v = " << std::setprecision(9) << v);
        }
        /*----- Expectation and distinct values. ---------------------------------------------------------------------*/
        if (rows.empty()) continue;
        const double mean = sum / double(rows.size()), e = spn.expectation(c, Spn::Filter()), range = std::max<double>(hi, 0) - std::min<double>(lo, 0), slack = tol * (1 + range + std::abs(mean) + std::max(std::abs(lo), std::abs(hi)));
        if (cols[c].discrete) HV_CHECK(std::abs(e - mean) <= slack, "spn-expectation", when << " E(a" << c << ") of " << rows.size() << " rows is " << e << " instead of " << mean);
        else if (not updated) HV_CHECK(std::abs(e - mean) <= (double(hi) - lo) / 4 + slack, "spn-expectation", when << " E(a" << c << ") of " << rows.size() << " rows from " << lo << " to " << hi << " is " << e << " instead of " << mean);
        const std::size_t distinct = std::set<float>(vals.begin(), vals.end()).size(), est = spn.estimate_number_distinct_values(c);
        if (cols[c].discrete) HV_CHECK(est >= distinct and est <= rows.size(), "spn-distinct", when << ' ' << est << " distinct values of a" << c << " estimated for " << distinct << " of " << rows.size() << " rows");
        else if (not updated) HV_CHECK(est == rows.size(), "spn-distinct", when << ' ' << est << " distinct values of continuous a" << c << " estimated for " << rows.size() << " rows");
        if (cols[c].discrete and cols.size() == 1) HV_CHECK(est == distinct, "spn-distinct-leaf", when << ' ' << est << " distinct values estimated for " << distinct << " of " << rows.size() << " rows");
    }
}

/** Checks laws of probability for random conjunctions. */
template<typename S>
static void conjunctions(Rng &r, const S &spn, const std::vector<Column> &cols, const Rows &rows, double tol, const char *when, bool updated)
{
    if (rows.empty()) return;
    HV_CHECK(spn.likelihood(Spn::Filter()) == 1.f, "spn-no-filter", when << " the likelihood without filter is " << spn.likelihood(Spn::Filter()));
    for (int i = 0; i != 6; ++i) {
        std::vector<unsigned> order(cols.size());
        for (unsigned c = 0; c != order.size(); ++c) order[c] = c;
        for (unsigned c = order.size(); c > 1; --c) std::swap(order[c - 1], order[below(r, c)]);
        unsigned n = 1 + below(r, cols.size());
        auto value = [&](unsigned c) { auto &v = rows[below(r, rows.size())][c]; return v ? *v : 1.f; };
        Spn::Filter f;
        double prev = 1;
        for (unsigned k = 0; k != n; ++k) {
            const unsigned c = order[k];
            const float v = value(c);
            auto with = [&](Spn::SpnOperator op) { auto g = f; g.emplace(c, std::make_pair(op, v)); return double(spn.likelihood(g)); };
            const double lt = with(Spn::LESS), eq = with(Spn::EQUAL), gt = with(Spn::GREATER), le = with(Spn::LESS_EQUAL), ge = with(Spn::GREATER_EQUAL), null = with(Spn::IS_NULL);
            for (double p : { lt, eq, gt, le, ge, null }) HV_CHECK(std::isfinite(p) and p >= -tol and p <= prev + tol, "spn-conjunction", when << " adding a predicate on a" << c << " to " << k << " predicates increases the likelihood from " << prev << " to " << p);
            HV_CHECK(std::abs(lt + ge + null - prev) <= tol and std::abs(le + gt + null - prev) <= tol, "spn-additive", when << " with " << k << " predicates of likelihood " << prev << ": P(a" << c << " < " << v << ") = " << lt << ", >= " << ge << ", <= " << le << ", > " << gt << ", NULL " << null);
            if (cols[c].discrete) HV_CHECK(std::abs(lt + eq - le) <= tol and std::abs(gt + eq - ge) <= tol, "spn-additive", when << " with " << k << " predicates: P(a" << c << " < " << v << ") = " << lt << ", = " << eq << ", <= " << le << ", > " << gt << ", >= " << ge);
            count("conjunctions");
            if (k + 1 < n) {
                const int op = below(r, 5);
                f.emplace(c, std::make_pair(SOP[op], v));
                prev = spn.likelihood(f);
                HV_CHECK(spn.lower_bound(f) <= spn.upper_bound(f) + tol, "spn-bounds-order", when << " bounds of a conjunction are " << spn.lower_bound(f) << " and " << spn.upper_bound(f));
                const unsigned e = order[k + 1];
                float lo = 0, hi = 0;
                for (auto &row : rows) if (row[e]) lo = std::min(lo, *row[e]), hi = std::max(hi, *row[e]);
                if (updated and not cols[e].discrete) continue; // bins of updated leaves may exceed the values
                const double ex = spn.expectation(e, f);
                HV_CHECK(std::isfinite(ex) and (prev < .01 or (ex >= lo - tol * 30 * (1 + hi - lo) and ex <= hi + tol * 30 * (1 + hi - lo))), "spn-conditional-expectation", when << " E(a" << e << " | ...) is " << ex << " for values from " << lo << " to " << hi << " and a condition of likelihood " << prev);
            }
        }
    }
}

static Spn learn(const Table_ &t)
{
    Eigen::MatrixXf data(t.rows.size(), t.cols.size());
    Eigen::MatrixXi nulls = Eigen::MatrixXi::Zero(t.rows.size(), t.cols.size());
    for (unsigned i = 0; i != t.rows.size(); ++i)
        for (unsigned j = 0; j != t.cols.size(); ++j) { data(i, j) = t.rows[i][j].value_or(0.f); nulls(i, j) = not t.rows[i][j]; }
    std::vector<Spn::LeafType> types;
    for (auto &c : t.cols) types.push_back(c.discrete ? Spn::DISCRETE : Spn::CONTINUOUS);
    return Spn::learn_spn(data, nulls, types);
}

static std::string describe(const Table_ &t)
{
    std::ostringstream o;
    o << t.rows.size() << " rows of";
    for (auto &c : t.cols) o << ' ' << (c.discrete ? 'd' : 'c') << c.shape << '/' << c.nulls;
    if (t.rows.size() <= 8) for (auto &r : t.rows) { o << " ("; for (auto &v : r) { if (v) o << std::setprecision(9) << *v; else o << "NULL"; o << ','; } o << ')'; }
    return o.str();
}

static void spn()
{
    cases([](Rng &r, uint64_t i) {
        Table_ t(r, r.p(.3) ? 1 : r.p(.05) ? 12 : 5, i % 8 == 7 ? 300 : 60);
        at(describe(t));
        Spn s = learn(t);
        std::ostringstream shape; s.dump(shape);
        HV_CHECK(s.memory_usage() > 0 and s.breadth() >= (t.rows.empty() ? 1 : t.cols.size()), "spn-shape", "an SPN of " << t.cols.size() << " columns has " << s.breadth() << " leaves");
        if (s.height() > 1) count("sum-nodes");
        marginals(r, s, t.cols, t.rows, 2e-4, "after learning", false);
        conjunctions(r, s, t.cols, t.rows, 1e-3, "after learning", false);

        /*----- Insert rows and delete them again. -------------------------------------------------------------------*/
        if (t.rows.empty() and t.cols.size() > 1) { ok(hash(describe(t)), false); return; }
        Rows rows = t.rows, added;
        auto vec = [](const std::vector<Val> &row) { Eigen::VectorXf v(row.size()); for (unsigned j = 0; j != row.size(); ++j) v(j) = *row[j]; return v; };
        std::vector<Column> cols = t.cols;
        if (t.rows.empty()) for (auto &c : cols) c.discrete = true; // an SPN without rows is a discrete leaf
        unsigned n = 1 + below(r, 20);
        for (unsigned k = 0; k != n; ++k) {
            auto row = t.row(r, false);
            if (r.p(.2)) row[below(r, row.size())] = float(int(below(r, 4000)) - 2000);
            auto v = vec(row);
            if (not added.empty() and r.p(.2)) {
                auto j = below(r, added.size());
                auto old = vec(added[j]);
                s.update_row(old, v);
                rows.erase(std::find(rows.begin() + t.rows.size(), rows.end(), added[j]));
                added[j] = row;
            } else {
                s.insert_row(v);
                added.push_back(row);
            }
            rows.push_back(row);
            count("updates");
        }
        marginals(r, s, cols, rows, 1e-3, "after inserting", true);
        conjunctions(r, s, cols, rows, 2e-3, "after inserting", true);
        while (not added.empty()) {
            auto j = below(r, added.size());
            auto v = vec(added[j]);
            s.delete_row(v);
            rows.erase(std::find(rows.begin() + t.rows.size(), rows.end(), added[j]));
            added.erase(added.begin() + j);
            count("updates");
        }
        marginals(r, s, cols, rows, 1e-3, "after deleting the inserted rows", true);
        conjunctions(r, s, cols, rows, 2e-3, "after deleting the inserted rows", true);
        /*----- A leaf forgets any of its rows. ----------------------------------------------------------------------*/
        if (t.cols.size() == 1) {
            while (true) {
                std::vector<unsigned> present;
                for (unsigned k = 0; k != rows.size(); ++k) if (rows[k][0]) present.push_back(k);
                if (present.empty()) break;
                auto k = present[below(r, present.size())];
                auto v = vec(rows[k]);
                s.delete_row(v);
                rows.erase(rows.begin() + k);
                count("updates");
                if (r.p(.1)) marginals(r, s, cols, rows, 1e-3, "after deleting rows", true);
            }
            if (not rows.empty()) marginals(r, s, cols, rows, 1e-3, "after deleting all values", true);
            auto row = t.row(r, false);
            auto v = vec(row);
            s.insert_row(v);
            rows.push_back(row);
            marginals(r, s, cols, rows, 1e-3, "after deleting all values and inserting another", true);
        }
        ok(hash(describe(t) + shape.str()), t.rows.size() > 1);
        if (i % 50 == 0) sample(describe(t));
    });
}

/*----- SPNs of tables -----------------------------------------------------------------------------------------------*/

static void table()
{
    m::init();
    Options::Get().quiet = true;
    cases([](Rng &r, uint64_t i) {
        Catalog &C = Catalog::Get();
        C.timer().clear();
        std::string dbname = "db" + std::to_string(i);
        auto &db = C.add_database(C.pool(dbname.c_str()));
        C.set_database_in_use(db);
        std::ostringstream out, err;
        Diagnostic diag(false, out, err);
        auto run = [&](const std::string &sql) {
            at(sql.substr(0, 2000));
            auto stmt = statement_from_string(diag, sql);
            if (not stmt or diag.num_errors()) { HV_CHECK(false, "statement", "rejected: " << err.str()); return; }
            execute_statement(diag, *stmt);
        };
        static const char *types[] = { "INT(1)", "INT(2)", "INT(4)", "INT(8)", "FLOAT", "DOUBLE", "CHAR(5)", "VARCHAR(8)", "BOOL", "DATE", "DATETIME", "DECIMAL(9,2)" };
        unsigned n = 1 + below(r, 6);
        std::vector<int> type(n);
        unsigned pk = r.p(.8) ? below(r, n + 1) : n; // position of primary key
        std::string sql = "CREATE TABLE t (";
        std::vector<Column> cols;
        std::vector<std::string> names;
        std::vector<Spn::LeafType> leafs;
        bool auto_types = r.p(.5);
        const bool has_pk = r.p(.8);
        for (unsigned c = 0; c <= n; ++c) {
            if (has_pk and c == pk) sql += std::string(c ? ", " : "") + "id INT(4) PRIMARY KEY";
            if (c == n) break;
            type[c] = r.p(.3) ? 6 + below(r, 6) : below(r, 6);
            sql += ((c or (has_pk and pk == 0)) ? ", a" : "a") + std::to_string(c) + ' ' + types[type[c]];
            names.push_back("a" + std::to_string(c));
            bool discrete = auto_types ? (type[c] < 4 or (type[c] > 7 and type[c] < 11)) : r.p(.5);
            cols.emplace_back(r, discrete);
            leafs.push_back(discrete ? Spn::DISCRETE : Spn::CONTINUOUS);
        }
        run(sql + ");");
        Rows rows;
        unsigned m = r.p(.1) ? below(r, 3) : below(r, 50);
        std::string values;
        std::string history = sql;
        static const char *strings[] = { "\"a\"", "\"ab\"", "\"abcde\"", "\"\"", "\"zz\"" };
        for (unsigned k = 0; k != m; ++k) {
            std::vector<Val> row;
            std::string v = "(";
            for (unsigned c = 0; c <= n; ++c) {
                if (has_pk and c == pk) v += std::string(c ? ", " : "") + std::to_string(1000 + k);
                if (c == n) break;
                if (c or (has_pk and pk == 0)) v += ", ";
                if (r.p(cols[c].nulls)) { v += "NULL"; row.push_back(Val()); continue; }
                int x = int(below(r, cols[c].shape == 0 ? 1 : cols[c].shape < 3 ? 4 : 100)) - 2;
                if (type[c] < 4) { v += std::to_string(x); row.push_back(x); }
                else if (type[c] < 6) { v += std::to_string(x) + ".5"; row.push_back(x < 0 ? x - .5f : x + .5f); if (x == 0) row.back() = .5f; }
                else if (type[c] < 8) { int s = below(r, 5); v += strings[s]; row.push_back(float(s)); }
                else if (type[c] == 8) { v += x % 2 ? "TRUE" : "FALSE"; row.push_back(x % 2 ? 1.f : 0.f); }
                else if (type[c] == 9) { int d = 1 + (x + 2) % 28; v += std::string("d'2020-02-") + (d < 10 ? "0" : "") + std::to_string(d) + '\''; row.push_back(float((2020 << 9) | (2 << 5) | d)); }
                else if (type[c] == 10) { v += "d'1970-01-01 00:01:0" + std::to_string((x + 2) % 10) + '\''; row.push_back(float(60 + (x + 2) % 10)); }
                else { v += std::to_string(x) + ".25"; row.push_back(x < 0 ? x - .25f : x + .25f); }
            }
            values += (k ? ", " : "") + v + ")";
            rows.push_back(row);
        }
        if (m) run("INSERT INTO t VALUES " + values + ";");
        history += ") " + values;
        at(history.substr(0, 3000));
        auto s = SpnWrapper::learn_spn_table(C.pool(dbname.c_str()), C.pool("t"), auto_types ? std::vector<Spn::LeafType>() : leafs);
        HV_CHECK(s.get_attribute_to_id().size() == n, "spn-attributes", s.get_attribute_to_id().size() << " attributes of " << n << " are learned");
        bool complete = true;
        for (unsigned c = 0; c != n; ++c) {
            auto it = s.get_attribute_to_id().find(C.pool(names[c].c_str()));
            HV_CHECK(it != s.get_attribute_to_id().end() and it->second == c, "spn-attribute-id", "attribute " << names[c] << " is not learned as random variable " << c);
            complete = complete and it != s.get_attribute_to_id().end() and it->second == c;
        }
        if (complete) {
            /*----- Strings are represented by hashes: compare numbers of distinct values and NULL only. -------------*/
            bool strings = false;
            for (unsigned c = 0; c != n; ++c) strings = strings or type[c] == 6 or type[c] == 7;
            if (not strings) {
                marginals(r, s, cols, rows, 2e-4, "after learning", false);
                conjunctions(r, s, cols, rows, 1e-3, "after learning", false);
            } else if (not rows.empty()) for (unsigned c = 0; c != n; ++c) {
                std::set<float> d;
                for (auto &row : rows) if (row[c]) d.insert(*row[c]);
                auto est = s.estimate_number_distinct_values(C.pool(names[c].c_str()));
                if (cols[c].discrete) HV_CHECK(est >= d.size() and est <= rows.size(), "spn-distinct", est << " distinct values of " << names[c] << " estimated for " << d.size() << " of " << rows.size() << " rows");
                SpnWrapper::AttrFilter f; f.emplace(C.pool(names[c].c_str()), std::make_pair(Spn::IS_NULL, 0.f));
                HV_CHECK(std::abs(s.likelihood(f) - null_fraction(rows, c)) < 2e-4, "spn-null", "P(" << names[c] << " IS NULL) is " << s.likelihood(f) << " instead of " << null_fraction(rows, c));
                if (n == 1 and cols[c].discrete) HV_CHECK(est == d.size(), "spn-distinct-leaf", est << " distinct values of " << names[c] << " estimated for " << d.size());
            }
        }
        C.unset_database_in_use();
        C.drop_database(db);
        ok(hash(history), rows.size() > 1);
        if (i % 50 == 0) sample(history.substr(0, 300));
    });
}

/*----- Clustering and dependence ------------------------------------------------------------------------------------*/

static void kmeans_()
{
    cases([](Rng &r, uint64_t i) {
        unsigned n = 1 + below(r, r.p(.2) ? 200 : 20), d = 1 + below(r, 4), k = 1 + below(r, r.p(.2) ? 30 : 6);
        Eigen::MatrixXf data(n, d);
        bool grid = r.p(.6);
        for (unsigned a = 0; a != n; ++a) for (unsigned b = 0; b != d; ++b) data(a, b) = grid ? float(below(r, 4)) : float(int(below(r, 20000)) - 10000) / 64;
        std::ostringstream o; o << n << " rows of " << d << " into " << k; if (n * d <= 40) o << ":\n" << data;
        at(o.str());
        std::set<std::vector<float>> distinct;
        auto row = [&](auto &M, unsigned a) { std::vector<float> v; for (unsigned b = 0; b != d; ++b) v.push_back(M(a, b)); return v; };
        for (unsigned a = 0; a != n; ++a) distinct.insert(row(data, a));
        auto init = kmeans_plus_plus(data, k);
        HV_CHECK(init.rows() == k and init.cols() == d, "kmeans-init", "k-means++ returns " << init.rows() << " centroids of " << init.cols() << " attributes");
        std::set<std::vector<float>> chosen;
        for (unsigned c = 0; c != k; ++c) { HV_CHECK(distinct.count(row(init, c)), "kmeans-init", "centroid " << c << " of k-means++ is no data point"); chosen.insert(row(init, c)); }
        HV_CHECK(chosen.size() >= std::min<std::size_t>(k, distinct.size()), "kmeans-init-distinct", "k-means++ chooses " << chosen.size() << " distinct of " << k << " centroids among " << distinct.size() << " distinct data points");
        auto [labels, centroids] = kmeans_with_centroids(data, k);
        HV_CHECK(labels.size() == n and centroids.rows() == k and centroids.cols() == d, "kmeans-shape", labels.size() << " labels and " << centroids.rows() << " centroids");
        HV_CHECK(labels == kmeans(data, k), "kmeans-deterministic", "labels differ");
        std::vector<std::vector<double>> sum(k, std::vector<double>(d));
        std::vector<unsigned> size(k);
        for (unsigned a = 0; a != n; ++a) {
            HV_CHECK(labels[a] < k, "kmeans-label", "label " << labels[a]);
            if (labels[a] >= k) return;
            ++size[labels[a]];
            for (unsigned b = 0; b != d; ++b) sum[labels[a]][b] += data(a, b);
        }
        unsigned used = 0;
        for (unsigned c = 0; c != k; ++c) if (size[c]) { ++used; for (unsigned b = 0; b != d; ++b) HV_CHECK(std::abs(sum[c][b] / size[c] - centroids(c, b)) <= 1e-4 * (1 + std::abs(sum[c][b] / size[c])), "kmeans-centroid", "attribute " << b << " of centroid " << c << " is " << centroids(c, b) << " instead of the mean " << sum[c][b] / size[c]); }
        if (used > 1)
            for (unsigned a = 0; a != n; ++a) {
                auto dist = [&](unsigned c) { double s = 0; for (unsigned b = 0; b != d; ++b) s += (double(data(a, b)) - centroids(c, b)) * (double(data(a, b)) - centroids(c, b)); return s; };
                for (unsigned c = 0; c != k; ++c) if (size[c]) HV_CHECK(dist(labels[a]) <= dist(c) * (1 + 1e-4) + 1e-4, "kmeans-nearest", "row " << a << " has label " << labels[a] << " at squared distance " << dist(labels[a]) << " but centroid " << c << " is at " << dist(c));
            }
        if (k >= 2 and distinct.size() >= 2) HV_CHECK(used >= 2, "kmeans-clusters", distinct.size() << " distinct data points are assigned to " << used << " of " << k << " clusters");
        /*----- Cumulative distribution. -----------------------------------------------------------------------------*/
        auto cdf = create_CDF_matrix(data);
        HV_CHECK(cdf.rows() == n and cdf.cols() == d + 1, "cdf-shape", cdf.rows() << " x " << cdf.cols());
        for (unsigned a = 0; a != n; ++a) {
            HV_CHECK(cdf(a, d) == 1.f, "cdf-intercept", "intercept is " << cdf(a, d));
            for (unsigned b = 0; b != d; ++b) {
                unsigned le = 0;
                for (unsigned e = 0; e != n; ++e) le += data(e, b) <= data(a, b);
                HV_CHECK(std::abs(cdf(a, b) - float(le) / n) < 1e-6, "cdf", "the CDF of " << data(a, b) << " in column " << b << " is " << cdf(a, b) << " instead of " << float(le) / n);
            }
        }
        ok(hash(o.str()), distinct.size() > 1);
        if (i % 100 == 0) sample(o.str().substr(0, 100));
    });
}

/*----- Regression and grid search -----------------------------------------------------------------------------------*/

template<typename T>
static void space(Rng &r)
{
    T lo, hi;
    if constexpr (std::is_integral_v<T>) {
        int64_t a = int64_t(r.u() % 2001) - 1000, b = int64_t(r.u() % 2001) - 1000;
        if (std::is_unsigned_v<T>) a += 1000, b += 1000;
        if (sizeof(T) == 1) { a = T(a); b = T(b); }
        if (sizeof(T) >= 4 and r.p(.2)) a = std::numeric_limits<int32_t>::min() * int64_t(std::is_signed_v<T>), b = std::numeric_limits<int32_t>::max();
        lo = T(std::min(a, b)); hi = T(std::max(a, b));
    } else { double a = int(below(r, 20000)) / 7. - 1000, b = int(below(r, 20000)) / 7. - 1000; lo = T(std::min(a, b)); hi = T(std::max(a, b)); }
    unsigned n = 1 + below(r, r.p(.5) ? 10 : 300);
    bool up = r.p(.5);
    std::ostringstream o; o << std::setprecision(17) << "space of " << typeid(T).name() << " from " << +lo << " to " << +hi << " in " << n << " steps " << (up ? "up" : "down");
    at(o.str());
    auto S = up ? gs::LinearSpace<T>::Ascending(lo, hi, n) : gs::LinearSpace<T>::Descending(lo, hi, n);
    HV_CHECK(S.lo() == lo and S.hi() == hi and S.num_steps() == n and S.ascending() == up and S.descending() != up, "space", "wrong parameters");
    auto seq = S.sequence();
    HV_CHECK(seq.size() == n + 1, "space-size", seq.size() << " elements");
    if (seq.size() != n + 1) return;
    const double tol = std::is_integral_v<T> ? .5000001 + (double(hi) - double(lo)) * 1e-9 : (1 + std::abs(double(lo)) + std::abs(double(hi))) * (sizeof(T) == 4 ? 1e-6 : 1e-12);
    for (unsigned k = 0; k <= n; ++k) {
        const double want = up ? double(lo) + (double(hi) - double(lo)) * k / n : double(hi) - (double(hi) - double(lo)) * k / n;
        HV_CHECK(std::abs(double(seq[k]) - want) <= tol and seq[k] >= lo and seq[k] <= hi, "space-element", "element " << k << " is " << +seq[k] << " instead of " << want);
        HV_CHECK(seq[k] == S.at(k) and seq[k] == S(k), "space-at", "element " << k << " differs");
    }
    if (std::is_integral_v<T>) HV_CHECK(seq.front() == (up ? lo : hi) and seq.back() == (up ? hi : lo), "space-ends", "first element " << +seq.front() << " and last element " << +seq.back());
    bool thrown = false;
    try { S.at(n + 1); } catch (const std::out_of_range&) { thrown = true; }
    HV_CHECK(thrown, "space-range", "element " << n + 1 << " exists");
    if (lo < hi) { thrown = false; try { gs::LinearSpace<T> X(hi, lo, n); } catch (const std::invalid_argument&) { thrown = true; } HV_CHECK(thrown, "space-invalid", "a space from high to low exists"); }
    thrown = false; try { gs::LinearSpace<T> X(lo, hi, 0); } catch (const std::invalid_argument&) { thrown = true; } HV_CHECK(thrown, "space-invalid", "a space of no steps exists");
    /*----- Distinct numbers. ----------------------------------------------------------------------------------------*/
    if constexpr (std::is_integral_v<T>) {
        const uint64_t width = uint64_t(int64_t(hi)) - uint64_t(int64_t(lo)) + 1;
        std::size_t c = 1 + below(r, std::min<uint64_t>(width, 200));
        auto v = datagen::generate_uniform_distinct_numbers<T>(lo, hi, c, std::mt19937_64(r.u()));
        HV_CHECK(v.size() == c and std::set<T>(v.begin(), v.end()).size() == c, "datagen-distinct", v.size() << " numbers, " << std::set<T>(v.begin(), v.end()).size() << " distinct, instead of " << c);
        for (T x : v) HV_CHECK(x >= lo and x <= hi, "datagen-range", +x << " is out of range");
    }
    count("spaces");
}

static void grid()
{
    cases([](Rng &r, uint64_t i) {
        switch (below(r, 8)) { case 0: space<int8_t>(r); break; case 1: space<uint16_t>(r); break; case 2: space<int16_t>(r); break; case 3: space<int32_t>(r); break; case 4: space<uint32_t>(r); break; case 5: space<int64_t>(r); break; case 6: space<float>(r); break; default: space<double>(r); }
        {
            unsigned a = 1 + below(r, 5), b = 1 + below(r, 5), c = 1 + below(r, 4);
            at("grid of " + std::to_string(a) + ' ' + std::to_string(b) + ' ' + std::to_string(c));
            gs::LinearSpace<int> A(0, int(a) * 3, a); gs::LinearSpace<unsigned> B(5, 5 + b, b, r.p(.5)); gs::LinearSpace<double> D(-1, 1, c);
            gs::GridSearch G(A, B, D);
            std::vector<std::tuple<int, unsigned, double>> want, got;
            for (int x : A.sequence()) for (unsigned y : B.sequence()) for (double z : D.sequence()) want.emplace_back(x, y, z);
            G([&](int x, unsigned y, double z) { got.emplace_back(x, y, z); });
            HV_CHECK(G.num_points() == want.size() and G.num_spaces() == 3, "grid-points", G.num_points() << " points instead of " << want.size());
            HV_CHECK(got == want, "grid-visit", got.size() << " points visited instead of " << want.size() << " or in wrong order");
        }
        /*----- Linear regression recovers linear functions. ---------------------------------------------------------*/
        const unsigned n = 1 + below(r, 4), rows = n + 2 + below(r, 30);
        Eigen::MatrixXd X(rows, n + 1);
        Eigen::VectorXd y(rows), w(n + 1);
        for (unsigned k = 0; k <= n; ++k) w(k) = int(below(r, 200)) / 8. - 12;
        bool quadratic = r.p(.3);
        auto square = [](Eigen::MatrixXd M) -> Eigen::MatrixXd { for (Eigen::Index c = 1; c < M.cols(); ++c) for (Eigen::Index q = 0; q < M.rows(); ++q) M(q, c) = M(q, c) * M(q, c); return M; };
        for (unsigned q = 0; q != rows; ++q) { X(q, 0) = 1; for (unsigned k = 1; k <= n; ++k) X(q, k) = int(below(r, 1000)) / 50. - 10 + (k == 1 ? q * .01 : 0); }
        Eigen::MatrixXd F = quadratic ? square(X) : X;
        y = F * w;
        std::ostringstream o; o << "regression of " << rows << " rows:\n" << X << "\nto\n" << w; at(o.str());
        Eigen::FullPivLU<Eigen::MatrixXd> lu(F);
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(F);
        if (svd.singularValues()(0) < 1e4 * svd.singularValues()(n)) {
            LinearModel M = quadratic ? LinearModel(X, y, square) : LinearModel(X, y);
            for (unsigned k = 0; k <= n; ++k) HV_CHECK(std::abs(M.get_coefficients()(k) - w(k)) < 1e-4 * (1 + std::abs(w(k))), "regression", "coefficient " << k << " is " << M.get_coefficients()(k) << " instead of " << w(k));
            for (int q = 0; q != 3; ++q) {
                Eigen::RowVectorXd x(n); double t = w(0);
                for (unsigned k = 0; k != n; ++k) { x(k) = int(below(r, 100)) - 50; t += w(k + 1) * (quadratic ? x(k) * x(k) : x(k)); }
                HV_CHECK(std::abs(M.predict_target(x) - t) <= 1e-3 * (1 + std::abs(t)) + (quadratic ? 10 : .1), "regression-predict", "the model predicts " << M.predict_target(x) << " instead of " << t);
            }
            LinearModel N(w);
            Eigen::RowVectorXd x(n); double t = w(0);
            for (unsigned k = 0; k != n; ++k) { x(k) = int(below(r, 100)) - 50; t += w(k + 1) * x(k); }
            HV_CHECK(std::abs(N.predict_target(x) - t) < 1e-9 * (1 + std::abs(t)), "linear-predict", "the model predicts " << N.predict_target(x) << " instead of " << t);
            count("regressions");
        }
        ok(hash(o.str()), true);
        if (i % 200 == 0) sample(o.str().substr(0, 80));
    });
}

int main(int argc, char **argv) { return nat_main(argc, argv, {{"spn", spn}, {"table", table}, {"kmeans", kmeans_}, {"grid", grid}}); }
