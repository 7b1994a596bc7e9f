// Import of delimiter-separated values: files written cell by cell, valid and not, and the rows they must become.
#include "nat.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/io/Reader.hpp>
#include "backend/Interpreter.hpp"
#include "backend/StackMachine.hpp"
#include <cfloat>
#include <cmath>
#include <ctime>
#include <fstream>
#include <iomanip>
#include <sstream>
#include <unistd.h>

using namespace m;
using namespace hv;

enum Kind { BOOL, INT, DEC, FLT, DBL, STR, DATE, DATETIME };
struct Col { std::string name, decl; Kind k; int bits = 0, prec = 0, scale = 0, len = 0; };
struct Val { bool null = true; int64_t i = 0; double d = 0; std::string s; bool any = false; };   // any: either NULL or this value
struct Cell { std::string text; Val v; int errors = 0; };

static std::string show(const Val &v, Kind k)
{
    if (v.null) return "NULL";
    std::ostringstream o; o << std::setprecision(17);
    if (k == FLT or k == DBL) o << v.d; else if (k == STR) { o << '"'; for (unsigned char c : v.s) if (c >= 32 and c < 127) o << char(c); else o << "\\x" << std::hex << int(c) << std::dec; o << '"'; } else o << v.i;
    return o.str();
}

struct Cfg { char delim = ',', quote = '"', escape = '\\'; };

static std::string digits(Rng &r, int n) { std::string s; while (n--) s += char('0' + r.in(0, 9)); return s; }

static std::string quoted(Rng &r, const Cfg &c, const std::string &s, bool extra = true)
{
    std::string t(1, c.quote);
    for (char x : s) {
        if (x == c.quote or x == c.escape) t += c.escape;
        else if (extra and c.escape != c.quote and r.p(.05)) t += c.escape;
        t += x;
    }
    return t + c.quote;
}

static std::string words(Rng &r, const Cfg &c, int n)
{
    std::string s;
    for (; n; --n) switch (r.u() % 12) {
        case 0: s += c.delim; break;
        case 1: s += c.quote; break;
        case 2: s += c.escape; break;
        case 3: s += '\n'; break;
        case 4: s += char(r.in(128, 255)); break;
        case 5: s += r.of({' ', '\t', '\r', '\'', '"', '\\', ',', ';', '\xff'}); break;
        default: s += char(r.in('a', 'z'));
    }
    return s;
}

static const char *INT_MAX_[] = {"127", "32767", "2147483647", "9223372036854775807"};
static const char *INT_MIN_[] = {"-128", "-32768", "-2147483648", "-9223372036854775808"};
static const char *INT_OVER[] = {"128", "32768", "2147483648", "9223372036854775808"};
static const char *INT_UNDER[] = {"-129", "-32769", "-2147483649", "-9223372036854775809"};

static Cell cell(Rng &r, const Col &c, const Cfg &cfg)
{
    Cell x;
    if (r.p(.1)) return x;   // NULL
    auto bad = [&](std::string s) {   // not a value of the type
        std::string t; for (char ch : s) if (ch != cfg.delim and ch != cfg.quote) t += ch;
        x.text = t; x.v = Val(); x.errors = 1; return x; };
    auto wrap = [&](std::string s) { return r.p(.2) ? std::string(1, cfg.quote) + s + cfg.quote : s; };
    Val &v = x.v; v.null = false;
    switch (c.k) {
        case BOOL:
            if (r.p(.15)) return bad(r.of({"true", "FALS", "TRUEE", "1", "yes", "nope"}));
            v.i = r.p(.5); x.text = v.i ? "TRUE" : "FALSE"; break;
        case INT: {
            int w = c.bits == 8 ? 0 : c.bits == 16 ? 1 : c.bits == 32 ? 2 : 3;
            switch (r.u() % 10) {
                case 0: return bad(r.of({"abc", "1x", "-", "+", "--1", "1-", " 1", "0x10", "1 ", "+-3", "1e3"}));
                case 1: return bad(r.p(.5) ? INT_OVER[w] : INT_UNDER[w]);
                case 2: return bad(r.of({"", "-"}) + std::string("1") + digits(r, int(r.in(19, 40))));
                case 3: x.text = INT_MAX_[w]; break;
                case 4: x.text = INT_MIN_[w]; break;
                case 5: x.text = r.of({"0", "-0", "+0", "007", "-00012", "+9"}); break;
                default: { int n = int(r.in(1, w == 0 ? 2 : w == 1 ? 4 : w == 2 ? 9 : 18)); x.text = r.of({"", "-", "+"}) + digits(r, n); }
            }
            v.i = std::stoll(x.text); break;
        }
        case DEC: {
            if (r.p(.15)) return bad(r.of({"abc", "1.x", "-", ".", "1.2.3", "-.", "1x.5", "+", "1.5-"}));
            if (r.p(.05)) return bad(r.of({"", "-"}) + std::string("1") + digits(r, int(r.in(19, 40))) + (r.p(.5) ? ".5" : ""));
            if (r.p(.05)) return bad(r.of({"", "-"}) + std::string("1") + std::string(std::size_t(c.prec - c.scale), '0') + (r.p(.5) ? "." + digits(r, 1) : ""));
            int pre = int(r.in(0, c.prec - c.scale)); std::string a = digits(r, pre), b = r.p(.2) ? "" : digits(r, int(r.in(0, c.scale)));
            if (r.p(.2) and int(b.size()) == c.scale) x.text = b + digits(r, int(r.in(1, 5))); else x.text = b;   // further digits are cut
            if (a.empty() and x.text.empty()) a = c.prec > c.scale ? "7" : "0";
            bool neg = r.p(.4);
            while (int(b.size()) < c.scale) b += '0';
            v.i = std::stoll("0" + a + b); if (neg) v.i = -v.i;
            x.text = (neg ? "-" : r.p(.2) ? "+" : "") + a + (x.text.empty() and r.p(.7) ? "" : "." + x.text);
            break;
        }
        case FLT: case DBL: {
            if (r.p(.15)) return bad(r.of({"abc", "1.0x", "-", "1e", "--1", "1.2.3", "."}));
            char buf[64];
            switch (r.u() % 6) {
                case 0: x.text = r.of({"0", "-0.0", "1e10", "2.5E-3", "-7", "+3.25", ".5", "5.", "1e-45", "1.17549435e-38"}); break;
                case 1: { bool neg = r.p(.5); x.text = std::string(neg ? "-" : "") + (c.k == FLT and r.p(.5) ? "1e39" : "1e999"); v.d = c.k == FLT ? FLT_MAX : DBL_MAX; if (neg) v.d = -v.d; return x; }   // out of range: the largest value
                case 2: snprintf(buf, sizeof buf, "%.17g", c.k == FLT ? double(float(r.unit() * 1e6 - 5e5)) : r.unit() * 1e6 - 5e5); x.text = buf; break;
                case 3: snprintf(buf, sizeof buf, "%.3e", (r.unit() - .5) * std::pow(10., double(r.in(-30, 30)))); x.text = buf; break;
                default: x.text = (r.p(.3) ? "-" : "") + digits(r, int(r.in(1, 5))) + "." + digits(r, int(r.in(1, 6)));
            }
            v.d = std::strtod(x.text.c_str(), nullptr); if (c.k == FLT) v.d = float(v.d);
            break;
        }
        case STR: {
            std::string s = words(r, cfg, int(r.in(0, r.p(.1) ? c.len + 5 : c.len)));
            bool need = s.empty() or s[0] == cfg.quote, q = need or r.p(.4);
            for (char ch : s) if (ch == cfg.delim or ch == '\n') q = true;
            if (not q and s.find(cfg.quote) != s.npos) { x.text = s; x.v = Val(); x.errors = 1; return x; }   // a quote within an unquoted cell
            x.text = q ? quoted(r, cfg, s) : s;
            v.s = s.substr(0, std::size_t(c.len)); v.any = s.size() > std::size_t(c.len);
            break;
        }
        case DATE: case DATETIME: {
            bool bc = r.p(.1);
            int y = int(r.p(.5) ? r.in(1970, 2030) : r.in(1, 9999)), m = int(r.in(1, 12)), d = int(r.in(1, m == 2 ? 28 : m == 4 or m == 6 or m == 9 or m == 11 ? 30 : 31));
            int H = int(r.in(0, 23)), M = int(r.in(0, 59)), S = int(r.in(0, 59));
            if (r.p(.03)) { y = 1969; m = 12; d = 31; H = 23; M = S = 59; bc = false; }
            int e = r.p(.1) ? int(r.in(0, c.k == DATE ? 3 : 6)) : -1;   // something out of range
            switch (e) { case 0: y = 0; break; case 1: m = r.of({0, 13, 20, 99}); break; case 2: d = r.of({0, 32, 99}); break; case 3: if (m == 2 or m == 4 or m == 6 or m == 9 or m == 11) d = 31; else m = 13; break;
                case 4: H = r.of({24, 99}); break; case 5: M = r.of({60, 99}); break; case 6: S = r.of({60, 99}); break; }
            char buf[64]; snprintf(buf, sizeof buf, c.k == DATE ? "%s%04d-%02d-%02d" : "%s%04d-%02d-%02d %02d:%02d:%02d", bc ? "-" : "", y, m, d, H, M, S);
            x.text = buf;
            if (e < 0 and r.p(.1)) { std::string s = buf; s.resize(s.size() - std::size_t(r.in(1, long(s.size()) - 1))); if (r.p(.5)) s += r.of({"x", "/", "x9-"}); return bad(s); }
            if (e >= 0) return bad(buf);
            x.text = wrap(buf);
            if (bc) y = -y;
            if (c.k == DATE) v.i = int32_t(unsigned(y) << 9 | unsigned(m) << 5 | unsigned(d));
            else { std::tm t{}; t.tm_year = y - 1900; t.tm_mon = m - 1; t.tm_mday = d; t.tm_hour = H; t.tm_min = M; t.tm_sec = S; v.i = timegm(&t); }
            break;
        }
    }
    return x;
}

static Col column(Rng &r, int i)
{
    Col c; c.name = "c" + std::to_string(i);
    switch (r.u() % 9) {
        case 0: c.k = BOOL; c.decl = "BOOL"; break;
        case 1: case 2: { c.k = INT; int b = int(r.of({1, 2, 4, 8})); c.bits = 8 * b; c.decl = "INT(" + std::to_string(b) + ")"; break; }
        case 3: c.k = DEC; c.prec = int(r.in(1, 18)); c.scale = int(r.in(0, c.prec)); c.decl = "DECIMAL(" + std::to_string(c.prec) + ", " + std::to_string(c.scale) + ")"; break;
        case 4: c.k = FLT; c.decl = "FLOAT"; break;
        case 5: c.k = DBL; c.decl = "DOUBLE"; break;
        case 6: c.k = STR; c.len = int(r.in(1, 20)); c.decl = (r.p(.5) ? "CHAR(" : "VARCHAR(") + std::to_string(c.len) + ")"; break;
        case 7: c.k = DATE; c.decl = "DATE"; break;
        default: c.k = DATETIME; c.decl = "DATETIME"; break;
    }
    return c;
}

static std::string run(const std::string &sql)
{
    std::ostringstream out, err;
    Diagnostic diag(false, out, err);
    try { auto cmd = command_from_string(diag, sql); Scheduler::Transaction t; cmd->transaction(&t); cmd->execute(diag); }
    catch (const std::exception &e) { return std::string("exception: ") + e.what() + ": " + err.str(); }
    return diag.num_errors() ? "error: " + err.str() : "";
}

static Val observed(Tuple &t, std::size_t i, const Col &c)
{
    Val v; v.null = t.is_null(i); if (v.null) return v;
    switch (c.k) {
        case BOOL: v.i = t.get(i).as<bool>(); break;
        case INT: case DEC: case DATETIME: v.i = t.get(i).as<int64_t>(); break;
        case DATE: v.i = int32_t(t.get(i).as<int64_t>()); break;
        case FLT: v.d = t.get(i).as<float>(); break;
        case DBL: v.d = t.get(i).as<double>(); break;
        case STR: { auto p = static_cast<const char*>(t.get(i).as_p()); v.s.assign(p, strnlen(p, std::size_t(c.len))); break; }
    }
    return v;
}
static bool same(const Val &got, const Val &want, Kind k)
{
    if (want.any and got.null) return true;
    if (got.null != want.null) return false;
    if (got.null) return true;
    if (k == FLT or k == DBL) return got.d == want.d;
    if (k == STR) return got.s == want.s;
    return got.i == want.i;
}

static void import()
{
    Catalog &C = Catalog::Get();
    Options::Get().quiet = true; Options::Get().has_color = false;
    C.set_database_in_use(C.add_database(C.pool("d")));
    std::vector<std::string> layouts; for (auto it = C.data_layouts_begin(); it != C.data_layouts_end(); ++it) layouts.push_back(*it->first);
    std::sort(layouts.begin(), layouts.end());
    const std::string path = "/tmp/hv-dsv-" + std::to_string(getpid()) + ".dsv";
    cases([&](Rng &r, uint64_t) {
        C.default_data_layout(C.pool(r.pick(layouts).c_str()));
        std::vector<Col> cols; for (int i = 0, n = int(r.in(1, 6)); i != n; ++i) cols.push_back(column(r, i));
        std::string ddl = "CREATE TABLE t ( "; for (auto &c : cols) ddl += (&c == &cols[0] ? "" : ", ") + c.name + " " + c.decl; ddl += " );";
        at(ddl);
        auto e = run(ddl); HV_CHECK(e.empty(), "dsv-create", ddl << " -> " << e);
        std::vector<std::vector<Val>> model;
        uint64_t h = hash(ddl); bool nontrivial = false;
        for (int files = int(r.in(1, 3)); files; --files) {
            Cfg cfg;
            const bool sql = r.p(.35);
            if (r.p(.5)) cfg.escape = '"';
            if (r.p(.5)) {
                cfg.delim = r.of({',', ';', '|', '\t', '#', '\xa7'});
                do cfg.quote = r.of({'"', '\'', '|', '~', '\xb4'}); while (cfg.quote == cfg.delim);
                do cfg.escape = r.p(.4) ? cfg.quote : r.of({'\\', '$', '^', '"'}); while (cfg.escape == cfg.delim);
            }
            /*----- which columns the file has, in which order -----*/
            const bool header = r.p(.5), skip = header and r.p(.4);
            std::vector<int> order; for (std::size_t i = 0; i != cols.size(); ++i) order.push_back(int(i));
            std::string file;
            if (header and not skip) {
                if (r.p(.5)) r.shuffle(order);
                if (r.p(.3)) { order.resize(std::size_t(r.in(1, long(order.size())))); }
                if (r.p(.4)) for (int n = int(r.in(1, 2)); n; --n) order.insert(order.begin() + r.in(0, long(order.size())), -1);
                for (std::size_t i = 0; i != order.size(); ++i) file += (i ? std::string(1, cfg.delim) : "") + (order[i] < 0 ? "extra" + std::to_string(i) : cols[std::size_t(order[i])].name);
                file += '\n';
            } else if (skip) {
                switch (r.u() % 3) { case 0: file = "\n"; break; case 1: file = "some line" + std::string(r.u() % 5, cfg.delim) + "\n"; break; default: file = "c9,c0\n"; }
            }
            const std::size_t limit = r.p(.25) ? std::size_t(r.in(0, 6)) : std::numeric_limits<std::size_t>::max();
            std::size_t taken = 0; int must = 0; bool open_end = false;
            std::vector<std::vector<Val>> fresh;
            std::vector<std::string> texts;
            const int nrows = int(r.p(.1) ? 0 : r.in(1, r.p(.1) ? 60 : 9));
            for (int n = nrows; n; --n) {
                const bool want = taken < limit;
                std::vector<Cell> cells;
                for (int o : order) {
                    if (o >= 0) { cells.push_back(cell(r, cols[std::size_t(o)], cfg)); continue; }
                    Cell x; std::string s = words(r, cfg, int(r.in(0, 8)));   // of a column the table does not have
                    bool q = r.p(.3); for (char ch : s) if (ch == cfg.delim or ch == '\n' or ch == cfg.quote) q = true;
                    x.text = q ? quoted(r, cfg, s) : s; cells.push_back(x);
                }
                int defect = 0;   // 1: too few cells, 2: too many cells
                if (cells.size() > 1 and r.p(.08)) { defect = 1; cells.resize(std::size_t(r.in(1, long(cells.size()) - 1))); }
                else if (r.p(.08)) { defect = 2; for (int k = int(r.in(1, 2)); k; --k) { Cell x; x.text = r.of({"", "1", "abc"}); cells.push_back(x); } }
                const bool last = n == 1, eof = last and r.p(.4);
                std::string line; for (std::size_t i = 0; i != cells.size(); ++i) line += (i ? std::string(1, cfg.delim) : "") + cells[i].text;
                if (eof and line.empty()) { file += '\n'; line = ""; }   // nothing after the last line end is no row
                else { file += line; if (not eof) file += '\n'; else open_end = true; }
                if (not want) continue;
                for (auto &x : cells) must += x.errors;
                if (defect) { ++must; count(defect == 1 ? "rows too short" : "rows too long"); nontrivial = true; continue; }
                ++taken;
                std::vector<Val> row(cols.size());
                for (std::size_t i = 0; i != cells.size(); ++i) if (order[i] >= 0) { row[std::size_t(order[i])] = cells[i].v; if (cells[i].errors) { count("invalid cells"); nontrivial = true; } }
                fresh.push_back(row); texts.push_back(line);
            }
            /*----- import -----*/
            std::string shown; for (unsigned char ch : file) if (ch == '\n') shown += "\\n"; else if (ch >= 32 and ch < 127) shown += char(ch); else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); shown += b; }
            std::ostringstream desc; desc << ddl << " delimiter '" << cfg.delim << "' quote '" << cfg.quote << "' escape '" << cfg.escape << "' " << (header ? skip ? "skipped header " : "header " : "") << (limit < 100 ? "rows " + std::to_string(limit) : "") << " file: " << shown;
            at(desc.str());
            h = mix(h, hash(file));
            std::ostringstream out, err; Diagnostic diag(false, out, err);
            if (sql) {
                { std::ofstream f(path, std::ios::binary); f << file; }
                auto lit = [](char ch) { return std::string("\"") + (ch == '"' or ch == '\\' ? "\\" : ch == '\t' ? "" : "") + (ch == '\t' ? std::string("\\t") : std::string(1, ch)) + "\""; };
                std::string s = "IMPORT INTO t DSV \"" + path + "\"";
                if (limit < 100) s += r.p(.2) and limit ? " ROWS 0" + std::to_string(limit) : " ROWS " + std::to_string(limit);
                if (cfg.delim != ',' or r.p(.5)) s += " DELIMITER " + (cfg.delim == '\t' ? std::string("\"\t\"") : lit(cfg.delim));
                if (cfg.escape != '\\' or r.p(.5)) s += " ESCAPE " + lit(cfg.escape);
                if (cfg.quote != '"' or r.p(.5)) s += " QUOTE " + lit(cfg.quote);
                if (header) s += " HAS HEADER"; if (skip) s += " SKIP HEADER";
                s += ";";
                try { auto cmd = command_from_string(diag, s); Scheduler::Transaction t; cmd->transaction(&t); cmd->execute(diag); }
                catch (const std::exception &ex) { fail("dsv-rejected", s + " -> " + err.str()); }
                count("by statement");
            } else {
                DSVReader::Config cf; if (cfg.escape == '"' and cfg.delim == ',' and cfg.quote == '"' and r.p(.5)) cf = DSVReader::Config::CSV();
                cf.delimiter = cfg.delim; cf.quote = cfg.quote; cf.escape = cfg.escape; cf.has_header = header; cf.skip_header = skip; cf.num_rows = limit;
                auto &T = C.get_database_in_use().get_table(C.pool("t"));
                DSVReader R(T, cf, diag);
                std::istringstream in(file);
                R(in, "in");
                count("by reader");
            }
            const int errors = int(diag.num_errors());
            HV_CHECK(must == 0 ? errors == 0 : errors >= must, "dsv-errors", errors << " errors reported, but " << must << " invalid cells and rows: " << err.str().substr(0, 1000));
            model.insert(model.end(), fresh.begin(), fresh.end());
            /*----- the rows of the table -----*/
            auto &T = C.get_database_in_use().get_table(C.pool("t"));
            HV_CHECK(T.store().num_rows() == model.size(), "dsv-rows", T.store().num_rows() << " rows instead of " << model.size() << " errors " << err.str().substr(0, 500));
            if (T.store().num_rows() != model.size()) { model.clear(); break; }
            if (not model.empty()) {
                Schema S = T.schema(); Tuple tup(S); Tuple *args[] = { &tup };
                StackMachine L = Interpreter::compile_load(S, T.store().memory().addr(), T.layout(), S);
                for (std::size_t i = 0; i != model.size(); ++i) {
                    L(args);
                    for (std::size_t k = 0; k != cols.size(); ++k) {
                        Val got = observed(tup, k, cols[k]);
                        auto name = [&]() { return i >= model.size() - fresh.size() ? texts[i - (model.size() - fresh.size())] : std::string("an earlier file"); };
                        HV_CHECK(same(got, model[i][k], cols[k].k), "dsv-value", cols[k].decl << " of row " << i << " is " << show(got, cols[k].k) << " instead of " << show(model[i][k], cols[k].k) << ", from " << name());
                        if (not got.null) model[i][k] = got; else model[i][k] = Val();
                    }
                }
            }
            count("rows", fresh.size()); count("files"); if (open_end) count("files without final line end");
            if (not fresh.empty() and cols.size() > 1) nontrivial = true;
        }
        e = run("DROP TABLE t;"); HV_CHECK(e.empty(), "dsv-drop", e);
        C.timer().clear();
        ok(h, nontrivial);
        sample(Nat::get().cur);
    });
    unlink(path.c_str());
}

int main(int argc, char **argv) { m::init(); return nat_main(argc, argv, {{"import", import}}); }
