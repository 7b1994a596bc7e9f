// The front end: lexer, parser, printer, semantic analysis, normal forms.
#include "nat.hpp"
#include <mutable/mutable.hpp>
#include "cmdpath.hpp"
#include <mutable/IR/CNF.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/Options.hpp>
#include "lex/Lexer.hpp"
#include "parse/ASTPrinter.hpp"
#include "parse/Parser.hpp"
#include "parse/Sema.hpp"
#include <sstream>

using namespace m;
using namespace m::ast;
using namespace hv;
using u64 = uint64_t;

/*----- abstract syntax as S-expressions -----------------------------------------------------------------------------*/
static std::string txt(const Token &t) { return t.text.has_value() ? std::string(*t.text) : std::string("-"); }
static std::string sx(const Command &s);
static std::string sx(const Expr &e) {
    if (auto x = cast<const Designator>(&e)) return x->has_explicit_table_name() ? "(. " + txt(x->table_name) + " " + txt(x->attr_name) + ")" : txt(x->attr_name);
    if (auto x = cast<const Constant>(&e)) return "#" + txt(x->tok);
    if (auto x = cast<const UnaryExpr>(&e)) return "(u" + txt(x->op()) + " " + sx(*x->expr) + ")";
    if (auto x = cast<const BinaryExpr>(&e)) return "(" + txt(x->op()) + " " + sx(*x->lhs) + " " + sx(*x->rhs) + ")";
    if (auto x = cast<const FnApplicationExpr>(&e)) { std::string o = "(call " + sx(*x->fn); for (auto &a : x->args) o += " " + sx(*a); return o + ")"; }
    if (auto x = cast<const QueryExpr>(&e)) return "(query " + sx(*x->query) + ")";
    return "(error)";
}
static std::string alias(const Token &t) { return t ? " as " + txt(t) : ""; }
static std::string sx(const Clause &c) {
    std::string o;
    if (auto x = cast<const SelectClause>(&c)) { o = "(select"; if (x->select_all) o += " *"; for (auto &p : x->select) o += " " + sx(*p.first) + alias(p.second); }
    else if (auto x = cast<const FromClause>(&c)) {
        o = "(from";
        for (auto &f : x->from) { o += " "; if (auto t = std::get_if<Token>(&f.source)) o += txt(*t); else o += sx(*std::get<Stmt*>(f.source)); o += alias(f.alias); }
    }
    else if (auto x = cast<const WhereClause>(&c)) o = "(where " + sx(*x->where);
    else if (auto x = cast<const GroupByClause>(&c)) { o = "(group"; for (auto &p : x->group_by) o += " " + sx(*p.first) + alias(p.second); }
    else if (auto x = cast<const HavingClause>(&c)) o = "(having " + sx(*x->having);
    else if (auto x = cast<const OrderByClause>(&c)) { o = "(order"; for (auto &p : x->order_by) o += " " + sx(*p.first) + (p.second ? " asc" : " desc"); }
    else if (auto x = cast<const LimitClause>(&c)) o = "(limit " + txt(x->limit) + (x->offset ? " " + txt(x->offset) : "");
    else o = "(error-clause";
    return o + ")";
}
static std::string str_of(const Type *t) { std::ostringstream o; o << *t; return o.str(); }
static std::string sx(const Command &s) {
    std::string o;
    if (auto x = cast<const SelectStmt>(&s)) { o = "(SELECT"; for (auto *c : {x->select.get(), x->from.get(), x->where.get(), x->group_by.get(), x->having.get(), x->order_by.get(), x->limit.get()}) if (c) o += " " + sx(*c); }
    else if (auto x = cast<const CreateDatabaseStmt>(&s)) o = "(create-db " + txt(x->database_name);
    else if (auto x = cast<const DropDatabaseStmt>(&s)) o = "(drop-db " + std::string(x->has_if_exists ? "if " : "") + txt(x->database_name);
    else if (auto x = cast<const UseDatabaseStmt>(&s)) o = "(use " + txt(x->database_name);
    else if (auto x = cast<const CreateTableStmt>(&s)) {
        o = "(create-table " + txt(x->table_name);
        for (auto &a : x->attributes) {
            o += " (" + txt(a->name) + " " + str_of(a->type);
            for (auto &c : a->constraints) {
                if (is<const PrimaryKeyConstraint>(*c)) o += " pk";
                else if (is<const UniqueConstraint>(*c)) o += " unique";
                else if (is<const NotNullConstraint>(*c)) o += " notnull";
                else if (auto k = cast<const CheckConditionConstraint>(c.get())) o += " (check " + sx(*k->cond) + ")";
                else if (auto k = cast<const ReferenceConstraint>(c.get())) o += " (ref " + txt(k->table_name) + " " + txt(k->attr_name) + ")";
                else o += " ?";
            }
            o += ")";
        }
    }
    else if (auto x = cast<const DropTableStmt>(&s)) { o = "(drop-table" + std::string(x->has_if_exists ? " if" : ""); for (auto &t : x->table_names) o += " " + txt(*t); }
    else if (auto x = cast<const CreateIndexStmt>(&s)) {
        o = "(create-index" + std::string(x->has_unique ? " unique" : "") + (x->has_if_not_exists ? " if" : "") + (x->index_name ? " " + txt(x->index_name) : " -") + " on " + txt(x->table_name) + (x->method ? " using " + txt(x->method) : "");
        for (auto &f : x->key_fields) o += " " + sx(*f);
    }
    else if (auto x = cast<const DropIndexStmt>(&s)) { o = "(drop-index" + std::string(x->has_if_exists ? " if" : ""); for (auto &t : x->index_names) o += " " + txt(*t); }
    else if (auto x = cast<const InsertStmt>(&s)) {
        o = "(insert " + txt(x->table_name);
        for (auto &t : x->tuples) { o += " ("; for (auto &v : t) o += v.first == InsertStmt::I_Default ? " default" : v.first == InsertStmt::I_Null ? " null" : " " + sx(*v.second); o += ")"; }
    }
    else if (auto x = cast<const UpdateStmt>(&s)) { o = "(update " + txt(x->table_name); for (auto &p : x->set) o += " (" + txt(p.first) + " " + sx(*p.second) + ")"; if (x->where) o += " " + sx(*x->where); }
    else if (auto x = cast<const DeleteStmt>(&s)) { o = "(delete " + txt(x->table_name); if (x->where) o += " " + sx(*x->where); }
    else if (auto x = cast<const DSVImportStmt>(&s)) o = "(import " + txt(x->table_name) + " " + txt(x->path) + " rows:" + txt(x->rows) + " delim:" + txt(x->delimiter) + " esc:" + txt(x->escape) + " quote:" + txt(x->quote) + (x->has_header ? " has" : "") + (x->skip_header ? " skip" : "");
    else if (is<const EmptyStmt>(s)) o = "(empty";
    else if (auto x = cast<const Instruction>(&s)) { o = "(instr " + std::string(*x->name); for (auto &a : x->args) o += " " + a; }
    else o = "(error-stmt";
    return o + ")";
}

/*----- random programs, with the tree they denote -------------------------------------------------------------------*/
struct T { std::string s, x; int prec = 9; };   ///< source text, S-expression, binding strength
struct Gen {
    Rng &r;
    bool noise = true;
    const std::vector<std::string> *names = nullptr;
    std::string w() {
        if (not noise or not r.p(.15)) return " ";
        static const char *W[] = {"  ", "\n", "\t", " \r\n ", "\v", "\f", " -- a comment; ' \" (\n", "--\n", " ---\n", "\n\n  "};
        return std::string(" ") + r.of({W[0], W[1], W[2], W[3], W[4], W[5], W[6], W[7], W[8], W[9]});
    }
    std::string o() { return noise and r.p(.1) ? w() : ""; }
    std::string id() {
        static const char *N[] = {"a", "b", "c", "d", "t", "x1", "_y", "date_", "D", "SELECTs", "select", "e1", "x", "_", "ANDY", "nulls", "dd", "d1", "A_b_9", "Not"};
        if (names and r.p(.97)) return (*names)[r.in(0, names->size() - 1)];
        if (r.p(.9)) return N[r.in(0, 19)];
        std::string s; const char *f = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        s += f[r.in(0, 26)]; for (int k = r.in(0, 20); k; --k) s += f[r.in(0, 62)];
        return s + "_";
    }
    std::string str() {
        std::string s = "\"";
        for (int k = r.p(.2) ? r.in(0, 40) : r.in(0, 6); k; --k) {
            int c = r.in(0, 20);
            if (c == 0) s += "\\\""; else if (c == 1) s += "\\\\"; else if (c == 2) s += "\\n"; else if (c == 3) s += "\\t"; else if (c == 4) s += "--"; else if (c == 5) s += ";"; else if (c == 6) s += "'"; else if (c == 7) s += "%";
            else if (c == 8) s += "\n"; else s += char(r.p(.9) ? r.in('a', 'z') : r.in(' ', '!'));
        }
        return s + "\"";
    }
    std::string digits(int lo, int hi, const char *set = "0123456789") { std::string s; int n = strlen(set); for (int k = r.in(lo, hi); k; --k) s += set[r.in(0, n - 1)]; return s; }
    std::string integer(bool dec = false) {
        switch (dec ? 2 : r.in(0, 4)) { case 0: return "0" + digits(0, 4, "01234567"); case 1: return (r.p(.5) ? "0x" : "0X") + digits(1, 6, "0123456789abcdefABCDEF"); default: return std::string(1, char('0' + r.in(1, 9))) + digits(0, 5); }
    }
    std::string real() {
        auto e = [&] { return std::string(r.p(.5) ? "e" : "E") + r.of({"", "+", "-"}) + digits(1, 2); };
        switch (r.in(0, 5)) {
            case 0: return "." + digits(1, 3) + (r.p(.5) ? e() : "");
            case 1: return std::string(1, char('1' + r.in(0, 8))) + digits(0, 3) + "." + (r.p(.5) ? e() : "");
            case 2: return std::string(1, char('1' + r.in(0, 8))) + digits(0, 3) + e();
            case 3: return "0x" + digits(1, 3, "0123456789abcdef") + "." + digits(0, 2, "0123456789ABCDEF") + (r.p(.5) ? "p" + std::string(r.of({"", "-", "+"})) + digits(1, 2) : "");
            case 4: return "0." + digits(1, 3);
            default: return digits(1, 3, "0123456789").insert(0, "1") + "." + digits(1, 3);
        }
    }
    std::string date() {
        auto d = [&](int n) { return digits(n, n); };
        std::string s = std::string("d'") + (r.p(.1) ? "-" : "") + d(4) + "-" + d(2) + "-" + d(2);
        if (r.p(.4)) s += " " + d(2) + ":" + d(2) + ":" + d(2);
        return s + "'";
    }
    T constant() {
        std::string s;
        switch (r.in(0, 7)) { case 0: s = str(); break; case 1: s = real(); break; case 2: s = date(); break; case 3: s = r.of({"TRUE", "FALSE", "NULL"}); break; default: s = integer(); }
        return {s, "#" + s};
    }
    T designator() { if (r.p(.3)) { auto a = id(), b = id(); return {a + o() + "." + o() + b, "(. " + a + " " + b + ")"}; } auto a = id(); return {a, a}; }
    T paren(T t) { return {"(" + o() + t.s + o() + ")", t.x}; }
    T need(T t, int p) { return t.prec < p or r.p(.08) ? paren(t) : t; }
    /** strength: 1 OR, 2 AND, 3 NOT, 4 comparison, 5 .., 6 additive, 7 multiplicative, 8 unary, 9 primary */
    T expr(int d, bool queries = false) {
        if (d <= 0 or r.p(.15)) return r.p(.5) ? designator() : constant();
        switch (r.in(0, 11)) {
            case 0: { // call
                T f = r.p(.9) ? designator() : need(expr(d - 1, queries), 9);
                if (f.x[0] == '#') f = designator();
                T t; t.s = f.s + o() + "(" + o(); t.x = "(call " + f.x;
                int k = r.in(0, 3);
                if (k == 0 and r.p(.5)) t.s += "*";
                for (int i = 0; i != k; ++i) { T a = expr(d - 1, queries); t.s += (i ? "," + w() : std::string()) + a.s; t.x += " " + a.x; }
                t.s += o() + ")"; t.x += ")"; return t;
            }
            case 1: case 2: { // + - ~
                std::string op = r.of({"+", "-", "~"});
                T a = need(expr(d - 1, queries), 8);
                if (a.s[0] == '-' and op == "-") a.s = " " + a.s; // `--` starts a comment
                return {op + a.s, "(u" + op + " " + a.x + ")", 8};
            }
            case 3: { T a = need(expr(d - 1, queries), 3); return {"NOT" + w() + a.s, "(uNOT " + a.x + ")", 3}; }
            case 4: if (queries and r.p(.5)) { T q = select(d - 2); return {"(" + o() + q.s + ")", "(query " + q.x + ")"}; } [[fallthrough]];
            default: {
                static const std::pair<const char*, int> OPS[] = {{"OR", 1}, {"AND", 2}, {"=", 4}, {"!=", 4}, {"<", 4}, {">", 4}, {"<=", 4}, {">=", 4}, {"LIKE", 4}, {"..", 5}, {"+", 6}, {"-", 6}, {"*", 7}, {"/", 7}, {"%", 7}};
                auto [op, p] = OPS[r.in(0, 14)];
                T a = need(expr(d - 1, queries), p), b = need(expr(d - 1, queries), p + 1);
                return {a.s + w() + op + w() + b.s, std::string("(") + op + " " + a.x + " " + b.x + ")", p};
            }
        }
    }
    std::string as(std::string &x, bool need_as = false) { if (r.p(.7)) return ""; auto i = id(); x += " as " + i; return w() + (need_as or r.p(.5) ? "AS" + w() : "") + i; }
    T select(int d) {
        T t; t.s = "SELECT" + w(); t.x = "(SELECT (select";
        int k = r.in(0, 3); bool star = k == 0 or r.p(.2);
        if (star) { t.s += "*"; t.x += " *"; }
        for (int i = 0; i != k; ++i) { T e = expr(d, true); t.s += (i or star ? "," + w() : "") + e.s; t.x += " " + e.x; t.s += as(t.x); }
        t.x += ")";
        if (r.p(.8)) {
            t.s += w() + "FROM" + w(); t.x += " (from";
            for (int i = 0, n = r.in(1, 3); i != n; ++i) {
                if (i) t.s += o() + "," + w();
                if (d > 0 and r.p(.3)) { T q = select(d - 1); auto a = id(); t.s += "(" + q.s + ")" + w() + (r.p(.5) ? "AS" + w() : "") + a; t.x += " " + q.x + " as " + a; }
                else { auto a = id(); t.s += a; t.x += " " + a; t.s += as(t.x); }
            }
            t.x += ")";
        }
        if (r.p(.5)) { T e = expr(d); t.s += w() + "WHERE" + w() + e.s; t.x += " (where " + e.x + ")"; }
        if (r.p(.3)) { t.s += w() + "GROUP" + w() + "BY" + w(); t.x += " (group"; for (int i = 0, n = r.in(1, 3); i != n; ++i) { T e = expr(d, true); t.s += (i ? "," + w() : "") + e.s; t.x += " " + e.x; t.s += as(t.x); } t.x += ")"; }
        if (r.p(.2)) { T e = expr(d); t.s += w() + "HAVING" + w() + e.s; t.x += " (having " + e.x + ")"; }
        if (r.p(.3)) { t.s += w() + "ORDER" + w() + "BY" + w(); t.x += " (order"; for (int i = 0, n = r.in(1, 3); i != n; ++i) { T e = expr(d, true); int k = r.in(0, 2); t.s += (i ? "," + w() : "") + e.s + (k ? w() + (k == 1 ? "ASC" : "DESC") : ""); t.x += " " + e.x + (k == 2 ? " desc" : " asc"); } t.x += ")"; }
        if (r.p(.3)) { auto l = integer(); t.s += w() + "LIMIT" + w() + l; t.x += " (limit " + l; if (r.p(.5)) { auto k = integer(); t.s += w() + "OFFSET" + w() + k; t.x += " " + k; } t.x += ")"; }
        t.x += ")";
        return t;
    }
    std::string type(std::string &x) {
        switch (r.in(0, 8)) {
            case 0: x = "BOOL"; return "BOOL";
            case 1: { auto n = integer(true); x = "CHAR(" + n + ")"; return "CHAR" + o() + "(" + o() + n + ")"; }
            case 2: { auto n = integer(true); x = "VARCHAR(" + n + ")"; return "VARCHAR(" + n + o() + ")"; }
            case 3: x = "DATE"; return "DATE";
            case 4: x = "DATETIME"; return "DATETIME";
            case 5: { auto n = r.of({"1", "2", "4", "8"}); x = std::string("INT(") + n + ")"; return std::string("INT") + o() + "(" + n + ")"; }
            case 6: x = "FLOAT"; return "FLOAT";
            case 7: x = "DOUBLE"; return "DOUBLE";
            default: { int p = r.in(2, 18); if (r.p(.4)) { x = "DECIMAL(" + std::to_string(p) + ", 0)"; return "DECIMAL(" + std::to_string(p) + ")"; } int s = r.in(1, p - 1); x = "DECIMAL(" + std::to_string(p) + ", " + std::to_string(s) + ")"; return "DECIMAL(" + std::to_string(p) + o() + "," + o() + std::to_string(s) + ")"; }
        }
    }
    T stmt(int d) {
        T t; auto i = id();
        switch (r.in(0, 15)) {
            case 0: return {"CREATE" + w() + "DATABASE" + w() + i, "(create-db " + i + ")"};
            case 1: { bool f = r.p(.5); return {"DROP" + w() + "DATABASE" + w() + (f ? "IF EXISTS" + w() : "") + i, "(drop-db " + std::string(f ? "if " : "") + i + ")"}; }
            case 2: return {"USE" + w() + i, "(use " + i + ")"};
            case 3: case 4: {
                t.s = "CREATE" + w() + "TABLE" + w() + i + o() + "(" + o(); t.x = "(create-table " + i;
                for (int k = 0, n = r.in(1, 4); k != n; ++k) {
                    auto a = id(); std::string ty, ts = type(ty);
                    t.s += (k ? o() + "," + w() : "") + a + w() + ts; t.x += " (" + a + " " + ty;
                    for (int c = r.in(0, 3); c; --c) switch (r.in(0, 4)) {
                        case 0: t.s += w() + "PRIMARY" + w() + "KEY"; t.x += " pk"; break;
                        case 1: t.s += w() + "NOT" + w() + "NULL"; t.x += " notnull"; break;
                        case 2: t.s += w() + "UNIQUE"; t.x += " unique"; break;
                        case 3: { T e = expr(d - 1); t.s += w() + "CHECK" + o() + "(" + e.s + ")"; t.x += " (check " + e.x + ")"; break; }
                        case 4: { auto x = id(), y = id(); t.s += w() + "REFERENCES" + w() + x + o() + "(" + y + ")"; t.x += " (ref " + x + " " + y + ")"; break; }
                    }
                    t.x += ")";
                }
                t.s += o() + ")"; t.x += ")"; return t;
            }
            case 5: { bool f = r.p(.5); t.s = "DROP" + w() + "TABLE" + w() + (f ? "IF" + w() + "EXISTS" + w() : "") + i; t.x = "(drop-table" + std::string(f ? " if " : " ") + i; for (int k = r.in(0, 2); k; --k) { i = id(); t.s += "," + w() + i; t.x += " " + i; } t.x += ")"; return t; }
            case 6: {
                bool u = r.p(.3), f = r.p(.3), n = f or r.p(.5); auto m = r.of({"DEFAULT", "array", "rmi", "xyz"}); bool us = r.p(.5);
                auto tb = id();
                t.s = "CREATE" + w() + (u ? "UNIQUE" + w() : "") + "INDEX" + w() + (f ? "IF" + w() + "NOT" + w() + "EXISTS" + w() : "") + (n ? i + w() : "") + "ON" + w() + tb + (us ? w() + "USING" + w() + m : "") + o() + "(";
                t.x = "(create-index" + std::string(u ? " unique" : "") + (f ? " if" : "") + (n ? " " + i : " -") + " on " + tb + (us ? std::string(" using ") + m : "");
                for (int k = 0, c = r.in(1, 3); k != c; ++k) { if (k) t.s += "," + w(); if (r.p(.7)) { i = id(); t.s += i; t.x += " " + i; } else { T e = expr(2); t.s += "(" + e.s + ")"; t.x += " " + e.x; } }
                t.s += ")"; t.x += ")"; return t;
            }
            case 7: { bool f = r.p(.5); t.s = "DROP" + w() + "INDEX" + w() + (f ? "IF" + w() + "EXISTS" + w() : "") + i; t.x = "(drop-index" + std::string(f ? " if " : " ") + i; for (int k = r.in(0, 2); k; --k) { i = id(); t.s += "," + w() + i; t.x += " " + i; } t.x += ")"; return t; }
            case 8: {
                t.s = "INSERT" + w() + "INTO" + w() + i + w() + "VALUES" + w(); t.x = "(insert " + i;
                for (int k = 0, n = r.in(1, 3); k != n; ++k) {
                    t.s += std::string(k ? "," : "") + o() + "("; t.x += " (";
                    for (int j = 0, c = r.in(1, 4); j != c; ++j) { if (j) t.s += "," + w(); int q = r.in(0, 5); if (q == 0) { t.s += "DEFAULT"; t.x += " default"; } else if (q == 1) { t.s += "NULL"; t.x += " null"; } else { T e = expr(r.in(0, d)); if (e.s.substr(0, 4) == "NULL") e = {"1", "#1"}; t.s += e.s; t.x += " " + e.x; } }
                    t.s += ")"; t.x += ")";
                }
                t.x += ")"; return t;
            }
            case 9: {
                t.s = "UPDATE" + w() + i + w() + "SET" + w(); t.x = "(update " + i;
                for (int k = 0, n = r.in(1, 3); k != n; ++k) { auto a = id(); T e = expr(d); t.s += (k ? "," + w() : "") + a + o() + "=" + w() + e.s; t.x += " (" + a + " " + e.x + ")"; }
                if (r.p(.5)) { T e = expr(d); t.s += w() + "WHERE" + w() + e.s; t.x += " (where " + e.x + ")"; }
                t.x += ")"; return t;
            }
            case 10: { t.s = "DELETE" + w() + "FROM" + w() + i; t.x = "(delete " + i; if (r.p(.5)) { T e = expr(d); t.s += w() + "WHERE" + w() + e.s; t.x += " (where " + e.x + ")"; } t.x += ")"; return t; }
            case 11: {
                auto p = str(); t.s = "IMPORT" + w() + "INTO" + w() + i + w() + "DSV" + w() + p; t.x = "(import " + i + " " + p;
                auto opt = [&](const char *kw, const char *tag, bool num) { std::string v = "-"; if (r.p(.4)) { v = num ? (r.p(.8) ? integer(true) : "0" + digits(0, 3, "01234567")) : str(); t.s += w() + kw + w() + v; } t.x += std::string(" ") + tag + v; };
                opt("ROWS", "rows:", true); opt("DELIMITER", "delim:", false); opt("ESCAPE", "esc:", false); opt("QUOTE", "quote:", false);
                if (r.p(.3)) { t.s += w() + "HAS" + w() + "HEADER"; t.x += " has"; }
                if (r.p(.3)) { t.s += w() + "SKIP" + w() + "HEADER"; t.x += " skip"; }
                t.x += ")"; return t;
            }
            default: return select(d);
        }
    }
};

struct Parsed { std::unique_ptr<Command> c; std::string err; unsigned nerr; bool rest; };
static Parsed parse(const std::string &s) {
    std::ostringstream out, err;
    Diagnostic diag(false, out, err);
    std::istringstream in(s);
    Lexer lexer(diag, Catalog::Get().get_pool(), "-", in);
    Parser parser(lexer);
    Parsed p;
    p.c = parser.parse();
    p.rest = bool(parser.token());
    p.err = err.str(); p.nerr = diag.num_errors();
    return p;
}

struct Collect : RecursiveConstExprVisitorBase {
    std::vector<const Expr*> es;
    using RecursiveConstExprVisitorBase::operator();
    void operator()(Const<ErrorExpr>&) override { }
    void operator()(Const<Designator> &e) override { es.push_back(&e); }
    void operator()(Const<Constant> &e) override { es.push_back(&e); }
    void operator()(Const<QueryExpr>&) override { }
    void operator()(Const<FnApplicationExpr> &e) override { es.push_back(&e); RecursiveConstExprVisitorBase::operator()(e); }
    void operator()(Const<UnaryExpr> &e) override { es.push_back(&e); RecursiveConstExprVisitorBase::operator()(e); }
    void operator()(Const<BinaryExpr> &e) override { es.push_back(&e); RecursiveConstExprVisitorBase::operator()(e); }
};
static void exprs(const Command &c, std::vector<const Expr*> &out) {
    Collect v;
    if (auto x = cast<const SelectStmt>(&c)) {
        for (auto &p : as<SelectClause>(*x->select).select) v(*p.first);
        if (x->where) v(*as<WhereClause>(*x->where).where);
        if (x->group_by) for (auto &p : as<GroupByClause>(*x->group_by).group_by) v(*p.first);
        if (x->having) v(*as<HavingClause>(*x->having).having);
        if (x->order_by) for (auto &p : as<OrderByClause>(*x->order_by).order_by) v(*p.first);
    } else if (auto x = cast<const UpdateStmt>(&c)) for (auto &p : x->set) v(*p.second);
    out = std::move(v.es);
}

static void roundtrip() {
    cases([](Rng &r, u64) {
        Gen g{r, r.p(.7)};
        const T t = g.stmt(r.in(0, 4));
        const std::string src = t.s + g.o() + ";";
        at(src);
        Parsed a = parse(src);
        if (a.nerr or not a.err.empty()) { fail("rejected", "a well-formed statement is rejected: " + a.err); return; }
        HV_CHECK(not a.rest, "rest", "tokens left after the statement");
        const std::string xa = sx(*a.c);
        if (xa != t.x) { fail("parsed-differently", "parsed as " + xa + " instead of " + t.x); return; }
        std::ostringstream o; { ASTPrinter p(o); p(*a.c); }
        std::string pr = o.str();
        Parsed b = parse(pr);
        if (b.nerr or not b.err.empty()) { fail("printed-rejected", "the printed form is rejected: " + pr + " -- " + b.err); return; }
        const std::string xb = sx(*b.c);
        if (xb != xa) if (auto im = cast<DSVImportStmt>(a.c.get()); im and (im->escape or im->quote)) {
            im->escape = im->quote = Token::CreateArtificial();
            if (sx(*im) == xb) { finding("import-escape-quote-not-printed", "printed as " + pr + ", which reads as " + xb + " instead of " + xa); ok(hash(src)); return; }
        }
        if (xb != xa) { fail("printed-differently", "printed as " + pr + ", which reads as " + xb + " instead of " + xa); return; }
        std::ostringstream o2; { ASTPrinter p(o2); p(*b.c); }
        HV_CHECK(o2.str() == pr, "print-unstable", "printed as " << pr << " and then as " << o2.str());
        { std::ostringstream d; a.c->dump(d); if (auto s = cast<Stmt>(a.c.get())) s->dot(d); HV_CHECK(not d.str().empty(), "dump-empty", "nothing dumped"); }
        /* equality and hashes of expressions are syntactic */
        std::vector<const Expr*> ea, eb; exprs(*a.c, ea); exprs(*b.c, eb);
        if (ea.size() == eb.size()) for (std::size_t i = 0; i != ea.size() and i != 40; ++i) for (std::size_t j = 0; j != eb.size() and j != 40; ++j) {
            const bool q = sx(*ea[i]).find("(query") != std::string::npos or sx(*eb[j]).find("(query") != std::string::npos;
            if (q) continue;
            const bool same = sx(*ea[i]) == sx(*eb[j]);
            HV_CHECK((*ea[i] == *eb[j]) == same, "expr-equality", sx(*ea[i]) << " and " << sx(*eb[j]) << " compare " << not same);
            if (same) HV_CHECK(ea[i]->hash() == eb[j]->hash(), "expr-hash", "equal expressions with different hashes: " << sx(*ea[i]));
            count("pairs of expressions compared");
        }
        count("statement:" + t.x.substr(0, t.x.find(' ')));
        ok(hash(src), t.x.size() > 20);
    });
}

/*----- hostile input --------------------------------------------------------------------------------------------------*/
static const char *SETUP[] = {
    "CREATE TABLE t (a INT(4), b INT(8) NOT NULL, c CHAR(5), d DATE, e DATETIME, f FLOAT, g DOUBLE, h DECIMAL(10, 2), i BOOL, j VARCHAR(7), k INT(1) PRIMARY KEY);",
    "CREATE TABLE x (a INT(4) UNIQUE, s CHAR(12), m DECIMAL(5, 1), i BOOL NOT NULL, x INT(2));",
    "CREATE TABLE u (p INT(4), q DOUBLE);",
};
static const std::vector<std::string> NAMES{"t", "x", "u", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "s", "m", "p", "q", "a", "b", "t", "COUNT", "SUM", "MIN", "MAX", "AVG", "ISNULL", "array", "v", "w"};
static void setup_db() {
    auto &C = Catalog::Get();
    auto &DB = C.add_database(C.pool("db")); C.set_database_in_use(DB);
    for (auto s : SETUP) { std::ostringstream o, e; Diagnostic d(false, o, e); auto st = statement_from_string(d, s); execute_statement(d, *st); }
}

/** Statements that are mostly meaningful in the database above. */
static std::string meaningful(Rng &r) {
    auto num = [&](auto &self, int d) -> std::string {
        if (d <= 0 or r.p(.3)) return r.of({"a", "b", "t.a", "t.b", "f", "g", "h", "k", "1", "0", "42", "3.5", "x.a", "p", "m", "x.x", "NULL", "1e300", "9223372036854775807", "0x7f", ".5", "17"});
        switch (r.in(0, 9)) { case 0: return "-" + self(self, d - 1) ; case 1: return r.of({"SUM", "MIN", "MAX", "AVG", "COUNT"}) + std::string("(") + self(self, d - 1) + ")"; case 2: return "COUNT()"; case 3: return "(" + self(self, d - 1) + ")"; case 4: return r.p(.1) ? "(SELECT " + self(self, 0) + r.of({"", " FROM t", " FROM x", " FROM u GROUP BY p"}) + ")" : "k"; default: return self(self, d - 1) + " " + r.of({"+", "-", "*", "/", "%"}) + " " + self(self, d - 1); }
    };
    auto str = [&](auto &self, int d) -> std::string { if (d <= 0 or r.p(.6)) return r.of({"c", "t.c", "j", "\"abc\"", "\"\"", "\"%a_\"", "s", "NULL"}); return self(self, d - 1) + " .. " + self(self, d - 1); };
    auto bl = [&](auto &self, int d) -> std::string {
        if (d <= 0) return r.of({"i", "t.i", "TRUE", "FALSE", "x.i", "NULL"});
        switch (r.in(0, 9)) {
            case 0: return "NOT (" + self(self, d - 1) + ")"; case 1: return "(" + self(self, d - 1) + r.of({") AND (", ") OR (", ") = (", ") != ("}) + self(self, d - 1) + ")";
            case 2: return str(str, d - 1) + r.of({" = ", " < ", " >= ", " LIKE ", " != "}) + str(str, d - 1);
            case 3: return std::string("ISNULL(") + (r.p(.5) ? num(num, d - 1) : str(str, d - 1)) + ")";
            case 4: return r.of({"d", "d'2020-02-30'", "d'2020-02-28'", "d'0000-01-01'", "d'-0044-03-15'", "NULL"}) + std::string(r.of({" = ", " < ", " >= "})) + r.of({"d", "d'1999-12-31'", "d'2020-13-01'", "e"});
            case 5: return r.of({"e", "d'2020-02-29 10:11:12'", "d'2020-02-29 24:00:00'"}) + std::string(r.of({" = ", " < ", " >= "})) + r.of({"e", "d'1999-12-31 23:59:59'", "d'1999-12-31 23:61:59'"});
            default: return num(num, d - 1) + r.of({" = ", " < ", " > ", " <= ", " >= ", " != "}) + num(num, d - 1);
        }
    };
    auto any = [&](int d) -> std::string { switch (r.in(0, 5)) { case 0: return str(str, d); case 1: return bl(bl, d); case 2: return r.of({"d", "e", "t.d", "NULL", "a", "i"}); default: return num(num, d); } };
    auto list = [&](auto f, int lo, int hi) { std::string o; for (int k = r.in(lo, hi), q = 0; q < k; ++q) o += (q ? ", " : "") + f(); return o; };
    std::function<std::string(int)> select = [&](int d) -> std::string {
        std::string o = "SELECT ";
        if (r.p(.2)) o += r.p(.5) ? "*" : "*, " + any(1); else o += list([&] { return any(r.in(0, 2)) + (r.p(.3) ? r.of({" AS v", " AS a", " w", " AS t"}) : ""); }, 1, 3);
        if (r.p(.9)) o += " FROM " + list([&] { return (d > 0 and r.p(.25) ? "(" + select(d - 1) + ") AS " + r.of({"v", "w", "t"}) : std::string(r.of({"t", "x", "u", "t AS v", "u AS x", "t t", "nope"}))); }, 1, 2);
        if (r.p(.4)) o += " WHERE " + bl(bl, r.in(0, 2));
        if (r.p(.3)) o += " GROUP BY " + list([&] { return any(r.in(0, 1)) + (r.p(.2) ? " AS v" : ""); }, 1, 2);
        if (r.p(.15)) o += " HAVING " + bl(bl, 2);
        if (r.p(.25)) o += " ORDER BY " + list([&] { return any(r.in(0, 1)) + r.of({"", " ASC", " DESC"}); }, 1, 2);
        if (r.p(.2)) o += std::string(" LIMIT ") + r.of({"1", "0", "0x10", "99999999999999999999999", "010"}) + (r.p(.4) ? r.of({" OFFSET 2", " OFFSET 99999999999999999999999"}) : "");
        return o;
    };
    switch (r.in(0, 13)) {
        case 0: return std::string("INSERT INTO ") + r.of({"t", "x", "u", "nope"}) + " VALUES " + list([&] { return "(" + (r.p(.5) ? list([&] { return r.p(.2) ? std::string(r.of({"NULL", "DEFAULT"})) : any(1); }, 1, 5) : std::string(r.of({"1, 2.5", "1, 1", "NULL, NULL", "1, \"abc\", 2.5, TRUE, 4", "1, 2, \"abc\", d'2020-01-01', d'2020-01-01 00:00:00', 1.5, 2, 3, TRUE, \"x\", 7", "-1, 3.", "1+1, 2*3", "1"}))) + ")"; }, 1, 3);
        case 1: return std::string("UPDATE ") + r.of({"t", "x", "nope"}) + " SET " + list([&] { return std::string(r.of({"a", "c", "nope", "i"})) + " = " + any(1); }, 1, 2) + (r.p(.5) ? " WHERE " + bl(bl, 2) : "");
        case 2: return std::string("DELETE FROM ") + r.of({"t", "x", "nope"}) + (r.p(.5) ? " WHERE " + bl(bl, 2) : "");
        case 3: return std::string("CREATE TABLE ") + r.of({"new", "t"}) + " (" + list([&] { return std::string(r.of({"a", "b", "t"})) + " " + r.of({"INT(4)", "BOOL", "CHAR(3)", "DECIMAL(6, 2)", "DECIMAL(2, 6)", "INT(3)", "DATE", "DECIMAL(99, 3)", "VARCHAR(0)", "CHAR(99999999999)", "INT(8)", "DECIMAL(99999999999999999999)"}) + (r.p(.4) ? r.of({" PRIMARY KEY", " UNIQUE UNIQUE", " NOT NULL", " REFERENCES t(a)", " REFERENCES nope(a)", " REFERENCES t(nope)"}) : "") + (r.p(.3) ? " CHECK (" + bl(bl, 1) + ")" : ""); }, 1, 3) + ")";
        case 4: return std::string("CREATE ") + (r.p(.1) ? "UNIQUE " : "") + "INDEX " + (r.p(.2) ? "IF NOT EXISTS " : "") + r.of({"idx ", "idx ", ""}) + "ON " + r.of({"t", "x", "nope"}) + (r.p(.5) ? r.of({" USING array", " USING rmi", " USING DEFAULT", " USING foo"}) : "") + " (" + r.of({"a", "b", "nope", "(a + 1)", "(1)", "a, b", "c", "(t.a)", "(NULL)"}) + ")";
        case 5: return std::string("IMPORT INTO ") + r.of({"t", "nope"}) + " DSV " + r.of({"\"/nonexistent\"", "\"\""}) + (r.p(.3) ? " ROWS 5" : "") + (r.p(.4) ? r.of({" DELIMITER \",\"", " DELIMITER \"\"", " DELIMITER \"ab\""}) : "") + (r.p(.3) ? r.of({" ESCAPE \"\\\\\"", " ESCAPE \"\"", " ESCAPE \"xy\""}) : "") + (r.p(.3) ? r.of({" QUOTE \"'\"", " QUOTE \"\"", " QUOTE \"ab\""}) : "") + (r.p(.3) ? " HAS HEADER" : "") + (r.p(.3) ? " SKIP HEADER" : "");
        case 6: return r.of({"DROP TABLE nope", "DROP TABLE IF EXISTS nope, t", "DROP TABLE t, nope", "DROP INDEX idx", "DROP INDEX IF EXISTS idx", "DROP DATABASE db", "DROP DATABASE IF EXISTS nope", "USE nope", "CREATE DATABASE db", "USE db", "CREATE DATABASE e2"});
        case 7: return r.of({"\\help", "\\ ", "\\nope a b c", "\\", "\\learn_spns", "\\help  x\n", "\\\\"});
        default: return select(2);
    }
}

/** The tokens of `s`, and whether what lies between them is white space or comment. */
static void lex_all(const std::string &s, bool &lossless, std::size_t &n, std::size_t &errors, unsigned &nerr, std::string &why) {
    std::ostringstream out, err; Diagnostic diag(false, out, err); std::istringstream in(s);
    Lexer lexer(diag, Catalog::Get().get_pool(), "-", in);
    std::vector<std::size_t> line{0}; for (std::size_t i = 0; i != s.size(); ++i) if (s[i] == '\n') line.push_back(i + 1);
    std::size_t at = 0; lossless = true; n = errors = 0;
    auto blank = [&](std::size_t a, std::size_t b) { // only white space and comments
        for (std::size_t i = a; i < b;) { if (isspace((unsigned char) s[i])) ++i; else if (s[i] == '-' and i + 1 < b and s[i + 1] == '-') { while (i < b and s[i] != '\n') ++i; } else return false; }
        return true;
    };
    for (;;) {
        Token t = lexer.next();
        if (t.type == TK_EOF) { if (not blank(at, s.size())) { lossless = false; why = "input ends early"; } break; }
        if (++n > s.size() + 1) { lossless = false; why = "more tokens than bytes"; break; }
        if (t.type == TK_ERROR) ++errors;
        const std::string x = txt(t);
        if (t.pos.line == 0 or t.pos.line > line.size()) { lossless = false; why = "position outside of the input"; break; }
        const std::size_t p = line[t.pos.line - 1] + t.pos.column - 1;
        if (p < at or p + x.size() > s.size() or s.compare(p, x.size(), x)) { lossless = false; why = "token '" + x + "' is not at its position " + std::to_string(t.pos.line) + ":" + std::to_string(t.pos.column); break; }
        if (not blank(at, p)) { lossless = false; why = "input between two tokens is lost"; break; }
        at = p + x.size();
    }
    nerr = diag.num_errors();
}

static bool has_error_node(const std::string &x) { return x.find("(error") != std::string::npos; }

/** Feeds a program to the front end the way a session does; returns the trees of its statements. */
static std::vector<std::pair<std::string, bool>> session(const std::string &s, bool sema) {
    std::vector<std::pair<std::string, bool>> trees;
    std::ostringstream out, err; Diagnostic diag(false, out, err); std::istringstream in(s);
    Lexer lexer(diag, Catalog::Get().get_pool(), "-", in);
    Parser parser(lexer);
    std::size_t n = 0;
    while (parser.token()) {
        diag.clear();
        auto before = err.str().size();
        auto ast = parser.parse();
        if (++n > s.size() + 2) { fail("no-progress", "more statements than bytes"); break; }
        if (not ast) { fail("no-tree", "the parser returns no tree"); break; }
        const bool perr = diag.num_errors();
        HV_CHECK(perr == (err.str().size() > before), "silent-error", "errors counted: " << diag.num_errors() << ", message: " << err.str().substr(before));
        const std::string x = sx(*ast);
        trees.emplace_back(x, perr);
        if (has_error_node(x)) HV_CHECK(perr, "error-not-reported", "the tree contains errors, none is reported: " << x);
        { std::ostringstream d; ast->dump(d); if (auto st = cast<Stmt>(ast.get())) { st->dot(d); ASTPrinter p(d); p(*ast); } }
        if (perr) count("syntax error");
        if (not sema or perr) continue;
        diag.clear();
        before = err.str().size();
        Sema S(diag);
        Command *raw = ast.get();
        bool threw = false; std::unique_ptr<DatabaseCommand> cmd;
        cmd = S.analyze(std::move(ast));
        const bool serr = diag.num_errors();
        HV_CHECK(serr == (err.str().find("error: ", before) != std::string::npos), "silent-error", "errors counted: " << diag.num_errors() << ", message: " << err.str().substr(before));
        HV_CHECK(serr != bool(cmd), "command", (cmd ? "a command is returned despite of errors: " : "neither command nor error: ") << x << " " << err.str());
        count(std::string(serr ? "semantic error" : "accepted"));
        if (cmd) { std::ostringstream d; auto &st = cmd->ast(); st.dump(d); if (auto q = cast<Stmt>(&st)) { q->dot(d); ASTPrinter p(d); p(st); } }
    }
    return trees;
}

static void fuzz() {
    setup_db();
    cases([](Rng &r, u64) {
        Gen g{r, r.p(.5)}; g.names = &NAMES;
        auto stmt = [&] { std::string s = r.p(.25) ? g.stmt(r.in(0, 3)).s : meaningful(r); return s + (r.p(.97) ? ";" : ""); };
        std::string s;
        for (int k = r.in(1, 3); k; --k) s += stmt() + r.of({"", " ", "\n"});
        const int how = r.in(0, 5);
        static const char *TOK[] = {"SELECT", "FROM", "WHERE", "(", ")", ",", ";", "GROUP BY", "ORDER", "BY", "AS", "NULL", "*", "-", "+", "NOT", "AND", "OR", "=", "..", ".", "\"", "'", "d'", "--", "\\", "0x", "1e", "1.", "0", "99999999999999999999", "LIMIT", "INT(4)", "a", "t", "COUNT", "TRUE", "HAVING", "CREATE", "TABLE", "INDEX", "VALUES", "DEFAULT", "IN", "EXISTS", "\n", "LIKE", "d'2020-01-01'", "INSERT", "INTO", "USING", "x.", "DROP", "DECIMAL(", "CHECK", "REFERENCES"};
        if (how >= 2) for (int k = r.in(1, how == 2 ? 1 : 4); k; --k) {
            const std::size_t p = s.empty() ? 0 : r.in(0, s.size() - 1);
            switch (r.in(0, 7)) {
                case 0: s.insert(p, std::string(" ") + TOK[r.in(0, std::size(TOK) - 1)] + " "); break;
                case 1: { auto q = s.find(' ', p); if (q != std::string::npos) { auto e = s.find(' ', q + 1); s.erase(q, e == std::string::npos ? e : e - q); } break; }
                case 2: if (how > 3) s[p] = char(r.in(0, 255)); break;
                case 3: s.insert(p, 1, char(r.p(.5) ? r.in(0, 255) : r.of({'"', '\\', '\'', '-', '(', ')', '0', '.', '\n', '\0'}))); break;
                case 4: s.erase(p, r.in(1, 6)); break;
                case 5: { auto q = r.in(0, s.size()); s.insert(q, s.substr(p, r.in(1, 20))); break; }
                case 6: s.resize(p); break;
                case 7: { auto q = s.find(' ', p); if (q != std::string::npos) s.replace(q, 1, std::string(" ") + TOK[r.in(0, std::size(TOK) - 1)] + " "); break; }
            }
            if (s.empty()) s = ";";
        }
        if (how == 5 and r.p(.2)) { s.clear(); for (int k = r.in(0, 60); k; --k) s += char(r.in(0, 255)); }
        if (r.p(.02)) { const char *o = r.of({"(", "-", "NOT ", "(SELECT ", "~", "1+(", "f("}); std::string n; for (int k = r.in(1, 300); k; --k) n += o; s = "SELECT " + n + "1" + s; }
        at(s);
        bool lossless; std::size_t n, errors; unsigned nerr; std::string why;
        lex_all(s, lossless, n, errors, nerr, why);
        if (s.find('\0') == std::string::npos) HV_CHECK(lossless, "lexer-lossless", why);
        HV_CHECK(errors == nerr, "lexer-errors", errors << " erroneous tokens, " << nerr << " errors reported");
        session(s, true);
        count("tokens", n); count(how < 2 ? "as generated" : "mutated");
        ok(hash(s), n > 3);
    });
}

/** What follows the end of an erroneous statement is read as if the error was not there. */
static void recovery() {
    cases([](Rng &r, u64) {
        Gen g{r, false}; g.names = &NAMES;
        const T before = g.stmt(2), after = g.stmt(2);
        std::string bad = r.p(.5) ? g.stmt(2).s : meaningful(r);
        static const char *TOK[] = {"SELECT", "FROM", "WHERE", "(", ")", ",", "GROUP BY", "ORDER", "BY", "AS", "NULL", "*", "-", "NOT", "AND", "=", "..", ".", "1", "LIMIT", "INT(4)", "a", "HAVING", "CREATE", "TABLE", "VALUES", "DEFAULT", "LIKE", "!", "?", "DROP", "d'20'"};
        for (int k = r.in(1, 3); k; --k) { auto q = bad.find(' ', r.in(0, bad.size())); if (q == std::string::npos) q = bad.find(' '); if (q == std::string::npos) continue; if (r.p(.5)) bad.replace(q, 1, std::string(" ") + TOK[r.in(0, std::size(TOK) - 1)] + " "); else { auto e = bad.find(' ', q + 1); bad.erase(q, e == std::string::npos ? e : e - q); } }
        for (std::size_t q; (q = bad.find("--")) != std::string::npos;) bad[q] = ' ';
        for (auto &c : bad) if (c == ';' or c == '"' or c == '\\' or c == '\'') c = ' ';
        const bool illegal = r.p(.3); // a character no statement can contain
        if (illegal) { auto q = r.in(0, bad.size()); bad.insert(q, std::string(" ") + r.of({"?", "$", "@", "[", "}", "^", "|", "!"}) + " "); }
        const std::string s = before.s + "; " + bad + "; " + after.s + ";";
        at(s);
        auto trees = session(s, false);
        const bool first = trees.size() >= 3 and trees.front() == std::pair(before.x, false), last = trees.size() >= 3 and trees.back() == std::pair(after.x, false);
        HV_CHECK(first, "error-before", "the first statement is read as " << (trees.empty() ? "" : trees.front().first) << " instead of " << before.x << (trees.empty() or not trees.front().second ? "" : ", errors are reported"));
        HV_CHECK(last, "recovery", "statements read: " << trees.size() << ", the last one is " << (trees.empty() ? "" : trees.back().first) << " instead of " << after.x << (trees.empty() or not trees.back().second ? "" : ", errors are reported"));
        bool any = false; for (std::size_t i = 1; i + 1 < trees.size(); ++i) any = any or trees[i].second;
        if (illegal and first and last) HV_CHECK(any, "error-lost", "no error is reported for the statement in the middle");
        count("statements around an error");
        ok(hash(s));
    });
}

/*----- conjunctive normal form ---------------------------------------------------------------------------------------*/
enum tri { F, U, TR };
static tri tnot(tri a) { return tri(2 - a); }
static tri tand(tri a, tri b) { return std::min(a, b); }
static tri tor(tri a, tri b) { return std::max(a, b); }
static tri teq(tri a, tri b) { return a == U or b == U ? U : a == b ? TR : F; }

struct Bool {
    std::map<std::string, std::size_t> atoms;
    std::vector<tri> val;
    std::unordered_map<const Expr*, int> memo; ///< which atom an expression is, -1 for none
    int which(const Expr &e) { auto m = memo.find(&e); if (m != memo.end()) return m->second; auto it = atoms.find(sx(e)); return memo[&e] = it == atoms.end() ? -1 : int(it->second); }
    tri eval(const Expr &e, bool &bad) {
        if (auto c = cast<const Constant>(&e)) return c->tok.type == TK_True ? TR : c->tok.type == TK_False ? F : U;
        if (int a = which(e); a >= 0) return val[a];
        if (auto u = cast<const UnaryExpr>(&e)) if (u->op() == TK_Not) return tnot(eval(*u->expr, bad));
        if (auto b = cast<const BinaryExpr>(&e)) {
            const tri l = eval(*b->lhs, bad), r = eval(*b->rhs, bad);
            switch (b->op().type) { case TK_And: return tand(l, r); case TK_Or: return tor(l, r); case TK_EQUAL: return teq(l, r); case TK_BANG_EQUAL: return tnot(teq(l, r)); default:; }
        }
        bad = true; return U;
    }
    tri eval(const cnf::CNF &c, bool &bad) {
        tri r = TR;
        for (auto &cl : c) { tri s = F; for (auto &p : cl) { tri v = eval(p.expr(), bad); s = tor(s, p.negative() ? tnot(v) : v); } r = tand(r, s); }
        return r;
    }
};

static void cnfs() {
    auto &C = Catalog::Get();
    auto &DB = C.add_database(C.pool("db")); C.set_database_in_use(DB);
    { std::ostringstream o, e; Diagnostic d(false, o, e);
      auto s = statement_from_string(d, "CREATE TABLE t (b0 BOOL, b1 BOOL NOT NULL, b2 BOOL, i0 INT(4), i1 INT(4) NOT NULL, s CHAR(4));"); execute_statement(d, *s); }
    cases([](Rng &r, u64) {
        Bool B;
        static const std::pair<const char*, const char*> ATOMS[] = {{"b0", "b0"}, {"b1", "b1"}, {"t.b2", "(. t b2)"}, {"i0 < 3", "(< i0 #3)"}, {"i0 = i1", "(= i0 i1)"}, {"s LIKE \"a%\"", "(LIKE s #\"a%\")"}, {"ISNULL(i0)", "(call ISNULL i0)"}, {"i1 != 4", "(!= i1 #4)"}};
        std::vector<int> use;
        for (int k = r.in(1, 5); k; --k) { int a = r.in(0, 7); if (not B.atoms.count(ATOMS[a].second)) { std::size_t n = B.atoms.size(); B.atoms[ATOMS[a].second] = n; use.push_back(a); } }
        B.val.assign(B.atoms.size(), U);
        const int budget = r.in(1, 8); int eqs = 0;
        std::function<std::string(int)> gen = [&](int k) -> std::string {
            if (k <= 1) { if (r.p(.06)) return r.of({"TRUE", "FALSE"}); std::string s = "(" + std::string(ATOMS[r.pick(use)].first) + ")"; return r.p(.3) ? "(NOT " + s + ")" : s; }
            if (r.p(.15)) return "(NOT " + gen(k - 1) + ")";
            const int l = r.in(1, k - 1);
            std::string op = r.of({"AND", "OR", "AND", "OR", "=", "!="});
            if (op.size() < 3 and op != "OR" and ++eqs > 3) op = "AND";
            if (op[0] == '=' or op[0] == '!') return "(" + gen(std::min(l, 3)) + " " + op + " " + gen(std::min(k - l, 3)) + ")";
            return "(" + gen(l) + " " + op + " " + gen(k - l) + ")";
        };
        auto make = [&](int k) { return gen(k); };
        auto analyse = [&](const std::string &c) { std::ostringstream o, e; Diagnostic d(false, o, e); std::unique_ptr<Stmt> s; try { s = statement_from_string(d, "SELECT 1 FROM t WHERE " + c + ";"); } catch (const m::exception &x) { e << x.what(); } HV_CHECK(s and d.num_errors() == 0, "rejected", c << ": " << e.str()); return s; };
        const std::string e1 = make(budget), e2 = make(r.in(1, 4));
        at(e1 + " ;; " + e2);
        auto s1 = analyse(e1), s2 = analyse(e2);
        if (not s1 or not s2) return;
        const Expr &x1 = *as<WhereClause>(*as<SelectStmt>(*s1).where).where, &x2 = *as<WhereClause>(*as<SelectStmt>(*s2).where).where;
        const cnf::CNF c1 = cnf::to_CNF(x1), c2 = cnf::to_CNF(x2);
        HV_CHECK(not c1.empty(), "cnf-empty", "empty formula for " << e1);
        std::vector<std::pair<std::string, cnf::CNF>> derived{{"and", c1 and c2}};
        if (c1.size() * c2.size() < 200) derived.emplace_back("or", c1 or c2);
        { double m = 1; for (auto &cl : c2) m *= cl.size(); if (m < 200) derived.emplace_back("not", not c2); }
        std::ostringstream q; c1.to_sql(q);
        std::unique_ptr<Stmt> s3 = analyse(q.str());
        const Expr *x3 = s3 ? as<WhereClause>(*as<SelectStmt>(*s3).where).where.get() : nullptr;
        /* all assignments of the three truth values; columns declared NOT NULL are never unknown */
        std::size_t n = 1; for (std::size_t i = 0; i != B.val.size(); ++i) n *= 3;
        bool null_seen = false;
        for (std::size_t k = 0; k != n; ++k) {
            std::size_t y = k; for (auto &v : B.val) { v = tri(y % 3); y /= 3; }
            bool skip = false;
            for (auto &[t, i] : B.atoms) if (B.val[i] == U and (t == "b1" or t == "(!= i1 #4)" or t[1] == 'c')) skip = true;
            if (skip) continue;
            bool bad = false;
            const tri v1 = B.eval(x1, bad), v2 = B.eval(x2, bad);
            if (v1 == U) null_seen = true;
            const tri w1 = B.eval(c1, bad);
            if (bad) { fail("cnf-foreign", "a literal is no expression of " + e1); break; }
            HV_CHECK(v1 == w1, "cnf-not-equivalent", e1 << " is " << v1 << ", its normal form " << c1 << " is " << w1);
            for (auto &[nm, c] : derived) { const tri ex = nm == "and" ? tand(v1, v2) : nm == "or" ? tor(v1, v2) : tnot(v2), w = B.eval(c, bad); HV_CHECK(ex == w, "cnf-" + nm, nm << " of " << c1 << " and " << c2 << " is " << w << " instead of " << ex); }
            if (x3) { const tri v3 = B.eval(*x3, bad); HV_CHECK(v1 == v3, "cnf-to-sql", "printed as " << q.str() << ", which is " << v3 << " instead of " << v1); }
            count("assignments");
            if (Nat::get().fails > 3) return;
        }
        if (null_seen) HV_CHECK(c1.can_be_null(), "cnf-can-be-null", c1 << " can be NULL");
        /* inclusion is by clauses */
        if (c1.size() * (c1.size() + c2.size()) > 1500) return ok(hash(e1), true);
        HV_CHECK(c1 == c1 and c1 <= (c1 and c2) and c2 <= (c1 and c2) and (c1 and c2) == (c2 and c1), "cnf-inclusion", c1 << " and " << c2);
        bool sub = true; for (auto &a : c1) { bool in = false; for (auto &b : c2) { auto has = [](const cnf::Clause &s, const cnf::Clause &t) { for (auto p : s) { bool f = false; for (auto q : t) if (sx(p.expr()) == sx(q.expr()) and p.negative() == q.negative()) f = true; if (not f) return false; } return true; }; if (has(a, b) and has(b, a)) in = true; } if (not in) sub = false; }
        HV_CHECK((c1 <= c2) == sub, "cnf-subset", c1 << " <= " << c2 << " is " << not sub);
        auto eqp = [](cnf::Predicate p) { auto b = cast<const BinaryExpr>(&p.expr()); return b and is<const Designator>(*b->lhs) and is<const Designator>(*b->rhs) and b->op() == (p.negative() ? TK_BANG_EQUAL : TK_EQUAL); };
        bool equi = not c1.empty(); for (auto &cl : c1) equi = equi and cl.size() == 1 and eqp(cl[0]);
        HV_CHECK(c1.is_equi() == equi, "cnf-equi", c1 << " is_equi() " << not equi);
        Schema S = c1.get_required();
        static const char *COLS[] = {"b0", "b1", "b2", "i0", "i1", "s"};
        for (auto c : COLS) {
            const std::string k = c; bool used = false;
            for (auto &cl : c1) for (auto &p : cl) { const std::string x = " " + sx(p.expr()) + " "; for (std::size_t at = x.find(k); at != std::string::npos; at = x.find(k, at + 1)) if (not isalnum(x[at - 1]) and x[at - 1] != '"' and not isalnum(x[at + k.size()])) used = true; }
            HV_CHECK(S.has(Schema::Identifier(Catalog::Get().pool("t"), Catalog::Get().pool(c))) == used, "cnf-required", k << " of " << c1);
        }
        count("clauses", c1.size()); count("literals:" + std::to_string(std::min<std::size_t>(c1.size(), 9)));
        ok(hash(e1), c1.size() > 1);
    });
}

/*----- semantic analysis ----------------------------------------------------------------------------------------------*/
struct Ty { char k = 'e'; unsigned n = 0, s = 0; bool vec = false; }; // i f d D(ecimal) b c v t(date) T(datetime) e(rror)
static bool num(const Ty &t) { return t.k == 'i' or t.k == 'f' or t.k == 'd' or t.k == 'D'; }
static bool chr(const Ty &t) { return t.k == 'c' or t.k == 'v'; }
static bool family(const Ty &a, const Ty &b) { return (num(a) and num(b)) or (chr(a) and chr(b)) or (a.k == b.k and a.k != 'e'); }
static std::string show(const Ty &t) {
    std::string o;
    switch (t.k) { case 'i': o = "INT(" + std::to_string(t.n) + ")"; break; case 'f': o = "FLOAT"; break; case 'd': o = "DOUBLE"; break; case 'D': o = "DECIMAL(" + std::to_string(t.n) + "," + std::to_string(t.s) + ")"; break; case 'b': o = "BOOL"; break; case 'c': o = "CHAR(" + std::to_string(t.n) + ")"; break; case 'v': o = "VARCHAR(" + std::to_string(t.n) + ")"; break; case 't': o = "DATE"; break; case 'T': o = "DATETIME"; break; default: return "error"; }
    return o + (t.vec ? " per row" : " single");
}
static Ty of_type(const Type *t) {
    Ty r;
    if (auto p = cast<const PrimitiveType>(t)) r.vec = p->is_vectorial(); else return r;
    if (auto x = cast<const Numeric>(t)) { r.k = x->kind == Numeric::N_Int ? 'i' : x->kind == Numeric::N_Float ? (x->precision == 32 ? 'f' : 'd') : 'D'; if (r.k == 'i' or r.k == 'D') { r.n = x->precision; r.s = x->scale; } }
    else if (auto x = cast<const CharacterSequence>(t)) { r.k = x->is_varying ? 'v' : 'c'; r.n = x->length; }
    else if (is<const Boolean>(t)) r.k = 'b'; else if (is<const Date>(t)) r.k = 't'; else if (is<const DateTime>(t)) r.k = 'T';
    return r;
}
/** The type wide enough for both operands. */
static Ty join(const Ty &a, const Ty &b) {
    auto bits = [](const Ty &t) -> unsigned { switch (t.k) { case 'i': return 8 * t.n; case 'f': return 32; case 'd': return 64; default: return std::ceil(t.n * std::log2(10.0)); } };
    auto rank = [](const Ty &t) { return t.k == 'i' ? 0 : t.k == 'D' ? 2 : 1; };
    const unsigned p = std::max(bits(a), bits(b)); const int k = std::max(rank(a), rank(b));
    Ty r; r.vec = a.vec or b.vec;
    if (k == 0) { r.k = 'i'; r.n = p / 8; } else if (k == 1) r.k = p > 32 ? 'd' : 'f'; else { r.k = 'D'; r.n = p / std::log2(10.0); r.s = std::max(a.s, b.s); }
    return r;
}

struct X { std::string s; Ty t; bool agg = false, konst = false; int refs = 0; };
struct Col { std::string name; Ty t; bool notnull; };
struct Src { std::string name; std::vector<Col> cols; };

struct SG {
    Rng &r;
    std::vector<Src> src;
    std::vector<Col> keys;       ///< grouping keys, by the name they have after grouping
    std::vector<Col> results;    ///< visible in ORDER BY
    enum Where { ROW, GROUPED, AGGARG } where = ROW;
    bool agg_ok = false, grouped = false, is_error = false;
    double agg_p = .45;
    double slip = .04;           ///< how often a rule is broken
    bool tame = false;           ///< no constants that overflow, no division by what may be zero

    Ty err() { is_error = true; return Ty(); }
    /** What a name refers to in the rows of the sources. */
    Ty lookup(const std::string &q, const std::string &n) {
        Ty t; int found = 0;
        for (auto &s : src) if (q.empty() or s.name == q) for (auto &c : s.cols) if (c.name == n) { ++found; t = c.t; }
        if (found != 1) return err();
        t.vec = true; return t;
    }
    X column(char want) {
        std::vector<X> c, any; std::vector<std::string> seen;
        if (where != AGGARG) for (auto *l : {&results, &keys}) { // innermost meaning first
            for (auto &k : *l) { X x; x.s = k.name; x.t = k.t; x.refs = 1; bool dup = false; for (auto &p : seen) if (p == x.s) dup = true; if (dup) continue; seen.push_back(x.s);
                int n = 0; for (auto &p : *l) n += p.name == x.s;
                if (n > 1) { if (not r.p(.3)) continue; x.t = Ty(); c.push_back(x); } // ambiguous
                any.push_back(x); if (fits(x.t, want)) c.push_back(x); }
        }
        if (not grouped or where == AGGARG or r.p(slip / 2)) for (auto &s : src) for (auto &k : s.cols) {
            X x; x.refs = 1;
            const bool q = r.p(.4);
            x.s = (q ? s.name + "." : "") + k.name;
            bool hidden = false; // the name means something else after grouping or selection
            if (where != AGGARG) for (auto *l : {&results, &keys}) for (auto &y : *l) if (y.name == k.name or y.name == x.s) hidden = true;
            if (hidden) continue;
            const bool was = is_error; is_error = false;
            x.t = lookup(q ? s.name : "", k.name);
            const bool amb = is_error; is_error = was;
            if (amb and not r.p(slip)) continue;
            if (amb) x.t.k = 'e';
            any.push_back(x); if (fits(k.t, want)) c.push_back(x);
        }
        if (r.p(slip / 3)) { X x; x.s = r.of({"nope", "t.nope", "nope.a"}); x.refs = 1; err(); return x; }
        if (c.empty()) { if (any.empty() or not r.p(.3)) return constant(want); return any[r.in(0, any.size() - 1)]; }
        return r.pick(c);
    }
    static bool fits(const Ty &t, char want) { return want == 'n' ? num(t) : want == 'c' ? chr(t) : want == '*' ? true : t.k == want; }
    X constant(char want) {
        X x; x.konst = true;
        switch (want) {
            case '*': return constant(r.of({'n', 'c', 'b', 't', 'T'}));
            case 'n': if (tame) { switch (r.in(0, 4)) {
                case 0: x.s = r.of({"1.5", "0.25", ".5", "1e1", "0x1.8p1", "2.", "5E-1"}); x.t.k = 'd'; break;
                case 1: x.s = r.of({"0x1f", "017", "0x0"}); x.t = {'i', 4}; break;
                default: x.s = std::to_string(r.in(0, 20)); x.t = {'i', 4};
            } break; } switch (r.in(0, 6)) {
                case 0: x.s = r.of({"1.5", "0.25", ".5", "1e3", "0x1.8p1", "2.", "1E-2"}); x.t.k = 'd'; break;
                case 1: { u64 v = r.u() >> r.in(1, 40); x.s = std::to_string(v); x.t.k = 'i'; x.t.n = v > 2147483647ull ? 8 : 4; break; }
                case 2: { u64 v = r.u() >> r.in(1, 60); std::ostringstream o; o << "0x" << std::hex << v; x.s = o.str(); x.t.k = 'i'; x.t.n = v > 2147483647ull ? 8 : 4; break; }
                case 3: { u64 v = r.u() >> r.in(1, 60); std::ostringstream o; o << "0" << std::oct << v; x.s = o.str(); x.t.k = 'i'; x.t.n = v > 2147483647ull ? 8 : 4; break; }
                case 4: x.s = r.of({"2147483647", "0x7fffffff", "017777777777"}); x.t = {'i', 4}; break;
                case 5: x.s = r.of({"2147483648", "0x80000000", "020000000000", "9223372036854775807"}); x.t = {'i', 8}; break;
                default: x.s = std::to_string(r.in(0, 100)); x.t = {'i', 4}; if (x.s[0] == '0') x.t.n = 4; break;
            } break;
            case 'c': { std::string s; unsigned n = 0; for (int k = r.in(0, 9); k; --k, ++n) s += r.of({"a", "b", "%", "_", " ", "\\n", "\\\"", tame ? "A" : "\\\\", "'", "--"}) ; n = 0; for (std::size_t i = 0; i != s.size(); ++i, ++n) if (s[i] == '\\') ++i; x.s = '"' + s + '"'; x.t = {'c', n}; break; }
            case 'b': x.s = r.of({"TRUE", "FALSE"}); x.t.k = 'b'; break;
            case 't': case 'T': {
                const int y = r.p(slip) ? 0 : r.in(-99, 2100), mo = r.p(slip / 2) ? r.of({0, 13}) : r.in(1, 12), last = mo == 2 ? 28 : mo == 4 or mo == 6 or mo == 9 or mo == 11 ? 30 : 31;
                const int d = r.p(slip) ? r.of({0, last + 1 + (mo == 2)}) : r.p(.2) ? last : r.in(1, last);
                bool bad = y == 0 or mo < 1 or mo > 12 or d < 1 or (d > last);
                char b[64]; snprintf(b, sizeof b, y < 0 ? "%05d-%02d-%02d" : "%04d-%02d-%02d", y, mo, d); x.s = std::string("d'") + b;
                if (want == 'T') { const int h = r.p(slip / 3) ? 24 : r.in(0, 23), m = r.p(slip / 3) ? 60 : r.in(0, 59), s = r.p(slip / 3) ? 60 : r.in(0, 59); bad = bad or h > 23 or m > 59 or s > 59; snprintf(b, sizeof b, " %02d:%02d:%02d", h, m, s); x.s += b; }
                x.s += "'"; x.t.k = want; if (bad) x.t = err(); break;
            }
        }
        return x;
    }
    X divisor() { X x; x.konst = true; if (r.p(.2)) { x.s = r.of({"1.5", "0.25", "2."}); x.t.k = 'd'; } else { x.s = std::to_string(r.in(1, 9)); x.t = {'i', 4}; } return x; }
    char other(char want) { char c; do c = r.of({'n', 'c', 'b', 't', 'T'}); while (c == want); return c; }
    /** An expression of type family `want`. */
    X gen(char want, int d) {
        if (r.p(slip / 2)) want = other(want);
        if (want == '*') want = r.of({'n', 'n', 'c', 'b', 't', 'T'});
        if (d <= 0) return r.p(.75) ? column(want) : constant(want);
        auto both = [&](const X &a, const X &b, const std::string &op, Ty t) { X x; x.s = "(" + a.s + " " + op + " " + b.s + ")"; x.t = t; x.agg = a.agg or b.agg; x.konst = a.konst and b.konst; x.refs = a.refs + b.refs; if (a.t.k == 'e' or b.t.k == 'e') x.t = err(); return x; };
        switch (want) {
            case 'n': {
                if (r.p(agg_ok and where != AGGARG ? agg_p : slip / 4)) return aggregate(d);
                if (r.p(.25)) return column(want);
                if (r.p(.15)) { X a = gen('n', d - 1); a.s = r.of({"-", "+"}) + ("(" + a.s + ")"); if (not num(a.t)) a.t = err(); return a; }
                const std::string op = r.of({"+", "-", "*", "/", "%"});
                X a = gen('n', d - 1), b = tame and op != "+" and op != "-" ? divisor() : gen('n', d - 1);
                if (not num(a.t) or not num(b.t)) return both(a, b, op, err());
                const bool fl = a.t.k == 'f' or a.t.k == 'd' or b.t.k == 'f' or b.t.k == 'd';
                if (op == "%" and fl and not r.p(slip)) return both(a, b, "*", join(a.t, b.t));
                return both(a, b, op, op == "%" and fl ? err() : join(a.t, b.t));
            }
            case 'c': {
                if (r.p(.5)) return column(want);
                X a = gen('c', d - 1), b = gen('c', d - 1);
                if (not chr(a.t) or not chr(b.t)) return both(a, b, "..", err());
                return both(a, b, "..", Ty{'c', a.t.n + b.t.n, 0, a.t.vec or b.t.vec});
            }
            case 'b': {
                if (r.p(.15)) return column(want);
                if (r.p(.12)) { X a = gen('b', d - 1); a.s = "(NOT (" + a.s + "))"; if (a.t.k != 'b') a.t = err(); return a; }
                if (r.p(.12)) { X a = gen('*', d - 1); a.s = "ISNULL(" + a.s + (r.p(slip / 3) ? (err(), std::string(", 1")) : "") + ")"; a.konst = false; if (a.t.k == 'e') a.t = err(); else a.t = {'b', 0, 0, a.t.vec}; return a; }
                if (r.p(.3)) { X a = gen('b', d - 1), b = gen('b', d - 1); return both(a, b, r.of({"AND", "OR"}), a.t.k == 'b' and b.t.k == 'b' ? Ty{'b', 0, 0, a.t.vec or b.t.vec} : err()); }
                if (r.p(.15)) { X a = gen('c', d - 1), b = r.p(.7) ? constant('c') : gen('c', d - 1); return both(a, b, "LIKE", chr(a.t) and chr(b.t) ? Ty{'b', 0, 0, a.t.vec or b.t.vec} : err()); }
                const char f = r.of({'n', 'n', 'c', 't', 'T', 'b'});
                X a = gen(f, d - 1), b = gen(f, d - 1);
                const bool eq = r.p(.4) or (f == 'b' and not r.p(slip));
                bool okay = family(a.t, b.t); if (not eq and a.t.k == 'b') okay = false;
                return both(a, b, eq ? r.of({"=", "!="}) : r.of({"<", ">", "<=", ">="}), okay ? Ty{'b', 0, 0, a.t.vec or b.t.vec} : err());
            }
            default: return r.p(.7) ? column(want) : constant(want);
        }
    }
    X aggregate(int d) {
        const bool allowed = agg_ok and where != AGGARG;
        if (not allowed) err();
        const Where w = where; where = AGGARG;
        X x; x.agg = true;
        const std::string f = r.of({"SUM", "MIN", "MAX", "AVG", "COUNT"});
        if (f == "COUNT") {
            if (r.p(.3)) { x.s = "COUNT()"; x.t = {'i', 8}; where = w; return x; }
            X a = gen('*', d - 1); x.s = "COUNT(" + a.s + ")"; x.t = {'i', 8}; where = w; if (a.t.k == 'e') x.t = err(); return x;
        }
        X a = gen('n', d - 1);
        x.s = f + "(" + a.s + (r.p(slip / 4) ? (err(), std::string(", 1")) : "") + ")";
        if (not num(a.t)) x.t = err();
        else if (f == "AVG") x.t.k = 'd';
        else if (f == "SUM") { if (a.t.k == 'i') x.t = {'i', 8}; else if (a.t.k == 'D') x.t = {'D', Numeric::MAX_DECIMAL_PRECISION, a.t.s}; else x.t.k = 'd'; }
        else { x.t = a.t; x.t.vec = false; }
        where = w;
        return x;
    }
};

static const std::vector<Col> &table(const std::string &n) {
    static const std::map<std::string, std::vector<Col>> T{
        {"t", {{"a", {'i', 4}, 0}, {"b", {'i', 8}, 1}, {"c", {'c', 5}, 0}, {"d", {'t'}, 0}, {"e", {'T'}, 0}, {"f", {'f'}, 0}, {"g", {'d'}, 0}, {"h", {'D', 10, 2}, 0}, {"i", {'b'}, 0}, {"j", {'v', 7}, 0}, {"k", {'i', 1}, 0}}},
        {"x", {{"a", {'i', 4}, 0}, {"s", {'c', 12}, 0}, {"m", {'D', 5, 1}, 0}, {"i", {'b'}, 1}, {"x", {'i', 2}, 0}}},
        {"u", {{"p", {'i', 4}, 0}, {"q", {'d'}, 0}}}};
    return T.at(n);
}

struct Q { std::string s; std::vector<std::pair<std::string, Ty>> out; bool bad = false; std::vector<Ty> where, having, order; std::vector<Ty> keys;
    std::string from, cond, tail, limit; std::string part; std::vector<std::string> names; bool plain = false; unsigned sources = 0; };
/** A query, whether it is to be rejected, and the types of its expressions. */
static Q query(Rng &r, int depth, double slip, bool tame = false) {
    SG g{r}; g.slip = slip; g.tame = tame;
    Q q; bool bad = false;
    std::string from;
    std::vector<std::string> names;
    const int ns = r.p(.6) ? 1 : 2;
    for (int k = 0; k != ns; ++k) {
        Src s; std::string f; bool b = false;
        if (depth > 0 and r.p(.25)) {
            Q in = query(r, depth - 1, slip / 2, tame);
            s.name = r.of({"v", "w"}); f = "(" + in.s + ") AS " + s.name;
            b = in.bad;
            if (not g.src.empty() and r.p(slip)) { // other sources are not visible in a nested one
                const Src &o = r.pick(g.src);
                bool own = false; for (auto &n : in.names) own = own or n == o.name;
                if (not own) { f = "(SELECT " + o.name + "." + r.pick(o.cols).name + " AS corr, " + in.s.substr(7) + ") AS " + s.name; b = true; }
            }
            for (auto &[n, t] : in.out) { s.cols.push_back({n, t, false}); s.cols.back().t.vec = true; }
        } else {
            const std::string n = r.of({"t", "t", "x", "u"});
            s.cols = table(n); f = n; s.name = n;
            if (r.p(.3)) { s.name = r.of({"r1", "r2", "t", "x"}); f += (r.p(.5) ? " AS " : " ") + s.name; }
            if (r.p(slip / 4)) { f = "nope"; b = true; }
        }
        const bool dup = std::find(names.begin(), names.end(), s.name) != names.end();
        if (dup and not r.p(slip)) { --k; continue; }
        if (dup or b) bad = true;
        names.push_back(s.name); from += (k ? ", " : "") + f; g.src.push_back(s);
    }
    q.s = q.from = " FROM " + from; q.names = names;
    std::string joined; // the queries that are executed join their sources, for Cartesian products are not supported
    if (tame and g.src.size() == 2) {
        auto family = [](const Ty &t) { return num(t) ? 'n' : t.k == 'v' ? 'c' : t.k; };
        std::vector<std::string> ways;
        for (auto &c : g.src[0].cols) for (auto &d : g.src[1].cols) {
            const std::string x = g.src[0].name + "." + c.name, y = g.src[1].name + "." + d.name;
            if (c.t.vec and d.t.vec and family(c.t) == family(d.t)) ways.push_back(x + r.of({" = ", " = ", " = ", family(c.t) == 'b' ? " != " : " < "}) + y);
            else if (family(c.t) == 'b' and family(d.t) == 'b') ways.push_back(x + " OR " + y);
        }
        if (ways.empty()) return query(r, 0, slip, tame);
        joined = r.pick(ways);
    }
    if (not joined.empty() and r.p(.5)) q.s += " WHERE " + joined;
    else if (r.p(.5) or not joined.empty()) { g.agg_ok = false; X w = g.gen('b', r.in(1, 3)); q.s += " WHERE " + (joined.empty() ? w.s : r.p(.5) ? w.s + " AND (" + joined + ")" : "(" + joined + ") AND (" + w.s + ")"); if (w.t.k != 'b') bad = true; q.where.push_back(w.t); }
    q.cond = q.s.substr(q.from.size());
    if (tame) { g.agg_ok = false; const bool e = g.is_error; X p = g.gen('b', r.in(1, 2)); q.part = p.t.k == 'b' and not g.is_error ? p.s : ""; g.is_error = e; }
    const bool group = r.p(.35), having_only = not group and r.p(.05);
    if (group) {
        q.s += " GROUP BY ";
        std::vector<Col> keys;
        for (int k = 0, n = r.in(1, 3); k != n; ++k) {
            X e = g.gen('*', r.in(0, 2));
            std::string name;
            const bool plain = e.refs == 1 and e.s.find_first_of("( +-\"") == std::string::npos;
            if (plain and not r.p(.3)) { auto p = e.s.find('.'); name = p == std::string::npos ? e.s : e.s.substr(p + 1); }
            std::string used; for (auto &c : keys) if (c.name == name) used = "x";
            if (name.empty() or not used.empty()) { name = "g" + std::to_string(k); q.s += (k ? ", " : "") + e.s + " AS " + name; } else q.s += (k ? ", " : "") + e.s;
            if (e.t.k == 'e' or not e.t.vec) bad = true;
            q.keys.push_back(e.t);
            Ty t = e.t; t.vec = false; keys.push_back({name, t, false});
        }
        g.keys = keys; // a key does not see the names of others
    }
    g.grouped = group or having_only;
    if (group ? r.p(.3) : having_only) { g.agg_ok = true; X h = g.gen('b', r.in(1, 2)); q.s += " HAVING " + h.s; if (h.t.k != 'b' or h.t.vec) bad = true; q.having.push_back(h.t); }
    const bool aggs = not g.grouped and r.p(.3);
    g.agg_ok = true; g.agg_p = g.grouped or aggs ? .45 : slip / 4;
    std::string sel; bool single = false, rows = false, any_agg = false; std::vector<Col> res;
    if (aggs) g.slip = slip;
    for (int k = 0, n = r.in(1, 4); k != n; ++k) {
        X e;
        if (aggs) { e = r.p(.9) ? g.aggregate(2) : g.gen('*', 1); if (r.p(.3) and num(e.t)) { e.s = "(" + e.s + " * 2)"; e.t = join(e.t, {'i', 4}); } }
        else e = g.gen('*', r.in(0, 3));
        if (g.grouped and e.t.vec) bad = true;
        any_agg = any_agg or e.agg;
        if (e.t.k != 'e' and not e.konst) { if (e.t.vec) rows = true; if (not e.t.vec or e.agg) single = true; }
        const bool plain = e.refs == 1 and not e.konst and e.s.find_first_of("( +-\"") == std::string::npos;
        std::string name = "o" + std::to_string(k);
        if (plain and r.p(.5)) { auto p = e.s.find('.'); name = p == std::string::npos ? e.s : e.s.substr(p + 1); if (name[0] == 'o') name = "o" + std::to_string(k); for (auto &c : res) if (c.name == name) name = "o" + std::to_string(k); }
        bool alias = name[0] == 'o';
        if (r.p(.1)) { // names of grouping keys and of columns may be given to something else
            std::vector<std::string> taken; for (auto &c : g.keys) taken.push_back(c.name); if (taken.empty() or r.p(.2)) for (auto &f : g.src) for (auto &c : f.cols) taken.push_back(c.name);
            std::string n = r.pick(taken); if (n[0] == 'o') n.clear(); for (auto &c : res) if (c.name == n) n.clear();
            if (not n.empty()) { name = n; alias = true; }
        }
        if (not res.empty() and r.p(slip)) { name = r.pick(res).name; alias = true; } // names may occur twice, but not be referred to
        sel += (k ? ", " : "") + e.s + (alias ? " AS " + name : "");
        if (e.t.k == 'e') bad = true;
        q.out.emplace_back(name, e.t); res.push_back({name, e.t, false});
    }
    if (rows and single) bad = true;
    if (r.p(.3)) {
        /* names of what is selected come first, then grouping keys, then the sources */
        g.results = res;
        q.s += " ORDER BY ";
        for (int k = 0, n = r.in(1, 2); k != n; ++k) {
            X e = r.p(.6) ? g.column(r.of({'n', 'c', 'b', 't'})) : g.gen('*', r.in(0, 2));
            q.s += (k ? ", " : "") + e.s + r.of({"", " ASC", " DESC"});
            if (e.t.k == 'e' or e.t.vec != not g.grouped) bad = true;
            if (not g.grouped and e.agg) bad = true;
            q.order.push_back(e.t);
        }
        if (any_agg and not g.grouped) bad = true; // a single row has no order
    }
    q.tail = q.s.substr(q.from.size() + q.cond.size());
    q.plain = not g.grouped and not any_agg; q.sources = ns;
    q.s = "SELECT " + sel + q.s; q.from = "SELECT " + sel + q.from;
    if (r.p(.1)) q.limit = " LIMIT " + std::to_string(r.in(0, 99)) + (r.p(.5) ? " OFFSET 3" : ""), q.s += q.limit;
    q.bad = bad or g.is_error;
    return q;
}

static void sema() {
    setup_db();
    if (Nat::get().shard == 0) { // the escape is accepted by the lexer
        at("SELECT \"\\t\";");
        std::ostringstream out, err; Diagnostic diag(false, out, err);
        auto st = statement_from_string(diag, "SELECT \"\\t\";");
        const Ty t = of_type(as<const SelectClause>(*as<const SelectStmt>(*st).select).select[0].first->type());
        if (t.n != 1) finding("tabulator-escape", "the string of a single tabulator escape has type " + show(t));
    }
    cases([](Rng &r, u64) {
        const double slip = r.p(.5) ? 0 : .05;
        std::ostringstream out, err; Diagnostic diag(false, out, err);
        auto analyse = [&](const std::string &s) {
            at(s);
            std::istringstream in(s);
            Lexer lexer(diag, Catalog::Get().get_pool(), "-", in); Parser parser(lexer);
            auto ast = parser.parse();
            if (diag.num_errors()) { fail("syntax", "syntax error: " + err.str()); return std::unique_ptr<DatabaseCommand>(); }
            Sema S(diag); auto c = S.analyze(std::move(ast));
            HV_CHECK(bool(c) == not diag.num_errors(), "command", (c ? "command despite of errors: " : "no command and no errors: ") << err.str());
            return c;
        };
        if (r.p(.12)) { // INSERT
            SG g{r}; g.slip = slip;
            const std::string tn = r.of({"t", "x", "u"}); auto &cols = table(tn);
            std::string s = "INSERT INTO " + tn + " VALUES "; bool bad = false;
            for (int k = 0, n = r.in(1, 3); k != n; ++k) {
                s += k ? ", (" : "(";
                std::size_t m = cols.size(); if (r.p(slip)) { m += r.of({1, -1}); bad = true; }
                for (std::size_t i = 0; i != m; ++i) {
                    if (i) s += ", ";
                    const Col c = i < cols.size() ? cols[i] : cols[0];
                    if (r.p(c.notnull ? slip : .2)) { s += "NULL"; if (c.notnull) bad = true; continue; }
                    if (r.p(.05)) { s += "DEFAULT"; continue; }
                    const char f = num(c.t) ? 'n' : chr(c.t) ? 'c' : c.t.k;
                    X e = r.p(slip) ? g.constant(r.of({'n', 'c', 'b', 't', 'T'})) : r.p(.2) ? g.gen(f, 1) : g.constant(f);
                    s += e.s; if (e.t.k == 'e' or not family(e.t, c.t)) bad = true;
                }
                s += ")";
            }
            bad = bad or g.is_error;
            auto c = analyse(s + ";");
            HV_CHECK(bool(c) == not bad, bad ? "accepted-wrong" : "rejected-right", (bad ? "accepted: " : "rejected: " + err.str()) << s);
            count(std::string("INSERT ") + (bad ? "to be rejected" : "to be accepted")); ok(hash(s));
            return;
        }
        if (r.p(.12)) { // CREATE TABLE
            SG g{r}; g.slip = slip;
            const std::string tn = r.p(slip) ? "t" : "fresh";
            bool bad = tn == "t"; std::string s = "CREATE TABLE " + tn + " (";
            std::vector<Col> cols; g.src.push_back({tn, {}}); bool pk = false;
            for (int k = 0, n = r.in(1, 5); k != n; ++k) {
                Col c; c.name = std::string(1, char('a' + k)); c.notnull = false;
                if (k and r.p(slip)) { c.name = "a"; bad = true; }
                static const Ty TY[] = {{'i', 1}, {'i', 2}, {'i', 4}, {'i', 8}, {'f'}, {'d'}, {'D', 10, 2}, {'D', 5, 1}, {'b'}, {'c', 5}, {'c', 12}, {'v', 7}, {'t'}, {'T'}};
                c.t = TY[r.in(0, std::size(TY) - 1)];
                auto ty = show(c.t); ty = ty.substr(0, ty.rfind(' ')); if (auto p = ty.find(','); p != std::string::npos) ty.insert(p + 1, " ");
                s += (k ? ", " : "") + c.name + " " + ty;
                g.src[0].cols.push_back(c);
                if (r.p(.2) and (not pk or r.p(slip))) { s += " PRIMARY KEY"; if (pk) bad = true; pk = true; }
                if (r.p(.2)) s += r.of({" UNIQUE", " NOT NULL"});
                if (r.p(.2) and not bad) { X e = g.gen('b', r.in(1, 2)); s += " CHECK (" + e.s + ")"; if (e.t.k != 'b') bad = true; }
                if (r.p(.25)) {
                    const std::string rt = r.of({"t", "x", "u"}); std::vector<std::string> m; for (auto &o : table(rt)) if (o.t.k == c.t.k and o.t.n == c.t.n and o.t.s == c.t.s) m.push_back(o.name);
                    if (not m.empty() and not r.p(slip)) s += " REFERENCES " + rt + "(" + r.pick(m) + ")";
                    else if (r.p(slip)) { auto &o = table(rt)[r.in(0, table(rt).size() - 1)]; s += " REFERENCES " + rt + "(" + o.name + ")"; if (o.t.k != c.t.k or o.t.n != c.t.n or o.t.s != c.t.s) bad = true; }
                    else if (r.p(slip)) { s += r.of({" REFERENCES nope(a)", " REFERENCES t(nope)"}); bad = true; }
                }
            }
            s += ")"; bad = bad or g.is_error;
            auto c = analyse(s + ";");
            HV_CHECK(bool(c) == not bad, bad ? "accepted-wrong" : "rejected-right", (bad ? "accepted: " : "rejected: " + err.str()) << s);
            count(std::string("CREATE TABLE ") + (bad ? "to be rejected" : "to be accepted")); ok(hash(s));
            return;
        }
        Q q = query(r, r.in(0, 2), slip);
        auto c = analyse(q.s + ";");
        HV_CHECK(bool(c) == not q.bad, q.bad ? "accepted-wrong" : "rejected-right", (q.bad ? "accepted although it breaks a rule: " : "rejected: " + err.str() + " -- ") << q.s);
        count(std::string("SELECT ") + (q.bad ? "to be rejected" : "to be accepted"));
        if (c and not q.bad) {
            auto &st = as<const SelectStmt>(c->ast());
            auto same = [&](const Expr &e, const Ty &t, const char *what) {
                const Ty u = of_type(e.type());
                HV_CHECK(u.k == t.k and u.n == t.n and u.s == t.s and u.vec == t.vec, "type", what << " " << e << " has type " << show(u) << " instead of " << show(t));
                count("types compared");
            };
            auto &sel = as<const SelectClause>(*st.select).select;
            HV_CHECK(sel.size() == q.out.size(), "arity", sel.size() << " expressions");
            for (std::size_t i = 0; i != std::min(sel.size(), q.out.size()); ++i) same(*sel[i].first, q.out[i].second, "selected expression");
            if (st.where) same(*as<const WhereClause>(*st.where).where, q.where[0], "condition");
            if (st.having) same(*as<const HavingClause>(*st.having).having, q.having[0], "condition on groups");
            if (st.group_by) for (std::size_t i = 0; i != q.keys.size(); ++i) same(*as<const GroupByClause>(*st.group_by).group_by[i].first, q.keys[i], "grouping key");
            if (st.order_by) for (std::size_t i = 0; i != q.order.size(); ++i) same(*as<const OrderByClause>(*st.order_by).order_by[i].first, q.order[i], "ordering key");
        }
        ok(hash(q.s));
    });
}

/*----- execution ------------------------------------------------------------------------------------------------------*/
static std::string literal(Rng &r, const Ty &t) {
    char b[64];
    switch (t.k) {
        case 'i': return std::to_string(r.in(-9, 20));
        case 'f': case 'd': snprintf(b, sizeof b, "%.3f", double(r.in(-40, 80)) / 8); return b;
        case 'D': snprintf(b, sizeof b, "%d.%d", int(r.in(-9, 20)), int(r.in(0, 9))); return b;
        case 'b': return r.p(.5) ? "TRUE" : "FALSE";
        case 'c': case 'v': return r.of({"\"\"", "\"a\"", "\"abc\"", "\"%a_\"", "\"\\\"x\"", "\"zz\""});
        case 't': snprintf(b, sizeof b, "d'%04d-%02d-%02d'", int(r.in(1, 2100)), int(r.in(1, 12)), int(r.in(1, 28))); return b;
        default: snprintf(b, sizeof b, "d'%04d-%02d-%02d %02d:00:59'", int(r.in(1, 2100)), int(r.in(1, 12)), int(r.in(1, 28)), int(r.in(0, 23))); return b;
    }
}
/** Every accepted query is answered, by rows of the types and names that its analysis announced, again and again. */
static void execution() {
    auto &C = Catalog::Get();
    Options::Get().quiet = true;
    auto run = [&](const std::string &s) { std::ostringstream o, e; Diagnostic d(false, o, e); auto st = statement_from_string(d, s); execute_statement(d, *st); if (d.num_errors()) fail("setup", s + e.str()); };
    { Rng r(Nat::get().seed * 1000 + Nat::get().shard);
      std::vector<std::string> L; for (auto it = C.data_layouts_begin(); it != C.data_layouts_end(); ++it) L.push_back(*it->first);
      std::sort(L.begin(), L.end()); C.default_data_layout(C.pool(r.pick(L).c_str()));
      setup_db();
      for (auto tn : {"t", "x", "u"}) { const int n = r.p(.1) ? 0 : int(r.in(1, 6)); for (int k = 0; k != n; ++k) { std::string v; for (auto &c : table(tn)) v += (v.empty() ? "" : ", ") + (not c.notnull and std::string(c.name) != "k" and r.p(.25) ? "NULL" : literal(r, c.t)); run(std::string("INSERT INTO ") + tn + " VALUES (" + v + ");"); } } }
    cases([&](Rng &r, u64) {
        C.timer().clear();
        Q q = query(r, int(r.in(0, 2)), 0, true);
        if (q.bad) return;
        const std::string s = q.s + ";"; at(s);
        std::ostringstream out, err; Diagnostic diag(false, out, err);
        auto rows_of = [&](const std::string &s, bool check, bool command = false) {
            std::vector<std::string> rows;
            auto st = statement_from_string(diag, s);
            HV_CHECK(st and diag.num_errors() == 0, "rejected", s << ": " << err.str());
            if (not st or diag.num_errors()) return rows;
            auto cb = std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &t) {
                if (check) {
                    check = false;
                    HV_CHECK(S.num_entries() == q.out.size(), "columns", S.num_entries() << " columns instead of " << q.out.size());
                    for (std::size_t i = 0; i < S.num_entries() and i < q.out.size(); ++i) {
                        const Ty u = of_type(S[i].type), &w = q.out[i].second;
                        HV_CHECK(u.k == w.k and u.n == w.n and u.s == w.s, "type", "column " << i << " has type " << show(u) << " instead of " << show(w));
                        HV_CHECK(*S[i].id.name == q.out[i].first, "name", "column " << i << " is named " << *S[i].id.name << " instead of " << q.out[i].first);
                    }
                }
                std::ostringstream o;
                for (std::size_t i = 0; i != S.num_entries(); ++i) {
                    if (i) o << '|';
                    if (t.is_null(i)) { o << "NULL"; HV_CHECK(S[i].nullable(), "null", "column " << i << " is said never to be NULL, and is"); continue; }
                    t[i].print(o, *S[i].type);
                    if (auto cs = cast<const CharacterSequence>(S[i].type)) HV_CHECK(strnlen(reinterpret_cast<const char*>(t[i].as<void*>()), cs->length + 1) <= cs->length, "length", "column " << i << " is longer than its type " << *cs);
                    if (S[i].type->is_boolean()) { count("Booleans"); }
                }
                rows.push_back(o.str()); count("rows");
            });
            if (command) command_path(as<SelectStmt>(*st), std::move(cb));
            else execute_query(diag, as<SelectStmt>(*st), std::move(cb));
            return rows;
        };
        auto sorted = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
        const bool exact = q.s.find("LIMIT") == std::string::npos; // which rows a limit takes depends on the plan
        const auto a = rows_of(s, true), b = rows_of(s, false);
        if (r.p(.5)) {   // as a command, with all optimizations registered in the catalog
            const auto c = rows_of(s, true, true);
            if (exact) HV_CHECK(sorted(a) == sorted(c), "command", "as a command, the query gives " << c.size() << " rows instead of " << a.size() << ", or other ones");
            count("relation:command");
        }
        if (r.p(.3)) {   // every stage can be shown, and showing it changes nothing; a benchmark only counts the rows
            std::ostringstream d1, e1; Diagnostic dg(false, d1, e1);
            auto st = statement_from_string(dg, s);
            std::ostringstream o;
            st->dump(o); st->dot(o);
            auto G = QueryGraph::Build(as<SelectStmt>(*st));
            G->dump(o); G->dot(o);
            Optimizer opt(C.plan_enumerator(), C.cost_function());
            std::unique_ptr<Producer> P = opt(*G);
            P->dump(o); P->dot(o); o << *P;
            for (auto &x : C.logical_post_optimizations()) P = (*x.second).operator()(std::move(P));
            P->dump(o); P->dot(o);
            auto N = std::make_unique<NoOpOperator>(o); N->add_child(P.release());
            auto be = C.create_backend();
            PhysicalOptimizerImpl<ConcretePhysicalPlanTable> phys;
            be->register_operators(phys); phys.cover(*N);
            auto plan = phys.extract_plan(); plan->dump(o);
            const auto pos = o.str().size();
            be->execute(*plan);
            const std::string n = o.str().substr(pos);
            HV_CHECK(n == std::to_string(a.size()) + " rows\n" or not exact, "benchmark", "a benchmark counts " << n << " instead of " << a.size() << " rows");
            HV_CHECK(pos > 1000, "shown", "nothing is shown"); count("relation:shown and counted");
        }
        HV_CHECK(a == b, "again", "the same query gives " << a.size() << " rows and " << b.size() << " rows, or other ones");
        /* what follows compares rows of different queries; sums of rows in different orders may be rounded differently */
        const std::string relation = r.of({"nest", "part", "limit", "shuffle"});
        if (relation == "nest" and exact) {
            const auto c = rows_of("SELECT * FROM (" + q.s + ") AS outermost;", true);
            HV_CHECK(sorted(a) == sorted(c), "nest", "selecting everything from it gives " << c.size() << " rows instead of " << a.size() << ", or other ones");
            count("relation:nested");
        } else if (relation == "part" and exact and q.plain and not q.part.empty()) {
            std::vector<std::string> u;
            for (std::string p : {"(" + q.part + ")", "(NOT " + q.part + ")", "ISNULL(" + q.part + ")"}) {
                auto v = rows_of(q.from + (q.cond.empty() ? " WHERE " + p : r.p(.5) ? " WHERE (" + q.cond.substr(7) + ") AND " + p : " WHERE " + p + " AND (" + q.cond.substr(7) + ")") + q.tail + ";", true);
                if (v.size() and v.size() != a.size()) count("partitions that are proper");
                u.insert(u.end(), v.begin(), v.end());
            }
            HV_CHECK(sorted(a) == sorted(u), "partition", a.size() << " rows, but " << u.size() << " for which " << q.part << " is true, false, or unknown; or other ones");
            count("relation:partitioned");
        } else if (relation == "limit" and exact) {
            const std::size_t l = r.in(0, 6), o = r.in(0, 4);
            auto c = sorted(rows_of(q.s + " LIMIT " + std::to_string(l) + (o or r.p(.3) ? " OFFSET " + std::to_string(o) : "") + ";", true)); const auto all = sorted(a);
            HV_CHECK(c.size() == std::min(l, a.size() - std::min(o, a.size())), "limit", c.size() << " rows for limit " << l << " offset " << o << " out of " << a.size());
            HV_CHECK(std::includes(all.begin(), all.end(), c.begin(), c.end()), "limit-rows", "a limit gives rows that are not in the result");
            count("relation:limited");
        } else if (relation == "shuffle") {
            /* another plan enumerator */
            std::vector<std::string> E; for (auto it = C.plan_enumerators_begin(); it != C.plan_enumerators_end(); ++it) E.push_back(*it->first);
            std::sort(E.begin(), E.end());
            const std::string was = *C.default_plan_enumerator_name();
            const std::string e = r.pick(E);
            C.default_plan_enumerator(C.pool(e.c_str()));
            const auto c = rows_of(s, true);
            C.default_plan_enumerator(C.pool(was.c_str()));
            if (q.s.find("AVG(") != std::string::npos or q.s.find("SUM(") != std::string::npos) count("rounded in another order: not compared");
            else if (exact) HV_CHECK(sorted(a) == sorted(c), "enumerator", "with the plan enumerator " << e << ": " << c.size() << " rows instead of " << a.size() << ", or other ones");
            else if (not q.limit.empty() and q.s.find("LIMIT") == q.s.rfind("LIMIT")) HV_CHECK(a.size() == c.size(), "enumerator-count", "with the plan enumerator " << e << ": " << c.size() << " rows instead of " << a.size());
            count("relation:" + e);
        }
        HV_CHECK(diag.num_errors() == 0, "errors", err.str());
        count("queries executed"); if (a.empty()) count("queries without rows");
        ok(hash(s), not a.empty()); sample(s);
    });
}

/*---- tokens --------------------------------------------------------------------------------------------------------*/

namespace {

struct Tok { std::string type, text; unsigned line, column; bool open = false; }; // open: only the kind of error is specified, not where it ends

bool dig(char c, int base) { return c >= '0' and c < '0' + std::min(base, 10) ? true : base == 16 and ((c >= 'a' and c <= 'f') or (c >= 'A' and c <= 'F')); }
std::size_t span(const std::string &s, std::size_t i, int base) { while (i < s.size() and dig(s[i], base)) ++i; return i; }

/** The number at the beginning of `x`: digits, fraction and exponent, as far as they go. Returns its kind and its length. */
std::pair<std::string, std::size_t> number(const std::string &x) {
    const bool hex = x.size() > 1 and x[0] == '0' and (x[1] == 'x' or x[1] == 'X');
    const std::size_t b = hex ? 2 : 0;
    std::size_t i = span(x, b, hex ? 16 : 10), whole = i - b, frac = 0; bool dot = false, exp = false, expdig = true;
    if (i < x.size() and x[i] == '.') { dot = true; auto j = span(x, i + 1, hex ? 16 : 10); frac = j - i - 1; i = j; }
    if (i < x.size() and (hex ? x[i] == 'p' or x[i] == 'P' : x[i] == 'e' or x[i] == 'E')) {
        exp = true; ++i;
        if (i < x.size() and (x[i] == '+' or x[i] == '-')) ++i;
        auto j = span(x, i, 10); expdig = j != i; i = j;
    }
    if (whole + frac == 0 or not expdig) return {"ERROR", i};
    if (hex) return {dot or exp ? "HEX_FLOAT" : "HEX_INT", i};
    if (dot or exp) return {"DEC_FLOAT", i};
    if (x[0] != '0') return {"DEC_INT", i};
    return {span(x, 0, 8) == i ? "OCT_INT" : "ERROR", i};
}

const std::map<std::string, std::string> &keywords() {
    static const std::map<std::string, std::string> k{
#define M_KEYWORD(tok, text) {#text, #tok},
#include <mutable/tables/Keywords.tbl>
#undef M_KEYWORD
    };
    return k;
}

/** The tokens of a text. `len(i, t)` is asked for the extent of a token whose end is not specified. */
std::vector<Tok> tokens(const std::string &s, const std::function<std::size_t(std::size_t)> &len) {
    static const std::pair<const char*, const char*> P[] = {{"..", "DOTDOT"}, {"!=", "BANG_EQUAL"}, {"<=", "LESS_EQUAL"}, {">=", "GREATER_EQUAL"}, {"(", "LPAR"}, {")", "RPAR"}, {"~", "TILDE"}, {"+", "PLUS"}, {"-", "MINUS"},
        {"*", "ASTERISK"}, {"/", "SLASH"}, {"%", "PERCENT"}, {"=", "EQUAL"}, {"<", "LESS"}, {">", "GREATER"}, {",", "COMMA"}, {".", "DOT"}, {";", "SEMICOL"}};
    auto alpha = [](char c) { return c == '_' or (c >= 'a' and c <= 'z') or (c >= 'A' and c <= 'Z'); };
    std::vector<Tok> r; unsigned line = 1, col = 1; std::size_t i = 0;
    auto skip = [&](std::size_t n) { for (; n and i < s.size(); --n, ++i) if (s[i] == '\n') ++line, col = 1; else ++col; };
    for (;;) {
        if (i < s.size() and strchr(" \t\v\f\n\r", s[i])) { skip(1); continue; }
        if (s.compare(i, 2, "--") == 0) { auto e = s.find('\n', i); skip(e == std::string::npos ? s.size() - i : e - i); continue; }
        Tok t{"EOF", "EOF", line, col};
        if (i == s.size()) { r.push_back(t); return r; }
        const std::string x = s.substr(i); std::size_t n = 1;
        if (dig(x[0], 10) or (x[0] == '.' and x.size() > 1 and dig(x[1], 10))) std::tie(t.type, n) = number(x);
        else if (x[0] == '"') {
            bool bad = false; n = 1;
            while (n < x.size() and x[n] != '"') { if (x[n] == '\\' and n + 1 < x.size()) { ++n; bad |= not strchr("\"\\nt", x[n]); } ++n; }
            if (n == x.size()) t.type = "ERROR"; else { ++n; t.type = bad ? "ERROR" : "STRING_LITERAL"; }
        } else if (x.compare(0, 2, "d'") == 0) {
            std::string shape; for (std::size_t k = 2; k < x.size() and k < 24; ++k) shape += dig(x[k], 10) ? '0' : x[k];
            t.type = "ERROR"; t.open = true;
            for (std::string bc : {"", "-"}) for (std::string time : {"", " 00:00:00"}) {
                const std::string want = bc + "0000-00-00" + time + "'";
                if (shape.compare(0, want.size(), want) == 0) { t.type = time.empty() ? "DATE" : "DATE_TIME"; t.open = false; n = want.size() + 2; }
            }
            if (t.open) { n = len(i); }
        } else if (x[0] == '\\') { t.type = "INSTRUCTION"; n = std::min(x.find(';'), x.size()); }
        else if (alpha(x[0])) {
            while (n < x.size() and (alpha(x[n]) or dig(x[n], 10))) ++n;
            auto k = keywords().find(x.substr(0, n)); t.type = k == keywords().end() ? "IDENTIFIER" : k->second;
        } else {
            t.type = "ERROR";
            for (auto &[p, name] : P) if (x.compare(0, strlen(p), p) == 0) { t.type = name; n = strlen(p); break; }
        }
        t.text = x.substr(0, n);
        skip(n);
        r.push_back(t);
    }
}

std::string piece(Rng &r) {
    auto digits = [&](const char *set, int n) { std::string d; const std::size_t k = strlen(set); for (; n > 0; --n) d += set[r.in(0, k - 1)]; return d; };
    static std::vector<std::string> kw; if (kw.empty()) for (auto &k : keywords()) kw.push_back(k.first);
    switch (r.in(0, 9)) {
        case 0: case 1: case 2: { // a number, or nearly
            const bool hex = r.p(.4);
            const char *set = hex ? "0123456789abcdefABCDEF" : r.p(.3) ? "01234567" : "0123456789";
            std::string n = hex ? (r.p(.5) ? "0x" : "0X") : r.p(.25) ? "0" : "";
            n += digits(set, r.in(0, r.p(.05) ? 40 : 3));
            if (r.p(.4)) n += "." + digits(set, r.in(0, 3));
            if (r.p(.4)) { n += hex == r.p(.8) ? (r.p(.5) ? "p" : "P") : (r.p(.5) ? "e" : "E"); if (r.p(.4)) n += r.p(.5) ? "-" : "+"; n += digits("0123456789", r.in(0, 3)); }
            return n;
        }
        case 3: { std::string k = r.pick(kw); if (r.p(.25)) k[r.in(0, k.size() - 1)] ^= 0x20; if (r.p(.15)) k += r.of<std::string>({"_", "1", "x", "S"}); if (r.p(.1)) k.pop_back(); return k; }
        case 4: return r.of<std::string>({"_", "a", "b9", "_0", "d", "dd", "e1", "x", "x1", "p2", "d1", "Z_z9", "E", "INT4", "dE", "ex", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"});
        case 5: { std::string w = "\""; for (int n = r.in(0, 5); n--; ) w += r.of<std::string>({"a", " ", "\\\"", "\\\\", "\\n", "\\t", "--", "'", "\n", "\\x", ";", "d'"}); if (not r.p(.12)) w += "\""; return w; }
        case 6: { // a date, or nearly
            std::string d = "d'"; if (r.p(.15)) d += "-";
            d += digits("0123456789", r.p(.9) ? 4 : r.in(0, 5)) + (r.p(.95) ? "-" : "") + digits("0123456789", r.p(.95) ? 2 : r.in(0, 3)) + "-" + digits("0123456789", r.p(.95) ? 2 : r.in(0, 3));
            if (r.p(.4)) d += r.of<std::string>({" ", " ", " ", "T", "  "}) + digits("0123456789", 2) + ":" + digits("0123456789", r.p(.95) ? 2 : 1) + ":" + digits("0123456789", r.p(.95) ? 2 : 3);
            return r.p(.92) ? d + "'" : d;
        }
        case 7: return r.of<std::string>({" ", "\n", "\t", "\r\n", "\v", "\f", "--", "-- x\n", "--\n", "- -", "---\n", "  \n\n "});
        case 8: return r.p(.1) ? r.of<std::string>({"\\help", "\\", "\\a b", "\\\"x"}) : r.p(.2) ? std::string(1, char(r.in(1, 255))) : r.of<std::string>({"!", "#", "$", "'", "&", "?", "[", "{", "|", "^", "@", ":", "`", "\x7f", "\xc3\xa4"});
        default: return r.of<std::string>({"(", ")", "~", "+", "-", "*", "/", "%", "=", "!=", "<", "<=", ">", ">=", ",", ";", ".", "..", "...", "<>", "=<", "==", "!!=", ".-", "<=="});
    }
}

}

static void lexing() {
    cases([](Rng &r, u64) {
        std::string s;
        const bool tight = r.p(.6);
        for (int n = r.in(1, r.p(.1) ? 40 : 8); n--; ) { s += piece(r); if (not tight and r.p(.7)) s += r.of<std::string>({" ", "\n", " --c\n", "\t"}); }
        if (s.find('\0') != std::string::npos) return;
        at(s);
        std::ostringstream out, err; Diagnostic diag(false, out, err);
        std::istringstream is(s, std::ios::in); std::stringstream ss; ss << s;
        const bool both = r.p(.5); count(both ? "stream that can be written" : "stream that is read only");
        Lexer lexer(diag, Catalog::Get().get_pool(), "here", both ? (std::istream&) ss : is);
        std::vector<Token> got; std::map<std::size_t, std::size_t> at_;
        std::vector<std::size_t> line{0}; for (std::size_t i = 0; i != s.size(); ++i) if (s[i] == '\n') line.push_back(i + 1);
        std::size_t errors = 0;
        for (;;) {
            got.push_back(lexer.next());
            auto &t = got.back();
            if (t.pos.line and t.pos.line <= line.size()) at_[line[t.pos.line - 1] + t.pos.column - 1] = txt(t).size();
            errors += t.type == TK_ERROR;
            if (t.type == TK_EOF or got.size() > s.size() + 2) break;
        }
        auto want = tokens(s, [&](std::size_t i) { auto f = at_.find(i); return f == at_.end() ? std::size_t(2) : std::max<std::size_t>(2, std::min(f->second, s.size() - i)); });
        bool num = false;
        for (std::size_t i = 0; i != want.size(); ++i) {
            auto &w = want[i]; count(w.type);
            num |= w.type == "ERROR" or w.type.find('_') != std::string::npos;
            std::ostringstream o; if (i < got.size()) o << got[i].type;
            if (i >= got.size() or o.str() != "TK_" + w.type or txt(got[i]) != w.text) {
                fail("token", "token " + std::to_string(i) + " is " + (i < got.size() ? o.str() + " '" + txt(got[i]) + "'" : std::string("missing")) + " instead of TK_" + w.type + " '" + w.text + "'");
                return;
            }
            HV_CHECK(got[i].pos.line == w.line and got[i].pos.column == w.column and std::string(got[i].pos.name) == "here", "token-position", "token " << i << " '" << w.text << "' at " << got[i].pos << " instead of " << w.line << ":" << w.column);
            HV_CHECK(not w.open or s.compare(line[w.line - 1] + w.column - 1, w.text.size(), w.text) == 0, "token-text", "token " << i << " '" << w.text << "' is not the text at its position");
        }
        HV_CHECK(got.size() == want.size(), "token-count", got.size() << " tokens instead of " << want.size());
        HV_CHECK(diag.num_errors() == errors, "token-errors", diag.num_errors() << " errors reported for " << errors << " malformed tokens: " << err.str());
        ok(hash(s), want.size() > 2 and num);
        sample(s.substr(0, 80));
    });
}

int main(int argc, char **argv) {
    m::init();
    Options::Get().has_color = false;
    return nat_main(argc, argv, {{"roundtrip", roundtrip}, {"cnf", cnfs}, {"fuzz", fuzz}, {"recovery", recovery}, {"sema", sema}, {"exec", execution}, {"lex", lexing}, {"one", [] { setup_db(); for (auto &t : session(Nat::get().opt["text"], true)) emit("{\"e\":\"sample\",\"s\":" + esc((t.second ? "(rejected) " : "") + t.first) + "}"); }}});
}
