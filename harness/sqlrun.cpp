// Executes SQL against the real library, one command per request; the oracle lives in the driver.
//   R           reset the catalog, create and use database "db"
//   S <sql>     the shell's path: lexer -> parser -> sema -> scheduler (autocommit) -> text output
//   Q <sql>     the API path for one SELECT: typed result tuples
//   X <sql>     the API path for one other statement (statement_from_string + execute_statement)
//   O k=v       options / default components
#include "json.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include "parse/Parser.hpp"
#include "parse/Sema.hpp"
#include "lex/Lexer.hpp"
#include "cmdpath.hpp"

using namespace m;
using namespace hv;

static std::string value(const Type *ty, const Tuple &t, std::size_t i)
{
    if (t.is_null(i)) return "null";
    std::string r;
    visit(overloaded {
        [&](const Boolean&) { r = t[i].as_b() ? "true" : "false"; },
        [&](const CharacterSequence &cs) {
            auto p = reinterpret_cast<const char*>(t[i].as_p());
            r = p ? esc(std::string_view(p, strnlen(p, cs.length))) : "\"<nullptr>\"";
        },
        [&](const Date&) { r = std::to_string(t[i].as_i()); },
        [&](const DateTime&) { r = std::to_string(t[i].as_i()); },
        [&](const Numeric &n) {
            switch (n.kind) {
                case Numeric::N_Int:
                case Numeric::N_Decimal: r = std::to_string(t[i].as_i()); break;
                case Numeric::N_Float: r = n.precision == 32 ? num(t[i].as_f()) : num(t[i].as_d()); break;
            }
        },
        [&](const NoneType&) { r = "null"; },
        [&](auto&&) { r = "\"<unexpected type>\""; },
    }, *ty);
    return r;
}

static uint64_t fnv(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h >> 7;
}

static std::string rows_of(const std::string &sql, std::string &types, std::size_t &n, Diagnostic &diag)
{
    std::string rows = "[";
    bool first = true;
    n = 0;
    auto stmt = statement_from_string(diag, sql);
    auto cb = std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &t) {
        if (first) {
            types = "[";
            for (std::size_t i = 0; i != S.num_entries(); ++i) {
                std::ostringstream ss; ss << *S[i].type;
                types += (i ? "," : "") + esc(ss.str());
            }
            types += "]";
        }
        rows += first ? "[" : ",[";
        first = false;
        for (std::size_t i = 0; i != S.num_entries(); ++i)
            rows += (i ? "," : "") + value(S[i].type, t, i);
        rows += "]";
        ++n;
    });
    auto &sel = as<ast::SelectStmt>(*stmt);
    if (fnv(sql) & 1) execute_query(diag, sel, std::move(cb));
    else command_path(sel, std::move(cb));
    return rows + "]";
}

static void set_option(const std::string &k, const std::string &v)
{
    auto &C = Catalog::Get();
    auto &O = Options::Get();
    if (k == "plan_enumerator") C.default_plan_enumerator(C.pool(v.c_str()));
    else if (k == "data_layout") C.default_data_layout(C.pool(v.c_str()));
    else if (k == "store") C.default_store(C.pool(v.c_str()));
    else if (k == "scheduler") C.default_scheduler(C.pool(v.c_str()));
    else if (k == "cost_function") C.default_cost_function(C.pool(v.c_str()));
    else if (k == "cardinality_estimator") C.default_cardinality_estimator(C.pool(v.c_str()));
    else if (k == "quiet") O.quiet = v == "1";
    else if (k == "plan_table") O.plan_table_type = v == "dense" ? Options::PT_SmallOrDense : v == "sparse" ? Options::PT_LargeAndSparse : Options::PT_auto;
    else if (k == "arg") {   // through the argument parser; fields separated by \n
        std::vector<std::string> parts{"x"}; std::istringstream ss(v); std::string f;
        while (std::getline(ss, f, ' ')) parts.push_back(f);
        std::vector<const char*> av; for (auto &p : parts) av.push_back(p.c_str()); av.push_back(nullptr);
        C.arg_parser()(int(parts.size()), av.data());
    }
    else throw std::runtime_error("unknown option " + k);
}

int main()
{
    out_file();
    m::init();
    Options::Get().quiet = true;
    Options::Get().has_color = false;
    auto &C = Catalog::Get();
    std::string cmd, body;
    while (read_cmd(std::cin, cmd, body)) {
        std::ostringstream out, err;
        Diagnostic diag(false, out, err);
        Capture cap;
        std::string status = "ok", extra;
        try {
            if (cmd == "R") {
                Catalog::Clear();
                auto &DB = C.add_database(C.pool("db"));
                C.set_database_in_use(DB);
            } else if (cmd == "E") {
                Catalog::Clear();
            } else if (cmd == "S") {
                std::istringstream in(body);
                Diagnostic d2(false, out, err);
                ast::Lexer lexer(d2, C.get_pool(), "-", in);
                ast::Parser parser(lexer);
                unsigned errs = 0;
                while (parser.token()) {
                    d2.clear();
                    auto ast = parser.parse();
                    C.scheduler().autocommit(std::move(ast), d2);
                    errs += d2.num_errors();
                }
                extra += ",\"nerr\":" + std::to_string(errs);
            } else if (cmd == "Q") {
                std::string types = "[]"; std::size_t n = 0;
                auto rows = rows_of(body, types, n, diag);
                extra += ",\"types\":" + types + ",\"rows\":" + rows;
            } else if (cmd == "X") {
                auto stmt = statement_from_string(diag, body);
                execute_statement(diag, *stmt);
            } else if (cmd == "O") {
                auto p = body.find('=');
                set_option(body.substr(0, p), body.substr(p + 1));
            }
        } catch (const std::exception &e) {
            status = "exception";
            extra += ",\"what\":" + esc(e.what());
        }
        C.timer().clear();
        std::string o = cap.o.str() + out.str(), e = cap.e.str() + err.str();
        if (o.size() > (1 << 20)) o.resize(1 << 20);
        emit("{\"cmd\":" + esc(cmd) + ",\"status\":\"" + status + "\"" + extra + ",\"out\":" + esc(o) + ",\"err\":" + esc(e) + "}");
    }
    return 0;
}
