// Executes the SQL script given on the command line and prints the answers; rows are sorted unless the query orders them.
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace m;
int main(int, char **argv)
{
    m::init();
    Options::Get().quiet = true;
    auto &C = Catalog::Get();
    C.set_database_in_use(C.add_database(C.pool("db")));
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line.rfind("layout ", 0) == 0) { C.default_data_layout(C.pool(line.c_str() + 7)); continue; }
        if (line.rfind("enumerator ", 0) == 0) { C.default_plan_enumerator(C.pool(line.c_str() + 11)); continue; }
        std::ostringstream err;
        Diagnostic diag(false, err, err);
        try {
            auto stmt = statement_from_string(diag, line);
            if (is<ast::SelectStmt>(*stmt)) {
                std::vector<std::string> rows;
                execute_query(diag, as<ast::SelectStmt>(*stmt), std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &t) {
                    std::ostringstream o;
                    for (std::size_t i = 0; i != S.num_entries(); ++i) {
                        if (i) o << ',';
                        if (t.is_null(i)) o << "NULL"; else t[i].print(o, *S[i].type);
                    }
                    rows.push_back(o.str());
                }));
                if (line.find("ORDER BY") == line.npos) std::sort(rows.begin(), rows.end());
                std::cout << line << '\n';
                for (auto &r : rows) std::cout << "  " << r << '\n';
            } else
                execute_statement(diag, *stmt);
        } catch (const std::exception &e) { std::cout << line << "\n  exception " << e.what() << '\n'; }
        if (auto e = err.str(); not e.empty()) std::cout << e;
    }
    std::cout << "end" << std::endl;
    _Exit(0);
}
