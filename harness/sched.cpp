// The serial scheduler under concurrent clients: every command reports its execution to an event log; histories are judged offline.
#include "nat.hpp"
#include "catalog/SerialScheduler.hpp"
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include "parse/Parser.hpp"
#include "parse/Sema.hpp"
#include "lex/Lexer.hpp"
#include <atomic>
#include <chrono>
#include <sstream>
#include <thread>
#include <unistd.h>

using namespace m;
using namespace hv;
using Clock = std::chrono::steady_clock;
static constexpr auto STUCK = std::chrono::seconds(60);

/*----- injected delays -----*/
static thread_local uint64_t delay_state = 0;
static std::atomic<bool> inject{false};
static void delay()
{
    if (not inject.load(std::memory_order_relaxed)) return;
    if (not delay_state) delay_state = uint64_t(&delay_state) | 1;
    delay_state = delay_state * 6364136223846793005ull + 1442695040888963407ull;
    switch ((delay_state >> 40) & 15) {
        case 0: case 1: case 2: std::this_thread::yield(); break;
        case 3: for (volatile int i = 0; i < 300; ) i = i + 1; break;
        case 4: if (((delay_state >> 50) & 3) == 0) usleep((delay_state >> 54) & 127); break;
    }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { delay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); delay(); return r; }
}

static std::atomic<uint64_t> now_{1};
static uint64_t now() { return now_.fetch_add(1); }

struct Watch
{
    std::atomic<uint64_t> ticks{0};
    std::atomic<bool> stop{false};
    std::thread th;
    Watch(std::string what) {
        th = std::thread([this, what]() {
            uint64_t last = ticks; auto t0 = Clock::now();
            while (not stop) {
                usleep(3000);
                if (ticks != last) { last = ticks; t0 = Clock::now(); }
                else if (Clock::now() - t0 > STUCK) { fail("sched-hang", "no command completes: " + what); emit("{\"e\":\"done\"}"); fflush(out_file()); _exit(0); }
            }
        });
    }
    ~Watch() { stop = true; th.join(); }
};

struct Diag   // with streams of its own: the worker thread writes to them
{
    std::ostringstream out, err;
    Diagnostic d{false, out, err};
};

/*----- the probe command ----------------------------------------------------------------------------------------------*/
enum Kind { OK, PARSE_ERROR, SEMA_ERROR, THROWS, FAILS };
struct Exec { uint64_t begin, end; const Scheduler::Transaction *txn; int64_t start_time; };
struct Cmd { int txn, idx, kind; uint64_t call = 0, ret = 0, ready = 0; int result = -1; std::vector<Exec> execs; };
static std::vector<Cmd> *cmds = nullptr;
static std::atomic<int> running{0};

struct hv_probe : DatabaseInstruction
{
    hv_probe(std::vector<std::string> args) : DatabaseInstruction(std::move(args)) { }
    void accept(DatabaseCommandVisitor&) override { }
    void accept(ConstDatabaseCommandVisitor&) const override { }
    void execute(Diagnostic &diag) override {
        Cmd &c = (*cmds)[std::stoul(args().at(0))];
        HV_CHECK(running++ == 0, "sched-overlap", "two commands execute at the same time");
        Exec e{now(), 0, transaction(), transaction()->start_time()};
        delay();
        e.end = now();
        c.execs.push_back(e);
        --running;
        if (c.kind == THROWS) throw std::runtime_error("probe");
        if (c.kind == FAILS) diag.err() << "probe\n";
    }
};

static std::unique_ptr<ast::Command> probe(std::size_t id, int kind)
{
    Catalog &C = Catalog::Get();
    auto name = C.pool(kind == SEMA_ERROR ? "hv_no_such_instruction" : "hv_probe");
    return std::make_unique<ast::Instruction>(ast::Token(Position("-"), C.pool("\\hv_probe"), TK_INSTRUCTION), name, std::vector<std::string>{std::to_string(id)});
}

struct Txn { int client; bool autocommit = false, aborts = false; std::vector<std::size_t> ids; uint64_t end_call = 0, end_ret = 0; const Scheduler::Transaction *ptr = nullptr; int64_t start_time = -1; };

static void judge(const std::vector<Cmd> &cs, const std::vector<Txn> &txns, const std::string &what, bool closing)
{
    static const char *names[] = {"ok", "parse error", "sema error", "throwing", "failing"};
    struct E { uint64_t begin, end; std::size_t id; };
    std::vector<E> ex;
    for (std::size_t i = 0; i != cs.size(); ++i) {
        auto &c = cs[i];
        bool runs = c.kind == OK or c.kind == THROWS or c.kind == FAILS;
        if (closing and c.result == 0 and c.execs.empty()) runs = false;
        HV_CHECK(c.execs.size() == runs, "sched-once", "a command (" << names[c.kind] << ") was executed " << c.execs.size() << " times, expected " << runs << "; result " << c.result << "; " << what);
        HV_CHECK(c.result == (runs and c.kind == OK), "sched-result", "the future of a command (" << names[c.kind] << ", executed " << c.execs.size() << " times) is " << c.result << "; " << what);
        for (auto &e : c.execs) {
            ex.push_back({e.begin, e.end, i});
            HV_CHECK(e.begin > c.call and e.end < c.ready, "sched-future", "a future became ready before its command was executed; " << what);
        }
    }
    std::sort(ex.begin(), ex.end(), [](auto &a, auto &b) { return a.begin < b.begin; });
    std::vector<uint64_t> first(txns.size(), 0), lastend(txns.size(), 0);
    std::vector<int> lastidx(txns.size(), -1);
    std::vector<const Scheduler::Transaction*> ptr(txns.size(), nullptr);
    std::vector<int64_t> st(txns.size(), -1);
    int cur = -1;
    int64_t last_start = -1;
    for (std::size_t k = 0; k != ex.size(); ++k) {
        if (k) HV_CHECK(ex[k - 1].end < ex[k].begin, "sched-overlap", "two commands execute at the same time; " << what);
        auto &c = cs[ex[k].id]; auto &e = c.execs[0]; int t = c.txn;
        HV_CHECK(c.idx > lastidx[t], "sched-fifo", "commands of one transaction execute out of order: " << c.idx << " after " << lastidx[t] << "; " << what);
        lastidx[t] = c.idx;
        if (t != cur) {
            HV_CHECK(not first[t], "sched-isolation", "the commands of a transaction are interrupted by those of another one; " << what);
            if (cur != -1) HV_CHECK(txns[cur].end_call and txns[cur].end_call < e.begin, "sched-isolation", "a command of another transaction executes before the running transaction ended; " << what);
            HV_CHECK(e.start_time > last_start, "sched-start", "start times do not grow with the order of execution: " << e.start_time << " after " << last_start << "; " << what);
            last_start = e.start_time;
            first[t] = e.begin; st[t] = e.start_time; ptr[t] = e.txn;
            cur = t;
        } else {
            HV_CHECK(e.start_time == st[t], "sched-start", "the start time of a transaction changes from " << st[t] << " to " << e.start_time << "; " << what);
            HV_CHECK(e.txn == ptr[t], "sched-txn", "a command is executed in another transaction than it was scheduled in; " << what);
        }
        if (txns[t].ptr) HV_CHECK(e.txn == txns[t].ptr, "sched-txn", "a command is executed in another transaction than it was scheduled in; " << what);
    }
    /* Transactions begin in the order in which they scheduled their first command. */
    struct A { uint64_t call, ret, first; };
    std::vector<A> arr;
    for (std::size_t t = 0; t != txns.size(); ++t) if (first[t]) arr.push_back({cs[txns[t].ids[0]].call, cs[txns[t].ids[0]].ret, first[t]});
    std::sort(arr.begin(), arr.end(), [](auto &a, auto &b) { return a.first < b.first; });
    uint64_t max_call = 0;
    for (auto &a : arr) {
        HV_CHECK(a.ret == 0 or a.ret > max_call, "sched-arrival", "a transaction begins after one that arrived later; " << what);
        max_call = std::max(max_call, a.call);
    }
}

static void history()
{
    Catalog &C = Catalog::Get();
    C.register_instruction<hv_probe>(C.pool("hv_probe"));
    Options::Get().quiet = true;
    cases([&](Rng &r, uint64_t) {
        const int T = int(r.in(1, 8)), X = int(r.in(1, 12));
        std::vector<Cmd> cs; std::vector<Txn> txns;
        std::vector<std::vector<int>> of(T);
        double perr = r.of({0., .05, .3});
        for (int t = 0; t != T; ++t) for (int x = 0; x != X; ++x) {
            Txn y; y.client = t; y.autocommit = r.p(.4); y.aborts = r.p(.3);
            int k = y.autocommit ? 1 : int(r.in(0, 5));
            for (int i = 0; i != k; ++i) { y.ids.push_back(cs.size()); Cmd c; c.txn = int(txns.size()); c.idx = i; c.kind = r.p(perr) ? int(r.in(1, 4)) : OK; cs.push_back(std::move(c)); }
            of[t].push_back(int(txns.size())); txns.push_back(std::move(y));
        }
        cmds = &cs;
        std::ostringstream what; what << T << " clients, " << X << " transactions each, " << cs.size() << " commands, errors " << perr;
        at(what.str());
        inject = true;
        {
            Watch watch(what.str());
            std::atomic<int> go{0};
            std::vector<std::thread> th; std::vector<uint64_t> seeds(T); for (auto &s : seeds) s = r.u();
            for (int t = 0; t != T; ++t) th.emplace_back([&, t]() {
                Rng q(seeds[t]); delay_state = seeds[t] | 1;
                auto &S = C.scheduler();
                ++go; while (go < T) std::this_thread::yield();
                for (int x : of[t]) {
                    Txn &y = txns[x];
                    if (q.p(.2)) usleep(q.u() % 100);
                    if (y.autocommit) {
                        Cmd &c = cs[y.ids[0]];
                        Diag dd; auto &diag = dd.d;
                        if (c.kind == PARSE_ERROR) diag.err() << "parse\n";
                        auto p = probe(y.ids[0], c.kind);
                        c.call = now();
                        bool b = S.autocommit(std::move(p), diag);
                        c.ready = now(); c.result = b;
                        y.end_call = c.ready;   // the scheduler ends the transaction before returning
                        ++watch.ticks;
                        continue;
                    }
                    auto txn = S.begin_transaction();
                    y.ptr = txn.get();
                    std::vector<std::unique_ptr<Diag>> diags;
                    std::vector<std::future<bool>> fs;
                    std::vector<std::size_t> pend;
                    bool pipelined = q.p(.6);
                    auto drain = [&]() {
                        for (std::size_t i = 0; i != fs.size(); ++i) { Cmd &c = cs[pend[i]]; bool b = fs[i].get(); c.ready = now(); c.result = b; ++watch.ticks; }
                        fs.clear(); pend.clear();
                    };
                    for (auto id : y.ids) {
                        Cmd &c = cs[id];
                        diags.push_back(std::make_unique<Diag>());
                        if (c.kind == PARSE_ERROR) diags.back()->d.err() << "parse\n";
                        auto p = probe(id, c.kind);
                        c.call = now();
                        fs.push_back(S.schedule_command(*txn, std::move(p), diags.back()->d));
                        c.ret = now();
                        pend.push_back(id);
                        if (not pipelined) { drain(); if (q.p(.3)) usleep(q.u() % 200); }
                    }
                    drain();
                    if (q.p(.3)) usleep(q.u() % 200);
                    y.end_call = now();
                    bool b = y.aborts ? S.abort(std::move(txn)) : S.commit(std::move(txn));
                    HV_CHECK(b, "sched-end", "ending a transaction failed");
                    y.end_ret = now();
                    y.ptr = nullptr;   // its address may be reused
                    ++watch.ticks;
                }
            });
            for (auto &t : th) t.join();
        }
        inject = false;
        /* autocommit ends its transaction at an unknown point between execution and return */
        for (auto &y : txns) if (y.autocommit) for (auto &e : cs[y.ids[0]].execs) y.end_call = e.end;
        judge(cs, txns, what.str(), false);
        uint64_t h = 0; std::vector<std::pair<uint64_t, int>> o;
        for (auto &c : cs) for (auto &e : c.execs) o.emplace_back(e.begin, txns[c.txn].client);
        std::sort(o.begin(), o.end());
        int switches = 0;
        for (std::size_t i = 0; i != o.size(); ++i) { h = mix(h, o[i].second); switches += i and o[i].second != o[i - 1].second; }
        count("commands executed", o.size()); count("switches between clients", switches);
        ok(mix(h, cs.size()), switches > 1);
    });
}

/*----- closing: the scheduler is destroyed while commands are queued ----------------------------------------------------*/
static void closing()
{
    Catalog &C = Catalog::Get();
    C.register_instruction<hv_probe>(C.pool("hv_probe"));
    cases([&](Rng &r, uint64_t) {
        auto S = std::make_unique<SerialScheduler>();
        const int T = int(r.in(1, 6)), X = int(r.in(1, 40));
        std::vector<Cmd> cs; std::vector<Txn> txns;
        for (int t = 0; t != T; ++t) { Txn y; y.client = t; for (int i = 0; i != X; ++i) { y.ids.push_back(cs.size()); Cmd c; c.txn = t; c.idx = i; c.kind = OK; cs.push_back(std::move(c)); } txns.push_back(std::move(y)); }
        cmds = &cs;
        std::ostringstream what; what << "closing with " << T << " transactions of " << X << " commands";
        at(what.str());
        inject = true;
        std::vector<std::unique_ptr<Scheduler::Transaction>> live(T);
        std::vector<std::vector<std::future<bool>>> fs(T);
        std::vector<std::unique_ptr<Diag>> diags; for (int t = 0; t != T; ++t) diags.push_back(std::make_unique<Diag>());
        Watch watch(what.str());
        std::vector<std::thread> th; std::vector<uint64_t> seeds(T); for (auto &s : seeds) s = r.u();
        for (int t = 0; t != T; ++t) th.emplace_back([&, t]() {
            Rng q(seeds[t]); delay_state = seeds[t] | 1;
            live[t] = S->begin_transaction();
            for (auto id : txns[t].ids) { auto p = probe(id, OK); cs[id].call = now(); fs[t].push_back(S->schedule_command(*live[t], std::move(p), diags[t]->d)); cs[id].ret = now(); ++watch.ticks; }
        });
        for (auto &t : th) t.join();
        if (r.p(.5)) usleep(r.u() % 300);
        S.reset();
        uint64_t closed = now();
        std::size_t refused = 0;
        for (int t = 0; t != T; ++t) for (int i = 0; i != X; ++i) {
            auto &f = fs[t][i]; Cmd &c = cs[txns[t].ids[i]];
            HV_CHECK(f.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "sched-close", "a future is not ready after the scheduler was destroyed");
            bool b = false;
            try { b = f.get(); } catch (std::exception &e) { fail("sched-close", std::string("a future was abandoned: ") + e.what()); }
            c.ready = now(); c.result = b; refused += not b;
            for (auto &e : c.execs) HV_CHECK(e.end < closed, "sched-close", "a command executes after the scheduler was destroyed");
        }
        judge(cs, txns, what.str(), true);
        count("commands refused at closing", refused);
        uint64_t h = 0; for (auto &c : cs) h = mix(h, c.result);
        ok(mix(h, now()), refused);
    });
}

/*----- real statements -------------------------------------------------------------------------------------------------*/
static std::unique_ptr<ast::Command> parse(const std::string &sql, Diagnostic &diag)
{
    std::istringstream in(sql);
    ast::Lexer lexer(diag, Catalog::Get().get_pool(), "-", in);
    ast::Parser parser(lexer);
    return parser.parse();
}

struct Seen { std::size_t rows = 0; std::vector<int64_t> vals; };
static Seen seen;
struct hv_read : DatabaseInstruction   // reads a table within the scheduler
{
    hv_read(std::vector<std::string> args) : DatabaseInstruction(std::move(args)) { }
    void accept(DatabaseCommandVisitor&) override { }
    void accept(ConstDatabaseCommandVisitor&) const override { }
    void execute(Diagnostic &diag) override {
        seen = Seen();
        auto stmt = statement_from_string(diag, "SELECT v FROM t;");
        auto cb = std::make_unique<CallbackOperator>([&](const Schema&, const Tuple &t) { seen.vals.push_back(t[0].as_i()); });
        execute_query(diag, as<const ast::SelectStmt>(*stmt), std::move(cb));
        seen.rows = seen.vals.size();
    }
};

static void data()
{
    Catalog &C = Catalog::Get();
    C.register_instruction<hv_read>(C.pool("hv_read"));
    Options::Get().quiet = true;
    auto &DB = C.add_database(C.pool("db"));
    C.set_database_in_use(DB);
    std::ostringstream out, err;
    cases([&](Rng &r, uint64_t) {
        const int T = int(r.in(2, 6)), K = int(r.in(5, 30));
        auto sql = [&](const std::string &s) { Diagnostic d(false, out, err); auto c = parse(s, d); HV_CHECK(C.scheduler().autocommit(std::move(c), d), "sched-data", "failed: " << s << ": " << err.str()); };
        std::ostringstream what; what << T << " clients with " << K << " statements each";
        at(what.str());
        sql("CREATE TABLE t ( v INT(8), w CHAR(6) );");
        inject = true;
        std::vector<std::vector<std::vector<int64_t>>> ins(T);   // statements by client
        {
            Watch watch(what.str());
            std::vector<std::thread> th; std::vector<uint64_t> seeds(T); for (auto &s : seeds) s = r.u();
            std::atomic<int> go{0};
            for (int t = 0; t != T; ++t) th.emplace_back([&, t]() {
                Rng q(seeds[t]); delay_state = seeds[t] | 1;
                ++go; while (go < T) std::this_thread::yield();
                int64_t next = t * 100000;
                auto txn = std::unique_ptr<Scheduler::Transaction>();
                for (int k = 0; k != K; ++k) {
                    Diag dd; auto &d = dd.d; auto &err = dd.err;
                    if (q.p(.15)) {   // a statement that fails: nothing may change
                        auto c = parse("INSERT INTO t VALUES (1, 2, 3);", d);
                        bool b = C.scheduler().autocommit(std::move(c), d);
                        HV_CHECK(not b, "sched-data", "an erroneous statement succeeded");
                        continue;
                    }
                    std::vector<int64_t> vals; std::string s = "INSERT INTO t VALUES ";
                    for (int n = int(q.in(1, 4)); n; --n) { s += (vals.empty() ? "(" : ", (") + std::to_string(next) + ", \"" + std::to_string(next % 997) + "\")"; vals.push_back(next++); }
                    auto c = parse(s + ";", d);
                    HV_CHECK(C.scheduler().autocommit(std::move(c), d), "sched-data", "failed: " << s << ": " << err.str());
                    ins[t].push_back(vals);
                    ++watch.ticks;
                }
            });
            for (auto &t : th) t.join();
        }
        inject = false;
        sql("\\hv_read;");
        /* every statement's rows exactly once, contiguous, and a client's statements in its order */
        std::map<int64_t, std::pair<int, std::size_t>> owner; std::size_t total = 0;
        for (int t = 0; t != T; ++t) for (std::size_t s = 0; s != ins[t].size(); ++s) for (auto v : ins[t][s]) { owner[v] = {t, s}; ++total; }
        HV_CHECK(seen.rows == total, "sched-data", seen.rows << " rows, inserted " << total);
        std::vector<std::size_t> pos(T, 0), off(T, 0);
        int cur = -1; uint64_t h = 0;
        for (auto v : seen.vals) {
            auto it = owner.find(v);
            if (it == owner.end()) { fail("sched-data", "a row nobody inserted: " + std::to_string(v)); break; }
            auto [t, s] = it->second;
            HV_CHECK(cur == -1 or cur == t, "sched-data", "the rows of one statement are interleaved with others");
            if (s != pos[t] or ins[t][s][off[t]] != v) { fail("sched-data", "rows of a client are out of order or repeated at " + std::to_string(v)); break; }
            h = mix(h, t);
            if (++off[t] == ins[t][s].size()) { off[t] = 0; ++pos[t]; cur = -1; } else cur = t;
        }
        sql("DROP TABLE t;");
        ok(h);
    });
}

int main(int argc, char **argv) { return nat_main(argc, argv, {{"history", history}, {"closing", closing}, {"data", data}}); }
