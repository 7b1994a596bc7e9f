// Locks and interning under concurrency: lockstep schedules judged by a model, and free-running stress under ThreadSanitizer.
#include "nat.hpp"
#include <mutable/util/Pool.hpp>
#include <mutable/util/reader_writer_lock.hpp>
#include <atomic>
#include <algorithm>
#include <chrono>
#include <set>
#include <sstream>
#include <thread>
#include <sys/syscall.h>
#include <unistd.h>

using namespace m;
using namespace hv;

/*----- injected delays: every operation on a mutex of the code under test may be preceded or followed by a pause ----------*/
static thread_local uint64_t delay_state = 0;
static void delay()
{
    if (not delay_state) return;
    delay_state = delay_state * 6364136223846793005ull + 1442695040888963407ull;
    switch ((delay_state >> 40) & 15) {
        case 0: case 1: case 2: std::this_thread::yield(); break;
        case 3: for (volatile int i = 0; i < 200; ) i = i + 1; break;
        case 4: if (((delay_state >> 50) & 7) == 0) usleep((delay_state >> 54) & 63); break;
    }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { delay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { delay(); int r = __real_pthread_mutex_unlock(m); delay(); return r; }
}

/*----- observes that a thread has announced its request and begins to wait -----*/
static thread_local std::atomic<bool> *parked = nullptr;
extern "C" {
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, void*);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, void *lock) {
    if (parked) parked->store(true, std::memory_order_release);
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, lock);
}
}
static bool asleep(long tid)
{
    char path[64]; snprintf(path, sizeof path, "/proc/self/task/%ld/stat", tid);
    FILE *f = fopen(path, "r");
    if (not f) return true;
    char buf[256] = {0}; fread(buf, 1, sizeof buf - 1, f); fclose(f);
    const char *e = strrchr(buf, ')');
    return e and e[1] and e[2] == 'S';
}

using Clock = std::chrono::steady_clock;
static constexpr auto STUCK = std::chrono::seconds(30);

/*----- a handle holding a lock by one of the interfaces ---------------------------------------------------------------*/
struct Handle
{
    reader_writer_mutex &mx;
    int api = -1;                     // 0 raw, 1 reader_writer_lock, 2 read_lock / write_lock, 3 upgrade_lock
    std::optional<reader_writer_lock> rw;
    std::optional<read_lock> rd;
    std::optional<write_lock> wr;
    std::optional<upgrade_lock> up;
    char held = 0;                    // 'r', 'w'

    explicit Handle(reader_writer_mutex &mx) : mx(mx) { }

    void read(int a, bool defer) {
        api = a;
        switch (a) {
            case 0: mx.lock_read(); break;
            case 1: rw.emplace(mx); rw->lock_read(); break;
            case 2: if (defer) { rd.emplace(mx, std::defer_lock); rd->lock(); } else rd.emplace(mx); break;
            case 3: if (defer) { up.emplace(mx, std::defer_lock); up->lock(); } else up.emplace(mx); break;
        }
        held = 'r';
    }
    void write(int a, bool defer) {
        api = a == 3 ? 2 : a;
        switch (api) {
            case 0: mx.lock_write(); break;
            case 1: rw.emplace(mx); rw->lock_write(); break;
            case 2: if (defer) { wr.emplace(mx, std::defer_lock); wr->lock(); } else wr.emplace(mx); break;
        }
        held = 'w';
    }
    bool try_read() { api = 0; if (mx.try_lock_read()) { held = 'r'; return true; } return false; }
    bool try_write() { api = 0; if (mx.try_lock_write()) { held = 'w'; return true; } return false; }
    bool can_upgrade() const { return held == 'r' and (api == 0 or api == 1 or api == 3); }
    /** On failure, the read lock is no longer held. */
    bool upgrade() {
        bool ok = false;
        switch (api) {
            case 0: ok = mx.upgrade(); if (not ok) mx.unlock_read(); break;
            case 1: ok = rw->upgrade(); HV_CHECK(ok ? rw->owns_write_lock() and not rw->owns_read_lock() : not rw->owns_write_lock() and not rw->owns_read_lock(), "lock-owns", "state after upgrade"); break;
            case 3: {
                wr.emplace(up->upgrade());
                ok = wr->owns_lock();
                HV_CHECK(not up->owns_read_lock(), "lock-owns", "upgrade_lock still owns the read lock");
                up.reset();
                if (ok) api = 2; else wr.reset();
                break;
            }
        }
        held = ok ? 'w' : 0;
        if (not ok) { rw.reset(); api = -1; }
        return ok;
    }
    /** Moves the lock object around; the lock stays held. */
    void shuffle(Rng &r) {
        if (r.p(.5) and (api == 1 or api == 2 or api == 3)) { // by way of a lock object that holds another mutex, which it must release
            reader_writer_mutex other;
            const bool w = r.p(.5);
            switch (api) {
                case 1: { reader_writer_lock x(other); w ? x.lock_write() : x.lock_read(); x = std::move(*rw); HV_CHECK(x.owns_read_lock() == (held == 'r') and x.owns_write_lock() == (held == 'w'), "lock-owns", "assignment"); *rw = std::move(x); break; }
                case 2: if (rd) { read_lock x(other); x = std::move(*rd); HV_CHECK(x.owns_lock(), "lock-owns", "assignment"); *rd = std::move(x); } else { write_lock x(other); x = std::move(*wr); HV_CHECK(x.owns_lock(), "lock-owns", "assignment"); *wr = std::move(x); } break;
                case 3: { upgrade_lock x(other); x = std::move(*up); HV_CHECK(x.owns_read_lock(), "lock-owns", "assignment"); *up = std::move(x); break; }
            }
            HV_CHECK(other.try_lock_write(), "lock-released", "a lock object that was assigned another lock keeps the one it had");
            other.unlock_write();
        }
        switch (api) {
            case 1: { reader_writer_lock x(std::move(*rw)); HV_CHECK(not rw->owns_read_lock() and not rw->owns_write_lock(), "lock-owns", "moved-from owns"); if (r.p(.5)) { *rw = std::move(x); } else { rw.emplace(std::move(x)); } break; }
            case 2: if (rd) { read_lock x(std::move(*rd)); HV_CHECK(not rd->owns_lock() and x.owns_lock(), "lock-owns", "move"); *rd = std::move(x); HV_CHECK(rd->owns_lock(), "lock-owns", "move"); }
                    else { write_lock x(std::move(*wr)); HV_CHECK(not wr->owns_lock() and x.owns_lock(), "lock-owns", "move"); *wr = std::move(x); HV_CHECK(wr->owns_lock(), "lock-owns", "move"); } break;
            case 3: { upgrade_lock x(std::move(*up)); HV_CHECK(not up->owns_read_lock() and x.owns_read_lock(), "lock-owns", "move"); *up = std::move(x); HV_CHECK(up->owns_read_lock(), "lock-owns", "move"); break; }
        }
    }
    void release(bool explicitly) {
        switch (api) {
            case 0: held == 'r' ? mx.unlock_read() : mx.unlock_write(); break;
            case 1: if (explicitly) rw->unlock(); rw.reset(); break;
            case 2: if (rd) { if (explicitly) rd->unlock(); rd.reset(); } else { if (explicitly) wr->unlock(); wr.reset(); } break;
            case 3: if (explicitly) up->unlock(); up.reset(); break;
        }
        held = 0; api = -1;
    }
};

/*----- lockstep: one operation is issued at a time; a model tells which threads must be granted and which must wait -------*/
struct Worker
{
    std::thread th;
    std::atomic<int> cmd{0};   // 0 idle, else operation
    std::atomic<int> done{0};  // number of completed operations
    std::atomic<int> result{0};
    std::atomic<bool> parked{false};
    std::atomic<long> tid{0};
    int api = 0; bool defer = false, expl = false; uint64_t rs = 0;
};

static void lockstep()
{
    cases([](Rng &r, uint64_t) {
        const int T = int(r.in(2, 5));
        reader_writer_mutex mx;
        std::vector<std::unique_ptr<Worker>> W;
        std::atomic<int> readers{0}, writers{0};
        enum { READ = 1, WRITE, TRYR, TRYW, UPGRADE, RELEASE, QUIT };
        for (int i = 0; i != T; ++i) {
            W.push_back(std::make_unique<Worker>());
            Worker &w = *W.back();
            w.th = std::thread([&w, &mx, &readers, &writers]() {
                Handle h(mx);
                w.tid = syscall(SYS_gettid);
                parked = &w.parked;
                for (;;) {
                    int c;
                    for (int k = 0; not (c = w.cmd.load(std::memory_order_acquire)); ++k) if (k > 200) usleep(20); else std::this_thread::yield();
                    Rng q(w.rs); delay_state = w.rs | 1;
                    int res = 1;
                    auto leave = [&]() { (h.held == 'r' ? readers : writers).fetch_sub(1); };
                    auto enter = [&]() {
                        if (h.held == 'r') { ++readers; HV_CHECK(writers == 0, "rw-exclusion", "a reader holds the lock together with a writer"); }
                        else { HV_CHECK(++writers == 1 and readers == 0, "rw-exclusion", "a writer does not hold the lock exclusively: " << readers << " readers"); }
                    };
                    switch (c) {
                        case READ: h.read(w.api, w.defer); enter(); break;
                        case WRITE: h.write(w.api, w.defer); enter(); break;
                        case TRYR: res = h.try_read(); if (res) enter(); break;
                        case TRYW: res = h.try_write(); if (res) enter(); break;
                        case UPGRADE: leave(); res = h.upgrade(); if (res) enter(); break;
                        case RELEASE: if (q.p(.3)) h.shuffle(q); leave(); h.release(w.expl); break;
                        case QUIT: return;
                    }
                    w.result = res;
                    w.cmd.store(0, std::memory_order_release);
                    w.done.fetch_add(1, std::memory_order_release);
                }
            });
        }
        /* The model. */
        std::vector<char> held(T, 0), waits(T, 0);   // 'r' 'w' 'u'
        std::vector<int> apis(T, 0), issued(T, 0), seen(T, 0);
        std::string trace;
        uint64_t h = 0; bool blocked = false;
        auto n = [](const std::vector<char> &v, char c) { return int(std::count(v.begin(), v.end(), c)); };
        auto can_read = [&]() { return not n(held, 'w') and not n(waits, 'w') and not n(waits, 'u'); };
        auto can_write = [&]() { return not n(held, 'w') and not n(held, 'r'); };   // an upgrader still holds its read lock
        auto can_up = [&]() { return not n(held, 'w') and n(held, 'r') == 1; };
        auto must_progress = [&]() {
            for (int i = 0; i != T; ++i) {
                if (waits[i] == 'r' and can_read()) return true;
                if (waits[i] == 'w' and can_write()) return true;
                if (waits[i] == 'u' and can_up()) return true;
            }
            return false;
        };
        auto poll = [&](bool expect) {
            auto t0 = Clock::now();
            bool stuck = false;
            for (int k = 0;; ++k) {
                bool pending = false;
                for (int i = 0; i != T; ++i) {
                    if (W[i]->done.load(std::memory_order_acquire) == seen[i]) { pending |= issued[i] != seen[i] and not waits[i]; continue; }
                    ++seen[i];
                    if (not waits[i]) continue;
                    bool ok = waits[i] == 'r' ? can_read() : waits[i] == 'w' ? can_write() : can_up();
                    HV_CHECK(ok, "rw-order", "thread " << i << " was granted '" << waits[i] << "' where it has to wait; " << trace);
                    HV_CHECK(W[i]->result == 1, "rw-result", "thread " << i << ": a granted operation reported failure; " << trace);
                    held[i] = waits[i] == 'r' ? 'r' : 'w';
                    if (waits[i] == 'u') apis[i] = apis[i] == 3 ? 2 : apis[i];
                    waits[i] = 0;
                }
                if (not expect or (not pending and not must_progress())) return true;
                if (k > 50) usleep(20);
                if (Clock::now() - t0 > STUCK) { stuck = true; break; }
            }
            if (stuck) {
                std::string s; for (int i = 0; i != T; ++i) { s += ' '; s += held[i] ? held[i] : '-'; s += waits[i] ? waits[i] : '-'; }
                fail("rw-stuck", "no thread is granted a lock that is available (held, waiting per thread:" + s + "); " + trace);
            }
            return not stuck;
        };
        const int steps = int(r.in(8, 60));
        bool alive = true;
        for (int s = 0; s != steps and alive; ++s) {
            poll(false);
            std::vector<int> idle;
            for (int i = 0; i != T; ++i) if (not waits[i]) idle.push_back(i);
            if (idle.empty()) { fail("rw-stuck", "every thread waits; " + trace); alive = false; break; }
            int i = r.pick(idle), op;
            Worker &w = *W[i];
            if (held[i] == 'r') op = (apis[i] != 2 and r.p(.5)) ? UPGRADE : RELEASE;
            else if (held[i] == 'w') op = RELEASE;
            else op = r.of({READ, READ, READ, WRITE, WRITE, TRYR, TRYW});
            w.api = int(r.in(0, 3)); w.defer = r.p(.3); w.expl = r.p(.5); w.rs = r.u();
            static const char *names[] = {"", "read", "write", "try_read", "try_write", "upgrade", "release"};
            trace += std::string(names[op]) + "(" + std::to_string(i) + (op == READ or op == WRITE ? "," + std::to_string(w.api) : "") + ") ";
            at(trace.size() > 3000 ? trace.substr(trace.size() - 3000) : trace);
            h = mix(h, uint64_t(op * 8 + i));
            count(std::string("rw ") + names[op]);
            int expect = 1;
            switch (op) {
                case READ: apis[i] = w.api; if (can_read()) held[i] = 'r'; else { waits[i] = 'r'; blocked = true; } break;
                case WRITE: apis[i] = w.api == 3 ? 2 : w.api; if (can_write()) held[i] = 'w'; else { waits[i] = 'w'; blocked = true; } break;
                case TRYR: apis[i] = 0; if (can_read()) held[i] = 'r'; else expect = 0; break;
                case TRYW: apis[i] = 0; if (can_write()) held[i] = 'w'; else expect = 0; break;
                case UPGRADE:
                    if (n(waits, 'u')) { held[i] = 0; expect = 0; }
                    else if (can_up()) { held[i] = 'w'; if (apis[i] == 3) apis[i] = 2; }
                    else { waits[i] = 'u'; blocked = true; }   // it keeps its read lock while waiting
                    break;
                case RELEASE: held[i] = 0; break;
            }
            bool immediate = not waits[i];
            ++issued[i];
            w.parked = false;
            w.cmd.store(op, std::memory_order_release);
            /* operations the model grants at once complete, then those it enables */
            if (not poll(true)) { alive = false; break; }
            if (immediate) HV_CHECK(w.result == expect, "rw-result", names[op] << " of thread " << i << " returned " << w.result << ", expected " << expect << "; " << trace);
            else {   // wait until it has announced its request: until it waits on a condition variable, or else sleeps
                for (int k = 0, slept = 0; not w.parked and w.done.load(std::memory_order_acquire) == seen[i]; ++k) {
                    if (k < 100) { std::this_thread::yield(); continue; }
                    usleep(k < 1000 ? 20 : 5000);
                    if (k > 1000) slept = asleep(w.tid) ? slept + 1 : 0;
                    if (slept > 4 or k > 1400) { count("rw waits recognised by sleeping"); break; }
                }
            }
        }
        /* Release everything. */
        for (int guard = 0; alive and guard < 1000; ++guard) {
            poll(false);
            int i = 0;
            while (i != T and not (held[i] and not waits[i])) ++i;
            if (i == T) break;
            Worker &w = *W[i];
            w.expl = true; w.rs = r.u();
            held[i] = 0; ++issued[i]; trace += "release(" + std::to_string(i) + ") ";
            w.cmd.store(RELEASE, std::memory_order_release);
            alive = poll(true);
        }
        if (alive) for (int i = 0; i != T; ++i) HV_CHECK(not waits[i], "rw-stuck", "a thread still waits after all locks were released; " << trace);
        if (not alive) { flush_cases(); emit("{\"e\":\"done\"}"); _exit(0); }
        for (auto &w : W) w->cmd = QUIT;
        for (auto &w : W) w->th.join();
        ok(h, blocked);
        sample(trace);
    });
}

/*----- free-running ---------------------------------------------------------------------------------------------------*/
struct Watch   // ends the process when no thread makes progress
{
    std::atomic<uint64_t> ticks{0};
    std::atomic<bool> stop{false};
    std::thread th;
    std::string key, what;
    Watch(std::string key, std::string what) : key(key), what(what) {
        th = std::thread([this]() {
            uint64_t last = ticks; auto t0 = Clock::now();
            while (not stop) {
                usleep(2000);
                if (ticks != last) { last = ticks; t0 = Clock::now(); }
                else if (Clock::now() - t0 > STUCK) { fail(this->key, this->what); emit("{\"e\":\"done\"}"); fflush(out_file()); _exit(0); }
            }
        });
    }
    ~Watch() { stop = true; th.join(); }
};

static void stress()
{
    cases([](Rng &r, uint64_t) {
        const int T = int(r.in(2, 8)), K = int(r.in(30, 150)), M = int(r.in(1, 2));
        struct Shared { reader_writer_mutex mx; uint64_t data[8] = {0}; std::atomic<int> readers{0}, writers{0}; std::atomic<uint64_t> writes{0}; };
        std::vector<Shared> S(M);
        double pr = r.unit(), pu = r.unit();
        std::ostringstream what; what << T << " threads, " << K << " operations each, " << M << " locks, reads " << pr << ", upgrades " << pu;
        at(what.str());
        std::atomic<uint64_t> order{0}, upfail{0}, upok{0};
        std::vector<uint64_t> orders(T);
        {
            Watch watch("rw-hang", "no thread makes progress: " + what.str());
            std::atomic<int> go{0};
            std::vector<std::thread> th;
            std::vector<uint64_t> seeds(T); for (auto &s : seeds) s = r.u();
            for (int t = 0; t != T; ++t) th.emplace_back([&, t]() {
                Rng q(seeds[t]); delay_state = seeds[t] | 1;
                ++go; while (go < T) std::this_thread::yield();
                for (int k = 0; k != K; ++k) {
                    Shared &X = S[q.u() % M];
                    Handle h(X.mx);
                    auto snapshot = [&]() {
                        uint64_t v = X.data[0];
                        delay();
                        for (int i = 1; i != 8; ++i) HV_CHECK(X.data[i] == v, "rw-torn", "a reader sees a half-finished write");
                        return v;
                    };
                    auto modify = [&]() {
                        for (auto &d : X.data) { ++d; if (&d == &X.data[3]) delay(); }
                        ++X.writes;
                    };
                    auto enter = [&]() {
                        if (h.held == 'r') { ++X.readers; HV_CHECK(X.writers == 0, "rw-exclusion", "a reader runs together with a writer"); }
                        else HV_CHECK(++X.writers == 1 and X.readers == 0, "rw-exclusion", "a writer does not run alone");
                    };
                    auto leave = [&]() { --(h.held == 'r' ? X.readers : X.writers); };
                    int api = int(q.in(0, 3));
                    bool up = q.p(pu);
                    if (up and api == 2) api = 3;
                    if (q.p(.1)) { if (not (q.p(.5) ? h.try_read() : h.try_write())) continue; }
                    else if (q.p(pr)) h.read(api, q.p(.2));
                    else h.write(api, q.p(.2));
                    enter();
                    if (q.p(.2)) h.shuffle(q);
                    uint64_t v = snapshot();
                    if (h.held == 'w') modify();
                    else if (up and h.can_upgrade()) {
                        leave();
                        if (h.upgrade()) {
                            enter();
                            HV_CHECK(snapshot() == v, "rw-upgrade", "a writer ran between a read lock and its upgrade");
                            modify(); ++upok;
                        } else { ++upfail; ++watch.ticks; continue; }
                    }
                    orders[t] = mix(orders[t], order++);
                    leave();
                    h.release(q.p(.5));
                    ++watch.ticks;
                }
            });
            for (auto &t : th) t.join();
        }
        uint64_t h = 0;
        for (auto o : orders) h = mix(h, o);
        for (auto &X : S) for (auto d : X.data) HV_CHECK(d == X.writes, "rw-lost", "writes are lost: " << d << " of " << X.writes);
        count("upgrades granted", upok); count("upgrades refused", upfail);
        ok(h);
    });
}

/*----- interning ------------------------------------------------------------------------------------------------------*/
struct Animal { int id; explicit Animal(int i) : id(i) { } virtual ~Animal() { } };
struct Cat : Animal { std::string s; Cat(int i, std::string s) : Animal(i), s(std::move(s)) { } };
struct AH { uint64_t operator()(const Animal &a) const { return std::hash<int>{}(a.id % 7); } };   // collisions
struct AE { bool operator()(const Animal &a, const Animal &b) const {
    auto x = dynamic_cast<const Cat*>(&a), y = dynamic_cast<const Cat*>(&b);
    return a.id == b.id and bool(x) == bool(y) and (not x or x->s == y->s); } };

static void intern()
{
    cases([](Rng &r, uint64_t) {
        const int T = int(r.in(2, 8)), K = int(r.in(50, 300)), D = int(r.of({3, 20, 200, 1000}));
        std::ostringstream what; what << T << " threads, " << K << " operations each, " << D << " strings";
        at(what.str());
        std::vector<std::string> dom;
        for (int i = 0; i != D; ++i) dom.push_back(i ? std::string(r.u() % 20, char('a' + r.u() % 3)) + std::to_string(i) : std::string());
        auto pool = std::make_unique<ThreadSafeStringPool>(r.of({0ul, 1ul, 64ul, 2000ul}));
        auto zoo = std::make_unique<ThreadSafePool<Animal, AH, AE>>();
        std::vector<std::atomic<const char*>> addr(D);
        std::vector<std::atomic<const Animal*>> zaddr(D);
        std::vector<std::atomic<int64_t>> refs(D);
        std::vector<uint64_t> orders(T); std::atomic<uint64_t> order{0};
        std::vector<std::vector<std::pair<int, ThreadSafePooledString>>> live(T);
        std::vector<std::vector<std::pair<int, Pooled<Cat, ThreadSafePool<Animal, AH, AE>>>>> cats(T);
        {
            Watch watch("pool-hang", "no thread makes progress: " + what.str());
            std::atomic<int> go{0};
            std::vector<std::thread> th;
            std::vector<uint64_t> seeds(T); for (auto &s : seeds) s = r.u();
            for (int t = 0; t != T; ++t) th.emplace_back([&, t]() {
                Rng q(seeds[t]); delay_state = seeds[t] | 1;
                auto &L = live[t];
                ++go; while (go < T) std::this_thread::yield();
                for (int k = 0; k != K; ++k) {
                    int d = int(q.u() % D);
                    switch (q.u() % 6) {
                        case 0: case 1: case 2: {
                            std::string copy = dom[d];   // its own bytes
                            auto p = q.p(.5) ? (*pool)(copy.c_str()) : (*pool)(std::string_view(copy));
                            ++refs[d];
                            HV_CHECK(std::string(*p) == dom[d], "pool-value", "pooled " << dom[d] << " reads " << *p);
                            HV_CHECK((const void*)*p != copy.c_str(), "pool-copy", "the pool does not own its strings");
                            const char *exp = nullptr;
                            if (not addr[d].compare_exchange_strong(exp, *p)) HV_CHECK(exp == *p, "pool-intern", "equal strings interned at different addresses: " << dom[d]);
                            L.emplace_back(d, std::move(p));
                            orders[t] = mix(orders[t], order++);
                            break;
                        }
                        case 3: if (not L.empty()) { auto &x = q.pick(L); ThreadSafePooledString c(x.second); ++refs[x.first];
                                HV_CHECK(c == x.second and std::string(*c) == dom[x.first] and c.count() >= 2, "pool-copy", dom[x.first]);
                                if (q.p(.5)) { ThreadSafePooledOptionalString o(c); ThreadSafePooledOptionalString o2(std::move(o)); HV_CHECK(o2.has_value() and not o.has_value(), "pool-optional", "move"); }
                                if (q.p(.5)) { ThreadSafePooledString c2(c); ThreadSafePooledOptionalString o(std::move(c2)); HV_CHECK(o.has_value() and *o == *c, "pool-optional", "move"); ThreadSafePooledString c3(std::move(o)); HV_CHECK(c3 == c and not o.has_value(), "pool-optional", "move"); }
                                int id = x.first; L.emplace_back(id, std::move(c)); } break;
                        case 4: if (not L.empty()) { std::size_t i = q.u() % L.size(); --refs[L[i].first]; if (i + 1 != L.size()) L[i] = std::move(L.back()); L.pop_back(); } break;
                        case 5: {
                            auto c = (*zoo)(Cat(d, dom[d]));
                            HV_CHECK(c->id == d and c->s == dom[d], "pool-value", "pooled object " << d);
                            const Animal *exp = nullptr;
                            if (not zaddr[d].compare_exchange_strong(exp, &*c)) HV_CHECK(exp == &*c, "pool-intern", "equal objects interned at different addresses");
                            if (q.p(.5)) { Pooled<Animal, ThreadSafePool<Animal, AH, AE>> a = c; HV_CHECK(a == c and a.as<Cat>() == c, "pool-cast", "casting changes identity");
                                if (cats[t].size()) { auto &y = q.pick(cats[t]); a = y.second; HV_CHECK(a == y.second and a->id == y.first, "pool-cast", "assignment of a derived reference"); } }
                            cats[t].emplace_back(d, std::move(c));
                            break;
                        }
                    }
                    ++watch.ticks;
                }
            });
            for (auto &t : th) t.join();
        }
        std::set<const char*> seen; std::size_t n = 0, zn = 0; uint64_t h = 0;
        for (auto o : orders) h = mix(h, o);
        for (int d = 0; d != D; ++d) {
            if (addr[d]) { ++n; HV_CHECK(seen.insert(addr[d]).second, "pool-distinct", "different strings share an address");
                HV_CHECK(std::string(addr[d].load()) == dom[d], "pool-value", "string changed");
                auto p = (*pool)(dom[d].c_str()); HV_CHECK(p.count() == refs[d] + 1, "pool-count", dom[d] << ": " << p.count() - 1 << " references counted, " << refs[d] << " alive"); }
            if (zaddr[d]) { ++zn; std::size_t k = 0; for (auto &L : cats) for (auto &x : L) k += x.first == d; auto c = (*zoo)(Cat(d, dom[d])); HV_CHECK(c.count() == k + 1, "pool-count", "object " << d << ": " << c.count() - 1 << " references counted, " << k << " alive"); }
        }
        HV_CHECK(pool->size() == n, "pool-size", pool->size() << " entries for " << n << " strings");
        HV_CHECK(zoo->size() == zn, "pool-size", zoo->size() << " entries for " << zn << " objects");
        for (auto &L : live) for (auto &[d, p] : L) HV_CHECK(*p == addr[d].load() and std::string(*p) == dom[d], "pool-stable", "a pooled string moved or changed");
        for (auto &L : cats) for (auto &[d, p] : L) HV_CHECK(&*p == zaddr[d].load() and p->s == dom[d], "pool-stable", "a pooled object moved or changed");
        live.clear(); cats.clear();
        ok(h, n > 1);
    });
}

int main(int argc, char **argv) { return nat_main(argc, argv, {{"lockstep", lockstep}, {"stress", stress}, {"intern", intern}}); }
