// Thread-pool monitor: runs seeded scenarios against the real ThreadPool and logs what happened to every task.
// usage: pool SEED FIRST COUNT LOG [DELAYS]      one block of lines per scenario, judged offline by mon/native.py
#include "parallel/ThreadPool.h"
#include "expr.h"
#include "BigInteger.h"
#include "Status.h"
#define VF_DELAY 1
#include "delay.h"
#include "leak.h"
#include "tsan_eh.h"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <dirent.h>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace {

std::atomic<unsigned> g_seq{0};
unsigned tick() { return g_seq.fetch_add(1) + 1; }

std::atomic<int> g_workersSeen{0}, g_workersEnded{0};

// lives in every thread that ran a task; its destructor tells that the thread has ended
struct Worker {
    int id = 0;
    unsigned generation = 0;
    ~Worker() { if (id) g_workersEnded.fetch_add(1); }
};
thread_local Worker t_worker;
thread_local bool t_outside = false;    // the main thread and the submitting ones

int workerId() {
    if (t_outside) return -1;
    if (!t_worker.id) t_worker.id = g_workersSeen.fetch_add(1) + 1;
    return t_worker.id;
}

// counts the living copies of what a task holds
std::atomic<long> g_tokens{0};
struct Token {
    Token() { g_tokens.fetch_add(1); }
    Token(const Token &) { g_tokens.fetch_add(1); }
    Token(Token &&) noexcept { g_tokens.fetch_add(1); }
    ~Token() { g_tokens.fetch_sub(1); }
};

// a meeting of several tasks: none of them ends before all have started
struct Meeting {
    std::mutex m;
    std::condition_variable c;
    int missing = 0;
    void join() {
        std::unique_lock<std::mutex> l(m);
        if (--missing == 0) c.notify_all();
        c.wait(l, [this] { return missing <= 0; });
    }
};
Meeting * g_meeting = nullptr;

struct Rec;
pgbn::parallel::ThreadPool * g_pool = nullptr;
void submitChild(Rec * child);

struct Rec {
    int id = 0, kind = 0, submitter = 0;
    bool meets = false;
    Rec * child = nullptr;                            // submitted by this task while it runs
    unsigned call = 0, ret = 0;                       // of addTask
    std::atomic<unsigned> start{0}, end{0}, runs{0};
    std::atomic<int> worker{0}, concurrent{0};
    std::string outcome = "none";                     // what the future delivered
};

std::uint64_t rnd(std::uint64_t & s) { return delay::next(s); }

std::atomic<int> g_running{0};

long body(Rec * r, long arg, const std::string & text) {
    r->runs.fetch_add(1);
    r->worker = workerId();
    r->start = tick();
    r->concurrent = g_running.fetch_add(1) + 1;
    delay::at(7);
    if (r->kind == 2) { timespec t{0, 300000}; nanosleep(&t, nullptr); }
    if (r->kind == 3) std::this_thread::yield();
    if (r->meets) g_meeting->join();
    if (r->child) submitChild(r->child);
    g_running.fetch_sub(1);
    long v = arg * 7 + (long)text.size();
    r->end = tick();
    if (r->kind == 4) throw std::runtime_error("task " + std::to_string(r->id));
    if (r->kind == 5) throw r->id;
    return v;
}

struct Functor { // a class with state instead of a lambda
    Rec * r;
    Token t;
    long operator()(long a, std::string s) const { return body(r, a, s); }
};

long plain(Rec * r, long a, const std::string & s) { return body(r, a, s); }

struct Pending {
    Rec * r;
    std::future<long> f;
    std::future<void> v;
};

void submit(pgbn::parallel::ThreadPool & p, Rec * r, std::vector<Pending> & out, std::uint64_t & s) {
    long a = r->id * 3 + 1;
    std::string text(r->id % 40, 'x');
    Pending x{r, {}, {}};
    r->call = tick();
    switch (rnd(s) % 5) {
    case 0: { Token t; x.f = p.addTask([r, t](long a, const std::string & s) { return body(r, a, s); }, a, text); break; }
    case 1: x.f = p.addTask(Functor{r, {}}, a, text); break;
    case 2: x.f = p.addTask(plain, r, a, text); break;
    case 3: { Token t; x.v = p.addTask([r, a, text, t]() { body(r, a, text); }); break; }
    default: { auto t = std::make_shared<Token>(); auto fn = [r, t](long a, std::string s) { return body(r, a, s); }; x.f = p.addTask(fn, a, std::move(text)); }
    }
    r->ret = tick();
    out.push_back(std::move(x));
}

std::mutex g_childrenLock;
std::deque<Pending> g_children;

void submitChild(Rec * child) {
    std::vector<Pending> mine;
    std::uint64_t s = child->id * 77u + 5;
    submit(*g_pool, child, mine, s);
    std::lock_guard<std::mutex> l(g_childrenLock);
    g_children.push_back(std::move(mine[0]));
}

void settle(Pending & x) {
    std::string & o = x.r->outcome;
    try {
        if (x.f.valid()) o = "value " + std::to_string(x.f.get());
        else if (x.v.valid()) { x.v.get(); o = "value " + std::to_string((long)(x.r->id * 3 + 1) * 7 + x.r->id % 40); }
    } catch (const std::runtime_error & e) {
        o = std::string("error ") + e.what();
    } catch (int i) {
        o = "int " + std::to_string(i);
    } catch (const std::future_error & e) {
        o = std::string("future ") + e.what();
    } catch (...) {
        o = "other";
    }
}

void scenario(unsigned long seed, FILE * log, bool delays) {
    std::uint64_t s = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    for (int i = 0; i < 4; ++i) rnd(s);
    const int mode = delays ? (int)(rnd(s) % 5) : 0;
    delay::hits = 0;
    delay::set(mode, rnd(s) % 1000000);
    static const int W[] = {1, 1, 1, 2, 2, 3, 4, 6, 8, 16, 16, 33};
    const int workers = W[rnd(s) % 12];
    static const int N[] = {0, 1, 2, 3, 5, 8, 13, 24, 40};
    const int tasks = N[rnd(s) % 9];
    const int submitters = rnd(s) % 3 == 0 ? (int)(rnd(s) % 3) + 2 : 1;
    const int finish = (int)(rnd(s) % 5); // 0 wait for all, then destroy; 1 destroy at once; 2 wait for some; 3 pause, then destroy; 4 wait in between, submit again
    const bool byDefault = rnd(s) % 12 == 0;
    g_seq = 0; g_workersSeen = 0; g_workersEnded = 0; g_running = 0;
    const long tokens0 = g_tokens;
    std::vector<std::unique_ptr<Rec>> recs;
    std::vector<std::vector<Pending>> pend(submitters);
    for (int i = 0; i < tasks; ++i) {
        recs.emplace_back(new Rec);
        recs.back()->id = i;
        recs.back()->kind = (int)(rnd(s) % 7);
        recs.back()->submitter = i % submitters;
    }
    // one group of tasks that wait for each other, no more of them than workers: a free worker must take each
    Meeting meeting;
    g_meeting = &meeting;
    const int poolSize = byDefault ? (int)std::thread::hardware_concurrency() : workers;
    if (poolSize > 1 && tasks > 1 && finish != 4 && rnd(s) % 2) {
        int k = 2 + (int)(rnd(s) % (poolSize - 1)), from = (int)(rnd(s) % tasks), step = rnd(s) % 3 ? 1 : 2;
        if (rnd(s) % 3 == 0) k = poolSize;
        for (int i = from; i < tasks && meeting.missing < k; i += step) { recs[i]->meets = true; ++meeting.missing; }
    }
    const int met = meeting.missing;
    // tasks that submit a task themselves, where the pool is not destroyed meanwhile
    int children = 0;
    if (finish == 0 && tasks && rnd(s) % 2) {
        for (int i = 0; i < tasks; ++i) {
            if (rnd(s) % 3) continue;
            Rec * up = recs[i].get();
            for (int depth = 0; depth < 1 + (int)(i % 2); ++depth) {
                recs.emplace_back(new Rec);
                Rec * c = recs.back().get();
                c->id = tasks + children++;
                c->kind = (int)(rnd(s) % 7);
                c->submitter = -1;
                up->child = c;
                up = c;
            }
        }
    }
    g_children.clear();
    unsigned destroyCall = 0, destroyRet = 0;
    int endedAtReturn, seenAtReturn, runAtReturn = 0;
    {
        std::unique_ptr<pgbn::parallel::ThreadPool> pool(byDefault ? new pgbn::parallel::ThreadPool() : new pgbn::parallel::ThreadPool(workers));
        g_pool = pool.get();
        if (rnd(s) % 4 == 0) { timespec t{0, 400000}; nanosleep(&t, nullptr); } // the workers wait already
        auto feed = [&](int who, std::uint64_t s) {
            t_outside = true;
            for (auto & r : recs) {
                if (r->submitter != who) continue;
                submit(*pool, r.get(), pend[who], s);
                if (finish == 4 && rnd(s) % 4 == 0) settle(pend[who].back());
                else if (rnd(s) % 9 == 0) { timespec t{0, (long)(rnd(s) % 500000)}; nanosleep(&t, nullptr); }
            }
        };
        if (submitters == 1) feed(0, rnd(s));
        else {
            std::vector<std::thread> th;
            for (int i = 0; i < submitters; ++i) th.emplace_back(feed, i, rnd(s));
            for (auto & t : th) t.join();
        }
        t_outside = true;
        if (finish == 0) for (auto & v : pend) for (auto & x : v) { if (x.f.valid()) x.f.wait(); if (x.v.valid()) x.v.wait(); }
        for (int i = 0; i < children; ++i) { // the parents have submitted theirs before their own futures were ready
            std::unique_lock<std::mutex> l(g_childrenLock);
            if ((int)g_children.size() <= i) { std::fprintf(stderr, "a task that was waited for has not submitted its own\n"); std::abort(); }
            auto & x = g_children[i];
            std::future<long> * f = x.f.valid() ? &x.f : nullptr;
            std::future<void> * v = x.v.valid() ? &x.v : nullptr;
            l.unlock();
            if (f) f->wait();
            if (v) v->wait();
        }
        if (finish == 2 && !pend[0].empty()) { auto & x = pend[0][rnd(s) % pend[0].size()]; if (x.f.valid()) x.f.wait(); if (x.v.valid()) x.v.wait(); }
        if (finish == 3) { timespec t{0, (long)(rnd(s) % 1500000)}; nanosleep(&t, nullptr); }
        if (finish == 1 && rnd(s) % 4 == 0) for (auto & v : pend) for (auto & x : v) if (x.r->id % 2) { x.f = {}; x.v = {}; x.r->outcome = "dropped"; }
        destroyCall = tick();
        pool.reset();
        destroyRet = tick();
        endedAtReturn = g_workersEnded;
        seenAtReturn = g_workersSeen;
        for (auto & r : recs) runAtReturn += r->end.load() ? 1 : 0;
    }
    for (auto & v : pend) for (auto & x : v) if (x.f.valid() || x.v.valid()) settle(x);
    for (auto & x : g_children) settle(x);
    g_children.clear();
    pend.clear();
    delay::mode = 0;
    std::fprintf(log, "S %lu workers %d tasks %d submitters %d finish %d mode %d destroy %u %u seen %d ended %d run %d tokens %ld meet %d children %d hits %lu\n",
        seed, byDefault ? (int)std::thread::hardware_concurrency() : workers, tasks + children, submitters, finish, mode, destroyCall, destroyRet, seenAtReturn, endedAtReturn, runAtReturn, g_tokens - tokens0, met, children, delay::hits.load());
    for (auto & r : recs)
        std::fprintf(log, "T %d %d %d %u %u %u %u %u %d %d %s\n", r->id, r->kind, r->submitter, r->call, r->ret, r->start.load(), r->end.load(), r->runs.load(), r->worker.load(), r->concurrent.load(), r->outcome.c_str());
    std::fprintf(log, "E %lu\n", seed);
    std::fflush(log);
}

int threadsAlive() {
    int n = 0;
    if (DIR * d = opendir("/proc/self/task")) {
        while (dirent * e = readdir(d)) if (e->d_name[0] != '.') ++n;
        closedir(d);
    }
    return n;
}

// The system refuses one of the threads a pool asks for.  The pool, and the evaluation that uses it, may report that or do
// with fewer, but the program goes on, no thread stays behind, and what is tried next works.
void refusal(unsigned long seed, FILE * log, bool delays) {
    std::uint64_t s = seed * 0x9e3779b97f4a7c15ull + 0x7654321;
    for (int i = 0; i < 4; ++i) rnd(s);
    delay::set(delays ? (int)(rnd(s) % 5) : 0, rnd(s) % 1000000);
    const int threads0 = threadsAlive();
    const long tokens0 = g_tokens;
    const int workers = 1 + (int)(rnd(s) % 8);
    const int at = 1 + (int)(rnd(s) % workers), evals = (int)(rnd(s) % 2);
    const unsigned long refused0 = delay::refused;
    std::string first = "none", second = "none";
    for (int round = 0; round < 2; ++round) {
        std::string & o = round ? second : first;
        delay::refuse = round ? 0 : at;
        try {
            if (evals) {
                long a = (long)(rnd(s) % 1000), b = (long)(rnd(s) % 1000);
                std::string text = "(" + std::to_string(a) + "+" + std::to_string(b) + ")*" + std::to_string(a) + "+(24|(" + std::to_string(b) + "&0))";
                pgbn::Status st;
                auto v = pgbn::expr::peval(text.c_str(), workers, &st);
                o = v == pgbn::BigInteger((std::int64_t)((a + b) * a + 24)) ? "right" : "wrong";
            } else {
                long sum = 0, want = 0;
                {
                    pgbn::parallel::ThreadPool p(workers);
                    delay::refuse = 0;
                    std::vector<std::future<long>> f;
                    for (int i = 0, n = (int)(rnd(s) % 6); i < n; ++i) {
                        Token t;
                        f.push_back(p.addTask([t](long x) { return x * 3; }, i + 1L));
                        want += 3 * (i + 1);
                    }
                    for (auto & x : f) sum += x.get();
                }
                o = sum == want ? "right" : "wrong";
            }
        } catch (const std::exception &) {
            o = "reported";
        } catch (...) {
            o = "strange";
        }
        delay::refuse = 0;
    }
    int left = 0;
    for (int i = 0; i < 2000 && (left = threadsAlive() - threads0) > 0; ++i) { timespec t{0, 1000000}; nanosleep(&t, nullptr); }
    delay::mode = 0;
    std::fprintf(log, "R %lu workers %d at %d evals %d refused %lu first %s second %s left %d tokens %ld\n",
        seed, workers, at, evals, delay::refused - refused0, first.c_str(), second.c_str(), left, g_tokens - tokens0);
    std::fprintf(log, "E %lu\n", seed);
    std::fflush(log);
}

} // namespace

int main(int argc, char ** argv) {
    if (argc < 5) return 95;
    FILE * log = std::fopen(argv[4], "w");
    if (!log) return 95;
    t_outside = true;
    std::thread([] {}).join();  // a sanitizer may start a thread of its own with the first one
    const unsigned long seed = std::strtoul(argv[1], nullptr, 10), first = std::strtoul(argv[2], nullptr, 10), count = std::strtoul(argv[3], nullptr, 10);
    const bool delays = argc > 5 && argv[5][0] == '1';
    for (unsigned long i = first; i < first + count; ++i) {
        std::fprintf(log, "B %lu\n", seed * 1000003 + i);
        std::fflush(log);
        if (leak::wanted(argc, argv)) leak::record(seed * 1000003 + i, log, [&](FILE * out) { scenario(seed * 1000003 + i, out, delays); });
        else if (delays && i % 8 == 5) refusal(seed * 1000003 + i, log, delays);
        else scenario(seed * 1000003 + i, log, delays);
    }
    std::fprintf(log, "END\n");
    std::fclose(log);
    _exit(0);
}
