// Queue monitor: seeded scenarios of producers, consumers and observers on the real SimpleConcurrenceQueue.  Every call is
// logged with the ticks of its begin and end; mon/native.py decides from the log whether a FIFO queue could have behaved so.
// usage: queue SEED FIRST COUNT LOG [DELAYS]
#include "parallel/SimpleConcurrenceQueue.h"
#define VF_DELAY 1
#include "delay.h"
#include "leak.h"
#include "tsan_eh.h"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <list>
#include <memory>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace {

std::atomic<unsigned> g_seq{0};
unsigned tick() { return g_seq.fetch_add(1) + 1; }
std::uint64_t rnd(std::uint64_t & s) { return delay::next(s); }

std::atomic<long> g_live{0}; // elements that hold a value
struct Elem {
    int id = -1;
    std::unique_ptr<std::string> text; // id in another form, to see torn or half-moved elements
    Elem() = default;
    explicit Elem(int i) : id(i), text(new std::string("element " + std::to_string(i))) { g_live.fetch_add(1); }
    Elem(const Elem & o) : id(o.id), text(o.text ? new std::string(*o.text) : nullptr) { if (text) g_live.fetch_add(1); }
    Elem(Elem && o) noexcept : id(o.id), text(std::move(o.text)) { o.id = -1; }
    Elem & operator=(Elem o) noexcept { if (text) g_live.fetch_sub(1); id = o.id; text = std::move(o.text); o.id = -1; return *this; }
    ~Elem() { if (text) g_live.fetch_sub(1); }
    bool whole() const { return text && *text == "element " + std::to_string(id); }
};

struct Op { const char * name; int value; int result; unsigned call, ret; std::string note; };
using Log = std::vector<Op>;

template <class Q> struct Scenario {
    Q q;
    int accepted = 0;
    std::atomic<int> bad{0};
    std::string why;
    std::mutex whyLock;
    void wrong(const std::string & w) { std::lock_guard<std::mutex> l(whyLock); if (why.empty()) why = w; }

    // result 1: accepted, 0: refused
    void push(Log & log, int id, bool accept, bool move, std::atomic<bool> * closed = nullptr) {
        int conds = 0, errs = 0;
        Elem e(id);
        unsigned c = tick();
        auto cond = [&] { ++conds; if (closed) accept = !closed->load(); delay::at(7); return accept; };
        auto err = [&] { ++errs; };
        if (move) q.push(std::move(e), cond, err);
        else q.push(static_cast<const Elem &>(e), cond, err);
        unsigned r = tick();
        if (conds != 1) wrong("push evaluated its condition " + std::to_string(conds) + " times");
        if (errs != (accept ? 0 : 1)) wrong("push called the error callback " + std::to_string(errs) + " times, accepted: " + std::to_string(accept));
        if ((!move || !accept) && (!e.whole() || e.id != id)) wrong("push changed the element it was given");
        log.push_back({"push", id, accept, c, r, ""});
    }
    bool pop(Log & log, const char * kind, Elem * out = nullptr) {
        Elem e;
        unsigned c = tick();
        bool ok = kind[0] == 't' ? q.tryPop(e) : q.pop(e);
        unsigned r = tick();
        if (ok && !e.whole()) wrong("an element came out damaged");
        if (!ok && e.id != -1) wrong("a pop that failed changed its target");
        log.push_back({kind, ok ? e.id : -1, ok, c, r, ""});
        if (out) *out = std::move(e);
        return ok;
    }
    void empty(Log & log) {
        const Q & cq = q;
        unsigned c = tick();
        bool b = cq.empty();
        log.push_back({"empty", -1, b, c, tick(), ""});
    }
    void copy(Log & log) {
        unsigned c = tick();
        Q k(q);
        unsigned r = tick();
        std::string s;
        Elem e;
        if (!k.empty()) { // a copy is a queue of its own
            while (k.tryPop(e)) { if (!e.whole()) wrong("an element of a copy is damaged"); s += std::to_string(e.id) + ","; }
            if (!k.empty()) wrong("a copy that was emptied is not empty");
        }
        if (k.tryPop(e)) wrong("an element came out of an empty copy");
        log.push_back({"copy", -1, 1, c, r, s.empty() ? "-" : s});
    }
};

template <class Q> void scenario(unsigned long id, std::uint64_t s, FILE * log, bool delays) {
    const int mode = delays ? (int)(rnd(s) % 5) : 0;
    delay::hits = 0;
    delay::set(mode, rnd(s) % 1000000);
    g_seq = 0;
    const long live0 = g_live;
    const int kind = (int)(rnd(s) % 7); // 6 closed while producers push; 0 one thread; 1 quotas of blocking pops; 2 pop until told to end; 3 told to end early; 4 observers too; 5 one pop per consumer
    int producers = kind == 0 ? 0 : 1 + (int)(rnd(s) % 4), consumers = kind == 0 ? 0 : 1 + (int)(rnd(s) % 4);
    if (kind == 6) consumers = 0;
    const int per = 1 + (int)(rnd(s) % (rnd(s) % 3 ? 6 : 25));
    if (kind == 5) consumers = 2 + (int)(rnd(s) % 7);
    std::vector<Log> logs;
    std::string why;
    long liveAtEnd;
    int nOps = 0;
    {
        Scenario<Q> sc;
        if (kind == 0) {
            logs.resize(1);
            Log & l = logs[0];
            int next = 0, size = 0;
            bool ended = false;
            for (int i = 0; i < 10 + per * 6; ++i) {
                Elem e;
                switch (rnd(s) % 8) {
                case 0: case 1: case 2: { bool a = rnd(s) % 5 != 0; sc.push(l, next++, a, rnd(s) % 2); size += a; break; }
                case 3: case 4: if (size || ended) size -= sc.pop(l, "pop"); else size -= sc.pop(l, "try"); break;
                case 5: size -= sc.pop(l, "try"); break;
                case 6: sc.empty(l); break;
                default: if (rnd(s) % 4) sc.copy(l); else if (rnd(s) % 6 == 0) { unsigned c = tick(); sc.q.notifyAllPop(); ended = true; l.push_back({"end", -1, 1, c, tick(), ""}); }
                }
                if (size < 0) break; // judged from the log
                long inside = g_live - live0;
                if (inside != size) { sc.wrong(std::to_string(inside) + " elements live while the queue holds " + std::to_string(size)); break; }
            }
            while (sc.pop(l, "try")) {}
        } else {
            std::vector<std::vector<std::pair<int, bool>>> plan(producers);
            int accepted = 0, next = 0;
            for (int i = 0; i < per * producers; ++i) {
                bool a = rnd(s) % 6 != 0;
                plan[rnd(s) % producers].push_back({next++, a});
                accepted += a;
            }
            if (kind == 5) { // exactly one element per consumer
                for (auto & p : plan) p.clear();
                next = 0;
                for (int i = 0; i < consumers; ++i) plan[rnd(s) % producers].push_back({next++, true});
                accepted = consumers;
            }
            std::vector<int> quota(consumers, 0);
            if (kind == 5) for (auto & x : quota) x = 1;
            else if (consumers) for (int i = 0; i < accepted; ++i) ++quota[rnd(s) % consumers];
            const int observers = kind == 4 ? 1 + (int)(rnd(s) % 2) : 0;
            logs.resize(producers + consumers + observers + 1);
            std::atomic<int> done{0};
            std::atomic<bool> closed{false};
            std::vector<std::thread> th, con;
            const bool pause = rnd(s) % 3 == 0;
            auto consume = [&](int i, std::uint64_t s) {
                Log & l = logs[producers + i];
                delay::at(7);
                if (kind == 1 || kind == 5) for (int k = 0; k < quota[i]; ++k) sc.pop(l, "pop");
                else if (kind == 2) while (sc.pop(l, "pop")) {}
                else if (kind == 3) { for (int misses = 0; misses < 4;) if (!sc.pop(l, rnd(s) % 3 ? "pop" : "try")) ++misses; }
                else for (int k = 0; k < quota[i] * 2 + 2; ++k) { sc.pop(l, "try"); if (rnd(s) % 4 == 0) sched_yield(); }
            };
            auto produce = [&](int i, std::uint64_t s) {
                delay::at(7);
                for (auto & p : plan[i]) {
                    sc.push(logs[i], p.first, p.second, rnd(s) % 2, kind == 6 ? &closed : nullptr);
                    if (pause && rnd(s) % 3 == 0) { timespec t{0, (long)(rnd(s) % 200000)}; nanosleep(&t, nullptr); }
                }
                done.fetch_add(1);
            };
            const bool consumersFirst = rnd(s) % 2;
            if (consumersFirst) for (int i = 0; i < consumers; ++i) con.emplace_back(consume, i, rnd(s));
            if (consumersFirst && rnd(s) % 2) { timespec t{0, 300000}; nanosleep(&t, nullptr); }
            for (int i = 0; i < producers; ++i) th.emplace_back(produce, i, rnd(s));
            if (!consumersFirst) for (int i = 0; i < consumers; ++i) con.emplace_back(consume, i, rnd(s));
            for (int i = 0; i < observers; ++i) con.emplace_back([&, i](std::uint64_t s) {
                Log & l = logs[producers + consumers + i];
                for (int k = 0; k < 12; ++k) { if (rnd(s) % 2) sc.empty(l); else sc.copy(l); delay::at(7); }
            }, rnd(s));
            Log & l = logs.back();
            auto end = [&] { unsigned c = tick(); sc.q.notifyAllPop(); l.push_back({"end", -1, 1, c, tick(), ""}); };
            if (kind == 3) { delay::at(7); end(); }
            if (kind == 6) { // condition and insertion are one step: what is not there after the closing does not come any more
                timespec t{0, (long)(rnd(s) % 150000)};
                nanosleep(&t, nullptr);
                closed = true;
                while (sc.pop(l, "try")) {}
                for (auto & x : th) x.join();
                if (sc.pop(l, "try")) sc.wrong("an element was accepted after its condition had become false");
                th.clear();
            }
            for (auto & t : th) t.join();
            if (kind == 2) end();
            for (auto & t : con) t.join();
            if (rnd(s) % 2) sc.empty(l);
            if (rnd(s) % 2) sc.copy(l);
            if (rnd(s) % 4) while (sc.pop(l, "try")) {}
        }
        for (auto & l : logs) nOps += (int)l.size();
        why = sc.why;
    }
    liveAtEnd = g_live - live0;
    delay::mode = 0;
    std::fprintf(log, "S %lu kind %d producers %d consumers %d ops %d live %ld hits %lu\n", id, kind, producers, consumers, nOps, liveAtEnd, delay::hits.load());
    if (!why.empty()) std::fprintf(log, "V %s\n", why.c_str());
    for (size_t t = 0; t < logs.size(); ++t)
        for (auto & o : logs[t]) std::fprintf(log, "O %zu %s %d %d %u %u %s\n", t, o.name, o.value, o.result, o.call, o.ret, o.note.empty() ? "-" : o.note.c_str());
    std::fprintf(log, "E %lu\n", id);
    std::fflush(log);
}

} // namespace

int main(int argc, char ** argv) {
    if (argc < 5) return 95;
    FILE * log = std::fopen(argv[4], "w");
    if (!log) return 95;
    const unsigned long seed = std::strtoul(argv[1], nullptr, 10), first = std::strtoul(argv[2], nullptr, 10), count = std::strtoul(argv[3], nullptr, 10);
    const bool delays = argc > 5 && argv[5][0] == '1';
    using namespace pgbn::parallel;
    for (unsigned long i = first; i < first + count; ++i) {
        unsigned long id = seed * 1000003 + i;
        std::fprintf(log, "B %lu\n", id);
        std::fflush(log);
        std::uint64_t s = id * 0x9e3779b97f4a7c15ull + 0x765;
        for (int k = 0; k < 4; ++k) rnd(s);
        auto one = [&](FILE * out) {
            std::uint64_t t = s;
            if (i % 4 == 3) scenario<SimpleConcurrenceQueue<Elem, std::list<Elem>>>(id, t, out, delays);
            else scenario<SimpleConcurrenceQueue<Elem>>(id, t, out, delays);
        };
        if (leak::wanted(argc, argv)) leak::record(id, log, one);
        else one(log);
    }
    std::fprintf(log, "END\n");
    std::fclose(log);
    _exit(0);
}
