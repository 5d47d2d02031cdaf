// Slice monitor: histories of windows over shared vectors, each slice compared with the sequence its own history gives it.
// Writing follows the rule the library itself lives by: whoever is not the only owner calls cloneData() first.
// usage: slice SEED FIRST COUNT LOG
#include "Slice.h"
#include "delay.h"
#include "leak.h"

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>

namespace {

using pgbn::Slice;
using pgbn::SizeType;

std::uint64_t rnd(std::uint64_t & s) { return delay::next(s); }

long g_live = 0;
struct Counted { // an element that owns memory and is counted
    std::unique_ptr<std::string> text;
    Counted() { ++g_live; }
    Counted(const std::string & t) : text(new std::string(t)) { ++g_live; }
    Counted(const Counted & o) : text(o.text ? new std::string(*o.text) : nullptr) { ++g_live; }
    Counted & operator=(const Counted & o) { text.reset(o.text ? new std::string(*o.text) : nullptr); return *this; }
    ~Counted() { --g_live; }
    bool operator==(const Counted & o) const { return text && o.text ? *text == *o.text : !text == !o.text; }
};

std::uint32_t make(std::uint32_t *, std::uint64_t r) { return r % 7 ? (std::uint32_t)(r >> 20) : 0u; }
std::string make(std::string *, std::uint64_t r) { return std::string(r % 40, (char)('a' + (r >> 8) % 26)); }
Counted make(Counted *, std::uint64_t r) { return Counted("element " + std::to_string(r % 100000)); }

std::string show(std::uint32_t x) { return std::to_string(x); }
std::string show(const std::string & x) { return "'" + x + "'"; }
std::string show(const Counted & x) { return x.text ? *x.text : "-"; }
template <class V> std::string show(const V & v) { std::string s; for (auto & x : v) { if (!s.empty()) s += " "; s += show(x); if (s.size() > 300) break; } return "[" + s + "]"; }

template <class T> struct World {
    static constexpr int N = 5;
    struct One {
        std::unique_ptr<Slice<T>> s;
        std::vector<T> m;   // what it holds
        int group = 0;      // slices of one group share their base data
        std::shared_ptr<std::vector<T>> base; // the caller's own pointer to it, if kept
    } a[N];
    std::uint64_t r;
    int groups = 0;
    std::string why;
    std::string trace;
    std::map<std::string, long> count;

    explicit World(std::uint64_t seed) : r(seed) { for (auto & x : a) fresh(x); }
    T val() { return make((T *)nullptr, rnd(r)); }
    void did(const char * what) { ++count[what]; trace += what; trace += ";"; }
    void wrong(const std::string & w) { if (why.empty()) why = w; }
    void fresh(One & x) { x.base.reset(); x.s.reset(new Slice<T>()); x.m.clear(); x.group = ++groups; }
    int sharers(const One & x) const {
        int n = 0;
        for (auto & y : a) { n += y.group == x.group; n += y.base && y.group == x.group; }
        return n;
    }
    bool alone(const One & x) const { return sharers(x) == 1; }
    void own(One & x) { // before a write
        if (alone(x)) { // cloning what is not shared changes nothing either
            if (rnd(r) % 3) return;
            x.s->cloneData();
            did("cloneData of unshared data");
            return;
        }
        const int before = x.group;
        Slice<T> & back = x.s->cloneData();
        if (&back != x.s.get()) wrong("cloneData() returned another slice");
        x.base.reset();
        x.group = ++groups;
        for (auto & y : a) if (&y != &x && y.group == before && (x.s->hasSameBaseData(*y.s) || y.s->weakEquals(*x.s))) wrong("after cloneData() the data is still shared");
        did("cloneData of shared data");
    }
    void look(const One & x, const char * when) {
        const Slice<T> & c = *x.s;
        const std::vector<T> & m = x.m;
        if (c.count() != m.size()) return wrong(std::string(when) + ": count() is " + std::to_string(c.count()) + " instead of " + std::to_string(m.size()));
        for (SizeType i = 0; i < m.size(); ++i)
            if (!(c[i] == m[i])) return wrong(std::string(when) + ": element " + std::to_string(i) + " is " + show(c[i]) + ", the sequence is " + show(m));
        if ((std::size_t)(c.end() - c.begin()) != m.size() || !std::equal(c.begin(), c.end(), m.begin())) return wrong(std::string(when) + ": iteration does not give the sequence");
        Slice<T> & w = *x.s;
        if ((std::size_t)(w.end() - w.begin()) != m.size() || !std::equal(w.begin(), w.end(), m.begin())) return wrong(std::string(when) + ": iteration does not give the sequence");
    }
    void all(const char * when) {
        for (auto & x : a) look(x, when);
        if (rnd(r) % 4 == 0) for (auto & x : a) for (auto & y : a) {
            if (x.s->hasSameBaseData(*y.s) != (x.group == y.group)) wrong(std::string(when) + (x.group == y.group ? ": slices that share say they do not" : ": slices that do not share say they do"));
            if (x.group == y.group && x.s->weakEquals(*y.s) != (x.s->begin() == y.s->begin() && x.s->end() == y.s->end())) wrong(std::string(when) + ": weakEquals() does not compare the windows");
            if (x.group != y.group && x.s->weakEquals(*y.s)) wrong(std::string(when) + ": slices of different data are weakly equal");
        }
    }

    void step() {
        One & x = a[rnd(r) % N];
        One & y = a[rnd(r) % N];
        const std::size_t n = x.m.size();
        switch (rnd(r) % 21) {
        case 0: fresh(x); did("default constructor"); break;
        case 1: { // over a vector of the caller
            auto v = std::make_shared<std::vector<T>>();
            const std::size_t len = rnd(r) % 9;
            for (std::size_t i = 0; i < len; ++i) v->push_back(val());
            std::vector<T> content = *v;
            const int how = (int)(rnd(r) % 3);
            if (how == 0) { x.s.reset(new Slice<T>(v)); x.m = content; did("constructor over a whole vector"); }
            else {
                const std::size_t lo = rnd(r) % (len + 1);
                if (how == 1 && lo < len) { x.s.reset(new Slice<T>(v, lo)); x.m.assign(content.begin() + lo, content.end()); did("constructor over the end of a vector"); }
                else {
                    const std::size_t hi = lo + 1 + rnd(r) % 8;
                    x.s.reset(new Slice<T>(v, lo, hi));
                    content.resize(std::max(len, hi));
                    x.m.assign(content.begin() + lo, content.begin() + hi);
                    did("constructor over a part of a vector");
                }
            }
            x.group = ++groups;
            x.base.reset();
            if (rnd(r) % 2) x.base = v;
            break;
        }
        case 2: // copy
            if (&x == &y) { Slice<T> & same = *x.s; *x.s = same; did("self-assignment"); }
            else {
                if (rnd(r) % 2) *x.s = *y.s; else x.s.reset(new Slice<T>(*y.s));
                x.m = y.m; x.group = y.group; x.base.reset();
                if (!x.s->weakEquals(*y.s) || !y.s->weakEquals(*x.s) || !x.s->hasSameBaseData(*y.s)) wrong("a copy does not share the data it copies");
                did("copy");
            }
            break;
        case 3: // move
            if (&x != &y) {
                if (rnd(r) % 2) *x.s = std::move(*y.s); else x.s.reset(new Slice<T>(std::move(*y.s)));
                x.m = std::move(y.m); x.group = y.group; x.base = y.base;
                y.m.clear(); y.group = ++groups; y.base.reset();
                did("move");
            }
            break;
        case 4: // swap
            if (rnd(r) % 2) x.s->swap(*y.s); else { using std::swap; swap(*x.s, *y.s); }
            if (&x != &y) { std::swap(x.m, y.m); std::swap(x.group, y.group); std::swap(x.base, y.base); }
            did("swap");
            break;
        case 5: case 6: case 7: { own(x); for (std::size_t k = 1 + rnd(r) % 4; k--;) { T v = val(); Slice<T> & b = x.s->prepend(v); x.m.insert(x.m.begin(), v); if (&b != x.s.get()) wrong("prepend() returned another slice"); } did("prepend"); break; }
        case 8: case 9: case 10: { own(x); for (std::size_t k = 1 + rnd(r) % 4; k--;) { T v = val(); Slice<T> & b = x.s->append(v); x.m.push_back(v); if (&b != x.s.get()) wrong("append() returned another slice"); } did("append"); break; }
        case 11: case 12: { // room in front
            own(x);
            const std::size_t k = rnd(r) % 6;
            if (rnd(r) % 2) { x.s->preExtend(k); x.m.insert(x.m.begin(), k, T{}); }
            else { T v = val(); x.s->preExtend(k, v); x.m.insert(x.m.begin(), k, v); }
            did("preExtend");
            break;
        }
        case 13: case 14: { // narrower
            const std::size_t lo = rnd(r) % (n + 1), hi = lo + rnd(r) % (n - lo + 1);
            Slice<T> & b = x.s->slice(lo, hi); // changes the window only
            if (&b != x.s.get()) wrong("slice() returned another slice");
            x.m = lo == hi ? std::vector<T>() : std::vector<T>(x.m.begin() + lo, x.m.begin() + hi);
            did(lo == hi ? "slice to nothing" : "slice");
            break;
        }
        case 15: { // wider
            own(x);
            const std::size_t hi = n + 1 + rnd(r) % 9, lo = rnd(r) % hi;
            x.s->slice(lo, hi);
            x.m.resize(hi);
            x.m.erase(x.m.begin(), x.m.begin() + lo);
            did("slice beyond the end");
            break;
        }
        case 16: { // a part as a slice of its own
            if (&x == &y) break;
            const std::size_t k = y.m.size();
            const bool wide = rnd(r) % 4 == 0;
            if (wide) { // grows what is shared: only the owner may
                if (!alone(y)) break;
                const std::size_t hi = k + 1 + rnd(r) % 5, lo = rnd(r) % hi;
                Slice<T> part = static_cast<const Slice<T> &>(*y.s).sliced(lo, hi);
                std::vector<T> m = y.m;
                m.resize(hi);
                m.erase(m.begin(), m.begin() + lo);
                *x.s = part; x.m = m; x.group = y.group; x.base.reset();
                did("sliced beyond the end");
            } else {
                const std::size_t lo = rnd(r) % (k + 1), hi = lo + rnd(r) % (k - lo + 1);
                Slice<T> part = static_cast<const Slice<T> &>(*y.s).sliced(lo, hi);
                *x.s = part; x.m.assign(y.m.begin() + lo, y.m.begin() + hi); x.group = y.group; x.base.reset();
                did("sliced");
            }
            break;
        }
        case 17: // write
            if (n) { own(x); const std::size_t i = rnd(r) % n; T v = val(); (*x.s)[i] = v; x.m[i] = v; did("write by index"); }
            break;
        case 18:
            if (n) { own(x); std::size_t i = 0; T v = val(); for (auto & e : *x.s) { if (i % 3 == 1) { e = v; x.m[i] = v; } ++i; } did("write by iteration"); }
            break;
        case 19: // slices that share are windows of one vector: a write without cloneData() is seen in each of them
            if (n && sharers(x) > 1) {
                const std::size_t i = rnd(r) % n;
                T v = val();
                const T * at = &(*x.s)[i];
                for (auto & z : a) {
                    if (z.group != x.group || z.m.empty()) continue;
                    const std::ptrdiff_t k = at - &*z.s->begin();
                    if (k >= 0 && k < (std::ptrdiff_t)z.m.size()) z.m[k] = v;
                }
                (*x.s)[i] = v;
                did("write to shared data");
            }
            break;
        default: // the slice is a window: the caller's vector and it see each other's writes
            if (x.base && n && sharers(x) == 2) {
                std::vector<T> & v = *x.base;
                if (v.size() < n) { wrong("the vector has less elements than its slice"); break; }
                const std::size_t lo = (std::size_t)(&*x.s->begin() - v.data()), i = rnd(r) % n;
                if (lo + n > v.size()) { wrong("the slice is no window of its vector"); break; }
                T p = val(), q = val();
                v[lo + i] = p;
                if (!((*x.s)[i] == p)) wrong("a write to the vector is not seen in the slice");
                (*x.s)[i] = q;
                if (!(v[lo + i] == q)) wrong("a write to the slice is not seen in the vector");
                x.m[i] = q;
                did("write through the caller's vector");
            }
        }
    }
};

template <class T> void scenario(std::uint64_t s, FILE * log, const char * what) {
    const long live0 = g_live;
    int steps;
    {
        World<T> w(s);
        steps = 20 + (int)(rnd(w.r) % 60);
        for (int i = 0; i < steps && w.why.empty(); ++i) {
            w.step();
            w.all("after a step");
        }
        std::fprintf(log, "S %s %zx\n", what, std::hash<std::string>()(w.trace + std::to_string(s)));
        if (!w.why.empty()) std::fprintf(log, "V %s (Slice<%s>, last steps: %s)\n", w.why.c_str(), what, w.trace.size() > 300 ? w.trace.c_str() + w.trace.size() - 300 : w.trace.c_str());
        for (auto & c : w.count) std::fprintf(log, "I %s %ld\n", c.first.c_str(), c.second);
        std::fprintf(log, "I sequences compared %d\n", steps * World<T>::N);
    }
    if (g_live != live0) std::fprintf(log, "V %ld elements outlive every slice\n", g_live - live0);
}

} // namespace

int main(int argc, char ** argv) {
    if (argc < 5) return 95;
    FILE * log = std::fopen(argv[4], "w");
    if (!log) return 95;
    const unsigned long seed = std::strtoul(argv[1], nullptr, 10), first = std::strtoul(argv[2], nullptr, 10), count = std::strtoul(argv[3], nullptr, 10);
    for (unsigned long i = first; i < first + count; ++i) {
        unsigned long id = seed * 1000003 + i;
        std::fprintf(log, "B %lu\n", id);
        std::fflush(log);
        std::uint64_t s = id * 0x9e3779b97f4a7c15ull + 0x51ce;
        for (int k = 0; k < 4; ++k) rnd(s);
        auto one = [&](FILE * out) {
            if (i % 4 == 1) scenario<std::string>(s, out, "std::string");
            else if (i % 4 == 2) scenario<Counted>(s, out, "Counted");
            else scenario<std::uint32_t>(s, out, "uint32_t");
        };
        if (leak::wanted(argc, argv)) { leak::record(id, log, one); continue; }
        one(log);
        std::fprintf(log, "E %lu\n", id);
        std::fflush(log);
    }
    std::fprintf(log, "END\n");
    std::fclose(log);
    _exit(0);
}
