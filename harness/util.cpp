// Helper monitor: the small functions and containers everything else is built from, each against a reference of its own.
// usage: util SEED FIRST COUNT LOG
#include "pgfwd.h"
#include "fwd.h"
#include "infixExpr/fwd.h"
#include "infixExpr/ObjectManager.h"
#include "delay.h"
#include "leak.h"

#include <algorithm>
#include <array>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include <vector>

namespace {

std::string g_why;
std::map<std::string, long> g_count;
struct Rng { std::uint64_t s; std::uint64_t operator()(std::uint64_t n) { return delay::next(s) % n; } std::uint64_t all() { return delay::next(s); } };

std::string show(std::uint64_t x) { return std::to_string(x); }
#define EXPECT(c, text) do { if (!(c) && g_why.empty()) g_why = (text); } while (0)

long g_live = 0;
struct Counted { // owns memory and is counted
    std::unique_ptr<std::string> text;
    Counted() : text(new std::string) { ++g_live; }
    explicit Counted(const std::string & t) : text(new std::string(t)) { ++g_live; }
    Counted(const Counted & o) : text(o.text ? new std::string(*o.text) : nullptr) { ++g_live; }
    Counted(Counted && o) noexcept : text(std::move(o.text)) { ++g_live; }
    Counted & operator=(const Counted & o) { text.reset(o.text ? new std::string(*o.text) : nullptr); return *this; }
    Counted & operator=(Counted && o) noexcept { text = std::move(o.text); return *this; }
    ~Counted() { --g_live; }
};

// ---- numbers
std::uint32_t word(Rng & r) {
    switch (r(6)) {
    case 0: return 1u << r(32);
    case 1: return (1u << r(32)) - 1;
    case 2: return ~0u << r(32);
    case 3: return (std::uint32_t)r(300);
    default: return (std::uint32_t)r.all();
    }
}
int bits(std::uint32_t x) { int n = 0; for (int i = 0; i < 32; ++i) n += x >> i & 1; return n; }

template <class A, class B> void ceil1(A a, B b) {
    const auto got = pg::util::ceilDivide(a, b);
    const unsigned __int128 want = ((unsigned __int128)a + b - 1) / b;
    EXPECT((unsigned __int128)got == want, "ceilDivide(" + show(a) + ", " + show(b) + ") is " + show(got));
}

void numbers(Rng & r) {
    for (int i = 0; i < 40; ++i) {
        const std::uint32_t x = word(r);
        ++g_count["bit counts"];
        EXPECT(pg::util::popcnt(x) == bits(x), "popcnt(" + show(x) + ") is " + show(pg::util::popcnt(x)));
        if (x) {
            int hi = 31, lo = 0;
            while (!(x >> hi & 1)) --hi;
            while (!(x >> lo & 1)) ++lo;
            EXPECT(pg::util::clz(x) == 31 - hi, "clz(" + show(x) + ") is " + show(pg::util::clz(x)));
            EXPECT(pg::util::ctz(x) == lo, "ctz(" + show(x) + ") is " + show(pg::util::ctz(x)));
        }
        std::uint64_t a = r.all() >> r(64), b = r.all() >> r(64);
        if (!b) b = 1;
        switch (r(6)) {
        case 0: a = a / b * b; break;
        case 1: a = a / b * b + 1; if (!a) a = 1; break;
        case 2: a = 0; break;
        case 3: a = ~0ull; break;
        default: break;
        }
        ++g_count["ceilDivide"];
        ceil1(a, b);
        ceil1((std::uint32_t)a, (std::uint32_t)(b >> 32 ? b >> 32 : b));
        if ((std::int32_t)(a & 0x7fffffff) >= 0) ceil1((std::int32_t)(a & 0x7fffffff), (std::int32_t)(b & 0x7ffffff) + 1);
    }
}

void text(Rng & r) {
    for (int i = 0; i < 12; ++i) {
        const int radix = 2 + (int)r(35);
        unsigned __int128 v = r(3) ? r.all() >> r(64) : r(2) ? (std::uint64_t)0xffffffffull - 2 + r(5) : (unsigned __int128)0 + ~0ull - r(3);
        if (r(8) == 0) v = ((unsigned __int128)r.all() << r(30)) | r.all();
        std::string s;
        unsigned __int128 w = v;
        do { char c = "0123456789abcdefghijklmnopqrstuvwxyz"[(int)(w % radix)]; if (r(3) == 0 && c >= 'a') c -= 32; s.insert(s.begin(), c); w /= radix; } while (w);
        if (r(4) == 0) s.insert(0, r(30), '0');
        const std::size_t digits = s.size();
        static const char * REST[] = {"", "", " ", "-", "!x", ".5", ",1", "_"};
        s += REST[r(8)];
        std::unique_ptr<char[]> own(new char[s.size() + 1]); // exact size
        std::memcpy(own.get(), s.c_str(), s.size() + 1);
        char * end = own.get() - 1;
        const bool withEnd = r(4) != 0;
        ++g_count["texts converted"];
        errno = 0;
        const std::uint32_t got32 = pg::util::cStrToU32(own.get(), withEnd ? &end : nullptr, radix);
        const bool over32 = v > 0xffffffffu;
        EXPECT(got32 == (over32 ? 0xffffffffu : (std::uint32_t)v), "cStrToU32(\"" + s + "\", " + show(radix) + ") is " + show(got32));
        EXPECT(over32 == (errno == ERANGE), "cStrToU32(\"" + s + "\", " + show(radix) + ") leaves errno " + show(errno));
        if (withEnd) EXPECT(end == (over32 ? nullptr : own.get() + digits), "cStrToU32(\"" + s + "\", " + show(radix) + ") ends elsewhere");
        errno = 0;
        end = own.get() - 1;
        const std::uint64_t got64 = pg::util::cStrToU64(own.get(), withEnd ? &end : nullptr, radix);
        const bool over64 = v >> 64;
        EXPECT(got64 == (over64 ? ~0ull : (std::uint64_t)v), "cStrToU64(\"" + s + "\", " + show(radix) + ") is " + show(got64));
        EXPECT(over64 == (errno == ERANGE), "cStrToU64(\"" + s + "\", " + show(radix) + ") leaves errno " + show(errno));
        if (withEnd) EXPECT(end == own.get() + digits, "cStrToU64(\"" + s + "\", " + show(radix) + ") ends elsewhere");
    }
}

// ---- packs of parameters
struct Log {
    std::vector<std::pair<std::uint64_t, std::string>> * to;
    void operator()(std::uint64_t i, int x) const { to->push_back({i, "int " + std::to_string(x)}); }
    void operator()(std::uint64_t i, const std::string & x) const { to->push_back({i, "string " + x}); }
    void operator()(std::uint64_t i, const char * x) const { to->push_back({i, std::string("chars ") + x}); }
    void operator()(std::uint64_t i, double x) const { to->push_back({i, "double " + std::to_string(x)}); }
    void operator()(std::uint64_t i, const Counted & x) const { to->push_back({i, "counted " + (x.text ? *x.text : std::string("-"))}); }
};
void packs(Rng & r) {
    std::vector<std::pair<std::uint64_t, std::string>> log, want;
    const int a = (int)r.all(), b = (int)r(100);
    const double d = (double)r(1000) / 8;
    const std::string s(r(60), 'q');
    const Counted c("one " + std::to_string(b));
    auto w = [&](const std::string & t) { want.push_back({want.size(), t}); };
    switch (r(5)) {
    case 0: pg::util::visitParamPackage(Log{&log}); break;
    case 1: pg::util::visitParamPackage(Log{&log}, a); w("int " + std::to_string(a)); break;
    case 2: pg::util::visitParamPackage(Log{&log}, s, a, s); w("string " + s); w("int " + std::to_string(a)); w("string " + s); break;
    case 3: pg::util::visitParamPackage(Log{&log}, a, b, "x", d, s, c, std::string("temporary"), c, 3);
        w("int " + std::to_string(a)); w("int " + std::to_string(b)); w("chars x"); w("double " + std::to_string(d)); w("string " + s); w("counted " + *c.text); w("string temporary"); w("counted " + *c.text); w("int 3"); break;
    default: pg::util::visitParamPackage(Log{&log}, b, c, d); w("int " + std::to_string(b)); w("counted " + *c.text); w("double " + std::to_string(d)); break;
    }
    ++g_count["parameter packs visited"];
    EXPECT(log == want, "visitParamPackage visited " + show(log.size()) + " arguments otherwise than given");
    using T = pg::util::TypeArray<int, std::string, double, char, Counted, const int, int &, unsigned>;
    using E = pg::util::TypeArray<>;
    using O = pg::util::TypeArray<Counted>;
    EXPECT(T::size() == 8 && E::size() == 0 && O::size() == 1, "TypeArray::size");
    EXPECT(T::index<int>() == 0 && T::index<std::string>() == 1 && T::index<double>() == 2 && T::index<char>() == 3 && T::index<Counted>() == 4 && T::index<const int>() == 5
        && T::index<int &>() == 6 && T::index<unsigned>() == 7 && O::index<Counted>() == 0, "TypeArray::index of a member");
    EXPECT(T::index<float>() == T::npos && T::index<const Counted>() == T::npos && E::index<int>() == E::npos && O::index<int>() == O::npos, "TypeArray::index of a stranger");
}

// ---- objects of their own
void objects(Rng & r) {
    const long before = g_live;
    const int n = (int)r(9);
    Counted * one = pg::PGZXB_NEW<Counted>(std::string("abc"));
    Counted * many = pg::PGZXB_BATCH_NEW<Counted>(n);
    EXPECT(g_live == before + 1 + n && one->text && *one->text == "abc", "PGZXB_NEW made " + show(g_live - before) + " objects");
    for (int i = 0; i < n; ++i) *many[i].text = std::string(r(40), 'z');
    {
        std::unique_ptr<Counted, pg::util::Deleter<Counted>> p(pg::PGZXB_NEW<Counted>());
        EXPECT(g_live == before + 2 + n, "Deleter");
    }
    EXPECT(g_live == before + 1 + n, "Deleter left its object");
    pg::PGZXB_DELETE(one);
    EXPECT(g_live == before + n, "PGZXB_DELETE");
    pg::PGZXB_BATCH_DELETE(many);
    EXPECT(g_live == before, "PGZXB_BATCH_DELETE left objects");
    g_count["objects made and destroyed"] += n + 2;
    EXPECT(pgbn::checkLittleEndian() && pgbn::isLittleEndian(), "byte order");
}

// ---- variants
using V = pgbn::infixExpr::Variant<int, std::string, Counted, pgbn::BigIntegerImpl>;
struct VM { int kind = 0; std::int64_t n = 0; std::string s; bool known = true; };

std::string val(const V & v) {
    const int k = v.is<int>() * 1 + v.is<std::string>() * 2 + v.is<Counted>() * 4 + v.is<pgbn::BigIntegerImpl>() * 8;
    switch (k) {
    case 1: return "int " + std::to_string(v.as<int>());
    case 2: return "string " + v.as<std::string>();
    case 4: return "counted " + (v.as<Counted>().text ? *v.as<Counted>().text : std::string("-"));
    case 8: return "big " + v.as<pgbn::BigIntegerImpl>().toString(10);
    default: return "is " + std::to_string(k);
    }
}
std::string val(const VM & m) {
    switch (m.kind) {
    case 0: return "int " + std::to_string((int)m.n);
    case 1: return "string " + m.s;
    case 2: return "counted " + m.s;
    default: return "big " + std::to_string(m.n);
    }
}

void variants(Rng & r) {
    const long before = g_live;
    {
        constexpr int N = 4;
        std::array<std::unique_ptr<V>, N> v;
        std::array<VM, N> m;
        for (auto & x : v) x.reset(new V());
        std::string trace;
        auto fresh = [&](VM & x) { x = VM(); x.kind = (int)r(4); x.n = (std::int64_t)r.all() >> r(64); if (x.kind == 1 || x.kind == 2) x.s = std::string(r(50), (char)('a' + r(26))); };
        for (int step = 0; step < 30 && g_why.empty(); ++step) {
            const int i = (int)r(N);
            int j = (int)r(N);
            const int op = (int)r(8);
            trace += " " + std::to_string(op) + ":" + std::to_string(i) + "," + std::to_string(j);
            switch (op) {
            case 0: case 1: // a value of any kind
                fresh(m[i]);
                switch (m[i].kind) {
                case 0: *v[i] = (int)m[i].n; break;
                case 1: *v[i] = std::string(m[i].s); break;
                case 2: *v[i] = Counted(m[i].s); break;
                default: *v[i] = pgbn::BigIntegerImpl(m[i].n); break;
                }
                break;
            case 2:
                fresh(m[i]);
                switch (m[i].kind) {
                case 0: v[i].reset(new V((int)m[i].n)); break;
                case 1: v[i].reset(new V(std::string(m[i].s))); break;
                case 2: v[i].reset(new V(Counted(m[i].s))); break;
                default: v[i].reset(new V(pgbn::BigIntegerImpl(m[i].n))); break;
                }
                break;
            case 3: *v[i] = static_cast<const V &>(*v[j]); m[i] = m[j]; break;
            case 4: if (i != j) { v[i].reset(new V(static_cast<const V &>(*v[j]))); m[i] = m[j]; } break;
            case 5: if (i != j) { *v[i] = std::move(*v[j]); m[i] = m[j]; m[j].known = false; } break;
            case 6: if (i != j) { v[i].reset(new V(std::move(*v[j]))); m[i] = m[j]; m[j].known = false; } break;
            default: // change it in place
                if (!m[i].known) break;
                switch (m[i].kind) {
                case 0: v[i]->as<int>() = (int)(m[i].n = (std::int64_t)r(1000)); break;
                case 1: v[i]->as<std::string>() += "+"; m[i].s += "+"; break;
                case 2: *v[i]->as<Counted>().text += "-"; m[i].s += "-"; break;
                default: m[i].n = (std::int64_t)(std::int32_t)m[i].n; v[i]->as<pgbn::BigIntegerImpl>() = pgbn::BigIntegerImpl(m[i].n); v[i]->as<pgbn::BigIntegerImpl>().inc(); ++m[i].n; break;
                }
            }
            ++g_count["variant operations"];
            for (int k = 0; k < N; ++k)
                if (m[k].known) EXPECT(val(*v[k]) == val(m[k]), "variant " + std::to_string(k) + " holds '" + val(*v[k]).substr(0, 80) + "' instead of '" + val(m[k]).substr(0, 80) + "' after" + trace);
        }
    }
    EXPECT(g_live == before, show(g_live - before) + " elements of variants still live");
}

// ---- object managers
void managers(Rng & r) {
    const long before = g_live;
    {
        using M = pgbn::ObjectManager<Counted>;
        std::unique_ptr<M> om(new M());
        std::map<std::string, std::string> model;
        std::map<std::string, const Counted *> where;
        static const char * BASE[] = {"", "a", "A", "aa", "ab", "name", "Name", "name_", "_name", "a b", "sum", "a-long-name-that-does-not-fit-into-the-object-itself"};
        const std::uint64_t many = r(6) == 0 ? 4000 : 40; // large tables, too
        auto put = [&](const std::string & n) {
            const Counted c(std::string(r(50), (char)('a' + r(26))));
            om->registe(n, c);
            model[n] = *c.text;
            ++g_count["objects registered"];
        };
        auto name = [&] { std::string n = BASE[r(12)]; if (r(4) == 0 || (many > 40 && r(4))) n += std::to_string(r(many)); if (r(20) == 0) n += std::string(1, '\0') + "z"; return n; };
        if (many > 40) for (auto n = r(400); n--;) put(name());
        for (int step = 0; step < (many > 40 ? 20 : 60) && g_why.empty(); ++step) {
            const std::string n = name();
            switch (r(6)) {
            case 0: case 1: case 2:
                if (many > 40 && r(2) && !model.empty()) { // again
                    auto e = model.lower_bound(n);
                    put(std::string((e == model.end() ? model.begin() : e)->first));
                } else put(n);
                break;
            case 3: { std::unique_ptr<M> other(new M(std::move(*om))); om = std::move(other); ++g_count["managers moved"]; break; }
            case 4: {
                Counted * p = om->get(n);
                if (p && p->text) { *p->text += "."; if (model.count(n)) model[n] += "."; }
                break;
            }
            default: {
                M other;
                other.registe("unrelated", Counted("x"));
                if (r(2)) { other = std::move(*om); om.reset(new M()); *om = std::move(other); }
                break;
            }
            }
            const M & c = *om;
            for (auto & e : model) {
                const Counted * p = c.get(e.first);
                ++g_count["lookups"];
                EXPECT(p && p->text && *p->text == e.second, "'" + e.first + "' is '" + (p && p->text ? *p->text : "nothing").substr(0, 80) + "' instead of '" + e.second.substr(0, 80) + "'");
                EXPECT(p == om->get(e.first), "'" + e.first + "' lies at two places");
                auto & w = where[e.first];
                EXPECT(!w || w == p, "'" + e.first + "' has moved");
                w = p;
            }
            for (int k = 0; k < 5; ++k) {
                const std::string x = name();
                if (!model.count(x)) EXPECT(!c.get(x) && !om->get(x), "'" + x + "' was found although nobody registered it");
            }
        }
        EXPECT(g_live == before + (long)model.size(), show(g_live - before) + " objects live, " + show(model.size()) + " registered");
    }
    EXPECT(g_live == before, show(g_live - before) + " registered objects still live");
}

// ---- command lines
void commands(Rng & r, bool mayExit) {
    using C = pg::util::ParseCmdConfig;
    std::unordered_map<char, C> config;
    std::vector<std::string> log, want;
    const char known[] = "abnS-9";
    std::map<char, int> kind; // 0 option, 1 parameter, 2 without callback
    long stopAt = mayExit ? 1 + (long)r(4) : -1;
    int out[2] = {-1, -1};
    for (char k : {'a', 'b', 'n', 'S', '-', '9'}) {
        if (r(4) == 0) continue;
        kind[k] = (int)r(5) == 0 ? 2 : (int)r(2);
        C c;
        c.type = kind[k] == 1 || r(2) * (kind[k] == 2) ? C::PARAM : C::OPTION;
        if (kind[k] != 2) c.callbcak = [&, k](const char * p) {
            log.push_back(std::string(1, k) + "=" + (p ? p : "(null)"));
            return stopAt < 0 || (long)log.size() < stopAt;
        };
        config[k] = c;
    }
    std::vector<std::string> args{"program"};
    for (auto n = r(10); n--;) {
        switch (r(6)) {
        case 0: args.push_back(std::string("-") + known[r(6)]); break;
        case 1: args.push_back(std::string("-") + known[r(6)] + "tail"); break;
        case 2: args.push_back(std::string("-") + (char)('a' + r(26))); break;
        case 3: args.push_back(r(2) ? "-" : ""); break;
        case 4: args.push_back(std::string(1 + r(3), (char)('a' + r(26)))); break;
        default: args.push_back(std::string("value") + std::to_string(r(100))); break;
        }
    }
    if (r(5) == 0) args[0] = "-a"; // the program's own name is no option
    bool stopped = false;
    for (std::size_t i = 1; i < args.size() && !stopped; ++i) {
        if (args[i].size() < 2 || args[i][0] != '-' || !kind.count(args[i][1]) || kind[args[i][1]] == 2) continue;
        const char k = args[i][1];
        const bool param = kind[k] == 1 && i + 1 < args.size();
        want.push_back(std::string(1, k) + "=" + (param ? args[++i] : std::string("(null)")));
        stopped = stopAt >= 0 && (long)want.size() >= stopAt;
    }
    std::vector<std::unique_ptr<char[]>> own;
    std::unique_ptr<char *[]> argv(new char *[args.size()]); // nothing behind the last one
    for (std::size_t i = 0; i < args.size(); ++i) {
        own.emplace_back(new char[args[i].size() + 1]);
        std::memcpy(own[i].get(), args[i].c_str(), args[i].size() + 1);
        argv[i] = own[i].get();
    }
    std::string line;
    for (auto & a : args) line += " '" + a + "'";
    ++g_count["command lines"];
    if (!mayExit) {
        pg::util::parseCmdSimply((int)args.size(), argv.get(), config);
        EXPECT(log == want, "parseCmdSimply of" + line + " made " + show(log.size()) + " calls, " + show(want.size()) + " expected, first: " + (log.empty() ? "-" : log[0]) + " / " + (want.empty() ? "-" : want[0]));
        return;
    }
    if (::pipe(out)) _exit(95);
    std::fflush(nullptr);
    const pid_t p = ::fork();
    if (p < 0) _exit(95);
    if (p == 0) { // exit(0) when a callback says so; 77 if it came back
        static std::vector<std::string> * L = &log;
        static int fd = out[1];
        std::atexit([] { char c = (char)L->size(); if (::write(fd, &c, 1) != 1) _exit(95); });
        pg::util::parseCmdSimply((int)args.size(), argv.get(), config);
        _exit(log == want ? 77 : 78);
    }
    ::close(out[1]);
    int status = 0;
    char calls = 0;
    const long n = ::read(out[0], &calls, 1);
    ::close(out[0]);
    ::waitpid(p, &status, 0);
    ++g_count["command lines that may end the program"];
    if (stopped) EXPECT(WIFEXITED(status) && WEXITSTATUS(status) == 0 && n == 1 && calls == (char)want.size(), "parseCmdSimply of" + line + ": the program does not end when a callback says so");
    else EXPECT(WIFEXITED(status) && WEXITSTATUS(status) == 77, "parseCmdSimply of" + line + ": the program ended by itself");
}

void scenario(std::uint64_t s, FILE * log) {
    Rng r{s};
    g_why.clear();
    g_count.clear();
    numbers(r);
    text(r);
    packs(r);
    objects(r);
    variants(r);
    managers(r);
    commands(r, false);
    if (r(20) == 0) commands(r, true);
    std::fprintf(log, "S util %llx\n", (unsigned long long)s);
    if (!g_why.empty()) { for (auto & c : g_why) if ((unsigned char)c < ' ') c = ' '; std::fprintf(log, "V %s\n", g_why.c_str()); }
    for (auto & c : g_count) std::fprintf(log, "I %s %ld\n", c.first.c_str(), c.second);
}

} // namespace

int main(int argc, char ** argv) {
    if (argc < 5) return 95;
    FILE * log = std::fopen(argv[4], "w");
    if (!log) return 95;
    const unsigned long seed = std::strtoul(argv[1], nullptr, 10), first = std::strtoul(argv[2], nullptr, 10), count = std::strtoul(argv[3], nullptr, 10);
    for (unsigned long i = first; i < first + count; ++i) {
        unsigned long id = seed * 1000003 + i;
        std::fprintf(log, "B %lu\n", id);
        std::fflush(log);
        std::uint64_t s = id * 0x9e3779b97f4a7c15ull + 0xa7;
        for (int k = 0; k < 4; ++k) delay::next(s);
        if (leak::wanted(argc, argv)) { leak::record(id, log, [&](FILE * out) { scenario(s, out); }); continue; }
        scenario(s, log);
        std::fprintf(log, "E %lu\n", id);
        std::fflush(log);
    }
    std::fprintf(log, "END\n");
    std::fclose(log);
    _exit(0);
}
