// Concurrency monitor: threads run seeded programs on their own copies of shared integers and read the same constants;
// what each program observes is compared with the same program run alone on equal values.
// usage: conc SEED FIRST COUNT LOG DELAYS SIZE      one block of lines per scenario
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "errInfos.h"
#include "expr.h"
#include "Fraction.h"
#include "algorithm.h"
#include "infixExpr/SymbolTable.h"
#include "infixExpr/ExprParser.h"
#include "infixExpr/ExprTree.h"
#include "streams/StringReadStream.h"
#include "../c/src/pgbn.h"
#define VF_DELAY 1
#include "delay.h"
#include "tsan_eh.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

using pgbn::BigInteger;
using pgbn::BigIntegerImpl;
using pgbn::Status;
using Fraction = pgbn::experimental::Fraction;
namespace ie = pgbn::infixExpr;

namespace {

std::uint64_t rnd(std::uint64_t & s) { return delay::next(s); }

thread_local unsigned t_events[32]; // errors reported in this thread; workers of peval have their own
void onError(unsigned code) { ++t_events[code % 32]; }

struct Thrown { int id; };

std::string hashed(const std::string & s) { // keeps the start and a hash of long texts
    if (s.size() <= 48) return s;
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    char b[40];
    std::snprintf(b, sizeof b, "...%016llx/%zu", (unsigned long long)h, s.size());
    return s.substr(0, 20) + b;
}

template <class X> std::string bytes(const X & x) {
    std::string b(64, '\0');
    size_t n;
    while ((n = x.copyMagDataTo(&b[0], b.size())) >= b.size()) b.resize(b.size() * 2);
    b.resize(n);
    static const char H[] = "0123456789abcdef";
    std::string s;
    for (size_t i = n; i-- > 0;) { s += H[(unsigned char)b[i] >> 4]; s += H[b[i] & 15]; }
    return s;
}

std::string obs(const BigInteger & b) { return hashed(std::string(b.isNegative() ? "-" : b.isZero() ? "0" : "+") + bytes(b)); }

BigInteger make(std::uint64_t & s, int maxLimbs) {
    static const int L[] = {0, 1, 1, 2, 2, 3, 4, 7, 12, 20, 39, 40, 41, 79, 80, 81, 90, 160, 170, 330};
    int n = L[rnd(s) % 20];
    while (n > maxLimbs) n = L[rnd(s) % 20];
    std::string b(n * 4, '\0');
    for (auto & c : b) c = (char)rnd(s);
    switch (rnd(s) % 6) {
    case 0: for (int i = 0; i < n * 3; ++i) b[i] = 0; break;           // many low zero limbs
    case 1: for (auto & c : b) c = (char)0xff; break;
    case 2: if (n) b.back() = (char)(rnd(s) % 2 ? 0x80 : 0x7f); break;
    default: break;
    }
    BigInteger x(b.size(), b.data(), true);
    switch (rnd(s) % 5) {
    case 0: x <<= rnd(s) % 70; break;
    case 1: x >>= rnd(s) % 40; break;
    case 2: x += 1; break;
    case 3: x = -x; break;
    default: break;
    }
    return x;
}

struct Shared {
    std::vector<BigInteger> big;                 // read by all, changed by nobody
    std::vector<BigIntegerImpl> impl;
    std::vector<pgbn_BigInteger_t *> c;
    std::vector<Fraction> frac;
    std::vector<std::vector<BigInteger>> own;    // one vector per thread: copies of the shared ones and of each other's
    ~Shared() { for (auto * p : c) pgbn_BigInteger_Destroy(p); }
};

std::unique_ptr<Shared> makeShared(std::uint64_t s, int threads, int maxLimbs) {
    std::unique_ptr<Shared> sh(new Shared);
    const int n = 2 + (int)(rnd(s) % 4);
    for (int i = 0; i < n; ++i) sh->big.push_back(make(s, maxLimbs));
    for (int i = 0; i < 2; ++i) {
        std::string b(4 * (1 + rnd(s) % 30), '\0');
        for (size_t k = b.size() / 2; k < b.size(); ++k) b[k] = (char)rnd(s);
        sh->impl.emplace_back(b.data(), b.size(), true);
    }
    { // an integer with unused room in its storage, as operations leave them
        BigIntegerImpl q, r;
        BigIntegerImpl::div(q, r, sh->impl[0], BigIntegerImpl(7));
        sh->impl.push_back(q);
        sh->impl.push_back(r);
    }
    for (int i = 0; i < 2; ++i) {
        pgbn_BigInteger_t * p = pgbn_BigInteger_CreateWithI64((std::int64_t)rnd(s));
        pgbn_BigInteger_SHLAssignWithI64(p, (std::int64_t)(rnd(s) % 200));
        sh->c.push_back(p);
    }
    for (int i = 0; i < 2; ++i) sh->frac.emplace_back(BigInteger((std::int64_t)(rnd(s) % 100000)) * BigInteger((std::int64_t)rnd(s)), BigInteger((std::int64_t)(rnd(s) % 99999) + 1));
    sh->own.resize(threads);
    std::vector<BigInteger> group; // storage that only the threads' own variables share
    for (int i = 0; i < 2; ++i) group.push_back(make(s, maxLimbs));
    for (auto & o : sh->own) {
        o.push_back(sh->big[rnd(s) % n]);
        o.push_back(group[0]);
        o.push_back(group[1]);
        o.push_back(make(s, maxLimbs));
    }
    return sh;
}

const char * const EXPRS[] = {
    "1 + 2 * 3", "k0 + k1 * add(k0, 5)", "add(k0, k1) - add(k1, k0)", "k1 & k0 | k2 ^ 255", "~k2 + 1 == -k2", "k2 << 70 >> 35", "20! / 18!", "2 ** 300 % 1000007",
    "k0 > k1 ? k0 : k1", "(k2 + 1) * (k2 - 1) == k2 * k2 - 1", "neg(neg(k2)) - k2", "36rZZZZ + 0xFf + 0b101", "first(k2, 1, 2) - k2", "-(k2) / 7 + k2 % 7", "k2 * k2 * k2 * k2",
    "1 +", "nosuch(1)", "(1 + 2", "add(1)", "1 2", "9rz", "k0 = 1", "", "3 $ 4", "throw(3) + 1", "1 / (k0 - k0 + 1)"};
constexpr int NEXPR = sizeof(EXPRS) / sizeof(*EXPRS);

void registerAll() {
    for (pgbn::SizeType i = 0; i < pgbn::errInfoCount; ++i)
        Status::registe(pgbn::errInfos[i].code, pgbn::errInfos[i].info, [](unsigned x) { onError(x); }, (unsigned)pgbn::errInfos[i].code);
    auto * t = ie::SymbolTable::getInstance();
    auto fn = [t](const char * n, int argc, std::function<ie::Value(std::vector<ie::Value> &)> f) { t->registe(n, ie::SymbolTable::Symbol{ie::Func{f, argc}}); };
    fn("add", 2, [](std::vector<ie::Value> & a) { ie::Value r = a[0]; r.addAssign(a[1]); return r; });
    fn("neg", 1, [](std::vector<ie::Value> & a) { a[0].negate(); return a[0]; });       // changes its argument in place
    fn("first", -1, [](std::vector<ie::Value> & a) { for (auto & x : a) x.inc(); a[0].dec(); return a[0]; });
    fn("throw", 1, [](std::vector<ie::Value> & a) -> ie::Value { throw Thrown{(int)a[0].toU64()}; });
    t->registe("k0", ie::SymbolTable::Symbol{ie::Value((std::int64_t)-123456789012345)});
    t->registe("k1", ie::SymbolTable::Symbol{ie::Value((std::int64_t)99)});
    ie::Value big((std::int64_t)0x7654321); // low limbs all zero
    big.shiftLeftAssign(257);
    t->registe("k2", ie::SymbolTable::Symbol{ie::Value(big)});
}

struct Step { int op; std::string saw; unsigned tick; };
const char * const NAMES[] = {"copy of shared", "assign shared", "own += shared", "own op= own", "shared op shared", "compare shared", "two's complement block of shared", "print shared",
    "parse", "parse bad text", "native conversion", "eval", "peval", "fraction", "C binding own", "C binding shared", "status", "impl read", "impl change", "big multiplication", "division", "drop and remake",
    "swap and move", "increments", "gcd", "bitwise with shared", "binary import", "binary export", "parser and tree", "text formatting", "C binding with bytes"};
constexpr int NOPS = sizeof(NAMES) / sizeof(*NAMES);

std::atomic<unsigned> g_tick{0};

std::vector<Step> program(const Shared & sh, std::vector<BigInteger> & own, std::uint64_t s, int steps, bool heavy, int onlyOp) {
    std::vector<Step> out;
    std::memset(t_events, 0, sizeof t_events);
    pgbn_BigInteger_t * c = pgbn_BigInteger_CreateWithCopying(sh.c[rnd(s) % sh.c.size()]);
    std::vector<BigIntegerImpl> impls(sh.impl.begin(), sh.impl.end());
    auto pick = [&](auto & v) -> auto & { return v[rnd(s) % v.size()]; };
    auto trim = [&](BigInteger & x) { if (bytes(x).size() > (heavy ? 6000u : 2500u)) x >>= 4 * bytes(x).size() - 900; };
    for (int i = 0; i < steps; ++i) {
        int op = onlyOp >= 0 && rnd(s) % 2 ? onlyOp : (int)(rnd(s) % NOPS);
        std::string saw;
        const BigInteger & S = pick(sh.big), & S2 = pick(sh.big);
        BigInteger & O = pick(own), & O2 = pick(own);
        std::uint64_t r = rnd(s);
        switch (op) {
        case 0: { BigInteger x(S); x += 1; saw = obs(x) + obs(S); break; }
        case 1: O = S; saw = obs(O); break;
        case 2: switch (r % 3) { case 0: O += S; break; case 1: O -= S; break; default: trim(O); O *= S; } saw = obs(O); break;
        case 3: switch (r % 4) { case 0: O += O2; break; case 1: O -= O2; break; case 2: trim(O); O *= O2; break; default: O ^= O2; } saw = obs(O); break;
        case 4: switch (r % 5) { case 0: saw = obs(S + S2); break; case 1: saw = obs(S - S2); break; case 2: saw = obs(S * S2); break; case 3: saw = obs(S2.isZero() ? S : S / S2); break; default: saw = obs(-S & ~S2); } break;
        case 5: saw = std::to_string(S.cmp(S2)) + std::to_string(S == S2) + std::to_string(S < S2) + std::to_string(S.cmp((std::int64_t)r)) + std::to_string(S.isOdd()) + std::to_string(S.isOne()) + std::to_string(O > S); break;
        case 6: for (int k = 0; k < 5; ++k) saw += std::to_string(S.get2sComplement(rnd(s) % 60)) + ","; break;
        case 7: saw = hashed(S.toString(2 + (int)(r % 35))); break;
        case 8: { bool ok = false; int radix = 2 + (int)(r % 35); trim(O); std::string t = O.toString(radix); BigInteger x(t, radix, &ok); saw = std::to_string(ok) + obs(x) + std::to_string(x == O); break; }
        case 9: { bool ok = true; static const char * T[] = {"", "-", "12z", "--1", "1 2", "+"}; O.assign(T[r % 6], 10, &ok); saw = std::to_string(ok) + obs(O) + Status::getInstance()->getInfo(); break; }
        case 10: { bool ok = false; std::int64_t v = S.getInt64(&ok); saw = std::to_string(ok) + (ok ? std::to_string(v) : Status::getInstance()->getInfo()); std::uint64_t u = O.getUInt64(&ok); saw += std::to_string(ok) + (ok ? std::to_string(u) : ""); saw += std::to_string(S.as<std::uint64_t>()); break; }
        case 11: case 12: {
            Status st;
            const char * e = EXPRS[r % NEXPR];
            try {
                BigInteger v = op == 11 ? pgbn::expr::eval(e, r & 64 ? &st : nullptr) : pgbn::expr::peval(e, 1 + (int)(r >> 10) % 4, r & 64 ? &st : nullptr);
                saw = obs(v) + (r & 64 && v.isZero() ? st.getInfo() : "");
            } catch (const Thrown & t) { saw = "thrown " + std::to_string(t.id); }
            saw = std::string(e) + " -> " + saw;
            break; }
        case 13: {
            const Fraction & a = pick(sh.frac), & b = pick(sh.frac);
            Fraction f = a * b + Fraction(S.isZero() ? BigInteger(1) : S, 3) - a;
            if (f.getNum() != 0) { bool ok; f = f.reciprocal(&ok); }
            saw = hashed(f.toString()) + hashed(a.toDecimal((int)(r % 30))) + hashed((b / Fraction(BigInteger(7), BigInteger(3))).toString(16));
            break; }
        case 14: {
            pgbn_BigInteger_t * d = pgbn_BigInteger_CreateWithCopying(c);
            pgbn_BigInteger_AddAssign(c, sh.c[r % sh.c.size()]);
            pgbn_BigInteger_Negate(d);
            if (pgbn_BigInteger_AssignWithStr(d, r & 8 ? "123x" : "-77", 10)) saw = "ok"; else saw = pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance());
            pgbn_String_t * t = pgbn_BigInteger_ToString(c, 10);
            saw += hashed(pgbn_String_CStr(t));
            pgbn_String_Destroy(t);
            pgbn_BigInteger_Destroy(d);
            break; }
        case 15: { pgbn_BigInteger_t * x = sh.c[r % sh.c.size()]; saw = std::to_string(pgbn_BigInteger_Get2sComplementBlock(x, (r >> 8) % 9)) + std::to_string(pgbn_BigInteger_CmpWithI64(x, 5)) + std::to_string(pgbn_BigInteger_IsNegative(x)); pgbn_String_t * t = pgbn_BigInteger_ToString(x, 16); saw += pgbn_String_CStr(t); pgbn_String_Destroy(t); break; }
        case 16: { static const unsigned C[] = {0, 2, 3, 5, 6, 8, 10}; Status st; st = C[r % 7]; *Status::getInstance() = C[(r >> 8) % 7]; saw = st.getInfo() + Status::getInstance()->getInfo() + Status::getInfo(C[(r >> 16) % 7]) + std::to_string(Status::find((unsigned)(r >> 24) % 40)); break; }
        case 17: { const BigIntegerImpl & x = pick(sh.impl), & y = pick(sh.impl); saw = std::to_string(x.getU32(r % 33)) + std::to_string(x.cmp(y)) + std::to_string(x.toU64()) + std::to_string(x.getMagU32Count()) + hashed(x.toString(10)); break; }
        case 18: { BigIntegerImpl & x = pick(impls); const BigIntegerImpl & y = pick(sh.impl); switch (r % 5) { case 0: x.addAssign(y); break; case 1: x.notBits(); break; case 2: x.shiftRightAssign(r % 40); break; case 3: x.orAssign(y); break; default: x = y; x.negate(); } saw = hashed(bytes(x)) + std::to_string(x.getU32(r % 33)); break; }
        case 19: { BigInteger x = S * S2; if (heavy) x *= x; saw = obs(x); break; }
        case 20: { trim(O); BigInteger d = S.isZero() ? BigInteger(3) : S; BigInteger n = O * S2 + 17; saw = obs(n / d) + obs(n % d); break; }
        case 21: { BigInteger x = O; O = BigInteger(); own.push_back(x); if (own.size() > 8) own.erase(own.begin()); saw = obs(x); break; }
        case 22: { std::swap(O, O2); BigInteger x = std::move(O); O = S; saw = obs(x) + obs(O) + obs(O2); break; }
        case 23: switch (r % 4) { case 0: ++O; break; case 1: --O; break; case 2: O.negate(); break; default: O.notSelf(); } saw = obs(O) + std::to_string(O.get2sComplement(r % 20)); break;
        case 24: { BigInteger a = S.absoluted(), b = BigInteger((std::int64_t)(r >> 1)); saw = obs(pgbn::algo::gcd(a, b)); break; }
        case 25: switch (r % 4) { case 0: O &= S; break; case 1: O |= S; break; case 2: O ^= S; break; default: trim(O); O <<= r % 90; } saw = obs(O); break;
        case 26: case 30: {
            std::string b(1 + r % (r & 64 ? 9 : 90), '\0');
            for (auto & ch : b) ch = (char)rnd(s);
            if (r & 256) b.back() = (char)0xff, b[0] = (char)0xff;
            if (r & 512) b[b.size() / 2] = 0;
            if (op == 26) { if (r & 1024) O.fromBinary(b.data(), b.size(), r & 2048); else O = BigInteger(b.size(), b.data(), r & 2048); saw = obs(O); break; }
            pgbn_BigInteger_t * d = pgbn_BigInteger_CreateWithBin(b.size(), b.data(), r & 2048);
            std::string to(40, '\7');
            size_t k = pgbn_BigInteger_GetMagData(d, &to[0], r % 40);
            saw = std::to_string(k) + hashed(to) + std::to_string(pgbn_BigInteger_GetUInt64(d)) + std::to_string(pgbn_BigInteger_GetInt64(d));
            pgbn_BigInteger_Destroy(d);
            break; }
        case 27: { std::string to(120, '\7'); size_t k = (r & 1 ? S : O).copyMagDataTo(&to[0], r % 120); saw = std::to_string(k) + hashed(to); break; }
        case 28: {
            ie::NodePool pool;
            std::string text = EXPRS[r % 13];
            pg::base::StringReadStream in(text, r & 64);
            ie::ExprParser p(in, *ie::Hooks::getInstance(), &pool);
            auto * root = p.parse();
            saw = text + " => " + std::to_string(p.errCode());
            if (root) for (int k = 0; k < 2; ++k) saw += " " + hashed(bytes(root->evalCallback(root, false)));
            break; }
        case 29: {
            saw = pgfmt::format("{0} {1:8} {0} {2}", (int)(r % 1000), (unsigned)(r >> 20) % 77777, std::string("text") + std::to_string(r % 7));
            pgfmt::formatAppend(saw, " and {1}{0}", "c", (double)(r % 1000) / 8);
            break; }
        default: break;
        }
        if (op != 12) for (unsigned k = 0; k < 32; ++k) if (t_events[k]) saw += " !" + std::to_string(k) + "x" + std::to_string(t_events[k]);
        std::memset(t_events, 0, sizeof t_events);
        out.push_back(Step{op, std::move(saw), g_tick.fetch_add(1, std::memory_order_relaxed)});
        delay::at(7);
    }
    std::string end;
    for (auto & o : own) end += obs(o) + ";";
    out.push_back(Step{-1, end, g_tick.fetch_add(1, std::memory_order_relaxed)});
    own.clear(); // dropped while others still use what they share with it
    pgbn_BigInteger_Destroy(c);
    return out;
}

std::map<int, long> g_counts;

// cold: nothing of the library has been used in this process; the first use of all of it is concurrent
void scenario(unsigned long seed, FILE * log, bool delays, int size, bool cold) {
    std::uint64_t s = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    for (int i = 0; i < 4; ++i) rnd(s);
    const int threads = rnd(s) % 12 ? 2 + (int)(rnd(s) % 4) : 9 + (int)(rnd(s) % 8);
    const int steps = 8 + (int)(rnd(s) % 24);
    const bool heavy = size > 1 && rnd(s) % 3 == 0;
    const int maxLimbs = size == 0 ? 90 : 330;
    const int focus = rnd(s) % 2 ? (int)(rnd(s) % NOPS) : -1; // all threads at the same thing
    const int mode = delays ? (int)(rnd(s) % 5) : 0;
    const std::uint64_t shSeed = rnd(s) | 1, pSeed = rnd(s) | 1;
    auto progSeed = [&](int i) { std::uint64_t x = pSeed + 0x9e3779b97f4a7c15ull * (std::uint64_t)(i + 1); for (int k = 0; k < 3; ++k) rnd(x); return x; };
    std::vector<std::vector<Step>> alone(threads), together(threads);
    {
        std::unique_ptr<Shared> sh;
        if (!cold) sh = makeShared(shSeed, threads, maxLimbs);
        delay::set(mode, rnd(s) % 1000000);
        std::atomic<int> ready{0};
        std::atomic<bool> go{false};
        std::vector<std::thread> th;
        for (int i = 0; i < threads; ++i)
            th.emplace_back([&, i]() {
                ready.fetch_add(1);
                while (!go.load(std::memory_order_acquire)) sched_yield();
                if (!cold) { together[i] = program(*sh, sh->own[i], progSeed(i), steps, heavy, focus); return; }
                auto mine = makeShared(shSeed, threads, maxLimbs);
                together[i] = program(*mine, mine->own[i], progSeed(i), steps, heavy, focus);
            });
        while (ready.load() < threads) sched_yield();
        go.store(true, std::memory_order_release);
        for (auto & t : th) t.join();
        delay::mode = 0;
    }
    delay::mode = 0;
    for (int i = 0; i < threads; ++i) {
        auto sh = makeShared(shSeed, threads, maxLimbs);
        std::vector<BigInteger> own;
        own.swap(sh->own[i]);
        // private values, built again so that nothing is shared with the rest
        for (auto & x : own) { BigInteger y(0); y += x; bool neg = x.isNegative(); std::string t = x.absoluted().toString(16); x = BigInteger(t, 16); if (neg) x.negate(); }
        alone[i] = program(*sh, own, progSeed(i), steps, heavy, focus);
    }
    std::fprintf(log, "S %lu threads %d steps %d mode %d%s\n", seed, threads, steps, mode, cold ? " first use" : "");
    std::vector<std::pair<unsigned, int>> order;
    for (int i = 0; i < threads; ++i) {
        for (size_t k = 0; k < alone[i].size() && k < together[i].size(); ++k) {
            const Step & a = alone[i][k], & b = together[i][k];
            order.push_back({b.tick, i});
            if (a.op != b.op || a.saw != b.saw) {
                std::fprintf(log, "V thread %d step %zu (%s): saw '%s' next to the other threads, '%s' alone\n", i, k, a.op < 0 ? "values at the end" : NAMES[a.op], b.saw.substr(0, 400).c_str(), a.saw.substr(0, 400).c_str());
                break;
            }
            if (b.op >= 0) ++g_counts[b.op];
        }
        if (alone[i].size() != together[i].size()) std::fprintf(log, "V thread %d made %zu steps instead of %zu\n", i, together[i].size(), alone[i].size());
    }
    std::sort(order.begin(), order.end());
    std::uint64_t h = seed;
    long switches = 0;
    for (size_t i = 0; i < order.size(); ++i) { h = (h ^ (unsigned)order[i].second) * 1099511628211ull; switches += i && order[i].second != order[i - 1].second; }
    std::fprintf(log, "G %016llx\nI switches_between_threads %ld\n", (unsigned long long)h, switches);
    for (auto & c : g_counts) std::fprintf(log, "I %s %ld\n", NAMES[c.first], c.second);
    g_counts.clear();
    std::fprintf(log, "I first_uses_of_a_process %d\n", (int)cold);
    std::fprintf(log, "E %lu\n", seed);
    std::fflush(log);
}

} // namespace

int main(int argc, char ** argv) {
    if (argc < 7) return 95;
    FILE * log = std::fopen(argv[4], "w");
    if (!log) return 95;
    const unsigned long seed = std::strtoul(argv[1], nullptr, 10), first = std::strtoul(argv[2], nullptr, 10), count = std::strtoul(argv[3], nullptr, 10);
    for (unsigned long i = first; i < first + count; ++i) {
        std::fprintf(log, "B %lu\n", seed * 1000003 + i);
        std::fflush(log);
        scenario(seed * 1000003 + i, log, argv[5][0] == '1', std::atoi(argv[6]), i == first);
        if (i == first) registerAll();
    }
    std::fprintf(log, "END\n");
    std::fclose(log);
    _exit(0);
}
