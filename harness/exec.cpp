// Executor: replays a script of public-API calls against the real library and records what each call did.
// usage: exec SCRIPT RECORD      one record line per command: "<observation>[ !<code>x<count>...]"
// The record never goes through stdout/stderr, where the library may print.
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "errInfos.h"
#include "expr.h"
#include "Fraction.h"
#include "algorithm.h"
#include "infixExpr/SymbolTable.h"
#include "infixExpr/ExprTree.h"
#include "infixExpr/ExprParser.h"
#include "streams/StringReadStream.h"
#include "../c/src/pgbn.h"
#include "delay.h"
#include "tsan_eh.h"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <signal.h>
#include <sys/resource.h>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define EX_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EX_ASAN 1
#endif
#endif
#if !defined(EX_ASAN) && !defined(__SANITIZE_THREAD__) && !defined(EX_NO_LIMIT)
#define EX_LIMIT 1
#endif
#ifdef EX_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

using pgbn::BigInteger;
using pgbn::BigIntegerImpl;
using pgbn::Status;
using Fraction = pgbn::experimental::Fraction;
namespace ie = pgbn::infixExpr;

namespace {

constexpr int NSLOT = 24;
constexpr unsigned NCODE = 64;
int g_out = -1;
std::atomic<unsigned> g_events[NCODE];

void onError(unsigned code) { g_events[code % NCODE].fetch_add(1, std::memory_order_relaxed); }

void put(const std::string & s) {
    size_t off = 0;
    while (off < s.size()) {
        ssize_t n = ::write(g_out, s.data() + off, s.size() - off);
        if (n <= 0) _exit(96);
        off += (size_t)n;
    }
}

void onTimer(int) {
    const char m[] = "\n#HANG\n";
    if (::write(g_out, m, sizeof m - 1)) {}
    _exit(97);
}

void arm(int seconds) {
    struct itimerval t;
    std::memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

const char HEX[] = "0123456789abcdef";

std::string hexOf(const unsigned char * p, size_t n, bool reversed) { // reversed: little endian in, big endian out
    std::string s;
    s.reserve(2 * n);
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = reversed ? p[n - 1 - i] : p[i];
        s.push_back(HEX[c >> 4]);
        s.push_back(HEX[c & 15]);
    }
    return s;
}

std::string hexStr(const std::string & s) { return s.empty() ? "-" : hexOf((const unsigned char *)s.data(), s.size(), false); }

int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

std::string unhex(const std::string & h) {
    std::string s;
    if (h == "-") return s;
    s.reserve(h.size() / 2);
    for (size_t i = 0; i + 1 < h.size(); i += 2) s.push_back((char)(nib(h[i]) * 16 + nib(h[i + 1])));
    return s;
}

// bytes in a heap buffer of exactly their size, so that any read beyond them is seen
struct Exact {
    explicit Exact(const std::string & s) : n(s.size()), p((char *)std::malloc(n ? n : 1)) { std::memcpy(p, s.data(), n); }
    ~Exact() { std::free(p); }
    Exact(const Exact &) = delete;
    std::string_view view() const { return std::string_view(n ? p : p + 1 - 1, n); }
    size_t n;
    char * p;
};

std::vector<unsigned char> & scratch() { static thread_local std::vector<unsigned char> v(1 << 16); return v; }

template <class X> std::string obsWith(X & b, bool z, bool p, bool n) {
    auto & buf = scratch();
    size_t k;
    while (true) {
        k = b.copyMagDataTo(buf.data(), buf.size());
        if (k < buf.size()) break;
        buf.resize(buf.size() * 2);
    }
    std::string s;
    if (z) s += 'Z';
    if (p) s += 'P';
    if (n) s += 'N';
    return s + hexOf(buf.data(), k, true);
}

std::string obs(const BigInteger & b) { return obsWith(b, b.isZero(), b.isPositive(), b.isNegative()); }

std::string obsC(pgbn_BigInteger_t * b) {
    struct W {
        pgbn_BigInteger_t * b;
        size_t copyMagDataTo(void * d, size_t n) { return pgbn_BigInteger_GetMagData(b, d, n); }
    } w{b};
    return obsWith(w, pgbn_BigInteger_IsZero(b), pgbn_BigInteger_IsPositive(b), pgbn_BigInteger_IsNegative(b));
}

std::string obsImpl(const BigIntegerImpl & v) {
    BigInteger b(std::make_unique<BigIntegerImpl>(v));
    return obs(b);
}

BigInteger makeBig(const std::string & t) { // P<hex> | N<hex> | Z, through the binary import
    if (t[0] == 'Z') return BigInteger();
    std::string m = unhex(t.substr(1));
    std::string le(m.rbegin(), m.rend());
    le.push_back('\0');
    BigInteger b(le.size(), le.data(), true);
    if (t[0] == 'N') b.negate();
    return b;
}

std::optional<BigInteger> B[NSLOT];
std::optional<Fraction> F[NSLOT];
pgbn_BigInteger_t * C[NSLOT];
std::optional<BigIntegerImpl> I[NSLOT];
std::unique_ptr<Status> S[8];
pgbn_Status_t * CS[8];

// the expression front end: the literal hook, a parser that is used again, the trees of one pool
decltype(ie::Hooks::literal2Value) g_literal = ie::Hooks::getInstance()->literal2Value;
std::vector<std::string> g_lits;
std::unique_ptr<ie::NodePool> g_pool;
std::unique_ptr<ie::ExprParser> g_parser;
ie::ExprNode * g_tree[NSLOT];

void setHook(int mode) {
    auto & hook = ie::Hooks::getInstance()->literal2Value;
    if (mode == 0) { hook = g_literal; return; }
    if (mode == 4) { hook = nullptr; return; }
    hook = [mode](ie::Value & v, int radix, const std::string & before, const std::string & after) -> bool {
        g_lits.push_back(std::to_string(radix) + ":" + before + "." + after);
        if (mode == 5) { v = ie::Value((std::int64_t)(radix * 1000000 + (int)before.size() * 1000 + (int)after.size())); return true; }
        if (mode == 3 && before.find('7') != std::string::npos) return false;
        if (!g_literal(v, radix, before, after)) return false;
        if (mode == 2) v.addAssign(1);
        return true;
    };
}

void clearAll() {
    setHook(0);
    g_lits.clear();
    g_parser.reset();
    g_pool.reset();
    for (auto & t : g_tree) t = nullptr;
    for (auto & b : B) b.reset();
    for (auto & f : F) f.reset();
    for (auto & i : I) i.reset();
    for (auto & c : C) { if (c) pgbn_BigInteger_Destroy(c); c = nullptr; }
    for (auto & s : S) s.reset();
    for (auto & s : CS) { if (s) pgbn_Status_Destroy(s); s = nullptr; }
}

std::mutex g_callMutex;
std::vector<std::string> g_calls;
std::atomic<unsigned> g_callCount{0};

struct Thrown : std::runtime_error { using std::runtime_error::runtime_error; };
struct Plain { std::string text; }; // not a std::exception

void regFunc(const std::string & name, int argc, const std::string & kind) {
    auto fn = [name, kind](std::vector<ie::Value> & args) -> ie::Value {
        std::string rec = name + "(";
        for (size_t i = 0; i < args.size(); ++i) rec += (i ? "," : "") + obsImpl(args[i]);
        rec += ")";
        {
            std::lock_guard<std::mutex> g(g_callMutex);
            g_calls.push_back(rec);
        }
        g_callCount.fetch_add(1);
        delay::at(7);
        if (kind == "throw") throw Thrown("thrown by " + name);
        if (kind == "throwplain") throw Plain{"thrown by " + name};
        if (kind == "sum" || kind == "mut") {
            ie::Value r(0);
            for (auto & a : args) r.addAssign(a);
            if (kind == "mut") for (auto & a : args) { a.addAssign(1); a.mulAssign(a); a.negate(); }
            return r;
        }
        if (kind == "poly") { // order sensitive: sum of a_i * 1000003**i
            ie::Value r(0);
            for (size_t i = args.size(); i-- > 0;) { r.mulAssign(1000003); r.addAssign(args[i]); }
            return r;
        }
        if (kind == "count") return ie::Value((std::int64_t)args.size());
        if (kind == "nest") { // uses the library's own evaluator inside the call
            ie::Value r(0);
            for (auto & a : args) r.addAssign(a);
            BigInteger x = pgbn::expr::eval("(1+2)*3");
            r.addAssign((std::int64_t)x.as<long>());
            return r;
        }
        return args.empty() ? ie::Value(7) : args[0]; // id
    };
    ie::SymbolTable::getInstance()->registe(name, ie::SymbolTable::Symbol{ie::Func{fn, argc}});
}

std::string takeCalls(bool sorted) {
    std::lock_guard<std::mutex> g(g_callMutex);
    if (sorted) std::sort(g_calls.begin(), g_calls.end());
    std::string s = " calls=";
    for (auto & c : g_calls) { s += c; s += ';'; }
    g_calls.clear();
    return s;
}

struct Args {
    std::vector<std::string> t;
    size_t pos = 0;
    const std::string & s() {
        if (pos >= t.size()) { std::fprintf(stderr, "exec: missing operand in command %s\n", t.empty() ? "" : t[0].c_str()); _exit(95); }
        return t[pos++];
    }
    bool more() const { return pos < t.size(); }
    long long i() { return std::strtoll(s().c_str(), nullptr, 10); }
    unsigned long long u() { return std::strtoull(s().c_str(), nullptr, 10); }
};

BigInteger & b(long long i) { return *B[i]; }

using BinBB = BigInteger (*)(const BigInteger &, const BigInteger &);

#define OPS(X) X("+", +) X("-", -) X("*", *) X("/", /) X("%", %) X("&", &) X("|", |) X("^", ^)

BigInteger opBB(const std::string & o, const BigInteger & l, const BigInteger & r) {
#define X(n, op) if (o == n) return l op r;
    OPS(X)
#undef X
    _exit(95);
}
BigInteger opBI(const std::string & o, const BigInteger & l, std::int64_t r) {
#define X(n, op) if (o == n) return l op r;
    OPS(X)
#undef X
    _exit(95);
}
BigInteger opIB(const std::string & o, std::int64_t l, const BigInteger & r) {
#define X(n, op) if (o == n) return l op r;
    OPS(X)
#undef X
    _exit(95);
}
BigInteger & inB(const std::string & o, BigInteger & l, const BigInteger & r) {
#define X(n, op) if (o == n) return l op##= r;
    OPS(X)
#undef X
    _exit(95);
}
BigInteger & inI(const std::string & o, BigInteger & l, std::int64_t r) {
#define X(n, op) if (o == n) return l op##= r;
    OPS(X)
#undef X
    _exit(95);
}

template <class L, class R> std::string six(const L & l, const R & r) {
    std::string s;
    s += (l == r) ? '1' : '0';
    s += (l != r) ? '1' : '0';
    s += (l < r) ? '1' : '0';
    s += (l <= r) ? '1' : '0';
    s += (l > r) ? '1' : '0';
    s += (l >= r) ? '1' : '0';
    return s;
}

std::string sgn(int c) { return c < 0 ? "-" : c > 0 ? "+" : "0"; }

template <class T> std::string num(T v) { return std::to_string(v); }

// cap: the capacity the callee is told, room: the size of the buffer (less for capacities like SIZE_MAX)
std::string magTo(unsigned long long told, unsigned long long cap, const std::function<size_t(void *, size_t)> & f) {
    std::unique_ptr<unsigned char, void (*)(void *)> p((unsigned char *)std::malloc(cap ? cap : 1), std::free);
    std::memset(p.get(), 0xa5, cap ? cap : 1);
    size_t n = f(p.get(), (size_t)told);
    std::string s = num(n) + " " + (cap ? hexOf(p.get(), cap, false) : std::string("-"));
    return s;
}

// a command of the C++ API or of the evaluator; returns the observation
std::string run(const std::string & c, Args & a) {
    // ---- construction and assignment
    if (c == "n") { auto i = a.i(); B[i].reset(); B[i].emplace(); return obs(b(i)); }
    if (c == "ni") { auto i = a.i(); B[i].reset(); B[i].emplace((std::int64_t)a.i()); return obs(b(i)); }
    if (c == "ns") {
        auto i = a.i(); int radix = (int)a.i(); Exact e(unhex(a.s())); auto mode = a.i();
        bool ok = mode == 2; // a wrong value to start with
        B[i].reset();
        // the default radix and argument types other than a view, too
        if (mode) B[i].emplace(e.view(), radix, &ok);
        else if (radix == 10 && e.n % 4 == 1) B[i].emplace(e.view());
        else if (radix == 10 && e.n % 4 == 2) B[i].emplace(std::string(e.view()));
        else if (radix == 10 && e.n % 4 == 3 && !std::memchr(e.p, 0, e.n)) B[i].emplace(std::string(e.view()).c_str());
        else B[i].emplace(e.view(), radix);
        return obs(b(i)) + (mode ? (ok ? " ok" : " bad") : "");
    }
    if (c == "nb") { auto i = a.i(); Exact e(unhex(a.s())); bool le = a.i() != 0; B[i].reset(); if (le && e.n % 2) B[i].emplace((pgbn::SizeType)e.n, (const void *)e.p); else B[i].emplace((pgbn::SizeType)e.n, (const void *)e.p, le); return obs(b(i)); }
    if (c == "nc") { auto i = a.i(), j = a.i(); B[i].reset(); B[i].emplace(b(j)); return obs(b(i)); }
    if (c == "nm") { auto i = a.i(), j = a.i(); B[i].reset(); B[i].emplace(std::move(b(j))); return obs(b(i)); }
    if (c == "nv") { auto i = a.i(); B[i].reset(); B[i].emplace(makeBig(a.s())); return obs(b(i)); }
    if (c == "ai") { auto i = a.i(); BigInteger & r = (b(i) = (std::int64_t)a.i()); return obs(r); }
    if (c == "aii") { auto i = a.i(); BigInteger & r = b(i).assign((std::int64_t)a.i()); return obs(r); }
    if (c == "ss") {
        auto i = a.i(); int radix = (int)a.i(); Exact e(unhex(a.s())); auto mode = a.i();
        bool ok = mode == 2;
        BigInteger & r = mode ? b(i).assign(e.view(), radix, &ok) : radix == 10 && e.n % 2 ? b(i).assign(e.view()) : b(i).assign(e.view(), radix);
        return obs(r) + (mode ? (ok ? " ok" : " bad") : "");
    }
    if (c == "sb") { auto i = a.i(); Exact e(unhex(a.s())); bool le = a.i() != 0; return obs(le && e.n % 2 ? b(i).fromBinary(e.p, e.n) : b(i).fromBinary(e.p, e.n, le)); }
    if (c == "ca") { auto i = a.i(), j = a.i(); BigInteger & r = (b(i) = b(j)); return obs(r); }
    if (c == "ma") { auto i = a.i(), j = a.i(); BigInteger & r = (b(i) = std::move(b(j))); return obs(r); }
    if (c == "sw") { auto i = a.i(), j = a.i(); std::swap(b(i), b(j)); return obs(b(i)) + " " + obs(b(j)); }
    if (c == "del") { B[a.i()].reset(); return "."; }
    // ---- operators
    if (c == "bo") { auto o = a.s(); auto i = a.i(), j = a.i(), k = a.i(); BigInteger t = opBB(o, b(j), b(k)); B[i] = std::move(t); return obs(b(i)); }
    if (c == "br") { auto o = a.s(); auto i = a.i(), j = a.i(); BigInteger t = opBI(o, b(j), a.i()); B[i] = std::move(t); return obs(b(i)); }
    if (c == "bl") { auto o = a.s(); auto i = a.i(); std::int64_t l = a.i(); BigInteger t = opIB(o, l, b(a.i())); B[i] = std::move(t); return obs(b(i)); }
    if (c == "ib") { auto o = a.s(); auto i = a.i(), j = a.i(); BigInteger & r = inB(o, b(i), b(j)); return obs(r) + (&r == &b(i) ? "" : " wrong-reference"); }
    if (c == "ii") { auto o = a.s(); auto i = a.i(); BigInteger & r = inI(o, b(i), a.i()); return obs(r) + (&r == &b(i) ? "" : " wrong-reference"); }
    if (c == "sl") { auto i = a.i(), j = a.i(); BigInteger t = b(j) << a.i(); B[i] = std::move(t); return obs(b(i)); }
    if (c == "sr") { auto i = a.i(), j = a.i(); BigInteger t = b(j) >> a.i(); B[i] = std::move(t); return obs(b(i)); }
    if (c == "isl") { auto i = a.i(); BigInteger & r = (b(i) <<= a.u()); return obs(r); }
    if (c == "isr") { auto i = a.i(); BigInteger & r = (b(i) >>= a.u()); return obs(r); }
    if (c == "un") {
        auto o = a.s(); auto i = a.i(); const BigInteger & s = b(a.i());
        BigInteger t = o == "+" ? +s : o == "-" ? -s : o == "~" ? ~s : o == "neg" ? s.negated() : s.absoluted();
        B[i] = std::move(t);
        return obs(b(i));
    }
    if (c == "in") {
        auto o = a.s(); auto i = a.i(); BigInteger & s = b(i);
        if (o == "x++") { BigInteger t = s++; return obs(t) + " " + obs(s); }
        if (o == "x--") { BigInteger t = s--; return obs(t) + " " + obs(s); }
        BigInteger & r = o == "++x" ? ++s : o == "--x" ? --s : o == "negate" ? s.negate() : o == "abs" ? s.abs() : o == "notself" ? s.notSelf() : s.notBits();
        return obs(r) + (&r == &s ? "" : " wrong-reference");
    }
    if (c == "gcd") { auto i = a.i(), j = a.i(); BigInteger t = pgbn::algo::gcd(b(j), b(a.i())); B[i] = std::move(t); return obs(b(i)); }
    // ---- observers
    if (c == "ob") return obs(b(a.i()));
    if (c == "all") {
        std::string s;
        for (int i = 0; i < NSLOT; ++i) if (B[i]) s += (s.empty() ? "" : " ") + num(i) + "=" + obs(*B[i]);
        return s.empty() ? "." : s;
    }
    if (c == "cm") { auto i = a.i(), j = a.i(); const BigInteger & l = b(i); const BigInteger & r = b(j); return six(l, r) + sgn(l.cmp(r)); }
    if (c == "ci") { auto i = a.i(); std::int64_t v = a.i(); const BigInteger & l = b(i); return six(l, v) + sgn(l.cmp(v)) + six(v, l); }
    if (c == "pr") {
        const BigInteger & s = b(a.i());
        std::string r;
        for (bool v : {s.isZero(), s.isOne(), s.isNegOne(), s.isPositive(), s.isNegative(), s.isEven(), s.isOdd()}) r += v ? '1' : '0';
        return r;
    }
    if (c == "ts") { auto i = a.i(); std::string s = b(i).toString((int)a.i()); return s; }
    if (c == "ts10") { return b(a.i()).toString(); }
    if (c == "blk") { auto i = a.i(); return num(b(i).get2sComplement(a.u())); }
    if (c == "g64") {
        const BigInteger & s = b(a.i());
        bool ok1 = false, ok2 = false;
        std::int64_t i1 = s.getInt64(&ok1), i2 = 0; bool t1 = s.tryGetInt64(i2);
        std::uint64_t u1 = s.getUInt64(&ok2), u2 = 0; bool t2 = s.tryGetUInt64(u2);
        std::int64_t i3 = s.getInt64();
        std::uint64_t u3 = s.getUInt64();
        auto f = [](bool ok, const std::string & v) { return ok ? v : std::string("overflow"); };
        return f(ok1, num(i1)) + " " + f(t1, num(i2)) + " " + (ok1 ? num(i3) : "overflow") + " " + f(ok2, num(u1)) + " " + f(t2, num(u2)) + " " + (ok2 ? num(u3) : "overflow");
    }
    if (c == "as") {
        const BigInteger & s = b(a.i());
        return num((int)(unsigned char)s.as<char>()) + " " + num((int)s.as<unsigned char>()) + " " + num((int)s.as<short>()) + " " + num((int)s.as<unsigned short>()) + " " +
            num(s.as<int>()) + " " + num(s.as<unsigned>()) + " " + num(s.as<long>()) + " " + num(s.as<unsigned long>()) + " " +
            num(s.as<long long>()) + " " + num(s.as<unsigned long long>()) + " " + (s.as<bool>() ? "1" : "0") + " " + s.as<std::string>();
    }
    if (c == "mag") { auto i = a.i(); const BigInteger & s = b(i); auto told = a.u(); return magTo(told, a.more() ? a.u() : told, [&](void * d, size_t n) { return s.copyMagDataTo(d, n); }); }
    // ---- evaluator
    if (c == "ev") { // ev MODE THREADS STATUSMODE HEX
        bool par = a.i() != 0; int th = (int)a.i(); auto sm = a.i(); Exact e(unhex(a.s()));
        Status own;
        Status * st = sm ? &own : nullptr;
        *Status::getInstance() = 0u;
        for (auto & x : g_events) x = 0;
        g_lits.clear();
        std::string r;
        try {
            BigInteger v = par ? st ? pgbn::expr::peval(e.view(), th, st) : th == -1 ? pgbn::expr::peval(e.view()) : pgbn::expr::peval(e.view(), th)
                               : st ? pgbn::expr::eval(e.view(), st) : pgbn::expr::eval(e.view());
            r = obs(v);
        } catch (const Thrown & t) {
            r = std::string("threw ") + t.what();
        } catch (const Plain & t) {
            r = "threw " + t.text;
        } catch (const std::exception & t) {
            r = std::string("threw-other ") + t.what();
        }
        r += takeCalls(par); // in eval the order counts
        r += " status=" + (st ? own.getInfo() : Status::getInstance()->getInfo());
        return r;
    }
    if (c == "dly") { int m = (int)a.i(); delay::set(m, a.u()); return "delay points passed " + num(delay::hits.exchange(0)) + " slept " + num(delay::slept.exchange(0)); }
    if (c == "kc") { auto name = a.s(); BigInteger v = makeBig(a.s());
        std::string le; auto & buf = scratch(); size_t n = v.copyMagDataTo(buf.data(), buf.size()); le.assign((char *)buf.data(), n); le.push_back('\0');
        BigIntegerImpl impl(le.data(), le.size(), true); if (v.isNegative()) impl.negate();
        ie::SymbolTable::getInstance()->registe(name, ie::SymbolTable::Symbol{ie::Value(impl)}); return "."; }
    if (c == "kf") { auto name = a.s(); int argc = (int)a.i(); regFunc(name, argc, a.s()); return "."; }
    if (c == "ko") { // what a registered constant holds now
        auto * s = ie::SymbolTable::getInstance()->get(a.s());
        if (!s) return "none";
        if (s->is<ie::Value>()) return obsImpl(s->as<ie::Value>());
        return "func";
    }
    // ---- fractions
    if (c == "fd0") { auto i = a.i(); F[i].reset(); F[i].emplace(); return "."; }
    if (c == "fn") { auto i = a.i(), n = a.i(), d = a.i(); auto mode = a.i(); bool ok = mode == 2; F[i].reset();
        if (mode) F[i].emplace(b(n), b(d), &ok); else F[i].emplace(b(n), b(d));
        return mode ? (ok ? "ok" : "bad") : "."; }
    if (c == "f1") { auto i = a.i(); F[i].reset(); F[i].emplace(b(a.i())); return "."; }
    if (c == "fc") { auto i = a.i(), j = a.i(); F[i] = F[j]; return "."; }
    if (c == "fop") { auto o = a.s(); auto i = a.i(), j = a.i(), k = a.i(); const Fraction & l = *F[j]; const Fraction & r = *F[k];
        Fraction t = o == "+" ? l + r : o == "-" ? l - r : o == "*" ? l * r : l / r; F[i] = std::move(t); return "."; }
    if (c == "frec") { auto i = a.i(), j = a.i(); auto mode = a.i(); bool ok = mode == 2; Fraction t = mode ? F[j]->reciprocal(&ok) : F[j]->reciprocal(); F[i] = std::move(t); return mode ? (ok ? "ok" : "bad") : "."; }
    if (c == "fsn") { auto i = a.i(); F[i]->setNum(b(a.i())); return "."; }
    if (c == "fsd") { auto i = a.i(), j = a.i(); auto mode = a.i(); bool ok = mode == 2; if (mode) F[i]->setDen(b(j), &ok); else F[i]->setDen(b(j)); return mode ? (ok ? "ok" : "bad") : "."; }
    if (c == "fsa") { // a part set from a part of the same fraction
        Fraction & f = *F[a.i()]; auto t = a.s(), s = a.s(); const BigInteger & v = s == "n" ? f.getNum() : f.getDen();
        if (t == "n") f.setNum(v); else f.setDen(v); return "."; }
    if (c == "fob") { const Fraction & f = *F[a.i()]; return obs(f.getNum()) + " " + obs(f.getDen()); }
    if (c == "fts") { auto i = a.i(); return F[i]->toString((int)a.i()); }
    if (c == "fts10") return F[a.i()]->toString();
    if (c == "fdec") { auto i = a.i(); return F[i]->toDecimal((int)a.i()); }
    if (c == "fdec8") return F[a.i()]->toDecimal();
    // ---- status
    if (c == "gst") return Status::getInstance()->getInfo();
    if (c == "gset") { *Status::getInstance() = (unsigned)a.u(); return Status::getInstance()->getInfo(); }
    if (c == "snew") { auto i = a.i(); S[i].reset(); S[i].reset(new Status((unsigned)a.u())); return S[i]->getInfo(); }
    if (c == "sdef") { auto i = a.i(); S[i].reset(new Status()); return S[i]->getInfo(); }
    if (c == "sset") { auto i = a.i(); *S[i] = (unsigned)a.u(); return S[i]->getInfo(); }
    if (c == "sinfo") return S[a.i()]->getInfo();
    if (c == "smv") { auto i = a.i(), j = a.i(); *S[i] = std::move(*S[j]); return S[i]->getInfo(); }
    if (c == "sreg") { unsigned no = (unsigned)a.u(); std::string info = unhex(a.s()); long long cb = a.i();
        if (cb < 0) Status::registe(no, info); else Status::registe(no, info, [](unsigned x) { onError(x); }, (unsigned)cb);
        return Status::getInfo(no); }
    if (c == "scinfo") return Status::getInfo((unsigned)a.u());
    if (c == "sfind") return Status::find((unsigned)a.u()) ? "1" : "0";
    if (c == "scall") { const auto & cb = Status::getCallback((unsigned)a.u()); if (!cb) return "empty"; cb(); return "called"; }
    std::fprintf(stderr, "exec: unknown command %s\n", c.c_str());
    _exit(95);
}

BigIntegerImpl makeImpl(const std::string & t) { // Z, P<hex>, N<hex> through the binary import
    if (t[0] == 'Z') return BigIntegerImpl();
    std::string m = unhex(t.substr(1));
    std::string le(m.rbegin(), m.rend());
    le.push_back('\0');
    BigIntegerImpl v(le.data(), le.size(), true);
    if (t[0] == 'N') v.negate();
    return v;
}

std::string obsI(const BigIntegerImpl & v) {
    struct W {
        const BigIntegerImpl & v;
        size_t copyMagDataTo(void * d, size_t n) { return v.copyMagDataTo(d, n); }
    } w{v};
    using namespace pgbn;
    return obsWith(w, v.isZero(), v.flagsContains(BNFlag::POSITIVE), v.flagsContains(BNFlag::NEGATIVE));
}

// the integer type below BigInteger
std::string runI(const std::string & c, Args & a) {
    auto v = [](long long i) -> BigIntegerImpl & { return *I[i]; };
    if (c == "i.n") { auto i = a.i(); I[i].reset(); I[i].emplace(); return obsI(v(i)); }
    if (c == "i.ni") { auto i = a.i(); I[i].reset(); I[i].emplace((std::int64_t)a.i()); return obsI(v(i)); }
    if (c == "i.nv") { auto i = a.i(); I[i].reset(); I[i].emplace(makeImpl(a.s())); return obsI(v(i)); }
    if (c == "i.ns") { auto i = a.i(); int radix = (int)a.i(); Exact e(unhex(a.s())); bool ok = false; I[i].reset(); I[i].emplace(e.view(), radix, &ok);
        if (radix == 10 && e.n % 2) { I[i].reset(); I[i].emplace(e.view()); }
        return obsI(v(i)) + (ok ? " ok" : " bad"); }
    if (c == "i.mag") { // from a magnitude of 32-bit limbs, low one first, as it is
        auto i = a.i(); auto data = std::make_shared<std::vector<std::uint32_t>>();
        auto lo = a.u(); int sign = (int)a.i();
        while (a.more()) data->push_back((std::uint32_t)a.u());
        pgbn::Slice<std::uint32_t> m(data, lo);
        I[i].reset(); I[i].emplace(std::move(m), sign); return obsI(v(i)); }
    if (c == "i.cp") { auto i = a.i(), j = a.i(); I[i].reset(); I[i].emplace(v(j)); return obsI(v(i)); }
    if (c == "i.mv") { auto i = a.i(), j = a.i(); I[i].reset(); I[i].emplace(std::move(v(j))); return obsI(v(i)); }
    if (c == "i.as") { auto i = a.i(), j = a.i(); v(i) = v(j); return obsI(v(i)); }
    if (c == "i.as2") { auto i = a.i(), j = a.i(); return obsI(v(i).assign(v(j))); }
    if (c == "i.ma") { auto i = a.i(), j = a.i(); v(i) = std::move(v(j)); return obsI(v(i)); }
    if (c == "i.ma2") { auto i = a.i(), j = a.i(); return obsI(v(i).assign(std::move(v(j)))); }
    if (c == "i.ai") { auto i = a.i(); return obsI(v(i).assign((std::int64_t)a.i())); }
    if (c == "i.ss") { auto i = a.i(); int radix = (int)a.i(); Exact e(unhex(a.s())); bool ok = false;
        if (radix == 10 && e.n % 2) { BigIntegerImpl(e.view(), radix, &ok); v(i).fromString(e.view()); } else v(i).fromString(e.view(), radix, &ok);
        return obsI(v(i)) + (ok ? " ok" : " bad"); }
    if (c == "i.sb") { auto i = a.i(); Exact e(unhex(a.s())); bool le = a.i() != 0; 
        if (e.n % 3 == 0) { I[i].reset(); if (le) I[i].emplace((const void *)e.p, (pgbn::SizeType)e.n); else I[i].emplace((const void *)e.p, (pgbn::SizeType)e.n, le); return obsI(v(i)); }
        return obsI(le && e.n % 3 == 1 ? v(i).assign(e.p, e.n) : v(i).assign(e.p, e.n, le)); }
    if (c == "i.sw") { auto i = a.i(), j = a.i(); if (a.i()) { using std::swap; swap(v(i), v(j)); } else v(i).swap(v(j)); return obsI(v(i)) + " " + obsI(v(j)); }
    if (c == "i.del") { I[a.i()].reset(); return "."; }
    if (c == "i.op") {
        auto o = a.s(); auto & l = v(a.i()); const auto & r = v(a.i());
        switch (o[0]) {
        case '+': l.addAssign(r); break; case '-': l.subAssign(r); break; case '*': l.mulAssign(r); break; case '/': l.divAssign(r); break;
        case '&': l.andAssign(r); break; case '|': l.orAssign(r); break; default: l.xorAssign(r); }
        return obsI(l);
    }
    if (c == "i.oi") {
        auto o = a.s(); auto & l = v(a.i()); std::int64_t r = a.i();
        switch (o[0]) {
        case '+': l.addAssign(r); break; case '-': l.subAssign(r); break; case '*': l.mulAssign(r); break; case '/': l.divAssign(r); break;
        case '&': l.andAssign(r); break; case '|': l.orAssign(r); break; case '^': l.xorAssign(r); break;
        case '<': l.shiftLeftAssign((std::uint64_t)r); break; default: l.shiftRightAssign((std::uint64_t)r); }
        return obsI(l);
    }
    if (c == "i.dr") { auto & l = v(a.i()); const auto & d = v(a.i()); auto & r = v(a.i()); l.divideAssignAndReminder(d, r); return obsI(l) + " " + obsI(r); }
    if (c == "i.dri") { auto & l = v(a.i()); std::int64_t d = a.i(); auto & r = v(a.i()); l.divideAssignAndReminder(d, r); return obsI(l) + " " + obsI(r); }
    if (c == "i.mq") { auto & l = v(a.i()); const auto & d = v(a.i()); auto & q = v(a.i()); l.modAssignAndQuotient(d, q); return obsI(q) + " " + obsI(l); }
    if (c == "i.mqi") { auto & l = v(a.i()); std::int64_t d = a.i(); auto & q = v(a.i()); l.modAssignAndQuotient(d, q); return obsI(q) + " " + obsI(l); }
    if (c == "i.mul") { auto & p = v(a.i()); const auto & l = v(a.i()); const auto & r = v(a.i()); BigIntegerImpl::mul(p, l, r); return obsI(p); }
    if (c == "i.div") { auto & q = v(a.i()); auto & r = v(a.i()); const auto & l = v(a.i()); const auto & d = v(a.i()); BigIntegerImpl::div(q, r, l, d); return obsI(q) + " " + obsI(r); }
    if (c == "i.divi") { auto & q = v(a.i()); auto & r = v(a.i()); const auto & l = v(a.i()); BigIntegerImpl::div(q, r, l, (std::int64_t)a.i()); return obsI(q) + " " + obsI(r); }
    if (c == "i.un") {
        auto o = a.s(); auto & s = v(a.i());
        if (o == "inc") s.inc(); else if (o == "dec") s.dec(); else if (o == "notself") s.notSelf(); else if (o == "notbits") s.notBits(); else if (o == "negate") s.negate(); else s.abs();
        return obsI(s);
    }
    if (c == "i.cm") { const auto & l = v(a.i()); const auto & r = v(a.i()); return sgn(l.cmp(r)); }
    if (c == "i.ts") { const auto & s = v(a.i()); return s.toString((int)a.i()); }
    if (c == "i.all") {
        std::string s;
        for (int i = 0; i < NSLOT; ++i) if (I[i]) s += (s.empty() ? "" : " ") + num(i) + "=" + obsI(*I[i]);
        return s.empty() ? "." : s;
    }
    if (c == "i.q") { // everything that can be asked about it
        using namespace pgbn;
        const auto & s = v(a.i());
        auto n = a.u();
        std::string r;
        for (bool x : {s.isZero(), s.isOne(), s.isNegOne(), s.isOdd(), s.isEven()}) r += x ? '1' : '0';
        for (Enum f : {BNFlag::ZERO, BNFlag::POSITIVE, BNFlag::NEGATIVE}) r += s.flagsContains(f) ? '1' : '0';
        auto bits = s.getMagBitCount();
        return r + " " + num(s.getMagU32Count()) + " " + num(std::get<0>(bits) + 32 * std::get<1>(bits)) + " " + num(std::get<0>(bits)) + " " + num(s.toU64()) + " " + num(s.getU32(n));
    }
    std::fprintf(stderr, "exec: unknown command %s\n", c.c_str());
    _exit(95);
}

extern "C" void cCallback(void * arg) { onError((unsigned)(uintptr_t)arg); }

std::string runC(const std::string & c, Args & a) {
    if (c == "c.new") { auto i = a.i(); C[i] = pgbn_BigInteger_Create(); return obsC(C[i]); }
    if (c == "c.cp") { auto i = a.i(), j = a.i(); C[i] = pgbn_BigInteger_CreateWithCopying(C[j]); return obsC(C[i]); }
    if (c == "c.i") { auto i = a.i(); C[i] = pgbn_BigInteger_CreateWithI64(a.i()); return obsC(C[i]); }
    if (c == "c.s") { auto i = a.i(); int radix = (int)a.i(); std::string s = unhex(a.s()); s.push_back('\0'); Exact e(s); C[i] = pgbn_BigInteger_CreateWithStr(e.p, radix); return C[i] ? obsC(C[i]) : "NULL"; }
    if (c == "c.b") { auto i = a.i(); Exact e(unhex(a.s())); bool le = a.i() != 0; C[i] = pgbn_BigInteger_CreateWithBin(e.n, e.p, le); return obsC(C[i]); }
    if (c == "c.del") { auto i = a.i(); pgbn_BigInteger_Destroy(C[i]); C[i] = nullptr; return "."; }
    if (c == "c.copy") { auto i = a.i(), j = a.i(); pgbn_BigInteger_Copy(C[i], C[j]); return obsC(C[i]); }
    if (c == "c.ai") { auto i = a.i(); pgbn_BigInteger_AssignWithI64(C[i], a.i()); return obsC(C[i]); }
    if (c == "c.as") { auto i = a.i(); int radix = (int)a.i(); std::string s = unhex(a.s()); s.push_back('\0'); Exact e(s); bool ok = pgbn_BigInteger_AssignWithStr(C[i], e.p, radix); return obsC(C[i]) + (ok ? " ok" : " bad"); }
    if (c == "c.ab") { auto i = a.i(); Exact e(unhex(a.s())); bool le = a.i() != 0; pgbn_BigInteger_AssignWithBin(C[i], e.p, e.n, le); return obsC(C[i]); }
    if (c == "c.g64") {
        auto * s = C[a.i()];
        bool ok1 = false, ok2 = false;
        auto i1 = pgbn_BigInteger_GetInt64WithChecking(s, &ok1); auto i2 = pgbn_BigInteger_GetInt64(s);
        auto u1 = pgbn_BigInteger_GetUInt64WithChecking(s, &ok2); auto u2 = pgbn_BigInteger_GetUInt64(s);
        return (ok1 ? num(i1) + " " + num(i2) : std::string("overflow overflow")) + " " + (ok2 ? num(u1) + " " + num(u2) : std::string("overflow overflow"));
    }
    if (c == "c.g64i") { auto * s = C[a.i()]; bool ok = false; auto v = pgbn_BigInteger_GetInt64WithChecking(s, &ok); return std::string(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) + (ok ? " " + num(v) : " overflow"); }
    if (c == "c.g64u") { auto * s = C[a.i()]; bool ok = false; auto v = pgbn_BigInteger_GetUInt64WithChecking(s, &ok); return std::string(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) + (ok ? " " + num(v) : " overflow"); }
    if (c == "c.blk") { auto i = a.i(); return num(pgbn_BigInteger_Get2sComplementBlock(C[i], a.u())); }
    if (c == "c.ts") {
        auto i = a.i(); pgbn_String_t * s = pgbn_BigInteger_ToString(C[i], (int)a.i());
        std::string r(pgbn_String_CStr(s));
        std::string l = num(pgbn_String_Length(s));
        pgbn_String_Destroy(s);
        return r + " " + l;
    }
    if (c == "c.str") { // the string type by itself
        std::string in = unhex(a.s()); in.push_back('\0'); Exact e(in);
        pgbn_String_t * s = pgbn_String_Create(e.p);
        std::string r = hexStr(pgbn_String_CStr(s)) + " " + num(pgbn_String_Length(s));
        pgbn_String_Destroy(s);
        return r;
    }
    if (c == "c.mag") { auto i = a.i(); auto * s = C[i]; auto told = a.u(); return magTo(told, a.more() ? a.u() : told, [&](void * d, size_t n) { return pgbn_BigInteger_GetMagData(s, d, n); }); }
    if (c == "c.pr") {
        auto * s = C[a.i()];
        std::string r;
        for (bool v : {pgbn_BigInteger_IsZero(s), pgbn_BigInteger_IsOne(s), pgbn_BigInteger_IsNegOne(s), pgbn_BigInteger_IsPositive(s), pgbn_BigInteger_IsNegative(s), pgbn_BigInteger_IsEven(s), pgbn_BigInteger_IsOdd(s)}) r += v ? '1' : '0';
        return r;
    }
    if (c == "c.un") {
        auto o = a.s(); auto * s = C[a.i()];
        if (o == "inc") pgbn_BigInteger_Inc(s); else if (o == "dec") pgbn_BigInteger_Dec(s); else if (o == "notself") pgbn_BigInteger_NotSelf(s);
        else if (o == "negate") pgbn_BigInteger_Negate(s); else if (o == "abs") pgbn_BigInteger_AbsSelf(s); else pgbn_BigInteger_NotSelfBits(s);
        return obsC(s);
    }
    if (c == "c.op") {
        auto o = a.s(); auto * l = C[a.i()]; auto * r = C[a.i()];
        switch (o[0]) {
        case '+': pgbn_BigInteger_AddAssign(l, r); break; case '-': pgbn_BigInteger_SubAssign(l, r); break;
        case '*': pgbn_BigInteger_MulAssign(l, r); break; case '/': pgbn_BigInteger_DivAssign(l, r); break;
        case '%': pgbn_BigInteger_ModAssign(l, r); break; case '&': pgbn_BigInteger_AndAssign(l, r); break;
        case '|': pgbn_BigInteger_OrAssign(l, r); break; default: pgbn_BigInteger_XorAssign(l, r); }
        return obsC(l);
    }
    if (c == "c.oi") {
        auto o = a.s(); auto * l = C[a.i()]; std::int64_t r = a.i();
        switch (o[0]) {
        case '+': pgbn_BigInteger_AddAssignWithI64(l, r); break; case '-': pgbn_BigInteger_SubAssignWithI64(l, r); break;
        case '*': pgbn_BigInteger_MulAssignWithI64(l, r); break; case '/': pgbn_BigInteger_DivAssignWithI64(l, r); break;
        case '%': pgbn_BigInteger_ModAssignWithI64(l, r); break; case '&': pgbn_BigInteger_AndAssignWithI64(l, r); break;
        case '|': pgbn_BigInteger_OrAssignWithI64(l, r); break; case '^': pgbn_BigInteger_XorAssignWithI64(l, r); break;
        case '<': pgbn_BigInteger_SHLAssignWithI64(l, r); break; default: pgbn_BigInteger_SHRAssignWithI64(l, r); }
        return obsC(l);
    }
    if (c == "c.ci") { auto * l = C[a.i()]; return sgn(pgbn_BigInteger_CmpWithI64(l, a.i())); }
    if (c == "c.cm") { auto * l = C[a.i()]; return sgn(pgbn_BigInteger_Cmp(l, C[a.i()])); }
    if (c == "c.ob") return obsC(C[a.i()]);
    if (c == "c.all") {
        std::string s;
        for (int i = 0; i < NSLOT; ++i) if (C[i]) s += (s.empty() ? "" : " ") + num(i) + "=" + obsC(C[i]);
        return s.empty() ? "." : s;
    }
    if (c == "c.snew") { auto i = a.i(); CS[i] = pgbn_Status_Create(); return pgbn_Status_GetInfo(CS[i]); }
    if (c == "c.snewe") { auto i = a.i(); CS[i] = pgbn_Status_CreateWithErrno((unsigned)a.u()); return pgbn_Status_GetInfo(CS[i]); }
    if (c == "c.sset") { auto i = a.i(); pgbn_Status_SetErrno(CS[i], (unsigned)a.u()); return pgbn_Status_GetInfo(CS[i]); }
    if (c == "c.sdel") { auto i = a.i(); pgbn_Status_Destroy(CS[i]); CS[i] = nullptr; return "."; }
    if (c == "c.sinfo") return pgbn_Status_GetInfo(CS[a.i()]);
    if (c == "c.gst") return pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance());
    if (c == "c.gset") { pgbn_Status_SetErrno(pgbn_Status_GetGlobalInstance(), (unsigned)a.u()); return std::string(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) + " " + Status::getInstance()->getInfo(); }
    if (c == "c.sreg") { unsigned no = (unsigned)a.u(); std::string info = unhex(a.s()); long long cb = a.i();
        if (cb < 0) pgbn_Status_Register(no, info.c_str()); else pgbn_Status_RegisterWithCallback(no, info.c_str(), cCallback, (void *)(uintptr_t)cb);
        return pgbn_Status_GetInfoByErrno(no); }
    if (c == "c.scinfo") return pgbn_Status_GetInfoByErrno((unsigned)a.u());
    std::fprintf(stderr, "exec: unknown command %s\n", c.c_str());
    _exit(95);
}

// one stream, driven by letters: g get, p peek, e eof, t tell, m move, a assign by moving, d destroy the source (after copying)
std::string stream(const std::string & kind, bool copy, const std::string & text, const std::string & ops) {
    using Stream = pg::base::StringReadStream;
    std::unique_ptr<std::string> str(new std::string(text));
    std::unique_ptr<char[]> buf(new char[text.size() + 1]);
    std::memcpy(buf.get(), text.c_str(), text.size() + 1);
    std::unique_ptr<Stream> s(kind == "c" ? new Stream(buf.get(), copy) : new Stream(*str, copy));
    std::string r;
    for (char o : ops) {
        if (o == 'g') { unsigned char c = (unsigned char)s->get(); r += 'g'; r += HEX[c >> 4]; r += HEX[c & 15]; }
        else if (o == 'p') { const Stream & k = *s; unsigned char c = (unsigned char)k.peek(); r += 'p'; r += HEX[c >> 4]; r += HEX[c & 15]; }
        else if (o == 'e') { const Stream & k = *s; r += k.eof() ? "e1" : "e0"; }
        else if (o == 't') r += "t" + num(s->tell()) + ";";
        else if (o == 'm') s.reset(new Stream(std::move(*s)));
        else if (o == 'a') { std::unique_ptr<Stream> other(new Stream("another text", true)); other->get(); *other = std::move(*s); s = std::move(other); }
        else if (o == 'd' && copy) { std::memset(buf.get(), '#', text.size()); buf.reset(); for (auto & c : *str) c = '#'; str.reset(); }
    }
    return r.empty() ? "." : r;
}

std::string runX(const std::string & c, Args & a) {
    if (c == "x.hook") { setHook((int)a.i()); return "."; }
    if (c == "x.lits") {
        std::string s;
        for (auto & l : g_lits) s += l + " ";
        g_lits.clear();
        return s.empty() ? "." : s.substr(0, s.size() - 1);
    }
    if (c == "x.st") { auto kind = a.s(); bool copy = a.i(); auto text = unhex(a.s()); return stream(kind, copy, text, a.s()); }
    if (c == "x.new") { g_parser.reset(); for (auto & t : g_tree) t = nullptr; g_pool.reset(new ie::NodePool); return num(g_pool->count()); }
    if (c == "x.parse") { // x.parse SLOT FRESH HEX
        auto i = a.i(); bool fresh = a.i(); std::string text = unhex(a.s());
        g_lits.clear();
        *Status::getInstance() = 0u;
        for (auto & x : g_events) x = 0;
        const unsigned before = g_pool->count();
        pg::base::StringReadStream st(text);
        if (fresh) g_parser.reset(new ie::ExprParser(st, *ie::Hooks::getInstance(), g_pool.get()));
        else { if (!g_parser) g_parser.reset(new ie::ExprParser); g_parser->init(st, *ie::Hooks::getInstance(), g_pool.get()); }
        ie::ExprNode * root = g_parser->parse();
        g_tree[i] = root;
        const unsigned code = (unsigned)g_parser->errCode();
        if (!root) return std::string("null") + (code != 0 && Status::find(code) && Status::getInfo(code) == Status::getInstance()->getInfo() ? "" : " but its code is " + num(code) + ", the status " + Status::getInstance()->getInfo());
        std::string r = code == 0 ? "tree" : "tree but its code is " + num(code);
        for (unsigned k = 0; k < g_pool->count(); ++k) if (g_pool->get(k)->indexInPool != k) return r + ", node " + num(k) + " of the pool has index " + num(g_pool->get(k)->indexInPool);
        std::vector<ie::ExprNode *> todo{root};
        while (!todo.empty()) {
            ie::ExprNode * n = todo.back(); todo.pop_back();
            if (n->indexInPool >= g_pool->count() || g_pool->get(n->indexInPool) != n) return r + ", a node is not where the pool says";
            if (n->indexInPool < before) return r + ", a node of an earlier tree is used again";
            todo.insert(todo.end(), n->children.begin(), n->children.end());
        }
        return r;
    }
    if (c == "x.run") {
        auto i = a.i();
        *Status::getInstance() = 0u;
        for (auto & x : g_events) x = 0;
        std::string r;
        try {
            r = obsImpl(g_tree[i]->evalCallback(g_tree[i], false));
        } catch (const Thrown & t) {
            r = std::string("threw ") + t.what();
        } catch (const Plain & t) {
            r = "threw " + t.text;
        }
        return r + takeCalls(false) + " status=" + Status::getInstance()->getInfo();
    }
    std::fprintf(stderr, "exec: unknown command %s\n", c.c_str());
    _exit(95);
}

void quietCallbacks() {
    for (pgbn::SizeType i = 0; i < pgbn::errInfoCount; ++i)
        Status::registe(pgbn::errInfos[i].code, pgbn::errInfos[i].info, [](unsigned x) { onError(x); }, (unsigned)pgbn::errInfos[i].code);
}

void onExit() { put("\n#EXIT\n"); }

} // namespace

int main(int argc, char ** argv) {
    if (argc < 3) return 95;
    FILE * in = std::fopen(argv[1], "r");
    g_out = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (!in || g_out < 0) return 95;
#ifdef EX_LIMIT
    // a call that takes all memory must fail in this process, not end another one
    const rlimit lim{rlim_t(3) << 30, rlim_t(3) << 30};
    ::setrlimit(RLIMIT_AS, &lim);
#endif
    int cpu = argc > 3 ? std::atoi(argv[3]) : 60;
    signal(SIGPROF, onTimer);
    quietCallbacks();
    Status::getInstance();
    scratch();
    std::atexit(onExit);
    g_calls.reserve(4096);

    char * line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, in)) >= 0) {
        while (n > 0 && (line[n - 1] == '\n')) line[--n] = 0;
        if (!n) continue;
        Args a;
        for (char * p = std::strtok(line, " "); p; p = std::strtok(nullptr, " ")) a.t.push_back(p);
        const std::string c = a.s();
        for (auto & e : g_events) e = 0;
        std::string r;
        if (c == "case") {
            arm(cpu);
            clearAll();
            r = "case " + a.s();
        } else if (c == "live") { // live heap bytes (only meaningful under AddressSanitizer)
#ifdef EX_ASAN
            if (a.i()) clearAll();
            { std::vector<std::string>().swap(a.t); }
            size_t live = __sanitizer_get_current_allocated_bytes();
            r = "live " + num(live);
#else
            r = "live -1";
#endif
        } else {
            r = c[1] == '.' && c[0] == 'c' ? runC(c, a) : c[1] == '.' && c[0] == 'i' ? runI(c, a) : c[1] == '.' && c[0] == 'x' ? runX(c, a) : run(c, a);
        }
        if (r.empty()) r = "(nothing)"; // every command leaves a line
        for (unsigned i = 1; i < NCODE; ++i) {
            unsigned k = g_events[i].load();
            if (k) r += " !" + num(i) + "x" + num(k);
        }
        r += "\n";
        put(r);
    }
    std::free(line);
    std::fclose(in);
    clearAll();
    put("#END\n");
    _exit(0);
}
