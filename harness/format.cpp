// Formatting monitor: random format texts over arguments of every supported type, compared with a composition of their own.
// usage: format SEED FIRST COUNT LOG
#include "Slice.h"
#include "BigIntegerImpl.h"
#include "delay.h"
#include "leak.h"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>

namespace {

std::uint64_t rnd(std::uint64_t & s) { return delay::next(s); }

std::string vprint(const char * f, ...) {
    static char buf[1 << 16];
    va_list l;
    va_start(l, f);
    int n = std::vsnprintf(buf, sizeof buf, f, l);
    va_end(l);
    if (n < 0 || n >= (int)sizeof buf) _exit(95);
    return std::string(buf, n);
}

// ---- the text of an argument, written down once more
std::string pad(const std::string & s, const std::string & spec) { // spec of a text: [-]width[.precision]
    std::string w = spec;
    bool left = !w.empty() && w[0] == '-';
    if (left) w.erase(0, 1);
    std::string t = s;
    std::size_t dot = w.find('.');
    if (dot != std::string::npos) { t = t.substr(0, std::strtoul(w.c_str() + dot + 1, nullptr, 10)); w.erase(dot); }
    std::size_t n = w.empty() ? 0 : std::strtoul(w.c_str(), nullptr, 10);
    if (t.size() < n) t = left ? t + std::string(n - t.size(), ' ') : std::string(n - t.size(), ' ') + t;
    return t;
}
std::string text(bool x, const std::string &) { return x ? "true" : "false"; }
std::string text(char x, const std::string &) { return std::string(1, x); }
std::string text(std::uint8_t x, const std::string &) { return std::to_string((unsigned)x); }
std::string text(std::int16_t x, const std::string & s) { return vprint(("%" + s + "d").c_str(), (int)x); }
std::string text(std::uint16_t x, const std::string & s) { return vprint(("%" + s + "u").c_str(), (unsigned)x); }
std::string text(std::int32_t x, const std::string & s) { return vprint(("%" + s + "d").c_str(), x); }
std::string text(std::uint32_t x, const std::string & s) { return vprint(("%" + s + "u").c_str(), x); }
std::string text(std::int64_t x, const std::string & s) { return vprint(("%" + s + "ld").c_str(), (long)x); }
std::string text(std::uint64_t x, const std::string & s) { return vprint(("%" + s + "lu").c_str(), (unsigned long)x); }
std::string text(float x, const std::string & s) { return vprint(("%" + s + "f").c_str(), (double)x); }
std::string text(double x, const std::string & s) { return vprint(("%" + s + "f").c_str(), x); }
std::string text(long double x, const std::string & s) { return vprint(("%" + s + "Lf").c_str(), x); }
std::string text(const std::string & x, const std::string & s) { return pad(x, s); }
std::string text(const char * x, const std::string & s) { return pad(x, s); }
// an integer: the specification is the radix, if there is such a one
std::string text(const pgbn::BigIntegerImpl & x, const std::string & s) {
    int radix = std::atoi(s.c_str());
    if (radix < 2 || radix > 36) radix = 10;
    static unsigned char buf[4096];
    std::size_t n = x.copyMagDataTo(buf, sizeof buf);
    std::vector<unsigned> m(buf, buf + n);
    std::string r;
    for (;;) {
        while (!m.empty() && !m.back()) m.pop_back();
        if (m.empty()) break;
        unsigned c = 0;
        for (std::size_t i = m.size(); i--;) { c = c << 8 | m[i]; m[i] = c / radix; c %= radix; }
        r.insert(r.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[c]);
    }
    if (r.empty()) return "0";
    return (x.flagsContains(pgbn::BNFlag::NEGATIVE) ? "-" : "") + r;
}
template <class A, class B> std::string text(const std::pair<A, B> & x, const std::string &);
template <class C> auto text(const C & x, const std::string &) -> decltype(x.begin(), x.end(), std::string());
template <class A, class B> std::string text(const std::pair<A, B> & x, const std::string &) { return text(x.first, "") + " : " + text(x.second, ""); }
template <class C> auto text(const C & x, const std::string &) -> decltype(x.begin(), x.end(), std::string()) {
    std::string r = "[";
    bool first = true;
    for (auto & e : x) { if (!first) r += ", "; first = false; r += text(e, ""); }
    return r + "]";
}

// ---- arguments and their specifications
struct Rng { std::uint64_t s; std::uint64_t operator()(std::uint64_t n) { return rnd(s) % n; } };

std::string word(Rng & r) {
    static const std::size_t L[] = {0, 0, 1, 2, 3, 7, 15, 16, 31, 40, 64, 100, 513};
    std::string s(L[r(13)], ' ');
    static const char A[] = "abcxyz0189 %:,.-+[]()\n\"\\"; // no braces: a brace in an argument is no placeholder, see below
    for (auto & c : s) c = A[r(sizeof A - 1)];
    if (!s.empty() && r(6) == 0) s[r(s.size())] = "{}"[r(2)];
    return s;
}
template <class T> T integer(Rng & r) {
    switch (r(6)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return (T)r(10);
    case 3: return (T)(0 - r(1000));
    default: return (T)(rnd(r.s) >> r(64));
    }
}
double real(Rng & r) {
    static const double V[] = {0, 1.5, -2.25, 1e9, 1e22, -1e38, 1e100, 1.7976931348623157e308, -1.7976931348623157e308, 1e-300, 3.14159265358979, 123456789.125};
    return r(3) ? V[r(12)] : (double)(std::int64_t)rnd(r.s) / (double)(1 + r(100000));
}
void make(Rng & r, bool & x) { x = r(2); }
void make(Rng & r, char & x) { x = (char)('!' + r(90)); }
void make(Rng & r, std::uint8_t & x) { x = integer<std::uint8_t>(r); }
void make(Rng & r, std::int16_t & x) { x = integer<std::int16_t>(r); }
void make(Rng & r, std::uint16_t & x) { x = integer<std::uint16_t>(r); }
void make(Rng & r, std::int32_t & x) { x = integer<std::int32_t>(r); }
void make(Rng & r, std::uint32_t & x) { x = integer<std::uint32_t>(r); }
void make(Rng & r, std::int64_t & x) { x = integer<std::int64_t>(r); }
void make(Rng & r, std::uint64_t & x) { x = integer<std::uint64_t>(r); }
void make(Rng & r, float & x) { x = (float)(r(4) ? real(r) / 1e271 : 3.4e38 * (r(2) ? 1 : -1)); }
void make(Rng & r, double & x) { x = real(r); }
void make(Rng & r, long double & x) { x = (long double)real(r) * (r(3) ? 1 : 1e30L); }
void make(Rng & r, std::string & x) { x = word(r); }
std::list<std::unique_ptr<char[]>> g_keep;
void make(Rng & r, const char *& x) { // an exact-size buffer, so that reading on is seen
    const std::string w = word(r);
    g_keep.emplace_back(new char[w.size() + 1]);
    std::memcpy(g_keep.back().get(), w.c_str(), w.size() + 1);
    x = g_keep.back().get();
}
template <class A, class B> void make(Rng & r, std::pair<A, B> & x) { make(r, x.first); make(r, x.second); }
template <class T> void make(Rng & r, std::vector<T> & x) { x.clear(); for (auto n = r(5); n--;) { T v; make(r, v); x.push_back(v); } }
template <class T> void make(Rng & r, std::list<T> & x) { x.clear(); for (auto n = r(5); n--;) { T v; make(r, v); x.push_back(v); } }
template <class T> void make(Rng & r, std::set<T> & x) { x.clear(); for (auto n = r(5); n--;) { T v; make(r, v); x.insert(v); } }
template <class K, class T> void make(Rng & r, std::map<K, T> & x) { x.clear(); for (auto n = r(4); n--;) { K k; make(r, k); make(r, x[k]); } }
void make(Rng & r, pgbn::Slice<std::uint32_t> & x) { x = pgbn::Slice<std::uint32_t>(); for (auto n = r(5); n--;) x.append((std::uint32_t)rnd(r.s)); }

void make(Rng & r, pgbn::BigIntegerImpl & x) {
    unsigned char b[200];
    std::size_t n = r(3) ? r(24) : r(200);
    for (std::size_t i = 0; i < n; ++i) b[i] = r(8) ? (unsigned char)rnd(r.s) : r(2) ? 0 : 0xff;
    x = pgbn::BigIntegerImpl((const void *)b, n, r(2) != 0);
}

template <class T> std::string spec(Rng & r) {
    if (r(3)) return "";
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, const char *>) {
        static const char * V[] = {"1", "5", "20", "-7", "60", "-90", "300", ".2", "8.3", ".0", "-12.40"};
        return V[r(11)];
    } else if constexpr (std::is_same_v<T, pgbn::BigIntegerImpl>) {
        static const char * V[] = {"2", "3", "8", "10", "16", "35", "36", "37", "0", "1", "100"};
        return V[r(11)];
    } else if constexpr (std::is_floating_point_v<T>) {
        static const char * V[] = {".0", ".1", ".3", ".10", "20", "12.4", "-15.2", "+", "+.5", "09.2", "60.20", ".80"};
        return V[r(12)];
    } else if constexpr (std::is_integral_v<T> && sizeof(T) > 1) {
        static const char * V[] = {"3", "8", "-8", "05", "30", "-40", "+", "012", "100", ".30"};
        if (std::is_unsigned_v<T>) { static const char * U[] = {"3", "8", "-8", "05", "30", "-40", "012", "100", ".30"}; return U[r(9)]; }
        return V[r(10)];
    }
    return "";
}

std::map<std::string, long> g_count;
std::string g_why;

struct Arg { std::string spec; };

// the pieces of one format text
struct Plan { std::string fmt; std::vector<std::pair<std::string, int>> piece; }; // literal text, then argument (-1: none)

std::string literal(Rng & r) {
    static const char * V[] = {"", "", " ", "x = ", "100%", "%s%d", "a:b", "\n", ", ", "(", ")", "colour: ", "\\", "longer text without anything in it, so that the result leaves its small buffer ", "}", " } ", "}}", "a}b:c} "};
    return V[r(18)];
}

template <class... A> void call(Rng & r, const char * what) {
    std::tuple<A...> args;
    std::apply([&](auto &... x) { (make(r, x), ...); }, args);
    constexpr int N = sizeof...(A);
    std::vector<std::string> specs;
    (specs.push_back(spec<A>(r)), ...);
    std::vector<std::string> texts;
    { int i = 0; std::apply([&](auto &... x) { (texts.push_back(text(x, specs[i++])), ...); }, args); }
    // an argument keeps one specification in all its placeholders: what two different ones mean is nobody's promise
    const int places = (int)r(4) == 0 ? N : r(40) == 0 ? (int)r(60) : (int)r(6);
    const int order = (int)r(4); // 0: as given, 1: reversed, else any
    std::string fmt = literal(r), want = fmt;
    for (int i = 0; i < places; ++i) {
        int n = order == 0 ? i : order == 1 ? N - 1 - i : (int)r(N + 1);
        if (n < 0) n = 0;
        if (n == N) { static const int FAR[] = {1, 2, 9, 100, 65536, 1 << 20, 2147483000}; if (r(2)) n += FAR[r(7)]; } // with or without a specification
        fmt += "{" + std::to_string(n) + (n < N ? (specs[n].empty() ? std::string() : ":" + specs[n]) : r(2) ? ":" + spec<const char *>(r) : std::string()) + "}";
        if (n < N) want += texts[n]; else ++g_count["placeholders without argument"];
        std::string l = literal(r);
        fmt += l;
        want += l;
    }
    if (r(20) == 0) { fmt += "{ left open"; want += "{ left open"; }
    if (places == 0) ++g_count["texts without placeholder"];
    g_count["placeholders"] += places;
    ++g_count[what];
    std::string got = std::apply([&](auto &... x) { return pgfmt::format(fmt, x...); }, args);
    if (got != want && g_why.empty()) g_why = "format(\"" + fmt + "\", " + what + ") is \"" + got.substr(0, 300) + "\" instead of \"" + want.substr(0, 300) + "\"";
    std::string before = r(3) ? word(r) : "", res = before;
    std::apply([&](auto &... x) { pgfmt::formatAppend(res, fmt, x...); }, args);
    ++g_count["formatAppend"];
    if (res != before + want && g_why.empty()) g_why = "formatAppend to \"" + before.substr(0, 100) + "\" of \"" + fmt + "\", " + what + " is \"" + res.substr(0, 300) + "\" instead of \"" + (before + want).substr(0, 300) + "\"";
    std::vector<std::string> again;
    { int i = 0; std::apply([&](auto &... x) { (again.push_back(text(x, specs[i++])), ...); }, args); }
    if (again != texts && g_why.empty()) g_why = "format(\"" + fmt + "\", " + what + ") changed an argument";
    g_keep.clear();
}

using S = std::string;
using C = const char *;

void scenario(std::uint64_t s, FILE * log) {
    Rng r{s};
    g_why.clear();
    g_count.clear();
    for (int i = 0; i < 10 && g_why.empty(); ++i)
        switch (r(18)) {
        case 0: call<S>(r, "string"); break;
        case 1: call<C>(r, "C string"); break;
        case 2: call<S, S, S, S>(r, "four strings"); break;
        case 3: call<C, std::int64_t, std::uint64_t>(r, "C string, int64, uint64"); break;
        case 4: call<std::int32_t, std::uint32_t, bool>(r, "int32, uint32, bool"); break;
        case 5: call<double>(r, "double"); break;
        case 6: call<float, double, long double>(r, "float, double, long double"); break;
        case 7: call<char, std::uint8_t, std::int16_t, std::uint16_t>(r, "char, uint8, int16, uint16"); break;
        case 8: call<std::vector<std::int32_t>, S>(r, "vector of int32, string"); break;
        case 9: call<std::map<S, std::uint32_t>, std::pair<bool, double>>(r, "map, pair"); break;
        case 10: call<std::vector<std::vector<S>>, std::list<std::pair<C, std::int64_t>>>(r, "nested vectors, list of pairs"); break;
        case 11: call<pgbn::Slice<std::uint32_t>, std::uint64_t>(r, "slice, uint64"); break;
        case 12: call<S, std::uint64_t, double, C, bool, std::int64_t, std::uint32_t, S, char, std::int32_t, S, C>(r, "twelve arguments"); break;
        case 13: call<std::set<std::uint64_t>, std::set<char>>(r, "sets"); break;
        case 14: call<std::uint32_t, C>(r, "uint32, C string"); break;
        case 15: call<pgbn::BigIntegerImpl>(r, "integer"); break;
        case 16: call<pgbn::BigIntegerImpl, S, std::vector<pgbn::BigIntegerImpl>, std::pair<S, pgbn::BigIntegerImpl>>(r, "integer, string, vector of integers, pair"); break;
        default: call<S, double, std::uint32_t>(r, "string, double, uint32"); break;
        }
    std::fprintf(log, "S format %llx\n", (unsigned long long)s);
    if (!g_why.empty()) { for (auto & c : g_why) if (c == '\n') c = ' '; std::fprintf(log, "V %s\n", g_why.c_str()); }
    for (auto & c : g_count) std::fprintf(log, "I %s %ld\n", c.first.c_str(), c.second);
}

} // namespace

int main(int argc, char ** argv) {
    if (argc < 5) return 95;
    FILE * log = std::fopen(argv[4], "w");
    if (!log) return 95;
    const unsigned long seed = std::strtoul(argv[1], nullptr, 10), first = std::strtoul(argv[2], nullptr, 10), count = std::strtoul(argv[3], nullptr, 10);
    for (unsigned long i = first; i < first + count; ++i) {
        unsigned long id = seed * 1000003 + i;
        std::fprintf(log, "B %lu\n", id);
        std::fflush(log);
        std::uint64_t s = id * 0x9e3779b97f4a7c15ull + 0xf0;
        for (int k = 0; k < 4; ++k) rnd(s);
        if (leak::wanted(argc, argv)) { leak::record(id, log, [&](FILE * out) { scenario(s, out); }); continue; }
        scenario(s, log);
        std::fprintf(log, "E %lu\n", id);
        std::fflush(log);
    }
    std::fprintf(log, "END\n");
    std::fclose(log);
    _exit(0);
}
