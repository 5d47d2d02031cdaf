// Status monitor: every scenario is a fresh process (a fork made before the library was used), so that the first use of
// the status can happen anywhere: in the main thread, in several threads at once, through any entry point.
// usage: status SEED FIRST COUNT LOG
#include "BigInteger.h"
#include "Status.h"
#include "errInfos.h"
#include "expr.h"
#include "Fraction.h"
#include "../c/src/pgbn.h"
#define VF_DELAY 1
#include "delay.h"
#include "tsan_eh.h"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

using pgbn::BigInteger;
using pgbn::Status;
namespace EC = pgbn::ErrCode;

namespace {

std::uint64_t rnd(std::uint64_t & s) { return delay::next(s); }

struct Builtin { unsigned code; const char * info; bool fatal; };
const Builtin BUILTIN[] = {
    {EC::SUCCESS, "[PGBN-Status: Success]Success", false}, {EC::DIVBY0, "[PGBN-Status: Fault]Divide By Zero", true},
    {EC::RADIX_INVALID, "[PGBN-Status: Error]Radix Invalid(Requires 2~36)", false}, {EC::NUMBER_STRING_EMPTY, "[PGBN-Status: Error]Number String Empty", false},
    {EC::NUMBER_STRING_SIG_INVALID, "[PGBN-Status: Error]Number String Sig Invalid", false}, {EC::NUMBER_STRING_PARSE2NUM_ERROR, "[PGBN-Status: Error]Parse String To Number Error", false},
    {EC::ARITHMETIC_OVERFLOW, "[PGBN-Status: Error]Arithmetic Overflow", false}, {EC::PARSE_INFIXEXPR_SHIFTOP_INVALID, "[PGBN-Status: Error]Shift-Operator Invalid", false},
    {EC::PARSE_INFIXEXPR_CHAR_INVALID, "[PGBN-Status: Error]Char Invalid", false}, {EC::PARSE_INFIXEXPR_NOTDEC_BUTREAL, "[PGBN-Status: Error]Not-Decimal But Real-Number", false},
    {EC::PARSE_INFIXEXPR_SYMBOL_UNDEFINED, "[PGBN-Status: Error]Undefined Builtin Functions Or Contants", false},
    {EC::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID, "[PGBN-Status: Error]Builtin Sysmbol Is Invalid", false}, {EC::PARSE_INFIXEXPR_RADIX_INVALID, "[PGBN-Status: Error]Radix Invalid(Requires 2~36)", false},
    {EC::PARSE_INFIXEXPR_LITERAL2NUM_ERROR, "[PGBN-Status: Error]Parse Literal To Number Error", false}, {EC::PARSE_INFIXEXPR_EQU_INVALID, "[PGBN-Status: Error]Expected ==", false},
    {EC::PARSE_INFIXEXPR_BAD_TOKEN, "[PGBN-Status: Error]Bad Token", false}, {EC::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, nullptr, false}};
constexpr int NB = sizeof(BUILTIN) / sizeof(*BUILTIN);

int g_fd = -1;      // where the child reports
std::mutex g_mu;
std::map<std::string, long> g_counts;

void say(char kind, const char * f, ...) {
    char b[600];
    b[0] = kind; b[1] = ' ';
    va_list ap;
    va_start(ap, f);
    int n = std::vsnprintf(b + 2, sizeof b - 4, f, ap);
    va_end(ap);
    if (n > (int)sizeof b - 5) n = sizeof b - 5;
    for (int i = 0; i < n; ++i) if (b[2 + i] == '\n') b[2 + i] = ' ';
    b[2 + n] = '\n';
    if (::write(g_fd, b, 3 + n)) {}
}
#define BAD(...) say('V', __VA_ARGS__)

struct Call { std::thread::id who; unsigned code; int tag; std::string text, seen; }; // seen: the thread's status while the callback ran
std::vector<Call> g_calls;

void called(unsigned code, int tag, const std::string & text) {
    std::string seen = Status::getInstance()->getInfo();
    std::lock_guard<std::mutex> l(g_mu);
    g_calls.push_back(Call{std::this_thread::get_id(), code, tag, text, seen});
}

struct CArg { unsigned code; int tag; std::string text; };
void cCallback(pgbn_CallbackArg_t a) { auto * p = (CArg *)a; called(p->code, p->tag, p->text); }

// what is registered, as the user of the library knows it
struct Entry { std::string info; int kind = 0; int tag = 0; std::string text; }; // kind 0: the library's own; 1: no callback; 2: ours
std::map<unsigned, Entry> g_known;

void count(const char * what) { std::lock_guard<std::mutex> l(g_mu); ++g_counts[what]; }

void registerOne(unsigned code, std::uint64_t & s) {
    static int tag = 0;
    ++tag;
    Entry e;
    e.info = "info " + std::to_string(tag) + std::string(rnd(s) % 60, 'i');
    e.tag = tag;
    e.text = "bound " + std::to_string(tag * 7) + std::string(rnd(s) % 40, 'b');
    const std::string padded = e.info + "#not part of it";
    const pgbn::StringArg view(padded.data(), e.info.size());
    switch (rnd(s) % 6) {
    case 0: e.kind = 1; Status::registe(code, view); count("registered without callback"); break;
    case 1: e.kind = 1; pgbn_Status_Register(code, e.info.c_str()); count("registered by C without callback"); break;
    case 2: e.kind = 2; pgbn_Status_RegisterWithCallback(code, e.info.c_str(), cCallback, new CArg{code, e.tag, e.text}); count("registered by C"); break;
    case 3: { e.kind = 2; int t = e.tag; std::string x = e.text; Status::registe(code, view, [code, t, x]() { called(code, t, x); }); count("registered closure"); break; }
    case 4: { e.kind = 2; std::string x = e.text; Status::registe(code, view, called, code, e.tag, x); count("registered with bound arguments"); break; }
    default: { e.kind = 2; struct F { void operator()(unsigned c, int t, const std::string & x) const { called(c, t, x); } }; Status::registe(code, view, F{}, code, e.tag, std::string(e.text)); count("registered functor"); }
    }
    g_known[code] = e;
}

// one error, through one of the ways to set a status; the callback must run once, here, with what was bound
void setAndSee(unsigned code, int how) {
    const Entry & e = g_known.at(code);
    if (e.kind == 0 && code == EC::DIVBY0) return; // the library's own ends the process
    size_t before;
    { std::lock_guard<std::mutex> l(g_mu); before = g_calls.size(); }
    std::string info;
    const char * name = "";
    bool own = false; // is it the thread's status that is set?
    switch (how % 10) {
    case 0: { Status st; st = code; info = st.getInfo(); name = "Status::operator="; break; }
    case 1: { Status st(code); info = st.getInfo(); name = "Status(code)"; break; }
    case 2: { own = true; Status * st = Status::getInstance(); *st = code; info = Status::getInstance()->getInfo(); name = "the thread's status"; break; }
    case 3: { pgbn_Status_t * st = pgbn_Status_CreateWithErrno(code); info = pgbn_Status_GetInfo(st); pgbn_Status_Destroy(st); name = "pgbn_Status_CreateWithErrno"; break; }
    case 4: { own = true; pgbn_Status_t * st = pgbn_Status_GetGlobalInstance(); pgbn_Status_SetErrno(st, code); info = pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()); name = "pgbn_Status_SetErrno on the global one"; break; }
    case 5: { Status a(code); Status b(std::move(a)); info = b.getInfo(); name = "Status(code), moved"; break; }
    case 6: { Status a, b; a = code; b = std::move(a); info = b.getInfo(); name = "Status = code, move-assigned"; break; }
    case 8: { // a context stays until another one is given
        std::string text(1 + code % 50, 'c');
        Status st;
        st.setContext(text);
        st = code;
        info = st.getInfo();
        if (st.context<std::string>() != text) BAD("a status lost its context when its code was set");
        Status to(std::move(st));
        if (to.context<std::string>() != text || to.getInfo() != info) BAD("a moved status lost its context or code");
        to.setContext(std::vector<int>{1, 2, (int)code});
        if (to.context<std::vector<int>>() != std::vector<int>{1, 2, (int)code} || to.getInfo() != info) BAD("a status has another context than it was given last");
        try { to.context<std::string>(); BAD("a context was read as another type"); } catch (const std::bad_any_cast &) {}
        text += "more";
        name = "a status with a context";
        break;
    }
    case 9: { // the thread's status keeps its context as well, and other statuses have none of it
        own = true;
        Status * st = Status::getInstance();
        st->setContext(std::string("context of code ") + std::to_string(code));
        { Status other; bool none = false; try { other.context<std::string>(); } catch (const std::bad_any_cast &) { none = true; } if (!none) BAD("a new status has a context"); }
        *st = code;
        if (Status::getInstance()->context<std::string>() != "context of code " + std::to_string(code)) BAD("the thread's status lost its context");
        info = Status::getInstance()->getInfo();
        name = "the thread's status with a context";
        break;
    }
    default: { own = true; Status * st = Status::getInstance(); *st = code; if (!!st->getCallback() != !!Status::getCallback(code)) BAD("getCallback of a status and of its code differ for code %u", code); info = Status::getInfo(code); name = "the thread's status, static info"; }
    }
    if (info != e.info) BAD("%s with code %u: info '%s' instead of '%s'", name, code, info.c_str(), e.info.c_str());
    if (!!Status::getCallback(code) != (e.kind != 1) && e.kind != 0) BAD("code %u: getCallback is %s", code, e.kind == 1 ? "not empty though none was registered" : "empty");
    std::lock_guard<std::mutex> l(g_mu);
    int mine = 0;
    for (size_t i = before; i < g_calls.size(); ++i) {
        const Call & c = g_calls[i];
        if (c.who != std::this_thread::get_id()) continue;
        ++mine;
        if (own && c.seen != e.info) BAD("%s with code %u: the thread's status said '%s' while its callback ran", name, code, c.seen.c_str());
        if (c.code != code || c.tag != e.tag || c.text != e.text) BAD("%s with code %u: callback ran as (%u, %d, %s), bound were (%u, %d, %s)", name, code, c.code, c.tag, c.text.c_str(), code, e.tag, e.text.c_str());
    }
    if (mine != (e.kind == 2 ? 1 : 0)) BAD("%s with code %u: callback ran %d times", name, code, mine);
    ++g_counts["codes set and checked"];
}

// errors the library itself raises, with what they must be
void libraryError(int which) {
    struct E { unsigned code; const char * what; };
    unsigned code = 0;
    size_t before;
    { std::lock_guard<std::mutex> l(g_mu); before = g_calls.size(); }
    switch (which % 8) {
    case 0: { bool ok = true; BigInteger x("", 10, &ok); code = EC::NUMBER_STRING_EMPTY; break; }
    case 1: { bool ok = true; BigInteger x("12", 99, &ok); code = EC::RADIX_INVALID; break; }
    case 2: { bool ok = true; BigInteger x("1x2", 10, &ok); code = EC::NUMBER_STRING_PARSE2NUM_ERROR; break; }
    case 3: { bool ok = true; (void)(BigInteger(1) << 80).getInt64(&ok); code = EC::ARITHMETIC_OVERFLOW; break; }
    case 4: pgbn::expr::eval("nosuch + 1"); code = EC::PARSE_INFIXEXPR_SYMBOL_UNDEFINED; break;
    case 5: pgbn::expr::eval("1 = 2"); code = EC::PARSE_INFIXEXPR_EQU_INVALID; break;
    case 6: pgbn::expr::peval("1 $ 2", 2); code = EC::PARSE_INFIXEXPR_CHAR_INVALID; break;
    default: { pgbn_BigInteger_t * b = pgbn_BigInteger_CreateWithI64(1); pgbn_BigInteger_SHLAssignWithI64(b, 70); pgbn_BigInteger_GetInt64(b); pgbn_BigInteger_Destroy(b); code = EC::ARITHMETIC_OVERFLOW; }
    }
    const Entry & e = g_known.at(code);
    std::string info = Status::getInstance()->getInfo(), c = pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance());
    if (info != e.info) BAD("library error %d: the thread's status says '%s' instead of '%s'", which % 8, info.c_str(), e.info.c_str());
    if (c != e.info) BAD("library error %d: the C binding's global status says '%s' instead of '%s'", which % 8, c.c_str(), e.info.c_str());
    std::lock_guard<std::mutex> l(g_mu);
    int mine = 0;
    for (size_t i = before; i < g_calls.size(); ++i) {
        if (g_calls[i].who != std::this_thread::get_id()) continue;
        if (g_calls[i].code == code && (g_calls[i].tag != e.tag || g_calls[i].text != e.text)) BAD("library error %d: callback with tag %d instead of %d", which % 8, g_calls[i].tag, e.tag);
        if (g_calls[i].code == code && g_calls[i].seen != e.info) BAD("library error %d: the thread's status said '%s' while the callback ran", which % 8, g_calls[i].seen.c_str());
        mine += g_calls[i].code == code;
    }
    if (e.kind == 2 && mine != 1) BAD("library error %d: callback of code %u ran %d times", which % 8, code, mine);
    ++g_counts["errors raised by the library"];
}

// every code the library defines and some it does not
void table(const char * where) {
    for (const auto & k : g_known) {
        if (!Status::find(k.first)) { BAD("%s: code %u is not registered", where, k.first); continue; }
        const std::string & i = Status::getInfo(k.first);
        std::tuple<std::string, pgbn::Callback> * t = nullptr;
        if (!Status::find(k.first, &t) || !t || std::get<0>(*t) != k.second.info || (k.second.kind != 0 && !!std::get<1>(*t) != (k.second.kind == 2))) BAD("%s: find() gives something else for code %u", where, k.first);
        if (i != k.second.info) BAD("%s: info of code %u is '%s' instead of '%s'", where, k.first, i.c_str(), k.second.info.c_str());
        if (k.second.info != pgbn_Status_GetInfoByErrno(k.first)) BAD("%s: the C binding's info of code %u is '%s' instead of '%s'", where, k.first, pgbn_Status_GetInfoByErrno(k.first), k.second.info.c_str());
        bool cb = !!Status::getCallback(k.first);
        if (cb != (k.second.kind != 1) && k.second.kind != 0) BAD("%s: callback of code %u is %s", where, k.first, cb ? "not empty" : "empty");
    }
    for (unsigned c : {17u, 18u, 40u, 1000u, 0x7fffffffu, 0xfffffffeu}) {
        if (g_known.count(c)) continue;
        std::tuple<std::string, pgbn::Callback> * t = (std::tuple<std::string, pgbn::Callback> *)1;
        if (Status::find(c, &t) || t) BAD("%s: unknown code %u is found", where, c);
        if (Status::getInfo(c) != "<ERROR_INFO>") BAD("%s: info of unknown code %u is '%s'", where, c, Status::getInfo(c).c_str());
        if (Status::getCallback(c)) BAD("%s: unknown code %u has a callback", where, c);
        if (std::string(pgbn_Status_GetInfoByErrno(c)) != "<ERROR_INFO>") BAD("%s: the C binding's info of unknown code %u is '%s'", where, c, pgbn_Status_GetInfoByErrno(c));
    }
    Status fresh;
    if (fresh.getInfo() != "<ERROR_INFO>" || fresh.getCallback()) BAD("%s: a status without a code has info '%s'", where, fresh.getInfo().c_str());
    count("tables compared");
}

void firstUse(int how) {
    switch (how % 12) {
    case 0: Status::getInstance(); break;
    case 1: { Status st(EC::RADIX_INVALID); break; }
    case 2: { Status st; st = EC::ARITHMETIC_OVERFLOW; break; }
    case 3: Status::find(3); break;
    case 4: Status::getInfo(5); break;
    case 5: Status::getCallback(6); break;
    case 6: { auto * s = pgbn_Status_CreateWithErrno(EC::NUMBER_STRING_EMPTY); pgbn_Status_Destroy(s); break; }
    case 7: pgbn_Status_GetInfoByErrno(8); break;
    case 8: pgbn_Status_GetGlobalInstance(); break;
    case 9: pgbn::expr::eval("1 +"); break;
    case 10: { bool ok; BigInteger x("zz", 10, &ok); break; }
    default: { pgbn::experimental::Fraction f(BigInteger(2), BigInteger(4)); pgbn_Status_t * s = pgbn_Status_Create(); pgbn_Status_Destroy(s); }
    }
}

void perThread(int i, std::uint64_t s, int steps, std::set<void *> * seen, std::set<void *> * seenC) {
    Status * me = Status::getInstance();
    pgbn_Status_t * mc = pgbn_Status_GetGlobalInstance();
    { std::lock_guard<std::mutex> l(g_mu); if (!seen->insert(me).second || !seenC->insert(mc).second) BAD("two live threads share a status"); }
    std::vector<unsigned> codes;
    for (auto & k : g_known) if (!(k.second.kind == 0 && k.first == EC::DIVBY0)) codes.push_back(k.first);
    for (int k = 0; k < steps; ++k) {
        unsigned c = codes[rnd(s) % codes.size()];
        *me = c;
        if (rnd(s) % 3 == 0) delay::at(7);
        if (rnd(s) % 2) { Status other(codes[rnd(s) % codes.size()]); }
        else sched_yield();
        if (Status::getInstance() != me) BAD("a thread's status moved");
        if (me->getInfo() != g_known.at(c).info) BAD("thread %d: its status says '%s' after it was set to code %u", i, me->getInfo().c_str(), c);
        if (g_known.at(c).info != pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) BAD("thread %d: the C binding's status differs", i);
        count("reads of a thread's own status");
        if (rnd(s) % 3 == 0) libraryError((int)rnd(s) % 8 < 0 ? 0 : (int)(rnd(s) % 8));
        if (rnd(s) % 3 == 0) setAndSee(codes[rnd(s) % codes.size()], (int)(rnd(s) % 10));
    }
    if (rnd(s) % 2) table("a thread");
}

void child(unsigned long seed, int fatal) {
    std::uint64_t s = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    for (int i = 0; i < 4; ++i) rnd(s);
    for (const auto & b : BUILTIN) { Entry e; e.info = b.info ? b.info : "[PGBN-Status: Error]Wrong Number Of Arguments"; g_known[b.code] = e; }
    delay::set((int)(rnd(s) % 5), rnd(s) % 1000000);
    if (fatal) { // the library's own callback for a division by zero
        switch (rnd(s) % 5) {
        case 0: { Status st; st = EC::DIVBY0; break; }
        case 1: { BigInteger x = BigInteger(5) / BigInteger(0); break; }
        case 2: std::thread([]() { BigInteger x = BigInteger(5) % 0; }).join(); break;
        case 3: pgbn::expr::eval("7 / (3 - 3)"); break;
        default: { pgbn_BigInteger_t * a = pgbn_BigInteger_CreateWithI64(9); pgbn_BigInteger_DivAssignWithI64(a, 0); }
        }
        BAD("the process goes on after a division by zero that nobody handles");
        return;
    }
    const bool early = rnd(s) % 3 != 0; // the user registers before anything else happens
    if (early) {
        int n = 1 + (int)(rnd(s) % 6);
        for (int i = 0; i < n; ++i) registerOne(rnd(s) % 4 ? (unsigned)(rnd(s) % NB) : 100 + (unsigned)(rnd(s) % 5), s);
    }
    const int threads = (int)(rnd(s) % 5);
    const int where = (int)(rnd(s) % 4); // 0: first use here; 1: first use in one thread; 2: in several at once; 3: first use in a thread that ends before the others
    if (where == 0) firstUse((int)(rnd(s) % 12));
    if (where == 1 || where == 3) { int how = (int)(rnd(s) % 12); std::thread([=]() { firstUse(how); }).join(); }
    if (where == 2) {
        std::vector<std::thread> th;
        for (int i = 0; i < 2 + threads; ++i) { int how = (int)(rnd(s) % 12); th.emplace_back([=]() { delay::at(7); firstUse(how); }); }
        for (auto & t : th) t.join();
    }
    { std::lock_guard<std::mutex> l(g_mu); g_calls.clear(); }
    table("after the first use");
    if (rnd(s) % 2) { int n = 1 + (int)(rnd(s) % 5); for (int i = 0; i < n; ++i) registerOne(rnd(s) % 4 ? (unsigned)(rnd(s) % NB) : 100 + (unsigned)(rnd(s) % 5), s); }
    std::vector<unsigned> codes;
    for (auto & k : g_known) codes.push_back(k.first);
    for (int i = 0; i < 6; ++i) setAndSee(codes[rnd(s) % codes.size()], (int)(rnd(s) % 10));
    for (int i = 0; i < 3; ++i) libraryError((int)(rnd(s) % 8));
    for (int round = 0; round < 2; ++round) {
        std::set<void *> seen, seenC;
        seen.insert(Status::getInstance());
        seenC.insert(pgbn_Status_GetGlobalInstance());
        unsigned mine = codes[rnd(s) % codes.size()];
        if (g_known[mine].kind == 0 && mine == EC::DIVBY0) mine = 0;
        *Status::getInstance() = mine;
        std::atomic<int> alive{0};
        std::vector<std::thread> th;
        for (int i = 0; i < threads; ++i) {
            std::uint64_t x = rnd(s) | 1;
            th.emplace_back([&, i, x]() {
                perThread(i, x, 5, &seen, &seenC);
                alive.fetch_add(1);
                while (alive.load() < threads) sched_yield(); // nobody's address is used again while it counts
            });
        }
        for (auto & t : th) t.join();
        if (Status::getInstance()->getInfo() != g_known[mine].info) BAD("the main thread's status changed to '%s' while others worked", Status::getInstance()->getInfo().c_str());
        table("after the threads");
        if (rnd(s) % 2) registerOne((unsigned)(rnd(s) % NB), s);
        for (int i = 0; i < 3; ++i) setAndSee(codes[rnd(s) % codes.size()], (int)(rnd(s) % 10));
    }
    say('G', "early %d threads %d where %d", early, threads, where);
    count(early ? "registered before the first use" : "library used before any registration");
    if (where == 2) count("first use in several threads at once");
    for (auto & c : g_counts) say('I', "%s %ld", c.first.c_str(), c.second);
}

std::string slurp(int fd) {
    std::string s;
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    return s;
}

void scenario(unsigned long seed, FILE * log) {
    const int fatal = seed % 8 == 0, printing = seed % 8 == 1;
    int rep = memfd_create("report", 0), err = memfd_create("stderr", 0);
    std::fflush(log);
    pid_t p = fork();
    if (p == 0) {
        g_fd = rep;
        if (fatal || printing) dup2(err, 2);
        if (printing) { // the library's own callbacks print code and text
            const Builtin & b = BUILTIN[seed / 8 % NB];
            if (b.fatal || b.code == EC::SUCCESS) say('I', "skipped 1");
            else { Status st; st = b.code; std::fflush(stderr); std::string e = slurp(2), i = Status::getInfo(b.code);
                auto at = e.find(i);
                if (at == std::string::npos || e.find(i, at + 1) != std::string::npos || e.find("[" + std::to_string(b.code) + "]") == std::string::npos) BAD("the library's callback for code %u printed '%s'", b.code, e.c_str());
                say('I', "default callbacks seen 1"); }
            _exit(0);
        }
        child(seed, fatal);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::fprintf(log, "S %lu %d %d\n", seed, fatal, printing);
    std::string r = slurp(rep), e = slurp(err);
    std::fputs(r.c_str(), log);
    if (fatal) {
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1 || e.find("Divide By Zero") == std::string::npos) std::fprintf(log, "V an unhandled division by zero ended with wait status %d and printed '%s'\n", st, e.substr(0, 100).c_str());
        std::fprintf(log, "I processes ended by the default callback 1\n");
    } else if (st != 0) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { std::fflush(log); _exit(99); } // a sanitizer's report is on stderr
        std::fprintf(log, "V the scenario's process ended with wait status %d\n", st);
    }
    std::fprintf(log, "E %lu\n", seed);
    std::fflush(log);
    close(rep);
    close(err);
}

} // namespace

int main(int argc, char ** argv) {
    if (argc < 5) return 95;
    FILE * log = std::fopen(argv[4], "w");
    if (!log) return 95;
    const unsigned long seed = std::strtoul(argv[1], nullptr, 10), first = std::strtoul(argv[2], nullptr, 10), count = std::strtoul(argv[3], nullptr, 10);
    for (unsigned long i = first; i < first + count; ++i) {
        std::fprintf(log, "B %lu\n", seed * 1000003 + i);
        std::fflush(log);
        scenario(seed * 1000003 + i, log);
    }
    std::fprintf(log, "END\n");
    std::fclose(log);
    _exit(0);
}
