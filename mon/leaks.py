"""Live heap bytes as AddressSanitizer's allocator counts them: what a repeated history leaves behind, and how much
storage a variable holds after thousands of operations that restore its value."""
import random
import shutil
import signal
import tempfile
import time

from . import runner
from .gens import OPS
from .gens2 import anything, clean, cmake, cstep, ev, expression, hist_step, hx, mutate, p10, symbols, wf
from .vals import integer, int64
from . import gens, gens2

REPS = 6


def leaking(lives):
    """lives: bytes live after each repetition of the same history with all objects destroyed.  The first one may leave
    caches behind; growth in every later one is a leak"""
    d = [b - a for a, b in zip(lives[1:], lives[2:])]
    return min(d) if d and min(d) > 0 else 0


def drifting(lives):
    """lives: bytes live with all objects destroyed, after one history and another.  Caches fill up; what keeps growing with
    every few more histories is held for ever"""
    top, ups = 0, []
    for i, x in enumerate(lives):
        if x >= top + 16:
            top = x
            if i >= 20:
                ups.append(i)
    # 30 or more new heights within 100 histories
    return any(b - a <= 100 for a, b in zip(ups, ups[29:]))


def observe(exe, variant, prelude, cases, infos, work, reps=REPS):
    """runs every case reps times, with all objects destroyed after each; -> (violation or None, [leak of each case])"""
    out = []
    flat = []
    for c, e in cases:
        for _ in range(reps):
            flat.append((c + ["live 1"], None))
    lives = {}

    def rec(c, e, k, obs, ev_):
        if c == "live 1":
            lives.setdefault(k // reps, []).append(int(obs.split()[1]))
    v, k, kind = runner.execute(exe, variant, prelude, flat, infos, work, on_record=rec, judge="nothing")
    for i in range(len(cases)):
        l = lives.get(i, [])
        out.append((leaking(l) if len(l) == reps else 0, l))
    return v, out


def serial(g, n):
    """histories over the whole API, without threads"""
    anything(g, n * 3 // 4, 25, par=0)
    p10(g, 0, 1, 1, "quick", {"n": n, "light": 1})
    gens2.corners(g, n // 2)


def parallel(g, n):
    rng = g.rng
    for _ in range(n):
        g.begin()
        for _ in range(3):
            if rng.random() < 0.7:
                wf(g, 1, rng.choice([1, 3, 8, 20]), par=1, threads=rng.choice([1, 2, 4, 8]), throws=rng.random() < 0.3)
            else:
                ev(g, clean(mutate(rng, expression(rng, rng.choice([1, 3, 5]))))[:2000], 1, 3, rng.randrange(2))


def restoring(g, i, j, rng):
    """one sequence of commands after which variable i has its old value; j helps"""
    r = rng.randrange(16)
    n = rng.choice([1, 3, 31, 32, 33, 64, 95, 128, 700])
    v = int64(rng) or 5
    if r == 0:
        return [("isl", i, n), ("isr", i, n)]
    if r == 1:
        return [("ib", "+", i, j), ("ib", "-", i, j)]
    if r == 2:
        return [("ib", "*", i, j), ("ib", "/", i, j)]
    if r == 3:
        return [("ib", "^", i, j), ("ib", "^", i, j)]
    if r == 4:
        return [("in", "++x", i), ("in", "--x", i)]
    if r == 5:
        return [("in", "negate", i), ("in", "negate", i)]
    if r == 6:
        return [("in", "notself", i), ("in", "notself", i)]
    if r == 7:
        return [("sw", i, j), ("sw", j, i)]
    if r == 8:
        return [("nc", 9, i), ("ib", "+", i, j), ("ca", i, 9)]
    if r == 9:
        return [("nc", 9, i), ("ii", "*", i, v), ("ma", i, 9)]
    if r == 10:
        return [("ii", "+", i, v), ("ii", "-", i, v)]
    if r == 11:
        return [("ii", "*", i, v), ("ii", "/", i, v)]
    if r == 12:
        return [("isl", i, n), ("nc", 9, i), ("isr", 9, n), ("ma", i, 9)]
    if r == 13:
        return [("nc", 9, i), ("ib", "*", 9, j), ("ib", "&", 9, i), ("in", "x++", i), ("in", "x--", i), ("isr", 9, 40)]
    if r == 14:
        return [("in", "negate", i), ("ib", "+", i, j), ("ib", "-", i, j), ("in", "negate", i)]
    return [("isl", i, n), ("ii", "+", i, 1), ("ii", "-", i, 1), ("isr", i, n)]


def growth(g, n, rounds):
    """restoring sequences, thousands of times; 'live 0 BOUND' marks what may be live"""
    rng = g.rng
    for _ in range(n):
        g.begin()
        kind = rng.randrange(5)
        size = rng.choice([1, 1, 2, 5, 20, 60])
        a, b = rng.getrandbits(32 * size) | 1 << 32 * size - 1, rng.getrandbits(32 * rng.choice([1, 2, size])) | 1
        if rng.random() < 0.4:
            a = -a
        if rng.random() < 0.4:
            b = -b
        if kind == 4:       # the same through the C binding
            cmake(g, 0, a, True)
            cmake(g, 1, b, True)
            seq = rng.choice([[("c.op", "+", 0, 1), ("c.op", "-", 0, 1)], [("c.op", "*", 0, 1), ("c.op", "/", 0, 1)], [("c.oi", "<<", 0, 77), ("c.oi", ">>", 0, 77)], [("c.un", "negate", 0), ("c.un", "negate", 0)],
                              [("c.cp", 2, 0), ("c.op", "+", 0, 1), ("c.copy", 0, 2), ("c.del", 2)], [("c.copy", 1, 0), ("c.oi", "+", 1, 3), ("c.ts", 1, 10)], [("c.new", 3), ("c.as", 3, 10, hx(b"12x")), ("c.as", 3, 10, hx(b"-123456789012345678901234567890")), ("c.del", 3)]])
        else:
            gens.make(g, 0, a)
            gens.make(g, 1, b)
            g("nc", 9, 1)
            seq = [x for _ in range(rng.choice([1, 1, 2, 3])) for x in restoring(g, 0, 1, rng)]
        values = lambda: [abs(v).bit_length() for m in (g.m.B, g.m.C) for v in m.values() if v is not None]
        before = (g.m.B.get(0), g.m.C.get(0))
        for x in seq:
            g(*x)
        for x in seq:
            g(*x)
        if (g.m.B.get(0), g.m.C.get(0)) != before:
            continue
        top = max(values())
        g("live", 0, 0)
        for _ in range(rounds):
            for x in seq:
                g(*x)
                top = max(top, max(values()))
        g("live", 0, 32 * (top // 8) + 4096)


def shard_main(args):
    which, variant, exe, infos, seed, shard, n, deadline, nparts = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    work = tempfile.mkdtemp(prefix="vf-leak-")
    stats, found = runner.Stats(), []
    try:
        rng = random.Random("leak/%s/%d/%d" % (which, seed, shard))
        for part in range(nparts):
            if part and time.time() > deadline:
                break
            g = runner.Gen(rng, stats, lambda g, c: g.m.weight >= 1)
            if which == "growth":
                growth(g, n, 1500)
                g.end()
                marks = {}

                def rec(c, e, k, obs, ev_):
                    if c.startswith("live 0"):
                        marks.setdefault(k, []).append((int(c.split()[2]), int(obs.split()[1])))
                v, k, kind = runner.execute(exe, variant, g.prelude, g.cases, infos, work, on_record=rec, judge="nothing")
                if v is not None:
                    found.append((v, kind))
                for k, m in marks.items():
                    stats.extra["restoring sequences repeated 1500 times"] += 1
                    if len(m) == 2:
                        d = m[1][1] - m[0][1]
                        stats.extra["largest growth in bytes"] = max(stats.extra["largest growth in bytes"], d)
                        if d > m[1][0]:
                            case = g.cases[k][0]
                            x = runner.Violation("memory of variables that keep their values grew by %d bytes over 1500 repetitions, allowed %d" % (d, m[1][0]), case, g.prelude, case[-1], variant)
                            x.growth = True
                            found.append((x, "growth"))
            else:
                symbols(g, throw=True)
                (serial if which == "serial" else parallel)(g, n)
                g.end()
                reps = REPS if which == "serial" else REPS + 4
                v, leaks = observe(exe, variant, g.prelude, g.cases, infos, work, reps)
                if v is not None:
                    found.append((v, "crash"))
                for (c, e), (leak, l) in zip(g.cases, leaks):
                    if len(l) == reps:
                        stats.extra["histories repeated with all memory accounted for"] += 1
                    if leak:
                        again = observe(exe, variant, g.prelude, [(c, None)], infos, work, reps + 3)[1][0]
                        if again[0]:
                            best = shrink(exe, variant, g.prelude, c, infos, work, reps)
                            x = runner.Violation("every repetition leaves %d bytes or more behind with all objects destroyed: live %s" % (leak, l), best, g.prelude, best[-1], variant)
                            found.append((x, "leak"))
                            break
                end = [l[-1] for _, l in leaks if len(l) == reps]
                if not found and drifting(end):
                    flat = [x for c, _ in g.cases[:400] for x in c + ["live 1"]]
                    found.append((runner.Violation("what is live with all objects destroyed grows with the number of histories: %d, %d, ... %d bytes" % (end[0], end[len(end) // 2], end[-1]), flat, g.prelude, flat[-1], variant), "leak"))
            if len(found) >= 2:
                break
        return "ok", stats, found
    except runner.HarnessError as e:
        return "error", stats, str(e)
    except Exception:
        import traceback
        return "error", stats, traceback.format_exc()
    finally:
        shutil.rmtree(work, ignore_errors=True)


def shrink(exe, variant, prelude, case, infos, work, reps, budget=20):
    t0 = time.time()
    case = list(case)

    def bad(c):
        try:
            v, l = observe(exe, variant, prelude, [(c, None)], infos, work, reps)
        except (runner.model.Invalid, KeyError, IndexError, TypeError, runner.HarnessError):
            return False
        return v is None and l[0][0] > 0
    step = max(1, len(case) // 2)
    while step >= 1 and time.time() - t0 < budget:
        i, changed = 0, False
        while i < len(case) and time.time() - t0 < budget:
            c = case[:i] + case[i + step:]
            if c and bad(c):
                case, changed = c, True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2)
    return case


def run(which, variant, exe, infos, seed, n, deadline, nparts, nshards=8):
    import multiprocessing
    stats, found = runner.Stats(), []
    with multiprocessing.get_context("fork").Pool(nshards) as pool:
        for status, st, res in pool.imap_unordered(shard_main, [(which, variant, exe, infos, seed, s, n, deadline, nparts) for s in range(nshards)]):
            top = max(stats.extra["largest growth in bytes"], st.extra["largest growth in bytes"])
            stats.merge(st)
            stats.extra["largest growth in bytes"] = top
            if status == "error":
                pool.terminate()
                raise runner.HarnessError(res)
            found += res
    return stats, found


def replay(v, exe, infos, work):
    """-> whether it still fails"""
    if "grew by" in v["what"]:
        marks = []

        def rec(c, e, k, obs, ev_):
            if c.startswith("live 0"):
                marks.append((int(c.split()[2]), int(obs.split()[1])))
        x, _, _ = runner.execute(exe, v["variant"], v["prelude"], [v["case"]], infos, work, on_record=rec, judge="nothing")
        print("live bytes at the marks:", marks)
        return x is not None or len(marks) == 2 and marks[1][1] - marks[0][1] > marks[1][0]
    if "grows with" in v["what"]:
        end = []
        x, _, _ = runner.execute(exe, v["variant"], v["prelude"], [v["case"]], infos, work, on_record=lambda c, e, k, obs, ev_: end.append(int(obs.split()[1])) if c == "live 1" else None, judge="nothing")
        print("live bytes after each history:", end[:3], "...", end[-3:])
        return x is not None or drifting(end)
    x, l = observe(exe, v["variant"], v["prelude"], [(v["case"], None)], infos, work, REPS + 4)
    print("live bytes after each repetition:", l[0][1])
    return x is not None or l[0][0] > 0
