"""Drives executors with generated cases, watches them, compares every record line with the model."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build, model

CPU_LIMIT = 40         # seconds of CPU of one case before it counts as not terminating
STALL = 15              # seconds without any CPU use, all threads asleep: deadlock
WALL = 800
TICK = os.sysconf("SC_CLK_TCK")

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1:hard_rss_limit_mb=3000",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99", TSAN_OPTIONS="halt_on_error=1:exitcode=99:report_signal_unsafe=0:history_size=4")
ENV.pop("LD_PRELOAD", None)


class HarnessError(Exception):
    pass


def threads_state(pid):
    """(cpu ticks of all threads, are all of them asleep)"""
    ticks, asleep = 0, True
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                s = f.read()
            s = s[s.rindex(")") + 2:].split()
            asleep = asleep and s[0] == "S"
            ticks += int(s[11]) + int(s[12])
    except OSError:
        return None, False
    return ticks, asleep


def total_ticks(pid):
    """CPU ticks of the process with the threads that have ended"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        s = s[s.rindex(")") + 2:].split()
        return int(s[11]) + int(s[12])
    except OSError:
        return 0


def supervise(cmd, cwd, stall=STALL, wall=WALL, env=None, log=None):
    """runs cmd; returns (how, returncode, stderr); how: done | deadlock | hang | timeout
    log: a file that grows with every scenario; CPU_LIMIT seconds of CPU without that count as not terminating"""
    err = open(os.path.join(cwd, "stderr"), "wb")
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=env or ENV, start_new_session=True)
    start = time.time()
    last, since = None, None
    size, mark = None, 0
    how = "done"
    delay = 0.005
    while True:
        try:
            p.wait(delay)
            break
        except subprocess.TimeoutExpired:
            pass
        delay = min(0.5, delay * 1.5)
        now = time.time()
        ticks, asleep = threads_state(p.pid)
        if ticks is None or not asleep or ticks != last:
            last, since = ticks, now
        elif now - since > stall:
            how = "deadlock"
        if log and ticks is not None:
            n = os.path.getsize(log) if os.path.exists(log) else 0
            if n != size:
                size, mark = n, total_ticks(p.pid)
            elif total_ticks(p.pid) - mark > CPU_LIMIT * TICK:
                how = "hang"
        if now - start > wall:
            how = "timeout"
        if how != "done":
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    err.close()
    with open(os.path.join(cwd, "stderr"), "rb") as f:
        f.seek(max(0, os.path.getsize(f.name) - 200000))
        e = f.read().decode("utf-8", "replace")
    return how, p.returncode, e


REPORT = re.compile(r"(ERROR: AddressSanitizer:.*|runtime error:.*|WARNING: ThreadSanitizer:.*|Assertion.*failed.*|terminate called.*|std::.*Assertion.*|==\d+== (?:Invalid|Conditional|Use of|Mismatched).*)")


def crash_text(rc, err):
    m = REPORT.search(err)
    what = m.group(1) if m else "exit code %s" % rc
    if rc is not None and rc < 0:
        what += " (signal %d)" % -rc
    frames = [f for f in re.findall(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?([^\n]*)", err) if "/src/" in f][:4]
    return what + (" at " + " <- ".join(frames) if frames else "")


def parse_record(line):
    """observation, {code: count}"""
    m = re.match(r"^(.*?)((?: !\d+x\d+)*)$", line, re.S)
    ev = {}
    for w in m.group(2).split():
        c, k = w[1:].split("x")
        ev[int(c)] = int(k)
    return m.group(1), ev


class Violation:
    def __init__(self, what, case, prelude, command, variant, expect=None, observed=None):
        self.what, self.case, self.prelude, self.command, self.variant = what, case, prelude, command, variant
        self.expect, self.observed = expect, observed

    def __repr__(self):
        return "%s [%s] in: %s" % (self.what, self.variant, model.short(self.command, 300))


def expectations(prelude, case):
    m = model.Model()
    out = []
    for c in prelude + ["case 0"] + case:
        out.append(m.step(c.split(" ")))
    return out


def judge_all(infos):
    return lambda c, e, obs, ev: model.compare(e, obs, ev, infos)


def judge_ordered(infos):
    """as judge_all, and the order of the calls in an evaluation counts too"""
    def judge(c, e, obs, ev):
        w = model.compare(e, obs, ev, infos)
        if w is None and e is not None and e.kind == "ev" and c.startswith(("ev 0 ", "x.run ")) and e.data.get("calls") is not None and not e.data["malformed"]:
            got = EV.match(obs).group(2).split(";")
            if [x for x in got if x] != e.data["calls"]:
                return "calls %s instead of %s (in this order)" % (model.short(";".join(got)), model.short(";".join(e.data["calls"])))
        return w
    return judge


def judge_nothing(infos):
    """for properties that are not about the values: crashes and the like remain"""
    return lambda c, e, obs, ev: None


def judge_division(infos):
    """only what concerns the report of divisions by zero"""
    def judge(c, e, obs, ev):
        if e is None:
            return None
        if e.events == "div":
            return model.check_events(ev, "div")
        if e.events in ("none", "err", "nodiv"):
            return model.check_events(ev, "nodiv")
        if c.split(" ", 1)[0] in model.STATUS:
            return model.compare(e, obs, ev, infos)
        return None
    return judge


EV = re.compile(r"^(.*?) calls=(\S*(?: \S+)*?) ?status=(.*)$")


def judge_parallel(infos):
    """an evaluation by peval against that of the same text by eval just before it; the model says only what eval leaves open"""
    last = {}

    def judge(c, e, obs, ev):
        w = c.split(" ")
        if w[0] == "case":
            last.clear()
        if w[0] != "ev" or e is None or e.kind != "ev":
            return None
        text = w[4]
        if w[1] == "0":
            last.clear()
            last[text] = (EV.match(obs), ev, model.compare(e, obs, ev, infos) is None)
            return None
        m = EV.match(obs)
        if m is None:
            return "unreadable record %s" % model.short(obs)
        if text not in last:
            return model.compare(e, obs, ev, infos)
        s, sev, good = last[text]
        if good:        # eval is right: so must peval be, calls included
            r = model.compare(e, obs, ev, infos)
            if r:
                return r
        if s is None:
            return None
        if e.data.get("threw") is not None:
            return None if m.group(1).startswith("threw") == s.group(1).startswith("threw") else "peval: %s, eval: %s" % (model.short(m.group(1)), model.short(s.group(1)))
        if e.data["val"] is not None and m.group(1) != s.group(1):
            return "value %s by peval, %s by eval" % (model.short(m.group(1)), model.short(s.group(1)))
        if e.events == "none" and ev != sev:
            return "events %s by peval, %s by eval" % (ev, sev)
        if b"?" not in model.unhx(text) and sorted(m.group(2).split(";")) != sorted(s.group(2).split(";")):
            return "calls %s by peval, %s by eval" % (model.short(m.group(2)), model.short(s.group(2)))
        return None
    return judge


JUDGES = {"all": judge_all, "ordered": judge_ordered, "nothing": judge_nothing, "division": judge_division, "parallel": judge_parallel}


def execute(exe, variant, prelude, cases, infos, work, cpu=CPU_LIMIT, on_record=None, stall=STALL, wrap=None, judge="all"):
    """cases: list of command lists (with expectations computed here unless given as (commands, expects)).
    Returns (violation or None, index of the case it happened in, notes)."""
    script = os.path.join(work, "script")
    record = os.path.join(work, "record")
    flat = []
    m = model.Model()
    with open(script, "w") as f:
        for c in prelude:
            flat.append((c, m.step(c.split(" ")), -1))
            f.write(c + "\n")
        for k, case in enumerate(cases):
            cmds, exps = case if isinstance(case, tuple) else (case, None)
            c = "case %d" % k
            flat.append((c, model.Expect("eq", c), k))
            f.write(c + "\n")
            if exps is None:
                m.step(["case", str(k)])
            for i, c in enumerate(cmds):
                flat.append((c, exps[i] if exps is not None else m.step(c.split(" ")), k))
                f.write(c + "\n")
    if os.path.exists(record):
        os.unlink(record)
    cmd = (wrap or []) + [exe, script, record, str(cpu)]
    how, rc, err = supervise(cmd, work, stall=stall)
    with open(record, "r", errors="replace") as f:
        lines = f.read().split("\n")
    n = 0
    judge = JUDGES[judge](infos)
    for (c, e, k), line in zip(flat, lines):
        if line == "" or line.startswith("#"):
            break
        n += 1
        obs, ev = parse_record(line)
        if on_record:
            on_record(c, e, k, obs, ev)
        w = judge(c, e, obs, ev)
        if w:
            return Violation(w, list(cases[k][0] if isinstance(cases[k], tuple) else cases[k]) if k >= 0 else [], prelude, c, variant, e and e.describe(), line), k, "mismatch"
    ended = n == len(flat) and lines[n:n + 1] == ["#END"]
    if ended and rc == 0:
        return None, None, None
    if rc == 95 or rc == 96:
        raise HarnessError("executor failed: rc %s %s" % (rc, err[-2000:]))
    if n >= len(flat):
        k, c = len(cases) - 1, "(end)"
    else:
        c, _, k = flat[n]
    case = list(cases[k][0] if isinstance(cases[k], tuple) else cases[k]) if k is not None and k >= 0 else []
    if how == "deadlock":
        w, kind = "deadlock: every thread sleeps and none can wake another", "deadlock"
    elif how == "timeout":
        w, kind = "still running after %d s" % WALL, "timeout"
    elif "#HANG" in lines:
        w, kind = "no end after %d s of CPU" % cpu, "hang"
    elif "#EXIT" in lines and rc not in (99,):
        w, kind = "the process was ended by exit(%s): %s" % (rc, err[-200:].strip()), "exit"
    elif rc == -9:
        w, kind = "killed", "killed"
    else:
        w, kind = "crash: " + crash_text(rc, err), "crash"
    return Violation(w, case, prelude, c, variant), k, kind


def shrink(exe, variant, v, infos, work, budget=60.0, wrap=None, judge="all"):
    """drops commands of the case while a violation remains"""
    t0 = time.time()
    case = list(v.case)

    def bad(c):
        try:
            x, _, kind = execute(exe, variant, v.prelude, [c], infos, work, cpu=20, stall=8, wrap=wrap, judge=judge)
        except (model.Invalid, KeyError, IndexError, HarnessError, TypeError):
            return None
        return x if x is not None and kind not in ("killed", "timeout") else None
    best = v
    x = bad(case)
    if x is None:
        return None
    best = x
    if "deadlock" in x.what or "no end after" in x.what:
        return best
    step = max(1, len(case) // 2)
    while step >= 1 and time.time() - t0 < budget:
        i = 0
        changed = False
        while i < len(case) and time.time() - t0 < budget:
            c = case[:i] + case[i + step:]
            x = bad(c) if c else None
            if x is not None:
                case, best, changed = c, x, True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2) if step > 1 else (1 if changed else 0)
    best.case = case
    return best


def infos_of(exe, work, count=17):
    """info text -> code of the built-in codes, as the library itself reports them"""
    script, record = os.path.join(work, "script"), os.path.join(work, "record")
    with open(script, "w") as f:
        for i in range(count):
            f.write("scinfo %d\n" % i)
    how, rc, err = supervise([exe, script, record], work)
    out = {}
    if os.path.exists(record):
        with open(record) as f:
            for i, l in enumerate(f.read().split("\n")[:count]):
                t = parse_record(l)[0]
                if t and t != "<ERROR_INFO>" and not t.startswith("#"):
                    out.setdefault(t, i)
    return out


class Stats:
    def __init__(self):
        self.commands = 0
        self.cases = 0
        self.keys = set()
        self.ops = collections.Counter()
        self.weights = collections.Counter()
        self.events = collections.Counter()
        self.extra = collections.Counter()
        self.records = {}
        self.samples = []

    def merge(self, o):
        self.commands += o.commands
        self.cases += o.cases
        self.keys |= o.keys
        self.ops += o.ops
        self.weights += o.weights
        self.events += o.events
        self.extra += o.extra
        self.records.update(o.records)
        self.samples = (self.samples + o.samples)[:6]


def wclass(w):
    for lim in (0, 1, 2, 3, 4, 8, 16, 40, 78, 80, 82, 120, 158, 161, 240, 400, 1000):
        if w <= lim:
            return "<=%d" % lim
    return ">1000"


class Gen:
    """helper of the generators: issues commands into a case while the model runs along"""

    def __init__(self, rng, stats, nontrivial=None):
        self.rng, self.stats = rng, stats
        self.m = model.Model()
        self.prelude = []
        self.cases = []
        self.cmds, self.exps = [], []
        self.nontrivial = nontrivial or (lambda g, c: g.m.weight >= 2)

    def pre(self, *w):
        self.m.step([str(x) for x in w])
        self.prelude.append(" ".join(str(x) for x in w))

    def begin(self):
        self.end()
        self.m.step(["case", "0"])

    def end(self):
        if self.cmds:
            self.cases.append((self.cmds, self.exps))
            self.stats.cases += 1
            if len(self.stats.samples) < 3 and 3 <= len(self.cmds) <= 14 and sum(map(len, self.cmds)) < 900:
                self.stats.samples.append(list(self.cmds))
        self.cmds, self.exps = [], []

    def __call__(self, *w):
        """issues a command if it is allowed; returns whether it was"""
        c = [str(x) for x in w]
        try:
            e = self.m.step(c)
        except model.Invalid:
            return False
        self.cmds.append(" ".join(c))
        self.exps.append(e)
        s = self.stats
        s.commands += 1
        s.ops[c[0] + ("" if c[0] not in ("bo", "br", "bl", "ib", "ii", "un", "in", "c.op", "c.oi", "c.un", "fop") else " " + c[1])] += 1
        s.weights[wclass(self.m.weight)] += 1
        if self.nontrivial(self, c) and self.m.key is not None:
            s.keys.add(hash((c[0], self.m.key)))
        return True

    def count(self):
        return sum(len(c[0]) for c in self.cases) + len(self.cmds)


def shard_main(args):
    name, fn, variant, exe, infos, seed, shard, nshards, tier, budget, opts = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    work = tempfile.mkdtemp(prefix="vf-%s-" % name)
    stats = Stats()
    found = []
    try:
        rng = random.Random("%s/%s/%d/%d/%s" % (name, tier, seed, shard, variant if opts.get("per_variant") else ""))
        for part in range(opts.get("parts", 1)):
            if part and time.time() > opts.get("deadline", 1e18):
                break
            g = Gen(rng, stats, opts.get("nontrivial"))
            fn(g, shard, nshards, part, tier, budget)
            g.end()
            cases = g.cases
            rounds, offset = 0, 0
            while cases and rounds < 6 and len(found) < 1:
                rounds += 1

                collect = opts.get("collect")

                def rec(c, e, k, obs, ev):
                    for code, n in ev.items():
                        stats.events[code] += n
                    if collect and k >= 0 and e is not None and e.events != "any" and not c.startswith(("ev 1 ", "live ", "dly ")):
                        stats.records[shard, part, k + offset] = hash((stats.records.get((shard, part, k + offset)), c, obs, tuple(sorted(ev.items()))))
                    if obs.startswith("delay points"):
                        w = obs.split()
                        stats.extra["synchronisation points passed by delayed threads"] += int(w[3])
                        stats.extra["of them with a sleep"] += int(w[5])
                v, k, kind = execute(exe, variant, g.prelude, cases, infos, work, on_record=rec, wrap=opts.get("wrap"), judge=opts.get("judge", "all"))
                if v is None:
                    break
                if kind in ("timeout", "killed"):
                    raise HarnessError("inconclusive: %s" % v)
                keep = opts.get("accept")
                if collect:
                    if k is not None and k >= 0:
                        stats.records[shard, part, k + offset] = "died: " + kind
                        if "san" in variant or variant == "clang":      # a sanitizer ends what goes on elsewhere
                            del stats.records[shard, part, k + offset]
                    keep = {"crash"} if "Assertion" in v.what else set()
                if opts.get("judge") == "parallel" and kind != "mismatch" and not v.command.startswith("ev 1"):
                    keep = set()    # eval fails by itself
                s = v if keep is not None and kind not in keep else shrink(exe, variant, v, infos, work, budget=opts.get("shrink_s", 12.0), wrap=opts.get("wrap"), judge=opts.get("judge", "all")) if v.case else v
                if s is None:
                    # does it depend on the cases before it, or on the schedule?  run the same prefix again
                    again, k2, kind2 = execute(exe, variant, g.prelude, cases[:k + 1], infos, work, wrap=opts.get("wrap"), judge=opts.get("judge", "all"))
                    if again is not None:
                        flat = []
                        for c, _ in cases[:k + 1]:
                            flat += c
                        s = again
                        if not again.case:
                            s.case = v.case
                    else:
                        s = v
                        s.what += " (seen once, not on re-running the case: depends on the schedule)"
                if keep is None or kind in keep:
                    found.append((s, kind))
                if kind in ("hang", "deadlock"):
                    return ("ok", stats, found)
                k = k if k is not None and k >= 0 else len(cases)
                offset += k + 1
                cases = cases[k + 1:]
            if found:
                break
        return ("ok", stats, found)
    except HarnessError as e:
        return ("error", stats, str(e))
    except Exception:
        import traceback
        return ("error", stats, traceback.format_exc())
    finally:
        shutil.rmtree(work, ignore_errors=True)


def regenerate(name, fn, seed, shard, nshards, part, tier, budget, opts, variant=""):
    """(prelude, cases) as shard_main made them"""
    rng = random.Random("%s/%s/%d/%d/%s" % (name, tier, seed, shard, variant))
    for p in range(part + 1):
        g = Gen(rng, Stats(), opts.get("nontrivial"))
        fn(g, shard, nshards, p, tier, budget)
        g.end()
    return g.prelude, g.cases


def run_generators(name, fn, variant, exe, infos, seed, tier, budget, opts=None, nshards=8):
    """-> (stats, violations); raises HarnessError"""
    opts = opts or {}
    ctx = multiprocessing.get_context("fork")
    stats, found = Stats(), []
    with ctx.Pool(min(nshards, os.cpu_count() or 4)) as pool:
        jobs = [(name, fn, variant, exe, infos, seed, s, nshards, tier, budget, opts) for s in range(nshards)]
        for status, st, res in pool.imap_unordered(shard_main, jobs):
            stats.merge(st)
            if status == "error":
                pool.terminate()
                raise HarnessError(res)
            found += res
    return stats, found
