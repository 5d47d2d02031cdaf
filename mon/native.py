"""Runs the native harnesses (thread pool, concurrency, status) and judges their event logs offline."""
import multiprocessing
import os
import shutil
import signal
import tempfile

from . import runner


def pool_check(lines):
    """lines of one scenario (S, T..., E) -> None or what is wrong"""
    h = lines[0].split()
    S = dict(zip(h[2::2], h[3::2]))
    S["destroy"] = (int(h[h.index("destroy") + 1]), int(h[h.index("destroy") + 2]))
    i = h.index("seen")
    S.update({k: int(v) for k, v in zip(h[i::2], h[i + 1::2])})
    workers, tasks, run = int(S["workers"]), int(S["tasks"]), S["run"]
    T = []
    for l in lines[1:-1]:
        w = l.split(" ", 11)
        T.append(dict(zip(("id", "kind", "submitter", "call", "ret", "start", "end", "runs", "worker", "concurrent"), map(int, w[1:11])), outcome=w[11]))
    if len(T) != tasks:
        return "log of %d tasks instead of %d" % (len(T), tasks)
    ret = S["destroy"][1]
    for t in T:
        if t["runs"] != 1:
            return "task %d ran %d times" % (t["id"], t["runs"])
        if t["worker"] < 1:
            return "task %d ran on a thread that is no worker" % t["id"]
        if t["end"] > ret or not t["end"]:
            return "task %d ended after the pool was destroyed" % t["id"]
        if t["start"] < t["call"]:
            return "task %d started before it was submitted" % t["id"]
        if t["concurrent"] > workers:
            return "%d tasks at once on %d workers" % (t["concurrent"], workers)
        want = "error task %d" % t["id"] if t["kind"] == 4 else "int %d" % t["id"] if t["kind"] == 5 else "value %d" % ((t["id"] * 3 + 1) * 7 + t["id"] % 40)
        if t["outcome"] not in (want, "dropped"):
            return "the future of task %d delivered '%s' instead of '%s'" % (t["id"], t["outcome"], want)
    if run != tasks:
        return "%d of %d accepted tasks had ended when the destructor returned" % (run, tasks)
    ws = {t["worker"] for t in T}
    if len(ws) > workers:
        return "tasks ran on %d threads, the pool has %d" % (len(ws), workers)
    if S["seen"] != S["ended"]:
        return "%d of %d workers had ended when the destructor returned" % (S["ended"], S["seen"])
    if S["tokens"]:
        return "%d copies of the tasks' data still live" % S["tokens"]
    if workers == 1:
        by = sorted(T, key=lambda t: t["start"])
        latest = 0
        for t in by:        # nobody runs after a task whose submission began later than this one's had returned
            if t["ret"] < latest:
                return "one worker: task %d ran after one that was submitted later" % t["id"]
            latest = max(latest, t["call"])
        for a, b in zip(by, by[1:]):
            if b["start"] < a["end"]:
                return "one worker: tasks %d and %d overlap" % (a["id"], b["id"])
    return None


def signature(lines):
    """what distinguishes the observed schedule of a scenario: the order of all starts, ends and submissions"""
    ev = []
    for l in lines[1:-1]:
        w = l.split(" ", 11)
        ev += [(int(w[4]), "c", w[1]), (int(w[6]), "s", w[1], w[9]), (int(w[7]), "e", w[1])]
    return hash((lines[0].split(" hits")[0].split("workers")[1].split("destroy")[0], tuple(x[1:] for x in sorted(ev))))


def shard(args):
    exe, harness, seed, first, count, extra, check, stall = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    work = tempfile.mkdtemp(prefix="vf-native-")
    try:
        log = os.path.join(work, "log")
        how, rc, err = runner.supervise([exe, str(seed), str(first), str(count), log] + list(extra), work, stall=stall, log=log)
        with open(log, errors="replace") as f:
            lines = f.read().split("\n")
        out = {"scenarios": 0, "events": 0, "sigs": set(), "bad": [], "samples": [], "hits": 0, "by": {}, "error": None}
        cur, open_at = None, None
        for l in lines:
            if l.startswith("B "):
                open_at, cur = l[2:], []
            elif l.startswith("E "):
                cur.append(l)
                out["scenarios"] += 1
                out["events"] += max(0, len(cur) - 2)
                w, sig, info = CHECKS[check](cur)
                out["sigs"].add(sig)
                for k, v in info.items():
                    out["by"][k] = out["by"].get(k, 0) + v
                if len(out["samples"]) < 2 and 3 <= len(cur) < 12:
                    out["samples"].append(cur)
                if w:
                    out["bad"].append((int(open_at), w, cur))
                    if len(out["bad"]) >= 3:
                        break
                cur, open_at = None, None
            elif l == "END":
                break
            elif cur is not None and l:
                cur.append(l)
        else:
            if how == "timeout" or rc == -9 and how == "done":
                out["error"] = "inconclusive: %s rc %s" % (how, rc)
            elif rc == 95:
                out["error"] = "harness failed: %s" % err[-500:]
            else:
                what = "deadlock: every thread sleeps and none can wake another" if how == "deadlock" else "no end after %d s of CPU" % runner.CPU_LIMIT if how == "hang" else "crash: " + runner.crash_text(rc, err)
                out["bad"].append((int(open_at) if open_at else -1, what, (cur or []) + err[-3000:].split("\n")))
        return out
    except OSError as e:
        return {"error": str(e)}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def refusal_check(l):
    S = dict(zip(*[iter(l.split()[2:])] * 2))
    if S["first"] not in ("right", "reported"):
        return "a pool of %s threads whose thread %s was refused: %s" % (S["workers"], S["at"], S["first"])
    if S["first"] == "reported" and S["refused"] == "0" or S["second"] != "right":
        return "%s threads, none refused%s: %s" % (S["workers"], "" if S["first"] == "reported" and S["refused"] == "0" else " the second time", S["first"] if S["second"] == "right" else S["second"])
    if S["left"] != "0":
        return "%s threads stayed behind when thread %s of %s was refused" % (S["left"], S["at"], S["workers"])
    if S["tokens"] != "0":
        return "%s copies of the tasks' data still live" % S["tokens"]
    return None


def pool_judge(cur):
    w = cur[0].split()
    if w[0] == "R":
        S = dict(zip(w[2::2], w[3::2]))
        return refusal_check(cur[0]), hash(("R", S["workers"], S["at"], S["evals"], S["first"])), {"threads refused": int(S["refused"]), "refusals reported": int(S["first"] == "reported")}
    S = dict(zip(w[2::2], w[3::2]))
    return pool_check(cur), signature(cur), {"tasks": int(S["tasks"]), "pools with one worker": int(S["workers"] == "1"), "destroyed at once": int(S["finish"] == "1"),
                                             "several submitters": int(S["submitters"] != "1"), "delay points passed": int(w[-1]),
                                             "pools whose tasks meet": int(w[w.index("meet") + 1] != "0"), "tasks submitted by tasks": int(w[w.index("children") + 1])}


def queue_check(lines):
    """lines of one scenario (S, V..., O..., E) -> None or why no FIFO queue behaves so.  The elements are distinct, so the
    forbidden patterns of queue histories decide linearizability: an element from nowhere or twice, two elements out of order,
    a pop that found nothing although an element was there all along, an accepted element that is lost"""
    for l in lines:
        if l.startswith("V "):
            return l[2:]
    h = lines[0].split()
    if int(h[h.index("live") + 1]):
        return "%s elements still live after the queue was destroyed" % h[h.index("live") + 1]
    push, pops, fails, empties, copies, ends = {}, {}, [], [], [], []
    for l in lines[1:-1]:
        _, t, name, value, res, call, ret, note = l.split(" ")
        value, res, call, ret = int(value), int(res), int(call), int(ret)
        if name == "push":
            if res:
                push[value] = (call, ret)
        elif name in ("pop", "try"):
            if res:
                if value in pops:
                    return "element %d came out twice" % value
                pops[value] = (call, ret)
            else:
                fails.append((call, ret, name))
        elif name == "empty":
            empties.append((call, ret, res))
        elif name == "copy":
            copies.append((call, ret, [] if note == "-" else [int(x) for x in note.split(",")[:-1]]))
        elif name == "end":
            ends.append((call, ret))
    inf = 1 << 60
    for v, (c, r) in pops.items():
        if v not in push:
            return "element %d came out without having been accepted" % v
        if r < push[v][0]:
            return "element %d came out before it was pushed" % v
    # a pushed wholly before b, but b out wholly before a: the smallest end of a later element's pop must not precede a's begin
    by_call = sorted(push, key=lambda v: push[v][0])
    by_ret = sorted(push, key=lambda v: push[v][1])
    first_out, i = inf, len(by_call)
    for a in reversed(by_ret):                     # from the latest push on: all b with push[b].call > push[a].ret
        while i and push[by_call[i - 1]][0] > push[a][1]:
            i -= 1
            b = by_call[i]
            first_out = min(first_out, (pops[b][1] if b in pops else inf))
        if first_out < (pops[a][0] if a in pops else inf):
            return "an element pushed after element %d had been came out before it" % a
    # surely[]: from the end of the push to the begin of the pop; maybe[]: from the begin of the push to the end of the pop
    surely = [(push[v][1], pops[v][0] if v in pops else inf) for v in push if push[v][1] < (pops[v][0] if v in pops else inf)]
    maybe = [(push[v][0], pops[v][1] if v in pops else inf) for v in push]

    def merged(xs):
        out = []
        for a, b in sorted(xs):
            if out and a <= out[-1][1]:
                out[-1][1] = max(out[-1][1], b)
            else:
                out.append([a, b])
        return out

    covered = merged(surely)
    possible = merged(maybe)

    def never_empty(c, r):
        return any(a <= c and r <= b for a, b in covered)

    def ever_filled(c, r):
        return any(a <= r and c <= b for a, b in possible)

    for c, r, name in fails:
        if never_empty(c, r):
            return "a pop (%s) found nothing while an element was in the queue all along" % name
        if name == "pop" and not any(e[0] < r for e in ends):
            return "a blocking pop returned nothing although nobody had ended the waiting"
    for c, r, res in empties:
        if res and never_empty(c, r):
            return "empty() was true while an element was in the queue all along"
        if not res and not ever_filled(c, r):
            return "empty() was false while no element was in the queue"
    for c, r, content in copies:
        if len(set(content)) != len(content):
            return "a copy holds an element twice"
        for v in content:
            if v not in push or push[v][0] > r:
                return "a copy holds element %d, which had not been pushed" % v
            if v in pops and pops[v][1] < c:
                return "a copy holds element %d, which had come out before" % v
        latest = -1
        for v in content:                          # nobody stands behind an element that was pushed wholly after it
            if push[v][1] < latest:
                return "a copy holds its elements in another order"
            latest = max(latest, push[v][0])
        for v in push:
            if v not in content and push[v][1] < c and (v not in pops or pops[v][0] > r):
                return "a copy lacks element %d" % v
    return None


def queue_judge(cur):
    w = cur[0].split()
    S = dict(zip(w[2::2], w[3::2]))
    ops = [l.split(" ") for l in cur[1:-1] if l.startswith("O ")]
    info = {"calls of " + {"try": "tryPop", "end": "notifyAllPop", "copy": "the copy constructor"}.get(k, k): 0 for k in {o[2] for o in ops}}
    for o in ops:
        info["calls of " + {"try": "tryPop", "end": "notifyAllPop", "copy": "the copy constructor"}.get(o[2], o[2])] += 1
    info["pushes refused"] = sum(o[2] == "push" and o[4] == "0" for o in ops)
    info["pops that found nothing"] = sum(o[2] in ("pop", "try") and o[4] == "0" for o in ops)
    info["delay points passed"] = int(S["hits"])
    # pairs of calls of different threads that overlapped
    ev = sorted((int(o[5]), int(o[6]), o[1]) for o in ops)
    info["overlapping calls"] = sum(1 for a, b in zip(ev, ev[1:]) if b[0] < a[1] and a[2] != b[2])
    order = sorted([(int(o[5]), "c", o[1], o[2], o[3]) for o in ops] + [(int(o[6]), "r", o[1], o[2], o[3]) for o in ops])
    return queue_check(cur), hash(tuple(x[1:] for x in order)), info


def plain_judge(cur):
    """harnesses that judge by themselves: lines 'V <what>' are violations, 'I <name> <count>' counts"""
    bad = [l[2:] for l in cur if l.startswith("V ")]
    info = {}
    for l in cur:
        if l.startswith("I "):
            k, v = l[2:].rsplit(" ", 1)
            info[k] = info.get(k, 0) + int(v)
    return (bad[0] if bad else None), hash(tuple(l for l in cur if l[0] in "SG")), info


CHECKS = {"pool": pool_judge, "queue": queue_judge, "plain": plain_judge}


def run(exe, harness, seed, total, extra, check, stall=15, nshards=8, first=0):
    """nshards processes; the first scenario of a process is the only one that sees the library unused"""
    per = max(1, total // nshards)
    jobs = [(exe, harness, seed, first + i * per, per, extra, check, stall) for i in range(nshards)]
    with multiprocessing.get_context("fork").Pool(min(nshards, os.cpu_count() or 4)) as pool:
        res = pool.map(shard, jobs, 1)
    for r in res:
        if r["error"]:
            raise runner.HarnessError(r["error"])
    return res
