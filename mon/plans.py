"""Which workloads and which instrumentations decide which property, and how deep."""
import collections
import json
import os
import random
import shutil
import subprocess
import tempfile
import time

from . import build, gens, gens2, gens3, leaks, model, native, runner, sessions

# what the observations of a property's histories are judged by; "all": every observation against the model
JUDGE = {"P09": "parallel", "P11": "ordered", "P16": "nothing", "P18": "nothing", "P19": "nothing", "P20": "division"}
# memory errors, failed assertions and signals; that a history ends at all is not P16's or P19's matter
KINDS = {"P16": {"crash"}}


class Context:
    def __init__(self, prop, tier, seed, minutes=0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.violations = []
        self.coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = ["Python integers and the reference evaluator of mon/refexpr.py are right", "the workloads reach what a changed tree gets wrong: nothing is said about inputs they do not drive"]
        self.keys = set()
        self.t0 = time.time()
        self.end = self.t0 + (60 * minutes if minutes else 1e9 if self.quick else 600)
        self.infos = None
        self.judge = JUDGE.get(prop, "all")

    def add(self, label, stats, wall):
        c = self.coverage
        c["evaluations"] += stats.commands
        self.keys |= stats.keys
        c["distinct_nontrivial"] = len(self.keys)
        c.setdefault("runs", []).append({"what": label, "commands": stats.commands, "cases": stats.cases, "wall_s": round(wall, 1)})
        ops = c.setdefault("observed_by_command", {})
        for k, v in stats.ops.items():
            ops[k] = ops.get(k, 0) + v
        w = c.setdefault("largest_operand_in_limbs", {})
        for k, v in stats.weights.items():
            w[k] = w.get(k, 0) + v
        e = c.setdefault("error_events_seen", {})
        for k, v in stats.events.items():
            e[str(k)] = e.get(str(k), 0) + v
        x = c.setdefault("reached", {})
        for k, v in stats.extra.items():
            x[k] = x.get(k, 0) + v
        if len(c["samples"]) < 5:
            c["samples"] += [[model.short(l, 400) for l in s] for s in stats.samples[:5 - len(c["samples"])]]

    def found(self, list_, type_="script"):
        for v, kind in list_:
            self.violations.append({"what": repr(v), "kind": kind, "variant": v.variant, "prelude": v.prelude, "case": v.case, "command": v.command,
                                    "expected": v.expect, "observed": v.observed, "key": "", "type": type_, "judge": self.judge})


def infos_from(ctx, exe):
    if ctx.infos is None:
        work = tempfile.mkdtemp(prefix="vf-infos-")
        try:
            ctx.infos = runner.infos_of(exe, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)


def script_stage(ctx, fn, variants, quick, thorough=None, parts=(1, 40), nontrivial=None, opts=None, label=None, each=None):
    """runs a generator on every variant.  budgets: dict for quick and thorough; parts: rounds of fresh cases"""
    exes = build.build([build.executor(v) for v in variants])
    infos_from(ctx, exes[0])
    for i, (variant, exe) in enumerate(zip(variants, exes)):
        t = time.time()
        b = dict(quick if ctx.quick or thorough is None else thorough)
        for k, x in b.items():
            if isinstance(x, dict):
                b[k] = x.get(variant, x["*"])
        left = (ctx.end - time.time()) / (len(variants) - i)
        o = dict(opts or {}, parts=parts[0] if ctx.quick else parts[1], per_variant=i > 0 and not (opts or {}).get("collect"), nontrivial=nontrivial, deadline=time.time() + left, judge=ctx.judge, accept=KINDS.get(ctx.prop))
        stats, found = runner.run_generators(ctx.prop, fn, variant, exe, ctx.infos, ctx.seed, ctx.tier, b, o)
        ctx.add("%s, build %s" % (label or fn.__name__, variant), stats, time.time() - t)
        ctx.found(found)
        if each:
            each(variant, stats)
        if ctx.violations:
            return


RULES = {
    "P01": "pairs of integers: a grid of curated values in all signs and operand forms, lengths around every threshold, quotient/remainder-built division pairs, searched add-back pairs, aliased operands, in-place chains; non-trivial: an operand of at least two limbs, distinct by command and operand values",
    "P02": "bitwise and shift commands over the curated grid, operands of different lengths and signs, powers of two and their neighbours, shift counts around multiples of 32; non-trivial: an operand of at least two limbs, distinct by command and operand values",
    "P03": "every comparison form and predicate over pairs that differ in one limb, one bit, sign or length, and equal values reached by different histories; distinct by command and operand values",
    "P04": "values around the limits of every radix's chunk size, powers of the radix and their neighbours, random lengths, in every radix 2..36; non-trivial: at least two limbs, distinct by command, radix and value",
    "P05": "valid texts with one character changed, inserted, removed or repeated at every position, separators, signs, empty, wrong radices, through every parsing entry; distinct by entry, radix, text and old value",
    "P06": "byte strings of every length in both orders with the patterns that select other branches, capacities around the length, native limits; distinct by command and bytes",
    "P07": "histories of copies, moves, swaps, aliased in-place operations on few variables with every variable observed; distinct by command and the values of its operands",
    "P08": "all pairs of operators in every position on probe values, then random expressions; non-trivial: at least three nodes, distinct by text",
    "P09": "random expressions and shapes (chains, trees, wide and nested calls) under 1..16 threads with injected delays; distinct by text, thread count and evaluator",
    "P10": "mutations of well-formed token sequences and texts, every prefix of some, random bytes; distinct by text and evaluator",
    "P11": "expressions over registered functions that record their arguments, return, mutate or count, re-registrations in between; distinct by text",
    "P12": "fractions over curated numerators and denominators of every sign and common factor, chains of operations; distinct by command and values",
    "P13": "pools of 1..8 workers, 1..4 submitters, tasks that return, throw, sleep, spin or submit, destruction early or late, delays injected at every synchronisation call; non-trivial: distinct order of submissions, starts and ends",
    "P14": "C objects in lock-step with the model over all functions, aliased arguments, failing conversions, sizes around the capacity; distinct by command and operand values",
    "P15": "registration histories in one process and fresh processes whose first use of the status is concurrent; distinct by operation and registry state, or by the recorded schedule",
    "P16": "histories over the whole API, karatsuba and add-back shapes, malformed texts; distinct by command and operand values",
    "P17": "scenarios of 2..8 threads over copies that share storage, values read at once, evaluators, parsers and printers; distinct by scenario and recorded outcome",
    "P18": "histories repeated with all objects destroyed in between, and value-restoring sequences repeated 1500 times; distinct by command and operand values",
    "P19": "the same histories on every build, each against the model and the recorded observations against each other; distinct by command and operand values",
    "P20": "zero divisors in every operand form against dividends of every size and sign, non-zero divisors in between; distinct by form and values",
    "P23": "pairs of non-negative integers: curated, with a planted common factor, multiples, Fibonacci neighbours, powers of two, one operand far larger; distinct by operand values",
    "P24": "histories, divisions, products, swaps and sharing on the integer implementation itself, values reached in nine ways; distinct by command and operand values",
    "P22": "one queue under 1..4 producers, 1..8 consumers, observers that copy it and ask empty(), one thread alone; pushes refused by their condition, blocking pops with exact quotas, waiting ended early or late, delays injected at every synchronisation call; non-trivial: distinct order of all begins and ends of calls",
    "P26": "expressions under six literal hooks (default, recording, changing, rejecting, empty, constant), one parser and node pool used for several texts with all their trees evaluated again, streams over both kinds of source driven by random calls; distinct by command and text",
    "P25": "five slices of integers, strings and counted elements under 20..80 random operations (construction over callers' vectors, copies, moves, swaps, growth at either end, windows narrower and wider, writes after cloneData), each compared with its own sequence after every operation; non-trivial: distinct sequence of operations",
    "P27": "random format texts with 0..12 placeholders in any order, repeated or without argument, over eighteen lists of arguments (texts to 513 characters, numbers at their limits, doubles to 1e308, big integers in any radix, containers, pairs, slices), with width and precision, through format and formatAppend; distinct by the seed of the scenario (ten calls each)",
    "P28": "sessions of 0..40 lines (well-formed, mutated, malformed, empty, long, dividing by zero at the end) given at once, in pieces, from a file or one after the other answer; distinct by the texts of the lines; the other example programs once per build",
    "P29": "words of every bit pattern, numbers at the limits of each width in every radix, random packs, histories of variants and object managers, command lines with known, unknown, doubled and incomplete options; distinct by the seed of the scenario",
    "P21": "literals of every radix and prefix form with digits in either case, fraction parts, white space; distinct by text",
}


def big(g, c):
    return g.m.weight >= 2


def any_weight(g, c):
    return c[0] not in ("case", "n", "all")


def is_ev(g, c):
    return c[0] == "ev" and g.m.weight >= 3


def is_evall(g, c):
    return c[0] in ("ev", "ko", "kf", "kc")


def is_frac(g, c):
    return c[0][0] == "f"


def is_c(g, c):
    return c[0].startswith("c.")


def P01(ctx):
    script_stage(ctx, gens.p01, ["rel", "asan"], {"n": {"rel": 16000, "*": 5000}}, nontrivial=big)


def P02(ctx):
    script_stage(ctx, gens.p02, ["rel", "asan"], {"n": {"rel": 16000, "*": 5000}}, nontrivial=big)


def P03(ctx):
    script_stage(ctx, gens.p03, ["rel", "asan"], {"n": {"rel": 12000, "*": 4000}}, nontrivial=any_weight)


def P04(ctx):
    script_stage(ctx, gens.p04, ["rel", "asan"], {"n": {"rel": 8000, "*": 2500}, "far": {"rel": 1 << 20, "*": 0}}, nontrivial=big)


def P05(ctx):
    script_stage(ctx, gens.p05, ["rel", "asan"], {"n": {"rel": 16000, "*": 6000}}, nontrivial=any_weight)


def P06(ctx):
    script_stage(ctx, gens.p06, ["asan", "rel"], {"n": {"rel": 8000, "*": 3000}}, nontrivial=any_weight)


def P07(ctx):
    script_stage(ctx, gens.p07, ["rel", "asan"], {"n": {"rel": 3600, "*": 1400}}, nontrivial=any_weight)


def P08(ctx):
    script_stage(ctx, gens2.p08, ["rel", "asan"], {"n": {"rel": 2400, "*": 700}, "fact": {"rel": 6, "*": 1}, "lits": {"rel": 6, "*": 4}}, nontrivial=is_ev)


def P10(ctx):
    script_stage(ctx, gens2.p10, ["asan", "rel"], {"n": {"rel": 2800, "*": 2000}}, nontrivial=is_evall)


def P11(ctx):
    script_stage(ctx, gens2.p11, ["rel", "asan"], {"n": {"rel": 800, "*": 300}}, nontrivial=is_evall)


def P12(ctx):
    script_stage(ctx, gens2.p12, ["rel", "asan"], {"n": {"rel": 2400, "*": 800}}, nontrivial=is_frac)


def P14(ctx):
    script_stage(ctx, gens2.p14, ["rel", "asan"], {"n": {"rel": 4800, "*": 1600}}, nontrivial=is_c)


def P20(ctx):
    script_stage(ctx, gens2.p20, ["rel", "asan"], {"n": {"rel": 6000, "*": 2000}}, nontrivial=any_weight)


def P21(ctx):
    script_stage(ctx, gens2.p21, ["rel", "asan"], {"n": {"rel": 2800, "*": 1000}}, nontrivial=is_evall)


EAGER = ["0?1/0:2", "1?2:3%0", "(2==2)?one:(k7/zero)", "0?(1?5/0:6):7"]


def P09(ctx):
    script_stage(ctx, gens2.p09, ["rel+delay", "tsan+delay", "asan"], {"n": {"rel+delay": 60, "tsan+delay": 30, "*": 60}}, nontrivial=is_evall)
    # the branch a condition does not choose must have no effect under peval either
    exe = build.build([build.executor("asan")])[0]
    work = tempfile.mkdtemp(prefix="vf-eager-")
    g = runner.Gen(None, runner.Stats())
    for n, v in gens2.CONSTS:
        g.pre("kc", n, model.enc(v))
    try:
        for text in EAGER:
            seen = {}
            cmd = "ev 1 2 0 " + model.hx(text.encode())
            x, _, kind = runner.execute(exe, "asan", g.prelude, [[cmd]], ctx.infos, work, on_record=lambda c, e, k, obs, ev: seen.update({c: ev}))
            if x is not None:
                ctx.found([(x, kind)])
            elif seen.get(cmd):
                ctx.violations.append({"what": "peval of '%s' set an error status from the branch that is not chosen: events %s" % (text, seen[cmd]), "kind": "eager", "type": "script", "variant": "asan",
                                       "prelude": g.prelude, "case": [cmd], "key": "peval-eager-conditional"})
    finally:
        shutil.rmtree(work, ignore_errors=True)


def P16(ctx):
    script_stage(ctx, gens2.p16, ["asan", "clang", "asanrel"], {"n": {"*": 200}}, nontrivial=any_weight)
    if ctx.violations:
        return
    script_stage(ctx, gens2.p16, ["valgrind"], {"n": {"*": 3}, "steps": 20, "light": 1}, {"n": {"*": 6}, "light": 1}, nontrivial=any_weight, opts={"wrap": VALGRIND}, label="memcheck: p16")


VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--track-origins=no"]


def native_stage(ctx, harness, variants, total, check, extra=(), delays=True, label=None, nshards=8, rounds=1):
    exes = build.build([(v, harness + ".cpp", [], build.WRAP if delays else [], True) for v in variants])
    for v, exe in zip(variants, exes):
        for r in range(rounds if not ctx.quick else 1):
            if r and time.time() > ctx.end:
                break
            t = time.time()
            n = total[v] if isinstance(total, dict) else total
            res = native.run(exe, harness, ctx.seed * 1000 + r, n, extra, check, nshards=nshards)
            c = ctx.coverage
            sc = sum(x["scenarios"] for x in res)
            c["evaluations"] += sc
            for x in res:
                ctx.keys |= x["sigs"]
                if len(c["samples"]) < 4:
                    c["samples"] += x["samples"][:1]
            c["distinct_nontrivial"] = len(ctx.keys)
            by = c.setdefault("observed", {})
            by["log records"] = by.get("log records", 0) + sum(x["events"] for x in res)
            for x in res:
                for k, n_ in x["by"].items():
                    by[k] = by.get(k, 0) + n_
            c.setdefault("runs", []).append({"what": "%s, build %s" % (label or harness, v), "scenarios": sc, "wall_s": round(time.time() - t, 1)})
            for x in res:
                for scen, what, lines in x["bad"]:
                    ctx.violations.append({"what": "%s [%s, scenario %d]" % (what, v, scen), "kind": "native", "type": "native", "harness": harness, "variant": v, "delays": delays,
                                           "scenario": scen, "native_seed": ctx.seed * 1000 + r, "extra": list(extra), "check": check, "case": lines[:60], "key": ""})
            if ctx.violations:
                return


def P13(ctx):
    native_stage(ctx, "pool", ["rel", "tsan", "asan"], {"rel": 8000, "tsan": 3000, "asan": 3000}, "pool", ["1"], rounds=30)


def P23(ctx):
    script_stage(ctx, gens3.p23, ["rel", "asan"], {"n": {"rel": 2000, "*": 600}}, nontrivial=any_weight)


def P24(ctx):
    script_stage(ctx, gens3.p24, ["rel", "asan", "dbg"], {"n": {"rel": 3000, "*": 1000}}, nontrivial=any_weight)


def P22(ctx):
    native_stage(ctx, "queue", ["rel", "tsan", "asan"], {"rel": 12000, "tsan": 3000, "asan": 3000}, "queue", ["1"], rounds=30)


def P25(ctx):
    native_stage(ctx, "slice", ["asan", "rel", "dbg"], {"asan": 24000, "rel": 80000, "dbg": 40000}, "plain", delays=False, rounds=60)


def P27(ctx):
    native_stage(ctx, "format", ["asan", "rel", "dbg"], {"asan": 16000, "rel": 60000, "dbg": 20000}, "plain", delays=False, rounds=60)


def P29(ctx):
    native_stage(ctx, "util", ["asan", "rel", "dbg"], {"asan": 8000, "rel": 40000, "dbg": 12000}, "plain", delays=False, rounds=60)


def P26(ctx):
    script_stage(ctx, gens3.p26, ["rel", "asan", "dbg"], {"n": {"rel": 500, "*": 200}}, nontrivial=any_weight)


def P28(ctx):
    t0 = time.time()
    variants = ["asanrel", "rel"]
    exes = sessions.binaries(variants)
    c = ctx.coverage
    for v, exe in zip(variants, exes):
        for r in range(1 if ctx.quick else 40):
            if r and time.time() > ctx.end:
                break
            t = time.time()
            seed = ctx.seed * 1000 + r
            res = sessions.run(exe, seed, 2400 if v == "rel" else 1200)
            by = c.setdefault("observed", {})
            for x in res:
                ctx.keys |= x["sigs"]
                c["evaluations"] += x["by"]["lines"]
                for k, n in x["by"].items():
                    by[k] = by.get(k, 0) + n
                if len(c["samples"]) < 4:
                    c["samples"] += x["samples"]
                for s, what, lines in x["bad"]:
                    ctx.violations.append({"what": "calculator: %s [%s, session %d]" % (what, v, s), "kind": "session", "type": "session", "variant": v, "session": s, "case": lines, "key": what if what == sessions.OPEN else ""})
            c["distinct_nontrivial"] = len(ctx.keys)
            c.setdefault("runs", []).append({"what": "calculator sessions, build %s" % v, "sessions": sum(x["by"]["sessions"] for x in res), "wall_s": round(time.time() - t, 1)})
            if any(not x["key"] for x in ctx.violations):
                return
        work = tempfile.mkdtemp(prefix="vf-example-")
        try:
            for name, right in sessions.one_shots():
                p = subprocess.run([sessions.example(name, v)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work, env=runner.ENV, timeout=300)
                out = p.stdout.decode("latin-1")
                c["evaluations"] += 1
                if p.returncode or not right(out):
                    ctx.violations.append({"what": "example %s: exit code %d, printed '%s' %s" % (name, p.returncode, out[:300], p.stderr.decode("latin-1")[-200:]), "kind": "example", "type": "example", "variant": v, "example": name, "case": [], "key": ""})
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if any(not x["key"] for x in ctx.violations):
            return


def P17(ctx):
    native_stage(ctx, "conc", ["tsan", "asan", "rel"], {"tsan": 480, "asan": 480, "rel": 1200}, "plain", ["1", "1"], rounds=30, nshards=80)


def P15(ctx):
    script_stage(ctx, gens2.p15, ["rel", "asan"], {"n": {"rel": 2400, "*": 800}}, nontrivial=any_weight)
    native_stage(ctx, "status", ["tsan", "asan"], {"tsan": 400, "asan": 400}, "plain", rounds=30)


def P19(ctx):
    """the same histories on every build: each against the model, and the recorded observations against each other"""
    got = {}
    variants = ["rel", "dbg", "o3", "clangrel", "asan"] + ([] if ctx.quick else ["o0", "clang", "asanrel", "dbg1"])
    n = {"n": 250}
    opts = {"collect": True}
    ctx.coverage["histories compared between two builds"] = 0

    def compare(v, st):
        if not got:
            got.update(st.records)
            return
        for key, h in sorted(st.records.items()):
            if key not in got:
                continue
            ctx.coverage["histories compared between two builds"] += 1
            if got[key] != h and len(ctx.violations) < 2:
                shard, part, k = key
                prelude, cases = runner.regenerate(ctx.prop, gens2.p19, ctx.seed, shard, 8, part, ctx.tier, n, opts)
                ctx.violations.append(difference(ctx, variants[0], v, prelude, cases[k][0] if k >= 0 else []))
    script_stage(ctx, gens2.p19, variants, n, nontrivial=any_weight, opts=opts, each=compare)


def record_of(variant, prelude, case, infos=None):
    exe = build.build([build.executor(variant)])[0]
    work = tempfile.mkdtemp(prefix="vf-diff-")
    out = []
    try:
        x, _, _ = runner.execute(exe, variant, prelude, [case], infos or runner.infos_of(exe, work), work, cpu=20, on_record=lambda c, e, k, obs, ev: out.append((c, "" if e is not None and e.events == "any" or c.startswith(("ev 1 ", "live ", "dly ")) else obs, ev)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return x, out


def difference(ctx, a, b, prelude, case):
    _, ra = record_of(a, prelude, case)
    _, rb = record_of(b, prelude, case)
    what, at = "differ", len(case)
    for i, (x, y) in enumerate(zip(ra, rb)):
        if x != y:
            what, at = "%s !%s against %s !%s" % (x[1], x[2], y[1], y[2]), i
            break
    cmd = ra[at][0] if at < len(ra) else ""
    return {"what": "builds %s and %s differ in '%s': %s" % (a, b, model.short(cmd, 200), model.short(what, 400)), "kind": "difference", "type": "difference", "variants": [a, b], "variant": a,
            "prelude": prelude, "case": case[:max(1, at - len(prelude))] if at < len(ra) else case, "key": ""}


def P18(ctx):
    exe = build.build([build.executor("asan")])[0]
    infos_from(ctx, exe)
    for i, (which, quick, what) in enumerate((("serial", 120, "histories over the whole API, each repeated"), ("parallel", 40, "parallel evaluations, each repeated"), ("growth", 14, "sequences that restore a value, repeated"))):
        t = time.time()
        stats, found = leaks.run(which, "asan", exe, ctx.infos, ctx.seed, quick, t + (ctx.end - t) / (3 - i), 1 if ctx.quick else 60)
        ctx.add("%s, build asan" % what, stats, time.time() - t)
        ctx.found(found, "leak")
        if ctx.violations:
            return
    for harness, n, delays in (("format", 800, False), ("slice", 800, False), ("util", 300, False), ("pool", 320, True), ("queue", 400, True)):
        native_stage(ctx, harness, ["asan"], n, "plain", ["1", "leak"], delays=delays, label="%s scenarios, each repeated" % harness, rounds=6)
        if ctx.violations:
            return


PLANS = {n: f for n, f in globals().items() if len(n) == 3 and n[0] == "P" and callable(f)}


def with_rule(f, prop):
    def run(ctx):
        ctx.coverage["rule"] = RULES.get(prop, "see DESIGN.md")
        f(ctx)
    return run


PLANS = {n: with_rule(f, n) for n, f in PLANS.items()}


def replay(path):
    with open(path) as f:
        v = json.load(f)
    if v.get("type") == "script":
        exe = build.build([build.executor(v["variant"])])[0]
        work = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            infos = runner.infos_of(exe, work)
            x, k, kind = runner.execute(exe, v["variant"], v["prelude"], [v["case"]], infos, work, judge=v.get("judge", "all"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if x is None:
            print("the case runs as expected now")
            return 0
        print(x)
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    if v.get("type") == "leak":
        exe = build.build([build.executor(v["variant"])])[0]
        work = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            bad = leaks.replay(v, exe, runner.infos_of(exe, work), work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    elif v.get("type") == "difference":
        _, ra = record_of(v["variants"][0], v["prelude"], v["case"])
        _, rb = record_of(v["variants"][1], v["prelude"], v["case"])
        bad = ra != rb
        for x, y in zip(ra, rb):
            if x != y:
                print("%s: %s against %s" % (x[0], x[1:], y[1:]))
    elif v.get("type") in ("session", "example"):
        work = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            if v["type"] == "session":
                lines, how, newline = sessions.session(v["session"])
                bad = sessions.judge(lines, *sessions.drive(sessions.binaries([v["variant"]])[0], lines, how, newline, work, random.Random(v["session"])))
            else:
                p = subprocess.run([sessions.example(v["example"], v["variant"])], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=work, env=runner.ENV, timeout=300)
                bad = p.returncode or not dict(sessions.one_shots())[v["example"]](p.stdout.decode("latin-1"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if bad:
            print(bad)
    elif v.get("type") == "native":
        # a schedule cannot be forced again: the scenario is run many times
        exe = build.build([(v["variant"], v["harness"] + ".cpp", [], build.WRAP if v["delays"] else [], True)])[0]
        bad = False
        first = v["scenario"] % 1000003 if v["scenario"] > 0 else 0
        for r in range(200): # as the first of a process and after another one
            before = r % 2 and first > 0
            res = native.run(exe, v["harness"], v["native_seed"], 2 if before else 1, v["extra"], v["check"], nshards=1, first=first - 1 if before else first)[0]
            if res["bad"]:
                print("run %d: %s" % (r + 1, res["bad"][0][1]))
                bad = True
                break
    else:
        print("not a replayable kind: %s" % v.get("type"))
        return 3
    if bad:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    print("runs as expected now")
    return 0
