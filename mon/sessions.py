"""Sessions with the example programs: the calculator is driven through its standard input - all at once, in pieces, or by
somebody who waits for every answer - and its two streams and exit code are compared with the reference evaluator."""
import multiprocessing
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import tempfile
import time
from fractions import Fraction

from . import build, gens2, refexpr, runner

SYMBOLS = {"sum": ("func", -1, "sum"), "max": ("func", -1, "max")}
CONST = {n: "(%d)" % v if v < 0 else str(v) for n, v in gens2.CONSTS}
FUNC = {n for n, _, _ in gens2.FUNCS}
DIVBY0 = 1
ENDS = ["1/0", "5%0", "0/0", "max(1,2)/0", "(2+3)/(1-1)", "-7 / -0", "1 + 2 % sum(3,-3)"]
OPEN = "calculator-end-of-input"
FIXED = ["", " ", "\t \t", "{0}", "{1} + {0}", "1}{0}", "0", "00", "1 2", "sum()", "max()", "max(-5, -7)", "max(1,)", "sum(1 2)", "sum", "Sum(1)", "maximum(1)", "maxx(1)", "max (3, 2)", "-0", "~0", "0!",
         "5!", "1==1", "1=1", "2**100", "1 < 2 < 3", "0x1F", "0b1", "036xZz", "sum(1,2,3) % max(2,1)", "7 ? 8 : 9", "max(max(1,2),sum(3,4))", "x = 5", "quit", "1;2", "\"1\"", "%s%d%n", "1 %s", "a\\n", "é"]


class Line:
    """text of one line and what is said to it: value, or malformed, or the end of the program"""

    def __init__(self, text):
        self.text, self.value, self.malformed, self.ends = text, 0, False, False
        e = refexpr.Evaluator(SYMBOLS, max_bits=30000)
        e.max_fact = 400
        try:
            tree = refexpr.parse(text, SYMBOLS)
            if refexpr.size(tree) > 600:
                raise refexpr.Unspecified("size")
            self.value = e.ev(tree)
            if self.value.bit_length() > 60000:
                raise refexpr.Unspecified("size")
        except refexpr.Malformed:
            self.malformed = True
        except refexpr.DivZero:
            self.ends = True


def line(rng):
    while True:
        r = rng.random()
        if r < 0.12:
            text = rng.choice(FIXED)
        else:
            t = gens2.expression(rng, rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 14, 40]))
            if rng.random() < 0.2:
                text = gens2.clean(gens2.mutate(rng, t))
            else:
                t = [CONST.get(x, rng.choice(["sum", "max"]) if x in FUNC else x) for x in t]
                text = gens2.clean(gens2.mutate(rng, t)) if rng.random() < 0.12 else gens2.join(rng, t)
            if rng.random() < 0.03:
                text += "+" + "9" * rng.choice([100, 1000, 4000])
        text = text.replace("\n", " ")
        if rng.random() < 0.05:
            text += "\r"
        try:
            return Line(text)
        except (refexpr.Unspecified, RecursionError):
            continue


def relative(rng, lines):
    """a line that differs in little or nothing from an earlier one"""
    old = rng.choice(lines).text if rng.random() < 0.5 else lines[-1].text
    for _ in range(20):
        text, r = old, rng.random()
        at = [i for i, c in enumerate(text) if c.isdigit()]
        if r < 0.5 and at:
            i = rng.choice(at[-3:]) if rng.random() < 0.5 else rng.choice(at)
            text = text[:i] + rng.choice("123456789") + text[i + 1:]
        elif r < 0.65:
            text += rng.choice([" ", "+1", "*2", ")", "-0", "0"])
        elif r < 0.75:
            text = text[:-1]
        elif r < 0.85:
            text = "(" + text + ")"
        try:
            return Line(text)
        except (refexpr.Unspecified, RecursionError):
            continue
    return line(rng)


def session(seed):
    rng = random.Random(seed)
    lines = []
    n = rng.choice([0, 1, 1, 2, 3, 5, 10, 20, 40])
    ends = rng.random() < 0.15
    while len(lines) < n:
        l = relative(rng, lines) if lines and rng.random() < 0.25 else line(rng)
        if l.ends and not (ends and len(lines) > n // 2):
            continue
        lines.append(l)
    how = rng.choice(["pieces", "at once", "waiting", "file"])
    if not any(l.ends for l in lines) and (how == "waiting" or rng.random() < 0.95):
        lines.append(Line(rng.choice(ENDS)))
    return lines, how, rng.random() < 0.8


def expected(lines, closed):
    out, n = "", 0
    for l in lines:
        out += "> "
        if l.ends:
            return out, n, DIVBY0
        out += "%s = %d\n" % (l.text, l.value)
        n += l.malformed
    return out + "> ", n, 0


def limits(most):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (20, 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (most, most))
    return f


def enc(s):
    return s.encode("latin-1")


def drive(exe, lines, how, newline, work, rng):
    """-> (stdout, stderr, exit code or None if it was stopped, why)"""
    data = "\n".join(l.text for l in lines)
    if lines and (newline or not lines[-1].text):
        data += "\n"
    want, _, _ = expected(lines, True)
    outp, errp, inp = (os.path.join(work, x) for x in ("out", "err", "in"))
    why = None
    most = 2 * len(want) + 300 * len(lines) + (1 << 16)
    with open(errp, "wb") as err:
        if how == "waiting":
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=runner.ENV, cwd=work, start_new_session=True, preexec_fn=limits(most))
            got = b""

            def until(n):
                nonlocal got, why
                t0, quiet, last = time.time(), None, None
                while len(got) < n:
                    if select.select([p.stdout], [], [], 0.2)[0]:
                        b = os.read(p.stdout.fileno(), 1 << 16)
                        if not b:
                            return False
                        got += b
                        quiet = None
                        continue
                    ticks, asleep = runner.threads_state(p.pid)
                    if ticks is None:
                        continue
                    if asleep and ticks == last:
                        quiet = quiet or time.time()
                        if time.time() - quiet > 10:
                            why = "it waits for more input without having answered"
                            return False
                    else:
                        quiet = None
                    last = ticks
                    if time.time() - t0 > 300:
                        raise runner.HarnessError("the calculator did not get to run")
                return True
            n = 2
            ok = until(n)
            for l in lines:
                if not ok:
                    break
                try:
                    p.stdin.write(enc(l.text) + b"\n")
                    p.stdin.flush()
                except OSError:
                    break
                if l.ends:
                    break
                n += len(enc("%s = %d\n> " % (l.text, l.value)))
                ok = until(n)
            try:
                p.stdin.close()
            except OSError:
                pass
            while why is None:
                if not select.select([p.stdout], [], [], 120)[0]:
                    raise runner.HarnessError("the calculator did not get to run")
                b = os.read(p.stdout.fileno(), 1 << 16)
                if not b:
                    break
                got += b
                if len(got) > len(want) + (1 << 20):
                    why = "it goes on printing after the end of its input"
            if why:
                os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            out = got
        else:
            with open(outp, "wb") as o:
                if how == "file":
                    with open(inp, "wb") as f:
                        f.write(enc(data))
                    src = open(inp, "rb")
                else:
                    src = subprocess.PIPE
                p = subprocess.Popen([exe], stdin=src, stdout=o, stderr=err, env=runner.ENV, cwd=work, start_new_session=True, preexec_fn=limits(most))
                if how == "file":
                    src.close()
                else:
                    try:
                        b = enc(data)
                        while b:
                            k = len(b) if how == "at once" else rng.randrange(1, 200)
                            p.stdin.write(b[:k])
                            p.stdin.flush()
                            b = b[k:]
                        p.stdin.close()
                    except OSError:
                        try:
                            p.stdin.close()
                        except OSError:
                            pass
                try:
                    p.wait(300)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    raise runner.HarnessError("the calculator did not get to run")
            with open(outp, "rb") as o:
                out = o.read(len(want) * 2 + (1 << 16))
            if p.returncode in (-signal.SIGXCPU, -signal.SIGXFSZ) or os.path.getsize(outp) >= most:
                why = "it does not end at the end of its input"
    with open(errp, "rb") as f:
        e = f.read(1 << 20).decode("latin-1")
    return out.decode("latin-1"), e, p.returncode, why


def judge(lines, out, err, rc, why):
    want, bad, code = expected(lines, True)
    if why and not code and out.startswith(want):
        # nothing but the answers to lines nobody has written may follow
        rest = out[len(want):]
        if (" = 0\n> " * (len(rest) // 7 + 1)).startswith(rest):
            return OPEN
    if why:
        return why
    if rc not in (0, code):
        return "crash: " + runner.crash_text(rc, err)
    if out != want:
        i = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
        i = max(0, want.rfind("\n", 0, i) + 1)
        return "it printed '%s' instead of '%s'" % (out[i:i + 200], want[i:i + 200])
    if rc != code:
        return "it ended with code %s instead of %d" % (rc, code)
    said = [l for l in err.split("\n") if l]
    if any(not l.startswith("[Error][") for l in said):
        return "it said '%s'" % next(l for l in said if not l.startswith("[Error]["))[:300]
    if len(said) < bad + (code == DIVBY0):
        return "%d lines are malformed or divide by zero, %d errors were reported" % (bad + (code == DIVBY0), len(said))
    if said and not bad and code != DIVBY0:
        return "it reported '%s' although nothing was wrong" % said[0][:200]
    if code == DIVBY0 and "Divide By Zero" not in said[-1]:
        return "a division by zero was reported as '%s'" % said[-1][:200]
    return None


def shard(args):
    exe, seed, first, count = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    runner_sys()
    work = tempfile.mkdtemp(prefix="vf-session-")
    by = {"sessions": 0, "lines": 0, "malformed lines": 0, "sessions ended by a division by zero": 0, "bytes printed": 0}
    sigs, bad, samples = set(), [], []
    try:
        for i in range(first, first + count):
            s = seed * 1000003 + i
            lines, how, newline = session(s)
            try:
                r = drive(exe, lines, how, newline, work, random.Random(s))
            except runner.HarnessError as e:
                return {"error": str(e)}
            why = judge(lines, *r)
            by["sessions"] += 1
            by["lines"] += len(lines)
            by["malformed lines"] += sum(l.malformed for l in lines)
            by["sessions ended by a division by zero"] += any(l.ends for l in lines)
            by["bytes printed"] += len(r[0])
            by["input " + how] = by.get("input " + how, 0) + 1
            sigs |= {l.text for l in lines}
            if len(samples) < 1 and len(lines) == 2:
                samples.append([l.text[:100] for l in lines] + [r[0][:400]])
            by["sessions that end with their input"] = by.get("sessions that end with their input", 0) + (not any(l.ends for l in lines))
            if why == OPEN:
                by["endless sessions"] = by.get("endless sessions", 0) + 1
                if not any(w == OPEN for _, w, _ in bad):
                    bad.append((s, why, [l.text for l in lines]))
                continue
            if why:
                bad.append((s, why, [l.text for l in lines]))
                if len(bad) >= 3:
                    break
        return {"error": None, "by": by, "sigs": sigs, "bad": bad, "samples": samples}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def runner_sys():
    import sys
    sys.setrecursionlimit(20000)
    sys.set_int_max_str_digits(0)


def binaries(variants):
    ex = os.path.join(build.REPO, "examples", "calculator.cpp")
    inc = ["-I", os.path.join(build.REPO, "include")]
    return build.build([(v, ex, inc, [], True) for v in variants])


def run(exe, seed, total, nshards=8):
    per = max(1, total // nshards)
    with multiprocessing.get_context("fork").Pool(nshards) as pool:
        res = pool.map(shard, [(exe, seed, i * per, per) for i in range(nshards)], 1)
    for r in res:
        if r["error"]:
            raise runner.HarnessError(r["error"])
    return res


# ---- the programs without input
def kahan(n):
    a, b = Fraction(4), Fraction(17, 4)
    for _ in range(3, n + 1):
        a, b = b, 108 - 815 / b + 1500 / (b * a)
    return b


def one_shots():
    """(name, what it prints is right?)"""
    y = kahan(35)
    dec = "%d.%010d" % (y.numerator // y.denominator, y.numerator % y.denominator * 10 ** 10 // y.denominator)
    A, D = "1" + "0" * 36, "2"
    text = "%s * %s / -%s == -2" % (A, D, A)
    return [("KahanIteration.cpp", lambda o: o.split("\n")[1:] == ["(correct, using `Fraction`) y35 = %d/%d = %s" % (y.numerator, y.denominator, dec), ""]),
            ("simple.cpp", lambda o: o == "%s\n%s: true\n" % (text, text)),
            ("simple.c", lambda o: o == text)]


def example(name, variant):
    """builds examples/<name> against the library as a user does: with the public include directories"""
    if name.endswith(".cpp"):
        return build.build([(variant, os.path.join(build.REPO, "examples", name), ["-I", os.path.join(build.REPO, "include")], [], True)])[0]
    # a C program: the harness is an empty translation unit, the program itself is compiled as C
    d = os.path.join(build.OUT, "c-example-%s-%s" % (variant, build.tree_hash()[:16]))
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, "simple.o")
    cc = "clang" if build.VARIANTS[variant][0] == "clang++" else "gcc"
    rc, out = build.run([cc, "-w", "-c", os.path.join(build.REPO, "examples", name), "-I", os.path.join(build.REPO, "c", "include"), "-o", o])
    if rc:
        raise build.BuildError(out[-4000:])
    return build.build([(variant, "empty.cpp", [], [o], True)])[0]
