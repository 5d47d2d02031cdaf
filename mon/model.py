"""Interpreter of executor scripts over Python integers: what every command has to be observed to do.

Model.step(words) returns an Expect, or None when nothing about the observation is specified.
Invalid(…) means the command may not be issued in this state (generators and the shrinker rely on it)."""
import math
import re

from . import refexpr
from .refexpr import parse_radix, to_radix, tdiv

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
OPS = ["+", "-", "*", "/", "%", "&", "|", "^"]


class Invalid(Exception):
    pass


def enc(v):
    if v == 0:
        return "Z"
    h = "%x" % abs(v)
    if len(h) & 1:
        h = "0" + h
    return ("P" if v > 0 else "N") + h


def dec(t):
    """inverse of enc; None for an observation that shows no integer"""
    if t == "Z":
        return 0
    m = re.match(r"^([PN])([0-9a-f]+)$", t)
    if not m:
        return None
    v = int(m.group(2), 16)
    return v if m.group(1) == "P" else -v


def hx(b):
    return b.hex() if b else "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


def mag_bytes(v):
    v = abs(v)
    return v.to_bytes((v.bit_length() + 7) // 8, "little")


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


class Expect:
    """kind: eq (data: text) | any | alt (data: list of texts) | ev (data: dict)
    events: none | div (a division by zero was reported) | err (some error was reported) | any | nodiv"""
    __slots__ = ("kind", "data", "events")

    def __init__(self, kind, data=None, events="none"):
        self.kind, self.data, self.events = kind, data, events

    def describe(self):
        return "%s %s [events: %s]" % (self.kind, self.data, self.events)


def check_events(ev, spec):
    """ev: {code: count}; returns None or what is wrong"""
    if spec == "any":
        return None
    if spec == "none":
        return None if not ev else "unexpected error events %s" % ev
    if spec == "div":
        return None if ev.get(1) else "division by zero was not reported"
    if spec == "nodiv":
        return None if not ev.get(1) else "a division by zero was reported"
    if spec == "err":
        return None if [c for c in ev if 2 <= c <= 16] else "no error was reported"
    if spec.startswith("="):
        want = {}
        for w in spec[1:].split(","):
            if w:
                c, k = w.split("x")
                want[int(c)] = int(k)
        return None if ev == want else "error events %s instead of %s" % (ev, want)
    return None


def compare(expect, obs, ev, infos):
    """None when the observation fits, else a description"""
    if expect is None:
        return None
    w = check_events(ev, expect.events)
    if w:
        return w
    if expect.kind == "any":
        return None
    if expect.kind == "eq":
        if obs == "(nothing)":
            obs = ""
        return None if obs == expect.data else "observed %s instead of %s" % (short(obs), short(expect.data))
    if expect.kind == "alt":
        return None if obs in expect.data else "observed %s, none of %s" % (short(obs), [short(x) for x in expect.data])
    if expect.kind == "ev":
        d = expect.data
        m = re.match(r"^(.*?) calls=(\S*(?: \S+)*?) ?status=(.*)$", obs)
        if not m:
            return "unreadable record %s" % short(obs)
        val, calls, status = m.group(1), m.group(2), m.group(3)
        code = infos.get(status)
        if d.get("threw") is not None:
            if not val.startswith("threw thrown by "):
                return "the exception did not arrive: %s" % short(val)
            return None
        if d["val"] is not None and val != d["val"]:
            return "value %s instead of %s" % (short(val), short(d["val"]))
        if d["malformed"]:
            if code is None or not 2 <= code <= 16:
                return "malformed text, but the status says '%s'" % status
            if calls:
                return "malformed text, but functions were called: %s" % short(calls)
        else:
            if code is not None and 2 <= code <= 16:
                return "well-formed text, but the status says '%s'" % status
            if d.get("calls") is not None:
                got = sorted(c for c in calls.split(";") if c)
                if d.get("optional_calls") is not None:
                    rest = list(got)
                    for c in d["calls"]:
                        if c in rest:
                            rest.remove(c)
                        else:
                            return "call %s missing in %s" % (short(c), short(calls))
                    if d["optional_calls"] != "?":
                        spare = list(d["optional_calls"])
                        for c in rest:
                            if c in spare:
                                spare.remove(c)
                            else:
                                return "call %s made too often, or never written, in %s" % (short(c), short(calls))
                elif got != sorted(d["calls"]):
                    return "calls %s instead of %s" % (short(";".join(got)), short(";".join(sorted(d["calls"]))))
        return None
    raise AssertionError(expect.kind)


def short(s, n=160):
    s = str(s)
    return s if len(s) <= n else s[:n // 2] + "..(%d).." % len(s) + s[-n // 2:]


class Model:
    def __init__(self, infos=None):
        self.B = {}
        self.F = {}
        self.C = {}
        self.I = {}
        self.sym = {}
        self.st = {}
        self.cst = {}
        self.hook, self.lits, self.trees, self.pool = 0, [], {}, False
        self.gst = None
        self.info = {}      # code -> info text (registered)
        self.cb = {}        # code -> event code or None
        self.key = None     # hash of the command and its operand values
        self.weight = 0     # size of the largest operand, in 32-bit limbs

    # -- operand access
    def b(self, t):
        v = self.B.get(int(t), "absent")
        if v == "absent" or v is None:
            raise Invalid("slot %s" % t)
        return v

    def c(self, t):
        v = self.C.get(int(t))
        if v is None:
            raise Invalid("handle %s" % t)
        return v

    def exists(self, t):
        if int(t) not in self.B:
            raise Invalid("slot %s" % t)

    def f(self, t):
        v = self.F.get(int(t))
        if v is None:
            raise Invalid("fraction %s" % t)
        return v

    def note(self, *vals):
        self.weight = max([0] + [(abs(v).bit_length() + 31) // 32 for v in vals if isinstance(v, int)])
        self.key = hash(tuple(vals))

    def step(self, w):
        c = w[0]
        if c == "case":
            self.B, self.F, self.C, self.I, self.st, self.cst = {}, {}, {}, {}, {}, {}
            self.hook, self.lits, self.trees, self.pool = 0, [], {}, False
            self.note("case")
            self.gst = None
            return Expect("eq", "case " + w[1])
        m = getattr(self, "do_" + NAMES.get(c, c.replace(".", "_")), None)
        if m is None:
            raise Invalid("unknown " + c)
        self.key = None
        e = m(*w[1:])
        if c not in STATUS:
            # what the status of the calling thread is after it
            if e.events == "div":
                self.gst = 1 if 1 in self.info and not (c == "ev" and w[1] != "0") else None
            elif e.events != "none":
                self.gst = None
            elif c == "ev":
                self.gst = 0 if 0 in self.info else None
            elif self.gst != 0 and c not in QUIET:
                self.gst = None
        return e

    def put(self, i, v, events="none", suffix=""):
        self.B[int(i)] = v
        return Expect("eq", enc(v) + suffix, events)

    # -- construction
    def do_live(self, clear, bound=0):
        if clear != "0":
            self.B, self.F, self.C, self.I, self.st, self.cst = {}, {}, {}, {}, {}, {}
            self.hook, self.lits, self.trees, self.pool = 0, [], {}, False
        self.note("live")
        return Expect("any")

    def do_n(self, i):
        self.note("n")
        return self.put(i, 0)

    def do_ni(self, i, v):
        self.note("ni", int(v))
        return self.put(i, int(v))

    def do_nv(self, i, t):
        v = dec(t)
        self.note("nv", v)
        return self.put(i, v)

    def _str(self, i, radix, h, mode, old):
        s = unhx(h)
        v = parse_radix(s, int(radix))
        self.note("str", radix, s)
        self.weight = len(s) // 8
        ok = v is not None
        return self.put(i, v if ok else old, "none" if ok else "err", "" if mode == "0" else " ok" if ok else " bad")

    def do_ns(self, i, radix, h, mode):
        return self._str(i, radix, h, mode, 0)

    def do_ss(self, i, radix, h, mode):
        return self._str(i, radix, h, mode, self.b(i))

    def _bin(self, i, h, le):
        s = unhx(h)
        v = int.from_bytes(s, "little" if int(le) else "big", signed=True)
        self.note("bin", le, s)
        self.weight = len(s) // 4
        return v

    def do_nb(self, i, h, le):
        return self.put(i, self._bin(i, h, le))

    def do_sb(self, i, h, le):
        self.exists(i)
        return self.put(i, self._bin(i, h, le))

    def do_nc(self, i, j):
        v = self.b(j)
        if i == j:
            raise Invalid("self")
        self.note("nc", v)
        return self.put(i, v)

    def do_nm(self, i, j):
        v = self.b(j)
        if i == j:
            raise Invalid("self")
        self.note("nm", v)
        self.B[int(j)] = None
        return self.put(i, v)

    def do_ai(self, i, v):
        self.exists(i)
        self.note("ai", int(v))
        return self.put(i, int(v))

    do_aii = do_ai

    def do_ca(self, i, j):
        self.exists(i)
        v = self.b(j)
        self.note("ca", v, i == j)
        return self.put(i, v)

    def do_ma(self, i, j):
        self.exists(i)
        v = self.b(j)
        self.note("ma", v, i == j)
        if i != j:
            self.B[int(j)] = None
        return self.put(i, v)

    def do_sw(self, i, j):
        a, b = self.b(i), self.b(j)
        if i == j:
            raise Invalid("self")
        self.note("sw", a, b)
        self.B[int(i)], self.B[int(j)] = b, a
        return Expect("eq", enc(b) + " " + enc(a))

    def do_del(self, i):
        self.exists(i)
        self.note("del")
        del self.B[int(i)]
        return Expect("eq", ".")

    # -- operators
    def arith(self, i, o, a, b):
        if o not in OPS:
            raise Invalid("operator")
        if o in "/%" and b == 0:
            self.B[int(i)] = None
            return Expect("any", None, "div")
        return self.put(i, refexpr.binop(o, a, b))

    def do_bo(self, o, i, j, k):
        a, b = self.b(j), self.b(k)
        self.note("bo", o, a, b, j == k)
        return self.arith(i, o, a, b)

    def do_br(self, o, i, j, v):
        a = self.b(j)
        self.note("br", o, a, int(v))
        return self.arith(i, o, a, int(v))

    def do_bl(self, o, i, v, k):
        b = self.b(k)
        self.note("bl", o, int(v), b)
        return self.arith(i, o, int(v), b)

    def do_ib(self, o, i, j):
        a, b = self.b(i), self.b(j)
        self.note("ib", o, a, b, i == j)
        return self.arith(i, o, a, b)

    def do_ii(self, o, i, v):
        a = self.b(i)
        self.note("ii", o, a, int(v))
        return self.arith(i, o, a, int(v))

    def shl(self, v, n):
        if n < 0 or (v and n > 1 << 26):
            raise Invalid("shift")
        return v << n if v else 0

    def shr(self, v, n):
        if n < 0:
            raise Invalid("shift")
        return (-1 if v < 0 else 0) if n > v.bit_length() else v >> n

    def do_sl(self, i, j, n):
        v = self.b(j)
        self.note("sl", v, int(n))
        return self.put(i, self.shl(v, int(n)))

    def do_sr(self, i, j, n):
        v = self.b(j)
        if int(n) > I64MAX:
            raise Invalid("shift")
        self.note("sr", v, int(n))
        return self.put(i, self.shr(v, int(n)))

    def do_isl(self, i, n):
        v = self.b(i)
        self.note("isl", v, int(n))
        return self.put(i, self.shl(v, int(n)))

    def do_isr(self, i, n):
        v = self.b(i)
        self.note("isr", v, int(n))
        return self.put(i, self.shr(v, int(n)))

    def do_un(self, o, i, j):
        v = self.b(j)
        self.note("un", o, v)
        return self.put(i, {"+": v, "-": -v, "neg": -v, "~": ~v, "abs": abs(v)}[o])

    @staticmethod
    def notbits(v):
        r = abs(v) ^ ((1 << abs(v).bit_length()) - 1)
        return -r if v < 0 else r

    def do_in(self, o, i):
        v = self.b(i)
        self.note("in", o, v)
        if o in ("x++", "x--"):
            self.B[int(i)] = v + (1 if o == "x++" else -1)
            return Expect("eq", enc(v) + " " + enc(self.B[int(i)]))
        r = {"++x": v + 1, "--x": v - 1, "negate": -v, "abs": abs(v), "notself": ~v}.get(o)
        return self.put(i, self.notbits(v) if r is None else r)

    def do_gcd(self, i, j, k):
        a, b = self.b(j), self.b(k)
        if a < 0 or b < 0:
            raise Invalid("gcd of negatives")
        self.note("gcd", a, b)
        return self.put(i, math.gcd(a, b))

    # -- observers
    def do_ob(self, i):
        v = self.b(i)
        self.note("ob", v)
        return Expect("eq", enc(v))

    def do_all(self):
        self.note("all", tuple(sorted((k, v) for k, v in self.B.items() if v is not None)))
        if any(v is None for v in self.B.values()):
            raise Invalid("a value is unspecified")
        s = " ".join("%d=%s" % (k, enc(v)) for k, v in sorted(self.B.items()))
        return Expect("eq", s or ".")

    @staticmethod
    def six(a, b):
        return "".join("1" if x else "0" for x in (a == b, a != b, a < b, a <= b, a > b, a >= b))

    @staticmethod
    def sgn(a, b):
        return "-" if a < b else "+" if a > b else "0"

    def do_cm(self, i, j):
        a, b = self.b(i), self.b(j)
        self.note("cm", a, b, i == j)
        return Expect("eq", self.six(a, b) + self.sgn(a, b))

    def do_ci(self, i, v):
        a, b = self.b(i), int(v)
        self.note("ci", a, b)
        return Expect("eq", self.six(a, b) + self.sgn(a, b) + self.six(b, a))

    @staticmethod
    def preds(v):
        return "".join("1" if x else "0" for x in (v == 0, v == 1, v == -1, v > 0, v < 0, v % 2 == 0, v % 2 == 1))

    def do_pr(self, i):
        v = self.b(i)
        self.note("pr", v)
        return Expect("eq", self.preds(v))

    def do_ts(self, i, radix="10"):
        v = self.b(i)
        self.note("ts", v, radix)
        if not 2 <= int(radix) <= 36:
            raise Invalid("radix")
        return Expect("eq", to_radix(v, int(radix)))

    do_ts10 = do_ts

    def do_blk(self, i, n):
        v = self.b(i)
        self.note("blk", v, int(n))
        return Expect("eq", str((self.shr(v, 32 * int(n))) & 0xffffffff))

    @staticmethod
    def g64(v, reps):
        a = [str(v) if I64MIN <= v <= I64MAX else "overflow"] * reps
        b = [str(v) if 0 <= v < 1 << 64 else "overflow"] * reps
        return " ".join(a + b), "err" if "overflow" in (a[0], b[0]) else "none"

    def do_g64(self, i):
        v = self.b(i)
        self.note("g64", v)
        s, e = self.g64(v, 3)
        return Expect("eq", s, e)

    def do_as(self, i):
        v = self.b(i)
        self.note("as", v)
        f = [wrap(v, 8, False), wrap(v, 8, False), wrap(v, 16, True), wrap(v, 16, False), wrap(v, 32, True), wrap(v, 32, False),
             wrap(v, 64, True), wrap(v, 64, False), wrap(v, 64, True), wrap(v, 64, False), 1 if v else 0, v]
        return Expect("eq", " ".join(str(x) for x in f[:-1]) + " " + to_radix(v, 10))

    def mag(self, v, told, room=None):
        cap = int(told if room is None else room)
        m = mag_bytes(v)[:int(told)]
        if cap > 1 << 20 or len(m) > cap or room is not None and cap > int(told):
            raise Invalid("capacity")
        return "%d %s" % (len(m), hx(m + b"\xa5" * (cap - len(m))))

    def do_mag(self, i, *cap):
        v = self.b(i)
        self.note("mag", v, int(cap[0]))
        return Expect("eq", self.mag(v, *cap))

    # -- evaluator
    def do_dly(self, mode, seed):
        self.note("dly", mode)
        return Expect("any")

    def do_kc(self, name, t):
        self.note("kc", name, t)
        self.sym[name] = ("const", dec(t))
        return Expect("eq", ".")

    def do_kf(self, name, argc, kind):
        self.note("kf", name, argc, kind)
        self.sym[name] = ("func", int(argc), kind)
        return Expect("eq", ".")

    def do_ko(self, name):
        s = self.sym.get(name)
        self.note("ko", name, s)
        return Expect("eq", "none" if s is None else "func" if s[0] == "func" else enc(s[1]))

    def do_ev(self, par, threads, sm, h):
        text = unhx(h).decode("latin-1")
        self.note("ev", par, threads, sm, text, tuple(sorted(self.sym.items())))
        self.tree = None
        try:
            tree = self.x_parse(text)
        except refexpr.Malformed:
            return Expect("ev", {"val": "Z", "malformed": True}, "err")
        except (refexpr.Unspecified, RecursionError):
            return Expect("any", None, "any")
        self.tree = tree
        return self.x_eval(tree, text, par)

    # -- the expression front end
    def x_parse(self, text):
        mode, lits = self.hook, []
        self.lits = None

        def hook(radix, before, after):
            if mode == 4:
                return None
            if mode:
                lits.append("%d:%s.%s" % (radix, before, after))
            if mode == 5:
                if not before:
                    raise refexpr.Unspecified("a literal without digits")
                return radix * 1000000 + len(before) * 1000 + len(after)
            if mode == 3 and "7" in before:
                return None
            v = refexpr.plain_hook(radix, before, after)
            return v if v is None or mode != 2 else v + 1
        tree = refexpr.parse(text, self.sym, hook)
        self.lits = lits
        return tree

    def do_x_hook(self, mode):
        self.hook = int(mode)
        return Expect("eq", ".")

    def do_x_lits(self):
        l, self.lits = self.lits, []
        self.note("x.lits", str(l))
        return Expect("any") if l is None else Expect("eq", " ".join(l) or ".")

    def do_x_new(self):
        self.trees = {}
        self.pool = True
        return Expect("eq", "0")

    def do_x_parse(self, i, fresh, h):
        if not self.pool:
            raise Invalid("no pool")
        text = unhx(h).decode("latin-1")
        self.note("x.parse", fresh, text, self.hook, len(self.trees))
        self.trees.pop(int(i), None)
        try:
            t = self.x_parse(text)
        except refexpr.Malformed:
            return Expect("eq", "null", "err")
        except (refexpr.Unspecified, RecursionError):
            return Expect("any", None, "any")
        self.trees[int(i)] = (t, text)
        self.weight = refexpr.size(t)
        return Expect("eq", "tree")

    def do_x_run(self, i):
        if int(i) not in self.trees:
            raise Invalid("tree %s" % i)
        t, text = self.trees[int(i)]
        self.note("x.run", text, self.hook)
        return self.x_eval(t, text, "0")

    def do_x_st(self, kind, copy, h, ops):
        text = unhx(h)
        if kind == "c":
            text = text.split(b"\0")[0]
        self.note("x.st", kind, copy, text, ops)
        pos, r = 0, ""
        for o in ops:
            if o in "gp":
                r += "%s%02x" % (o, text[pos] if pos < len(text) else 0)
                pos = min(len(text), pos + (o == "g"))
            elif o == "e":
                r += "e1" if pos == len(text) else "e0"
            elif o == "t":
                r += "t%d;" % pos
        return Expect("eq", r or ".")

    def x_eval(self, tree, text, par):
        self.weight = refexpr.size(tree)
        e = refexpr.Evaluator(self.sym)
        if refexpr.cheap(tree):
            e.max_shift = 1 << 26
        if self.weight <= 8:
            e.max_fact = 30000
        lazy = refexpr.all_calls_possible(tree)
        try:
            v = e.ev(tree)
        except refexpr.Unspecified:
            return Expect("any", None, "any")
        except refexpr.DivZero:
            if refexpr.risky(tree):     # what x / 0 gives may be an exponent or a shift count
                return Expect("any", None, "any")
            return Expect("ev", {"val": None, "malformed": False}, "div")
        except refexpr.Thrown:
            if par != "0" and refexpr.risky(tree):
                return Expect("any", None, "any")
            return Expect("ev", {"val": None, "malformed": False, "threw": True}, "any")
        calls = ["%s(%s)" % (n, ",".join(enc(a) for a in args)) for n, args in e.calls]
        optional, events = None, "none"
        if par != "0" and "?" in text:
            # peval may evaluate the branches of ?: that are not taken; then every node of them once
            full = refexpr.Evaluator(self.sym, eager=True)
            full.ev(tree)
            if full.huge or full.lost and refexpr.risky(tree):
                return Expect("any", None, "any")
            if full.lost:       # what they divide by, or call, is not known: see the known finding of P09
                optional, events = "?", "any"
            elif lazy:
                rest = ["%s(%s)" % (n, ",".join(enc(a) for a in args)) for n, args in full.calls]
                for c in calls:
                    rest.remove(c)
                optional = rest
        return Expect("ev", {"val": enc(v), "malformed": False, "calls": calls, "optional_calls": optional}, events)

    # -- fractions: (numerator, denominator > 0, is the sign of the stored denominator known to be +)
    def red(self, n, d):
        g = math.gcd(n, d)
        n, d = n // g, d // g
        return (n, d) if d > 0 else (-n, -d)

    def do_fd0(self, i):
        self.note("fd0")
        self.F[int(i)] = (0, 1, True)
        return Expect("eq", ".")

    def do_fn(self, i, n, d, mode):
        a, b = self.b(n), self.b(d)
        self.note("fn", a, b)
        ok = b != 0
        self.F[int(i)] = self.red(a, b) + (b > 0,) if ok else None
        return Expect("eq", "." if mode == "0" else "ok" if ok else "bad", "none" if ok else "div")

    def do_f1(self, i, n):
        a = self.b(n)
        self.note("f1", a)
        self.F[int(i)] = (a, 1, True)
        return Expect("eq", ".")

    def do_fc(self, i, j):
        v = self.f(j)
        if int(i) not in self.F:
            raise Invalid("fraction")
        self.note("fc", v)
        self.F[int(i)] = v
        return Expect("eq", ".")

    def do_fop(self, o, i, j, k):
        (a, b, p), (c, d, q) = self.f(j), self.f(k)
        self.note("fop", o, a, b, c, d)
        if o == "/" and c == 0:
            self.F[int(i)] = None
            return Expect("any", None, "div")
        n, m = {"+": (a * d + c * b, b * d), "-": (a * d - c * b, b * d), "*": (a * c, b * d), "/": (a * d, b * c)}[o]
        self.F[int(i)] = self.red(n, m) + (p and q and m > 0,)
        return Expect("eq", ".")

    def do_frec(self, i, j, mode):
        a, b, p = self.f(j)
        self.note("frec", a, b)
        if a == 0:
            self.F[int(i)] = None
            return Expect("any" if mode == "0" else "eq", "bad", "div")
        self.F[int(i)] = self.red(b, a) + (p and a > 0,)
        return Expect("eq", "." if mode == "0" else "ok")

    def do_fsn(self, i, n):
        a, b, p = self.f(i)
        v = self.b(n)
        if not p:
            raise Invalid("sign")
        self.note("fsn", a, b, v)
        self.F[int(i)] = self.red(v, b) + (True,)
        return Expect("eq", ".")

    def do_fsd(self, i, d, mode):
        a, b, p = self.f(i)
        v = self.b(d)
        if not p:
            raise Invalid("sign")
        self.note("fsd", a, b, v)
        if v == 0:
            return Expect("eq", "." if mode == "0" else "bad", "div")
        self.F[int(i)] = self.red(a, v) + (v > 0,)
        return Expect("eq", "." if mode == "0" else "ok")

    def do_fsa(self, i, t, s):
        a, b, p = self.f(i)
        if not p:
            raise Invalid("sign")
        v = a if s == "n" else b
        self.note("fsa", a, b, t + s)
        if t == "n":
            self.F[int(i)] = self.red(v, b) + (True,)
        elif v == 0:
            return Expect("eq", ".", "div")
        else:
            self.F[int(i)] = self.red(a, v) + (v > 0,)
        return Expect("eq", ".")

    def do_fob(self, i):
        a, b, p = self.f(i)
        self.note("fob", a, b)
        return Expect("alt", [enc(a) + " " + enc(b), enc(-a) + " " + enc(-b)])

    def do_fts(self, i, radix="10"):
        a, b, p = self.f(i)
        self.note("fts", a, b, radix)
        if not 2 <= int(radix) <= 36:
            raise Invalid("radix")
        return Expect("eq", to_radix(a, int(radix)) + "/" + to_radix(b, int(radix)))

    do_fts10 = do_fts

    def do_fdec(self, i, n="8"):
        a, b, p = self.f(i)
        n = int(n)
        if not 0 <= n <= 5000:
            raise Invalid("digits")
        self.note("fdec", a, b, n)
        q = abs(a) * 10 ** n // b
        s = to_radix(q, 10).rjust(n + 1, "0")
        return Expect("eq", ("-" if a < 0 else "") + (s if n == 0 else s[:-n] + "." + s[-n:]))

    do_fdec8 = do_fdec

    # -- status (P15): texts and callbacks registered by the script itself
    def seterr(self, code):
        code = int(code)
        if code not in self.info:
            raise Invalid("unregistered")
        cb = self.cb.get(code)
        return self.info[code], "=%dx1" % cb if cb else "="

    def do_sreg(self, code, h, cb):
        code = int(code)
        self.note("sreg", code, h, cb)
        self.info[code] = unhx(h).decode()
        self.cb[code] = None if int(cb) < 0 else int(cb)
        return Expect("eq", self.info[code], "=")

    do_c_sreg = do_sreg

    def do_gset(self, code):
        t, e = self.seterr(code)
        self.gst = int(code)
        self.note("gset", code, t)
        return Expect("eq", t, e)

    def do_c_gset(self, code):
        t, e = self.seterr(code)
        self.gst = int(code)
        self.note("gset", code, t)
        return Expect("eq", t + " " + t, e)

    def do_gst(self):
        if self.gst is None:
            raise Invalid("unknown")
        self.note("gst", self.gst)
        return Expect("eq", self.info.get(self.gst, "<ERROR_INFO>"), "=")

    do_c_gst = do_gst

    def _s(self, tab, i, code):
        t, e = self.seterr(code)
        tab[int(i)] = int(code)
        self.note("status", code, t)
        return Expect("eq", t, e)

    def do_snew(self, i, code):
        return self._s(self.st, i, code)

    def do_sset(self, i, code):
        if int(i) not in self.st:
            raise Invalid("status")
        return self._s(self.st, i, code)

    def do_sdef(self, i):
        self.st[int(i)] = 0xffffffff
        self.note("sdef")
        return Expect("eq", self.info.get(0xffffffff, "<ERROR_INFO>"), "=")

    def do_sinfo(self, i):
        if int(i) not in self.st:
            raise Invalid("status")
        self.note("sinfo", self.st[int(i)])
        return Expect("eq", self.info.get(self.st[int(i)], "<ERROR_INFO>"), "=")

    def do_smv(self, i, j):
        if int(i) not in self.st or int(j) not in self.st or i == j:
            raise Invalid("status")
        self.note("smv")
        self.st[int(i)] = self.st[int(j)]
        del self.st[int(j)]
        return Expect("eq", self.info.get(self.st[int(i)], "<ERROR_INFO>"), "=")

    def do_scinfo(self, code):
        self.note("scinfo", code)
        return Expect("eq", self.info.get(int(code), "<ERROR_INFO>"), "=")

    do_c_scinfo = do_scinfo

    def do_sfind(self, code):
        self.note("sfind", code)
        return Expect("eq", "1" if int(code) in self.info else "0", "=")

    def do_scall(self, code):
        code = int(code)
        self.note("scall", code)
        cb = self.cb.get(code)
        return Expect("eq", "called", "=%dx1" % cb) if cb else Expect("eq", "empty", "=") if code not in self.cb or self.cb[code] is None else Expect("any", None, "any")

    def do_c_snew(self, i):
        if int(i) in self.cst:
            raise Invalid("status")
        return self._s(self.cst, i, 0)

    def do_c_snewe(self, i, code):
        if int(i) in self.cst:
            raise Invalid("status")
        return self._s(self.cst, i, code)

    def do_c_sset(self, i, code):
        if int(i) not in self.cst:
            raise Invalid("status")
        return self._s(self.cst, i, code)

    def do_c_sinfo(self, i):
        if int(i) not in self.cst:
            raise Invalid("status")
        self.note("sinfo", self.cst[int(i)])
        return Expect("eq", self.info.get(self.cst[int(i)], "<ERROR_INFO>"), "=")

    def do_c_sdel(self, i):
        if int(i) not in self.cst:
            raise Invalid("status")
        del self.cst[int(i)]
        self.note("csdel")
        return Expect("eq", ".", "=")

    # -- C binding
    def cput(self, i, v, events="none", suffix=""):
        self.C[int(i)] = v
        return Expect("eq", enc(v) + suffix, events)

    def fresh(self, i):
        if int(i) in self.C:
            raise Invalid("handle in use")

    def do_c_new(self, i):
        self.fresh(i)
        self.note("c.new")
        return self.cput(i, 0)

    def do_c_cp(self, i, j):
        self.fresh(i)
        v = self.c(j)
        self.note("c.cp", v)
        return self.cput(i, v)

    def do_c_i(self, i, v):
        self.fresh(i)
        self.note("c.i", int(v))
        return self.cput(i, int(v))

    def cstr(self, h):
        return unhx(h).split(b"\0")[0]

    def do_c_s(self, i, radix, h):
        self.fresh(i)
        v = parse_radix(self.cstr(h), int(radix))
        self.note("c.s", radix, h)
        if v is None:
            return Expect("eq", "NULL", "err")
        return self.cput(i, v)

    def do_c_b(self, i, h, le):
        self.fresh(i)
        return self.cput(i, self._bin(i, h, le))

    def do_c_del(self, i):
        if int(i) not in self.C:
            raise Invalid("handle")
        del self.C[int(i)]
        self.note("c.del")
        return Expect("eq", ".")

    def do_c_copy(self, i, j):
        v = self.c(j)
        if int(i) not in self.C:
            raise Invalid("handle")
        self.note("c.copy", v, i == j)
        return self.cput(i, v)

    def do_c_ai(self, i, v):
        if int(i) not in self.C:
            raise Invalid("handle")
        self.note("c.ai", int(v))
        return self.cput(i, int(v))

    def do_c_as(self, i, radix, h):
        old = self.c(i)
        v = parse_radix(self.cstr(h), int(radix))
        self.note("c.as", radix, h, old)
        ok = v is not None
        return self.cput(i, v if ok else old, "none" if ok else "err", " ok" if ok else " bad")

    def do_c_ab(self, i, h, le):
        if int(i) not in self.C:
            raise Invalid("handle")
        return self.cput(i, self._bin(i, h, le))

    def do_c_g64(self, i):
        v = self.c(i)
        self.note("c.g64", v)
        s, e = self.g64(v, 2)
        return Expect("eq", s, e)

    def do_c_g64i(self, i):
        v = self.c(i)
        self.note("c.g64i", v)
        ok = I64MIN <= v <= I64MAX
        t = self.info.get(0 if ok else 6)
        if t is None:
            return Expect("any", None, "any")
        return Expect("eq", t + (" %d" % v if ok else " overflow"), "none" if ok else "err")

    def do_c_g64u(self, i):
        v = self.c(i)
        self.note("c.g64u", v)
        ok = 0 <= v < 1 << 64
        t = self.info.get(0 if ok else 6)
        if t is None:
            return Expect("any", None, "any")
        return Expect("eq", t + (" %d" % v if ok else " overflow"), "none" if ok else "err")

    def do_c_blk(self, i, n):
        v = self.c(i)
        self.note("c.blk", v, int(n))
        return Expect("eq", str(self.shr(v, 32 * int(n)) & 0xffffffff))

    def do_c_ts(self, i, radix):
        v = self.c(i)
        self.note("c.ts", v, radix)
        if not 2 <= int(radix) <= 36:
            raise Invalid("radix")
        s = to_radix(v, int(radix))
        return Expect("eq", "%s %d" % (s, len(s)))

    def do_c_str(self, h):
        s = self.cstr(h)
        self.note("c.str", s)
        return Expect("eq", "%s %d" % (hx(s), len(s)))

    def do_c_mag(self, i, *cap):
        v = self.c(i)
        self.note("c.mag", v, int(cap[0]))
        return Expect("eq", self.mag(v, *cap))

    def do_c_pr(self, i):
        v = self.c(i)
        self.note("c.pr", v)
        return Expect("eq", self.preds(v))

    def do_c_un(self, o, i):
        v = self.c(i)
        self.note("c.un", o, v)
        r = {"inc": v + 1, "dec": v - 1, "notself": ~v, "negate": -v, "abs": abs(v)}.get(o)
        return self.cput(i, self.notbits(v) if r is None else r)

    def carith(self, i, o, a, b):
        if o in "/%" and b == 0:
            self.C[int(i)] = None
            return Expect("any", None, "div")
        return self.cput(i, refexpr.binop(o, a, b))

    def do_c_op(self, o, i, j):
        a, b = self.c(i), self.c(j)
        self.note("c.op", o, a, b, i == j)
        return self.carith(i, o, a, b)

    def do_c_oi(self, o, i, v):
        a, b = self.c(i), int(v)
        self.note("c.oi", o, a, b)
        if o == "<<":
            return self.cput(i, self.shl(a, b))
        if o == ">>":
            return self.cput(i, self.shr(a, b))
        return self.carith(i, o, a, b)

    def do_c_ci(self, i, v):
        a, b = self.c(i), int(v)
        self.note("c.ci", a, b)
        return Expect("eq", self.sgn(a, b))

    def do_c_cm(self, i, j):
        a, b = self.c(i), self.c(j)
        self.note("c.cm", a, b, i == j)
        return Expect("eq", self.sgn(a, b))

    def do_c_ob(self, i):
        v = self.c(i)
        self.note("c.ob", v)
        return Expect("eq", enc(v))

    def do_c_all(self):
        if any(v is None for v in self.C.values()):
            raise Invalid("a value is unspecified")
        self.note("c.all", tuple(sorted(self.C.items())))
        return Expect("eq", " ".join("%d=%s" % (k, enc(v)) for k, v in sorted(self.C.items())) or ".")

    # -- the integer type below BigInteger
    def i(self, t):
        v = self.I.get(int(t))
        if v is None:
            raise Invalid("impl %s" % t)
        return v

    def iexists(self, t):
        if int(t) not in self.I:
            raise Invalid("impl %s" % t)

    def iput(self, i, v, suffix="", events="none"):
        self.I[int(i)] = v
        return Expect("eq", enc(v) + suffix, events)

    def do_i_n(self, i):
        self.note("i.n")
        return self.iput(i, 0)

    def do_i_ni(self, i, v):
        self.note("i.ni", int(v))
        return self.iput(i, int(v))

    def do_i_nv(self, i, t):
        self.note("i.nv", dec(t))
        return self.iput(i, dec(t))

    def do_i_ns(self, i, radix, h, fresh=True):
        s = unhx(h)
        v = parse_radix(s, int(radix))
        self.note("i.str", radix, s)
        return self.iput(i, v if v is not None else 0 if fresh else self.i(i), " bad" if v is None else " ok", "err" if v is None else "none")

    def do_i_ss(self, i, radix, h):
        self.iexists(i)
        return self.do_i_ns(i, radix, h, False)

    def do_i_mag(self, i, lo, sign, *limbs):
        lo, sign, ls = int(lo), int(sign), [int(x) for x in limbs]
        if lo >= len(ls) or sign not in (-1, 0, 1):
            raise Invalid("slice")
        v = sum(x << 32 * k for k, x in enumerate(ls[lo:])) * sign
        self.note("i.mag", lo, sign, tuple(ls))
        return self.iput(i, v)

    def do_i_cp(self, i, j, self_ok=False):
        v = self.i(j)
        if i == j and not self_ok:
            raise Invalid("self")
        self.note("i.cp", v, i == j)
        return self.iput(i, v)

    def do_i_as(self, i, j):
        self.iexists(i)
        return self.do_i_cp(i, j, True)

    do_i_as2 = do_i_as

    def do_i_mv(self, i, j, self_ok=False):
        v = self.i(j)
        if i == j and not self_ok:
            raise Invalid("self")
        self.note("i.mv", v)
        self.I[int(j)] = None
        return self.iput(i, v)

    def do_i_ma(self, i, j):
        self.iexists(i)
        return self.do_i_mv(i, j)

    do_i_ma2 = do_i_ma

    def do_i_ai(self, i, v):
        self.iexists(i)
        return self.do_i_ni(i, v)

    def do_i_sb(self, i, h, le):
        self.iexists(i)
        return self.iput(i, self._bin(i, h, le))

    def do_i_sw(self, i, j, how):
        a, b = self.i(i), self.i(j)
        self.note("i.sw", a, b, i == j)
        self.I[int(i)], self.I[int(j)] = b, a
        return Expect("eq", enc(self.I[int(i)]) + " " + enc(self.I[int(j)]))

    def do_i_del(self, i):
        self.iexists(i)
        self.note("i.del")
        del self.I[int(i)]
        return Expect("eq", ".")

    def do_i_op(self, o, i, j):
        a, b = self.i(i), self.i(j)
        self.note("i.op", o, a, b, i == j)
        if o == "%" or o not in OPS:
            raise Invalid("operator")
        if o == "/" and b == 0:
            self.I[int(i)] = None
            return Expect("any", None, "div")
        return self.iput(i, refexpr.binop(o, a, b))

    def do_i_oi(self, o, i, v):
        a, b = self.i(i), int(v)
        self.note("i.oi", o, a, b)
        if o in ("<<", ">>"):
            return self.iput(i, (self.shl if o == "<<" else self.shr)(a, b))
        if o == "%" or o not in OPS:
            raise Invalid("operator")
        if o == "/" and b == 0:
            self.I[int(i)] = None
            return Expect("any", None, "div")
        return self.iput(i, refexpr.binop(o, a, b))

    def idiv(self, q, r, a, b):
        """quotient to q, remainder to r"""
        self.iexists(q)
        self.iexists(r)
        if q == r:
            raise Invalid("same result")
        self.note("i.div", a, b)
        if b == 0:
            self.I[int(q)] = self.I[int(r)] = None
            return Expect("any", None, "div")
        self.I[int(q)] = tdiv(a, b)
        self.I[int(r)] = a - b * self.I[int(q)]
        return Expect("eq", enc(self.I[int(q)]) + " " + enc(self.I[int(r)]))

    def do_i_dr(self, i, d, r):
        a, b = self.i(i), self.i(d)
        if r in (i, d):
            raise Invalid("alias")
        return self.idiv(i, r, a, b)

    def do_i_dri(self, i, d, r):
        return self.idiv(i, r, self.i(i), int(d))

    def do_i_mq(self, i, d, q):
        a, b = self.i(i), self.i(d)
        if q in (i, d):
            raise Invalid("alias")
        return self.idiv(q, i, a, b)

    def do_i_mqi(self, i, d, q):
        return self.idiv(q, i, self.i(i), int(d))

    def do_i_mul(self, p, i, j):
        a, b = self.i(i), self.i(j)
        self.iexists(p)
        if p in (i, j):
            raise Invalid("alias")
        self.note("i.mul", a, b, i == j)
        return self.iput(p, a * b)

    def do_i_div(self, q, r, i, j):
        a, b = self.i(i), self.i(j)
        if q in (i, j) or r in (i, j):
            raise Invalid("alias")
        return self.idiv(q, r, a, b)

    def do_i_divi(self, q, r, i, v):
        a = self.i(i)
        if i in (q, r):
            raise Invalid("alias")
        return self.idiv(q, r, a, int(v))

    def do_i_un(self, o, i):
        v = self.i(i)
        self.note("i.un", o, v)
        return self.iput(i, {"inc": v + 1, "dec": v - 1, "notself": ~v, "notbits": self.notbits(v), "negate": -v, "abs": abs(v)}[o])

    def do_i_cm(self, i, j):
        a, b = self.i(i), self.i(j)
        self.note("i.cm", a, b, i == j)
        return Expect("eq", self.sgn(a, b))

    def do_i_ts(self, i, radix):
        v = self.i(i)
        self.note("i.ts", v, radix)
        if not 2 <= int(radix) <= 36:
            raise Invalid("radix")
        return Expect("eq", to_radix(v, int(radix)))

    def do_i_all(self):
        if any(v is None for v in self.I.values()):
            raise Invalid("a value is unspecified")
        self.note("i.all", tuple(sorted(self.I.items())))
        return Expect("eq", " ".join("%d=%s" % (k, enc(v)) for k, v in sorted(self.I.items())) or ".")

    def do_i_q(self, i, n):
        v = self.i(i)
        self.note("i.q", v, n)
        b = abs(v).bit_length()
        fl = "".join("1" if x else "0" for x in (v == 0, v == 1, v == -1, v % 2 == 1, v % 2 == 0, v == 0, v > 0, v < 0))
        return Expect("eq", "%s %d %d %d %d %d" % (fl, (b + 31) // 32, b, b % 32, v & (1 << 64) - 1, self.shr(v, 32 * int(n)) & 0xffffffff))


NAMES = {"in": "in", "as": "as", "del": "del"}
STATUS = {"sreg", "c.sreg", "gset", "c.gset", "gst", "c.gst", "snew", "sset", "sdef", "sinfo", "smv", "scinfo", "c.scinfo", "sfind", "scall", "c.snew", "c.snewe", "c.sset", "c.sinfo", "c.sdel"}
QUIET = {"dly", "ob", "all", "c.ob", "c.all", "i.all", "kc", "kf", "ko"}
