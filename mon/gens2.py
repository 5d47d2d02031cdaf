"""Workloads for the evaluator, fractions, the C binding, status and the whole-library histories."""
from . import gens, refexpr, vals
from .model import I64MAX, I64MIN, OPS, Expect, dec, enc, hx, mag_bytes
from .refexpr import to_radix
from .vals import int64, integer, make, signed

FACTORIALS = [5000, 10000, 8191, 16385, 20000, 30000]
LONGLITS = [1000, 1023, 4096, 8192, 20000, 65536]
BINOPS = ["|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "**"]
FUNCS = [("f0", 0, "count"), ("f1", 1, "id"), ("f2", 2, "poly"), ("f3", 3, "poly"), ("fv", -1, "poly"), ("sum", -1, "sum"), ("mut", -1, "mut"),
         ("cnt", -1, "count"), ("nest", -1, "nest"), ("_g7_", 2, "sum")]
CONSTS = [("zero", 0), ("one", 1), ("k7", 7), ("neg", -12345), ("big", (1 << 96) - 1), ("nbig", -(1 << 64)), ("_c", 1 << 33), ("ff", 255)]


def symbols(g, throw=True):
    for n, v in CONSTS:
        g.pre("kc", n, enc(v))
    for n, a, k in FUNCS:
        g.pre("kf", n, a, k)
    if throw:
        g.pre("kf", "thr", -1, "throw")
        g.pre("kf", "thp", -1, "throwplain")


def ev(g, text, par=0, threads=1, sm=0, well=None, maxweight=None):
    """an evaluation; well: True - only if well-formed with a value, False - only if malformed, None - whatever is specified"""
    c = ["ev", str(par), str(threads), str(sm), hx(text.encode("latin-1"))]
    e = g.m.step(c)
    if e.kind == "any" and e.events == "any":
        return False
    if well is True and (e.kind != "ev" or e.data["malformed"]):
        return False
    if well is False and (e.kind != "ev" or not e.data["malformed"]):
        return False
    return g(*c)


def literal(rng, v):
    """a literal of v >= 0"""
    r = rng.random()
    if r < 0.6:
        s = str(v)
    elif r < 0.7:
        s = "0" + "%o" % v if v else rng.choice(["0", "00"])
    elif r < 0.85:
        s = "0x" + rng.choice(["%x", "%X"]) % v
    else:
        radix = rng.randrange(2, 37)
        s = "0%s%sx" % ("0" if radix < 10 and rng.random() < 0.5 else "", radix) + to_radix(v, radix)
        if rng.random() < 0.4:
            s = s[:s.index("x") + 1] + s[s.index("x") + 1:].upper()
    return s


def leaf(rng, kind):
    if kind == "tiny":
        return str(rng.choice([0, 1, 2, 3, 4, 5]))
    r = rng.random()
    if r < 0.45:
        return str(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 31, 32, 33, 63, 64, 65, 100, 255]))
    if r < 0.6:
        return literal(rng, abs(int64(rng)))
    if r < 0.75:
        return literal(rng, abs(integer(rng, rng.choice([1, 2, 3, 4, 6]))))
    if r < 0.92:
        return rng.choice(CONSTS)[0]
    return literal(rng, rng.randrange(1000))


def expression(rng, n, funcs=True, throws=False, paren=0.35, tern=0.08):
    """tokens of an expression with about n operators"""
    if n <= 0:
        return [leaf(rng, "any")]
    r = rng.random()
    if r < 0.10:
        return [rng.choice("+-~")] + expression(rng, n - 1, funcs, throws, paren, tern)
    if r < 0.13:
        return ["(", leaf(rng, "tiny"), rng.choice("+-*"), leaf(rng, "tiny"), ")", "!"] if rng.random() < 0.5 else [leaf(rng, "tiny"), "!"]
    if r < 0.13 + tern:
        k = n - 1
        a = rng.randrange(0, k + 1)
        b = rng.randrange(0, k - a + 1)
        t = expression(rng, a, funcs, throws, paren, tern) + ["?"] + expression(rng, b, funcs, throws, paren, tern) + [":"] + expression(rng, k - a - b, funcs, throws, paren, tern)
        return ["("] + t + [")"] if rng.random() < 0.6 else t
    if r < 0.30 and funcs:
        f, argc, _ = rng.choice(FUNCS)
        if throws and rng.random() < 0.3:
            f, argc = rng.choice(["thr", "thr", "thp"]), -1
        if argc == -1:
            argc = rng.choice([0, 1, 2, 2, 3, 4, 6])
        t = [f, "("]
        k = n - 1
        for i in range(argc):
            a = k if i == argc - 1 else rng.randrange(0, max(1, k + 1))
            k -= a
            t += ([","] if i else []) + expression(rng, min(a, n - 1), funcs, throws, paren, tern)
        return t + [")"]
    op = rng.choice(BINOPS)
    if op in ("<<", ">>", "**") and rng.random() < 0.85:
        left = expression(rng, n - 1, funcs, throws, paren, tern) if op != "**" or rng.random() < 0.4 else [leaf(rng, "any")]
        if op == "**":
            left = ["("] + left + [")"] if len(left) > 1 and rng.random() < 0.7 else left
            right = [leaf(rng, "tiny")]
        else:
            right = [str(rng.choice([0, 1, 2, 5, 31, 32, 33, 64, 65, 100]))]
        return left + [op] + right
    a = rng.randrange(0, n)
    t = expression(rng, a, funcs, throws, paren, tern) + [op] + expression(rng, n - 1 - a, funcs, throws, paren, tern)
    return ["("] + t + [")"] if rng.random() < paren else t


def join(rng, toks, style=None):
    style = rng.randrange(3) if style is None else style
    if style == 0:
        return "".join(toks)
    if style == 1:
        return " ".join(toks)
    ws = ["", "", " ", "  ", "\t", "\n", "\r\n", " \t "]
    return rng.choice(ws) + "".join(t + rng.choice(ws) for t in toks)


def wf(g, n, size, par=0, threads=1, throws=False, sm=None, **kw):
    """a well-formed expression, evaluated; returns whether one was found"""
    rng = g.rng
    for _ in range(12):
        t = expression(rng, size, True, throws, **kw)
        text = join(rng, t)
        if len(text) > 4000:
            continue
        if ev(g, text, par, threads, rng.randrange(2) if sm is None else sm, well=True):
            return text
    return None


# ---------------------------------------------------------------- P08
PROBE = [(2, 3, 2), (7, 2, 3), (5, 0, 1), (100, 7, 3), (1, 1, 2), (0, 2, 2), (12, 5, 5), (6, 1, 0), (255, 4, 3), (3, 3, 3), (1, 0, 0), (9, 8, 2)]


def p08(g, shard, nshards, part, tier, budget):
    rng = g.rng
    symbols(g, throw=False)
    n = budget["n"]
    g.begin()
    if part == 0:
        # every pair of operators, in every position of unary and postfix ones and ?:
        k = 0
        for o1 in BINOPS:
            for o2 in BINOPS:
                k += 1
                if k % nshards != shard:
                    continue
                for a, b, c in PROBE:
                    ev(g, "%d%s%d%s%d" % (a, o1, b, o2, c), well=True)
                    ev(g, "-%d %s -%d %s ~%d" % (a, o1, b, o2, c), well=True)
                    ev(g, "%d %s (%d %s %d)" % (a, o1, b, o2, c), well=True)
                a, b, c = rng.choice(PROBE)
                ev(g, "%d! %s %d! %s %d!" % (a % 6, o1, b % 6, o2, c % 6), well=True)
                ev(g, "%d %s %d ? %d %s %d : %d" % (a, o1, b, c, o2, a, b), well=True)
                ev(g, "%d ? %d : %d %s %d %s %d" % (rng.choice([0, a]), b, c, o1, a, o2, b), well=True)
                ev(g, "%d %s %d ? 1 : %d %s %d ? 2 : 3" % (a, o1, b, b, o2, c), well=True)
                for u in "+-~":
                    ev(g, "%s%d %s %d" % (u, a, o1, b), well=True)
                    ev(g, "%s(%d) %s %s%d %s %d!" % (u, a, o1, u, b, o2, c % 5), well=True)
                    ev(g, "%s%s%d!" % (u, rng.choice("+-~"), a % 7), well=True)
                g.begin()
        for o1 in BINOPS:
            for o2 in BINOPS:
                for o3 in BINOPS:
                    k += 1
                    if k % nshards == shard:
                        a, b, c = rng.choice(PROBE)
                        ev(g, "%d%s%d%s%d%s%d" % (a, o1, b, o2, c, o3, rng.choice([0, 1, 2, 3])), well=True)
                if rng.random() < 0.3:
                    g.begin()
    for i in range(n):
        g.begin()
        for _ in range(4):
            size = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
            wf(g, n, size, tern=0.2 if i % 5 == 0 else 0.08)
    for _ in range(n // 2):
        # one operator, values at the borders of the representations: comparisons of equal and near-equal ones above all
        g.begin()
        a = integer(rng, None, False)
        b = vals.related(rng, a) if rng.random() < 0.6 else integer(rng, None, False)
        if rng.random() < 0.15:
            a, b = b, a
        t = lambda v: ("-" if v < 0 else "") + literal(rng, abs(v)) if rng.random() < 0.8 else "(0-%s)" % literal(rng, abs(v)) if v < 0 else literal(rng, v)
        for o in rng.sample([x for x in BINOPS if x not in ("<<", ">>", "**")], 4):
            ev(g, "%s %s %s" % (t(a), o, t(b)), well=True)
        s = rng.choice(gens.SHIFTS)
        ev(g, "%s >> %s" % (t(a), rng.choice([str(s), literal(rng, s), "2**63", "2**64", "2**64-1", "2**65", "2**100", "10**30", "2**31", "2**32", "2**32+1", "2**33+33", "2**48"])), well=True)
        if rng.random() < 0.05:
            ev(g, "0 %s 2**%d" % (rng.choice(["<<", ">>"]), rng.choice([31, 32, 40, 63, 64, 100])), well=True)
        ev(g, "%s << %s" % (t(a), str(s)), well=True)
        ev(g, "%s ** %d" % (t(a), rng.choice([0, 0, 1, 2, 3, 5, 8])), well=True)
        ev(g, "%s ? %s : %s" % (t(a - a + rng.choice([0, 0, a])), t(a), t(b)), well=True)
    for _ in range(n // 8):
        g.begin()
        k = rng.choice([0, 1, 2, 3, 5, 10, 20, 21, 25, 50, 100, 170, 300])
        ev(g, "%d!" % k, well=True)
        ev(g, "%d!/%d!" % (k, max(0, k - rng.randrange(3))), well=True)
        ev(g, "%d!!" % rng.randrange(4), well=True)
        ev(g, "-%d!" % rng.randrange(30), well=True)
        ev(g, "2 ** %d - 1" % rng.choice([0, 1, 31, 32, 63, 64, 200]), well=True)
        ev(g, "(%d) ** %d" % (rng.choice([-1, -2, -3, 0, 1, 10]), rng.randrange(60)), well=True)
    if part == 0:
        # counts that do not fit into narrower types
        for k in (255, 256, 257, 511, 513, 1000):
            if k % 5 != shard % 5:
                continue
            g.begin()
            wide(g, k)
            ev(g, "%d!/%d!" % (k, k - 2), well=True)
            ev(g, "2 ** %d >> %d" % (k * 40, k * 39), well=True)
        for i, k in enumerate(() if budget.get("light") else FACTORIALS[:budget.get("fact", 3)]):
            if i % nshards == shard:
                g.begin()
                ev(g, "%d!" % k, well=True)
                if k <= 10000:
                    g.begin()
                    ev(g, "%d!/%d!" % (k, k - 1), well=True)
        for i, k in enumerate(() if budget.get("light") else LONGLITS[:budget.get("lits", 5)]):
            if (i + 5) % nshards == shard:
                g.begin()
                a, b = rng.getrandbits(k * 4) | 1 << (k * 4 - 1), rng.getrandbits(k * 4)
                ev(g, "%s - %x%s" % ("0x%x" % a, 9, "0" * 7), well=True)
                ev(g, "0x%X ^ 032x%s" % (a, to_radix(b, 32)), well=True)
                ev(g, "0%o >= 0x%x" % (a, b), well=True)
                if k <= 8192:
                    ev(g, "%d / %d" % (a, b >> k | 1), well=True)
                    ev(g, "%d == 036x%s" % (b, to_radix(b, 36)), well=True)
        for i, e in enumerate(gens.FARLEFT if not budget.get("light") else []):
            if i % nshards == shard:
                g.begin()
                j = rng.choice([0, 1, 31, 40])
                ev(g, "%s << %d >> %d" % (rng.choice(["1", "k7", "nbig", "(0-5)", "0xffffffff"]), e, e - j), well=True)
                ev(g, "(3 << %d) %% %d" % (e, rng.choice([7, 1 << 32, (1 << 61) - 1])), well=True)
        for i, e in enumerate(gens.FARRIGHT if not budget.get("light") else []):
            if i % nshards == shard:
                g.begin()
                ev(g, "%s >> %s" % (rng.choice(["big", "k7", "nbig", "(0-5)", "2**200"]), literal(rng, e)), well=True)
        for e in (255, 256, 65535, 65536, 65537):
            g.begin()
            ev(g, "(-1) ** %d + 1 ** %d + 0 ** %d" % (e, e, e), well=True)


def wide(g, k, par=0, threads=1):
    """one call with k arguments, one chain of k operators: as eval, and as peval if par"""
    rng = g.rng
    texts = ["%s(%s)" % (rng.choice(["fv", "sum", "cnt"]), ",".join(rng.choice(["1", "2", "k7", "f1(3)", "-1"]) for _ in range(k))),
             "f2(1,sum(%s))" % ",".join("%d" % rng.randrange(9) for _ in range(k)),
             "".join(rng.choice(["1+", "2-", "k7*", "f1(1)^"]) for _ in range(min(k, 600))) + "3"]
    for t in texts:
        if ev(g, t, 0, 1, rng.randrange(2), well=True) and par:
            ev(g, t, 1, threads, rng.randrange(2), well=True)


# ---------------------------------------------------------------- P21
def p21(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]

    def lit(v, radix, form, upper, zeros):
        d = "0" * zeros + to_radix(v, radix)
        d = d.upper() if upper == 1 else "".join(c.upper() if rng.random() < 0.5 else c for c in d) if upper == 2 else d
        if form == "dec":
            return d.lstrip("0") or "0"
        if form == "oct":
            return "0" + d
        if form == "hex":
            return "0x" + d
        return "0%sx%s" % (("%02d" if form == "nn2" else "%d") % radix, d)

    def one(v, radix, form, upper=0, zeros=0, frac=None, par=0):
        s = lit(v, radix, form, upper, zeros)
        if frac is not None:
            s += "." + frac
        ev(g, s, par, 2, rng.randrange(2), well=True)
        r = rng.random()
        w = rng.choice(["", " ", "\n", "\t ", "\r\n"])
        if r < 0.3:
            ev(g, "%s(%s%s%s)%s" % (w, w, s, w, w), 0, 1, 0, well=True)
        elif r < 0.6:
            ev(g, "%s%s-%s%s%s+%s1" % (w, s, w, s, w, w), 0, 1, 0, well=True)
        elif r < 0.8:
            ev(g, "%s%s*%s%s<%s%s%s" % (s, w, w, s, s, w, w), 0, 1, 1, well=True)

    if part == 0:
        for radix in range(2, 37):
            if radix % nshards != shard:
                continue
            g.begin()
            for form in ["nn", "nn2"] + (["dec"] if radix == 10 else []) + (["oct"] if radix == 8 else []) + (["hex"] if radix == 16 else []):
                for v in [0, 1, radix - 1, radix, radix + 1, radix ** 2 - 1, radix ** 5, radix ** 13 - 1, radix ** 40 - 1, radix ** 40, (1 << 32) - 1, 1 << 64, int("1" * 30, radix)] + list(range(2, radix)):
                    one(v, radix, form, rng.randrange(3), rng.choice([0, 0, 1, 3]))
        # every digit in either case, in every radix that has it
        g.begin()
        for radix in range(2, 37):
            if (radix + 1) % nshards == shard:
                for k in range(radix):
                    for upper in (0, 1):
                        d = refexpr.DIGITS[k]
                        d = d.upper() if upper else d
                        ev(g, "0%dx%s" % (radix, d), 0, 1, 0, well=True)
                        ev(g, "0%02dx1%s0" % (radix, d), 0, 1, 0, well=True)
    for _ in range(n):
        g.begin()
        form = rng.choice(["dec", "dec", "oct", "hex", "hex", "nn", "nn", "nn2"])
        radix = {"dec": 10, "oct": 8, "hex": 16}.get(form) or rng.randrange(2, 37)
        v = abs(gens.radix_values(rng, radix)) if rng.random() < 0.6 else abs(integer(rng, None, False))
        frac = None
        if form == "dec" and rng.random() < 0.5 and v:
            frac = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 1, 2, 3, 9, 20, 50])))
        one(v, radix, form, rng.randrange(3), 0 if form == "dec" else rng.choice([0, 0, 1, 2, 9, 40]), frac, 1 if rng.random() < 0.05 else 0)
    for _ in range(n // 2):
        # white space between the tokens never changes the result; a fraction ends where its literal ends
        g.begin()
        for _ in range(6):
            t = expression(rng, rng.choice([1, 2, 3, 5]), funcs=False)
            t = [x + "." + rng.choice(["0", "5", "999", "25", "00001"]) if x.isdigit() and x[0] != "0" and rng.random() < 0.25 else x for x in t]
            if ev(g, "".join(t), 0, 1, 0, well=True):
                ev(g, " ".join(t), 0, 1, 0, well=True)
                ev(g, join(rng, t, 2), 0, 1, 1, well=True)
                break


# ---------------------------------------------------------------- P10
JUNK = ["", "(", ")", "1", "+", "1+", "+1+", "()", "(1", "1)", "1 2", "1+*2", "f1", "f1(", "f1(1", "f1()", "f1(1,", "f1(1,)", "f1(,1)", "f2(1)", "f2(1,2,3)", "f0(1)", "f0(", "f3(1,2)",
        "?", "1?", "1?2", "1?2:", "1?:2", "?1:2", "1:2", "1?2:3:4", "=", "1=2", "1===2", "1!2", "1!=", "!1", "1=!2", "1<", "1<<", "<1", "1><2", "1**", "1***2", "**2", "&", "1&&2", "1||2", "^",
        "@", "1@2", "#", "$", "1$", "'", "\"", "\\", "`", "[1]", "{1}", ";", "1;", "1,2", ",", ".", "1..2", ".5", "1.", "1.2.3", "0x", "0xg", "0xg1", "08", "09", "0778", "089", "01x1", "00x1", "037x1", "099x1",
        "2x1", "12x3", "02x2", "02x12", "010xa", "1a", "12ab", "0b1", "0a", "x", "undefined", "one one", "one 1", "1 one", "one(1)", "k7()", "one two", "f1 1", "f1 (1)", "(f1)(1)", "-", "~", "~~", "-+", "1-", "(-)",
        "((1)", "(1))", "(((", ")))", "1+(2", "1+2)", "sum(1,,2)", "sum(,)", "sum(1 2)", "sum(1;2)", "1 + + + ", "1 ? 2 : ", "0x1.5", "01.5", "02x1.1", "1.5x", "1e5", "1_000", "_", "__", "f1(1)(2)", "f1(1) 2", "2 f1(1)",
        "\x80", "1\xff", "\xa0" + "1", "1+\x01", "\x7f", "1 \x1b", "+", "- -", "* 1", "/1", "1/", "%", "1%", "1 >>> 2", "1 <=> 2", "1 =< 2", "1 => 2", "1 ! = 2", "1 * * 2", "1 < < 2", "1 = = 1", "f1(1", "f1 1)", "nest(", "fv(1", "fv(1,"]


def mutate(rng, toks):
    """a damaged expression"""
    t = list(toks)
    r = rng.randrange(12)
    i = rng.randrange(len(t))
    if r == 0:
        del t[i]
    elif r == 1:
        t.insert(i, rng.choice(t))
    elif r == 2:
        t.insert(i, rng.choice(["(", ")", ",", "?", ":", "!", "=", "+", "*", "**", "1", "one", "f1", "@", ".", "<", "0x", "~", "&"]))
    elif r == 3:
        t = t[:i]
    elif r == 4:
        t = t[i:]
    elif r == 5:
        t[i] = rng.choice(["(", ")", ",", "?", ":", "undefd", "09", "0xg", "037x1", "=", "@", "1a", "f2", "", "12", "!", "\x80"])
    elif r == 6:
        j = rng.randrange(len(t))
        t[i], t[j] = t[j], t[i]
    elif r == 7:
        t = t + rng.choice([["1"], [")"], ["one"], [","], ["+"], [":", "1"], ["("], ["f1"], ["f1", "(", "1", ")"], ["\x01"], ["@"], ["="]])
    elif r == 8:
        t = t[:i + 1] + t[i + 1:][::-1]
    elif r == 9:
        t[i] = t[i] + rng.choice(["x", "z", "9", ".", "_", "@", "=", "G", "%"])
    elif r == 10:
        s = "".join(t)
        j = rng.randrange(len(s) + 1)
        return s[:j] + rng.choice(list("()+-*/%!~^&|<>=?:,.@ \tx0z_") + [chr(rng.randrange(1, 256))]) + s[j + rng.randrange(2):]
    else:
        del t[i:i + rng.randrange(1, 4)]
        return join(rng, t or [""])
    return join(rng, t or [""])


def clean(s):
    return "".join(c for c in s if c not in "\0\v\f")


def p10(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    symbols(g, throw=False)
    if part == 0:
        for i, s in enumerate(JUNK):
            if i % nshards != shard:
                continue
            g.begin()
            for sm in (0, 1):
                ev(g, s, 0, 1, sm)
                ev(g, s, 1, 2, sm)
            ev(g, " " + s + " ")
            ev(g, "(" + s + ")")
            ev(g, "1+" + s)
            ev(g, s + "+1")
            ev(g, "sum(" + s + ",1)")
            ev(g, "1?" + s + ":2")
            ev(g, s + "\n")
    for _ in range(n):
        g.begin()
        for _ in range(4):
            t = expression(rng, rng.choice([1, 1, 2, 3, 4, 6, 9]))
            s = clean(mutate(rng, t))
            if rng.random() < 0.1:
                s = clean(mutate(rng, refscan(s)))
            if len(s) < 3000:
                if ev(g, s, 1 if rng.random() < 0.12 else 0, rng.choice([1, 2, 4]), rng.randrange(2)):
                    g.stats.extra["malformed" if g.exps[-1].kind == "ev" and g.exps[-1].data["malformed"] else "still well-formed"] += 1
    alpha = "0123456789()+-*/%!~^&|<>=?:, x_.f1" * 3 + "abz\t\n\r@$"
    for _ in range(n // 2):
        g.begin()
        k = rng.choice([1, 2, 3, 4, 6, 9, 14, 30, 80])
        if rng.random() < 0.7:
            s = "".join(rng.choice(alpha) for _ in range(k))
        else:
            s = clean("".join(chr(rng.randrange(1, 256)) for _ in range(k)))
        ev(g, s, 1 if rng.random() < 0.1 else 0, 2, rng.randrange(2))
        # every proper prefix of a valid text
        t = "".join(expression(rng, rng.choice([1, 2, 3])))
        if len(t) < 60:
            for j in rng.sample(range(len(t) + 1), min(6, len(t) + 1)):
                ev(g, t[:j], 0, 1, rng.randrange(2))
    for _ in range(max(2, n // 60)):
        # long and nested ones, whole and cut
        g.begin()
        d = rng.choice([10, 31, 32, 33, 60, 64, 65, 100, 150])
        s = rng.choice(["(" * d + "1" + ")" * d, "(" * d + "1" + ")" * (d - 1), "-" * d + "1", "-" * d, "1" + "+1" * d, "1" + "+1" * d + "+", "sum(" * d + "1" + ")" * d,
                        "sum(" + "1," * d + "1)", "sum(" + "1," * d + ")", "1" + "?1:0" * 1 + " " * d, "9" * (d * 4), "9" * (d * 4) + "a", "0x" + "f" * d * 3, " " * d * 8, "one+" * d + "one", "1?" * d + "1" + ":2" * d, "1?" * d + "1" + ":2" * (d - 1)])
        ev(g, s, 0, 1, rng.randrange(2))
        if rng.random() < 0.3:
            ev(g, s, 1, 3, rng.randrange(2))
    # nothing of a rejected text stays behind
    for _ in range(n // 10):
        g.begin()
        ev(g, rng.choice(JUNK), 0, 1, rng.randrange(2))
        wf(g, n, 3)
        ev(g, rng.choice(JUNK), 1, 2, rng.randrange(2))
        wf(g, n, 2, par=1, threads=2)


def refscan(s):
    out, i = [], 0
    import re
    return re.findall(r"[0-9A-Za-z_.]+|\*\*|<<|>>|<=|>=|==|!=|[^0-9A-Za-z_.\s]", s) or [""]


# ---------------------------------------------------------------- P11
def p11(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    symbols(g)
    g.begin()
    for _ in range(n):
        g.begin()
        # registering again replaces: the names of this case are this case's own
        base = "s%d" % rng.randrange(40)
        q = rng.randrange(6)
        if q <= 1:
            for _ in range(rng.randrange(1, 4)):
                g("kc", base, enc(integer(rng, None, False)))
                ev(g, "%s" % base)
                ev(g, "%s - %s" % (base, base))
                ev(g, "-%s + mut(%s, %s, 2) * %s" % (base, base, base, base), rng.randrange(2), 2)
                ev(g, "(%s) + (%s)! * 0" % (base, rng.choice(["3", "f1(4)"])))
                ev(g, "~%s ** 2 - f2(%s, one)" % (base, base))
                g("ko", base)
                ev(g, base)
        elif q <= 3:
            for _ in range(rng.randrange(1, 3)):
                argc = rng.choice([-1, 0, 1, 2, 3, 4, 5])
                kind = rng.choice(["poly", "poly", "mut", "sum", "count", "nest", "id"])
                g("kf", base, argc, kind)
                for k in range(0, 7):
                    args = [rng.choice(CONSTS)[0] if rng.random() < 0.3 else literal(rng, abs(int64(rng))) for _ in range(k)]
                    if rng.random() < 0.3:
                        args = ["-" + a if rng.random() < 0.5 else "(" + a + "+1)" for a in args]
                    ev(g, "%s(%s)" % (base, rng.choice([",", ", ", " , "]).join(args)), 1 if rng.random() < 0.2 else 0, 3, rng.randrange(2))
                    if rng.random() < 0.3:
                        ev(g, "f1(%s(%s)) + %s(%s)" % (base, ",".join(args), base, ",".join(reversed(args))))
        elif q == 4:
            # a constant becomes a function and the other way round
            g("kc", base, enc(integer(rng, None, False)))
            ev(g, base + "+1")
            ev(g, base + "(1)")
            g("kf", base, 1, "id")
            ev(g, base + "(5)*2")
            ev(g, base)
            ev(g, base + "()")
            g("kc", base, enc(77))
            ev(g, base)
            g("ko", base)
        else:
            # the same constant everywhere in one expression
            g("kc", base, enc(integer(rng, rng.choice([1, 2, 3]))))
            t = expression(rng, rng.choice([3, 6, 10]))
            t = [base if (x.isdigit() and rng.random() < 0.5) else x for x in t]
            if ev(g, join(rng, t), 0, 1, 0, well=True):
                ev(g, base)
                g("ko", base)
        for nm, _ in rng.sample(CONSTS, 2):
            g("ko", nm)
        if rng.random() < 0.02:
            # a large table, parts of it registered again
            names = ["w%d%s" % (k, "x" * rng.choice([0, 0, 20])) for k in range(rng.choice([70, 130, 260]))]
            for nm in names:
                g("kc", nm, enc(int64(rng)))
            for nm in rng.sample(names, 12):
                g("kc", nm, enc(integer(rng, None, False)))
                ev(g, "%s - %s" % (nm, rng.choice(names)))
                g("kf", nm, 1, "id")
                ev(g, nm + "(5)")
                ev(g, nm)
            ev(g, "+".join(rng.sample(names[:60], 20)))
        if rng.random() < 0.3:
            # what almost is a name is none
            nm = rng.choice([base] + [x[0] for x in CONSTS + FUNCS])
            k = rng.randrange(len(nm))
            ev(g, rng.choice([nm.upper(), nm.capitalize(), nm.swapcase(), nm[:k] + nm[k].swapcase() + nm[k + 1:], nm + "_", "_" + nm, nm + "0", nm + nm, nm[:k] + nm[k + 1:], nm.strip("_"), nm[::-1]]) + rng.choice(["", "", "(1)", "()", "+1", "(1,2)"]), rng.randrange(2), 2, rng.randrange(2))
    for _ in range(n):
        g.begin()
        for _ in range(3):
            # calls nested in calls, many occurrences of the same one
            d = rng.randrange(1, 5)

            def call(d):
                f, argc, _ = rng.choice(FUNCS)
                if argc == -1:
                    argc = rng.choice([0, 1, 2, 3, 5])
                return "%s(%s)" % (f, rng.choice([",", ", "]).join(call(d - 1) if d and rng.random() < 0.6 else leaf(rng, "any") for _ in range(argc)))
            s = call(d)
            if rng.random() < 0.4:
                s = s + rng.choice("+-*^") + s
            if len(s) < 3000:
                ev(g, s, 1 if rng.random() < 0.15 else 0, rng.choice([1, 2, 4]), rng.randrange(2))
            wf(g, n, rng.choice([3, 5, 8]))
    for _ in range(n // 4):
        g.begin()
        # exceptions arrive, and what follows works
        ev(g, rng.choice(["thp()", "f1(thp(2))-3", "thr()", "1+thr(1,2)", "f1(thr(3))", "thr(f1(2))*0", "sum(1,2,thr())", "1?thr():2", "0?1:thr(4)", "(thr(1))"]), rng.randrange(2), rng.choice([1, 2, 3]), rng.randrange(2))
        wf(g, n, 3)
    if part == 0 and not budget.get("light"):
        # names of every length, told apart by their first, last or any other character only
        letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
        for i, k in enumerate([1, 2, 7, 8, 9, 15, 16, 17, 22, 23, 24, 31, 32, 33, 47, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 2047, 4096, 5000]):
            if i % nshards != shard:
                continue
            g.begin()
            stem = "n" + "".join(rng.choice(letters + "0123456789") for _ in range(k - 1))
            names = [stem] if k > 1 else ["n"]
            for at in {0, 1, k // 2, k - 1, k - 2, rng.randrange(k)}:
                if 0 <= at < k:
                    names.append(stem[:at] + rng.choice([c for c in letters if c != stem[at]]) + stem[at + 1:])
            names = sorted(set(names + [stem + "a", stem + "_0"]))
            rng.shuffle(names)
            for j, nm in enumerate(names):
                if j % 3 == 2:
                    g("kf", nm, rng.choice([-1, 2]), rng.choice(["poly", "sum"]))
                else:
                    g("kc", nm, enc(integer(rng, None, False)))
            for _ in range(2):
                for j, nm in enumerate(names):
                    ev(g, nm + "(3,4)" if j % 3 == 2 else nm)
                    if j % 3 != 2:
                        g("ko", nm)
                t = [nm + "(%d,k7)" % rng.randrange(9) if j % 3 == 2 else nm for j, nm in enumerate(names)]
                ev(g, join(rng, [x for nm in t for x in (nm, rng.choice("+-*^"))] + ["1"], 0), rng.randrange(2), 2, rng.randrange(2))
                ev(g, stem[:-1] + "?1:2" if k > 1 else "nn")      # a prefix of a name is no name
                ev(g, stem + "zz+1")
                nm = rng.choice(names)
                g("kc", nm, enc(77)) if names.index(nm) % 3 != 2 else g("kf", nm, -1, "count")
        for i, k in enumerate((15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600, 1100, 2000)):
            if i % nshards == shard:
                g.begin()
                wide(g, k, rng.randrange(2), 3)
                g("kf", "w%d" % k, k, "poly")       # a declared count, one less and one more
                for d in (-1, 0, 1):
                    ev(g, "w%d(%s)" % (k, ",".join(str(rng.randrange(10)) for _ in range(k + d))))
        # very many symbols
        g.begin()
        many = ["m%d_%d" % (shard, i) for i in range(300 if tier == "quick" else 3000)]
        for i, nm in enumerate(many):
            g("kc", nm, enc(i * 7919 - 5)) if i % 4 else g("kf", nm, 1, "id")
        for i in rng.sample(range(len(many)), 60):
            ev(g, many[i] + ("" if i % 4 else "(41)"))
    g.begin()
    for nm, _ in CONSTS:
        g("ko", nm)
        ev(g, nm)


# ---------------------------------------------------------------- P09
def p09(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    symbols(g)
    delays = budget.get("delays", True)
    for _ in range(n):
        g.begin()
        if delays:
            g("dly", rng.choice([0, 1, 2, 2, 3, 3, 4]), rng.randrange(1 << 30))
        size = rng.choice([1, 2, 3, 5, 8, 12, 20, 30, 31, 32, 33, 40, 60])
        if tier != "quick" and rng.random() < 0.1:
            size = 150
        for _ in range(12):
            text = join(rng, expression(rng, size, True, rng.random() < 0.1))
            if len(text) < 6000 and ev(g, text, 0, 1, rng.randrange(2), well=True):
                for th in rng.sample([1, 2, 3, 4, 8, 16, -1, 0], budget.get("reps", 3)):
                    ev(g, text, 1, th, rng.randrange(2), well=True)
                break
    for _ in range(n // 3):
        g.begin()
        if delays:
            g("dly", rng.choice([0, 0, 1, 2, 3, 4]), rng.randrange(1 << 30))
        # shapes: chains, balanced trees, wide calls
        k = rng.choice([1, 2, 15, 16, 31, 32, 33, 63, 64, 100])
        leafs = [leaf(rng, "any") if rng.random() < 0.7 else "f1(%s)" % leaf(rng, "any") for _ in range(k)]
        shape = rng.randrange(4)
        if shape == 0:
            text = rng.choice(["+", "-", "^", "|"]).join(leafs)
        elif shape == 1:
            def bal(ls):
                return ls[0] if len(ls) == 1 else "(" + bal(ls[:len(ls) // 2]) + rng.choice("+-^") + bal(ls[len(ls) // 2:]) + ")"
            text = bal(leafs)
        elif shape == 2:
            text = rng.choice(["fv", "sum", "cnt", "mut"]) + "(" + ",".join(leafs) + ")"
        else:
            text = "".join("f2(%s," % x for x in leafs[:40]) + "1" + ")" * len(leafs[:40])
        if len(text) < 8000 and ev(g, text, 0, 1, rng.randrange(2), well=True):
            for th in rng.sample([1, 2, 3, 4, 7, 8, 16, 40], budget.get("reps", 3)):
                ev(g, text, 1, th, rng.randrange(2), well=True)
    for k in (254, 255, 256, 257, 258, 300, 511, 512, 513, 1000):
        if part or k % 8 != shard:
            continue
        g.begin()
        wide(g, k, 1, rng.choice([1, 2, 4]))
    for k, text in enumerate(["5000!+4999!", "6000!/5998!-7000!", "10000!-9000!", "(1<<300000)+(1<<300001)-(1<<299999)", "8000!==8000!", "3**3000*7**2000-11**1500"]):
        if part or k % 8 != shard or k > 3 and not delays:
            continue
        g.begin()
        ev(g, text, 0, 1, 0, well=True)
        ev(g, text, 1, rng.choice([2, 24, 64]), 0, well=True)
    for _ in range(n // 5):
        g.begin()
        if delays:
            g("dly", rng.choice([0, 1, 2, 3, 4]), rng.randrange(1 << 30))
        s = rng.choice(["thp()", "1+thp(2)*3", "sum(thp(1),2,3)", "f2(1,thp(thp()))", "thr()", "1+thr(1,2)", "f1(thr(3))", "thr(f1(2))*0", "sum(1,2,thr())", "1?thr():2", "0?1:thr(4)", "thr(1)+thr(2)", "f2(thr(),1)*f2(2,thr())", "thr(thr(1))", "~thr()!", "(thr()?1:2)"])
        ev(g, s, 0, 1, 0)
        ev(g, s, 1, rng.choice([1, 2, 4, 8]), rng.randrange(2))
        t = wf(g, n, 4, par=0)
        if t:
            ev(g, t, 1, rng.choice([1, 2, 4]), rng.randrange(2))


# ---------------------------------------------------------------- P12
def p12(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]

    def value(kind=None):
        r = rng.random()
        if r < 0.35:
            return rng.choice([0, 1, -1, 2, -2, 3, 4, 5, 6, -6, 7, 8, 9, 10, -10, 12, 16, 25, 30, 60, 64, 99, 100, 125, 128, 1000, -1000, 3 ** 9, 5 ** 12, 2 ** 31, 2 ** 32, 2 ** 63, -2 ** 63, 10 ** 18])
        if r < 0.55:
            return int64(rng)
        return integer(rng, rng.choice([1, 1, 2, 2, 3, 4, 6]) if rng.random() < 0.93 else rng.choice([20, 81]))

    def frac(i, zero=0.04):
        a, b = value(), value()
        if rng.random() < 0.5:
            c = value()
            a, b = a * c, b * c         # a common factor
        if rng.random() < 0.15:
            b = a * rng.choice([1, -1, 2, 3])
        if rng.random() < 0.08:
            b = signed(rng, 2 ** rng.randrange(40) * 5 ** rng.randrange(40))
        make(g, 1, a)
        make(g, 2, b)
        q = rng.random()
        if q < 0.85:
            g("fn", i, 1, 2, rng.choice([0, 1, 2]))
        elif q < 0.95:
            g("f1", i, 1)
        else:
            g("fd0", i)

    def look(i):
        if g.m.F.get(i) is None:
            return
        g("fob", i)
        if rng.random() < 0.5:
            g("fts", i, rng.choice([10, 10, 16, 2, 36, rng.randrange(2, 37)]))
        elif rng.random() < 0.3:
            g("fts10", i)
        g("fdec", i, rng.choice([0, 1, 2, 3, 7, 8, 9, 10, 18, 19, 20, 30, 63, rng.randrange(120)]))
        if rng.random() < 0.3:
            g("fdec8", i)

    for _ in range(n):
        g.begin()
        frac(1)
        look(1)
        frac(2)
        look(2)
        for _ in range(rng.randrange(1, 4)):
            live = [i for i in g.m.F if g.m.F[i] is not None]
            if not live:
                break
            d = rng.choice([1, 2, 3, 4])
            r = rng.random()
            if r < 0.75:
                g("fop", rng.choice("+-*/"), d, rng.choice(live), rng.choice(live))
            elif r < 0.9:
                g("frec", d, rng.choice(live), rng.choice([0, 1, 2]))
            elif r < 0.925:
                d = rng.choice(live)
                if rng.random() < 0.3:
                    g("fc", d % 4 + 1, d)   # shares its parts
                g("fsa", d, rng.choice("nd"), rng.choice("nd"))
            elif r < 0.955:
                make(g, 3, value())
                g("fsn", rng.choice(live), 3)
                d = None
                for i in live:
                    look(i)
            else:
                make(g, 3, value() if rng.random() < 0.8 else 0)
                i = rng.choice(live)
                g("fsd", i, 3, rng.choice([0, 1, 2]))
                d = i
            if d is not None:
                look(d)
    for _ in range(n // 3):
        # the other operand, and zero, in every combination; signs of stored denominators
        g.begin()
        vs = [rng.choice([0, 1, -1, 2, -3, 12, -18, value()]) for _ in range(4)]
        for k, i in ((0, 1), (2, 2)):
            g("nv", 1, enc(vs[k]))
            g("nv", 2, enc(vs[k + 1]))
            g("fn", i, 1, 2, rng.choice([0, 1, 2]))
        for op in "+-*/":
            if g.m.F.get(1) is not None and g.m.F.get(2) is not None:
                g("fop", op, 3, 1, 2)
                look(3)
                g("fop", op, 4, 2, 2)
                look(4)
        if g.m.F.get(1) is not None:
            g("frec", 5, 1, rng.choice([0, 1, 2]))
            look(5)
            if g.m.F.get(5) is not None:
                g("frec", 6, 5, 0)
                look(6)
    for _ in range(n // 4):
        # digits: values just below and above a change of the last digit
        g.begin()
        k = rng.randrange(0, 40)
        num = rng.randrange(10 ** (k + 2)) if rng.random() < 0.7 else rng.choice([1, 9, 10 ** k - 1, 10 ** k, 10 ** k + 1, 5 * 10 ** max(0, k - 1)])
        den = rng.choice([10 ** k, 10 ** k + 1, max(1, 10 ** k - 1), 3, 7, 9, 11, 2 ** k, 5 ** k, 99, 101])
        g("nv", 1, enc(signed(rng, num)))
        g("nv", 2, enc(signed(rng, den)))
        g("fn", 1, 1, 2, 0)
        for d in {0, 1, max(0, k - 1), k, k + 1, k + 5}:
            g("fdec", 1, d)
        g("fdec8", 1)


# ---------------------------------------------------------------- P14
COPS = ["+", "-", "*", "/", "%", "&", "|", "^"]


def cmake(g, i, v, fresh):
    """brings C handle i to v"""
    rng = g.rng
    r = rng.random()
    pre = "c.i", "c.s", "c.b"
    if not fresh:
        pre = "c.ai", "c.as", "c.ab"
    if I64MIN <= v <= I64MAX and r < 0.4:
        g(pre[0], i, v)
    elif r < 0.7:
        radix = rng.choice([10, 16, 2, 36, rng.randrange(2, 37)])
        g(pre[1], i, radix, hx(vals.text_of(rng, v, radix).encode()))
    else:
        n = (v if v >= 0 else ~v).bit_length() // 8 + 1 + rng.choice([0, 0, 1, 4])
        le = rng.randrange(2)
        g(pre[2], i, hx(v.to_bytes(n, "little" if le else "big", signed=True)), le)


def cstep(g, live):
    rng = g.rng
    i, j = rng.choice(live), rng.choice(live)
    a, b = g.m.C[i], g.m.C[j]
    r = rng.random()
    if r < 0.25:
        op = rng.choice(COPS)
        if op in "/%" and b == 0 or op == "*" and abs(a).bit_length() + abs(b).bit_length() > 4000:
            return
        g("c.op", op, i, j)
    elif r < 0.42:
        op = rng.choice(COPS + ["<<", ">>"])
        v = int64(rng)
        if op == "<<":
            v = rng.choice(gens.SHIFTS[:24])
            if abs(a).bit_length() > 4000:
                return
        elif op == ">>":
            v = rng.choice(gens.SHIFTS + [1 << 40, (1 << 63) - 1])
        elif op in "/%" and v == 0 or op == "*" and abs(a).bit_length() > 4000:
            v = 3
        g("c.oi", op, i, v)
    elif r < 0.55:
        g("c.un", rng.choice(["inc", "dec", "notself", "negate", "abs", "notbits"]), i)
    elif r < 0.62:
        g("c.copy", i, j)
    elif r < 0.68:
        cmake(g, i, integer(rng, None, rng.random() < 0.1), False)
    elif r < 0.72:
        free = [x for x in range(10) if x not in g.m.C]
        if free and rng.random() < 0.6:
            q = rng.randrange(3)
            if q == 0:
                g("c.cp", free[0], i)
            elif q == 1:
                g("c.new", free[0])
            else:
                cmake(g, free[0], integer(rng, None, False), True)
        elif len(live) > 2:
            g("c.del", i)
    elif r < 0.76:
        radix = rng.choice([2, 10, 16, 36, 0, 1, 37, -1])
        g("c.as", i, radix, hx(gens.bad_text(rng, radix).encode("latin-1")))
    else:
        q = rng.randrange(9)
        if q == 0:
            g("c.g64", i)
        elif q == 1:
            g(rng.choice(["c.g64i", "c.g64u"]), i)
        elif q == 2:
            g("c.blk", i, rng.choice([0, 1, 2, 3, 5, 100, 0, 1, rng.choice(gens.HUGE) + rng.randrange(4)]))
        elif q == 3:
            g("c.ts", i, rng.choice([10, 16, 2, 36, rng.randrange(2, 37)]))
        elif q == 4:
            L = (abs(a).bit_length() + 7) // 8
            g("c.mag", i, rng.choice([0, 1, 3, 4, 7, L, L + 3, max(0, L - 1)]))
        elif q == 5:
            g("c.pr", i)
        elif q == 6:
            g("c.ci", i, rng.choice([int64(rng), max(I64MIN, min(I64MAX, a))]))
        elif q == 7:
            g("c.cm", i, j)
        else:
            g("c.all")


def p14(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    texts(g)
    for _ in range(n):
        # every function once or twice on fresh handles, everything looked at afterwards
        g.begin()
        a = integer(rng, None, rng.random() < 0.15)
        b = vals.related(rng, a) if rng.random() < 0.4 else integer(rng, None, False)
        cmake(g, 0, a, True)
        cmake(g, 1, b, True)
        g("c.cp", 2, rng.randrange(2))
        for op in rng.sample(COPS, 3):
            i, j = rng.randrange(3), rng.randrange(3)
            if op in "/%" and g.m.C[j] == 0:
                continue
            g("c.op", op, i, j)
            g("c.all")
        for op in rng.sample(COPS + ["<<", ">>"], 3):
            v = int64(rng)
            if op == "<<":
                v = rng.choice(gens.SHIFTS[:24])
            elif op == ">>":
                v = rng.choice(gens.SHIFTS)
            elif op in "/%":
                v = v or -7
            g("c.oi", op, rng.randrange(3), v)
        for o in rng.sample(["inc", "dec", "notself", "negate", "abs", "notbits"], 2):
            g("c.un", o, rng.randrange(3))
        g("c.all")
        for i in range(3):
            g("c.pr", i)
            g("c.ts", i, rng.choice([10, 16, 2, 36, rng.randrange(2, 37)]))
            g(rng.choice(["c.g64", "c.g64i", "c.g64u"]), i)
            g("c.blk", i, rng.randrange(0, 4))
            g("c.blk", i, rng.choice(gens.HUGE) + rng.randrange(3))
            L = (abs(g.m.C[i]).bit_length() + 7) // 8
            g("c.mag", i, rng.choice([0, 1, 4, L, L + 3, max(0, L - 1)]))
            g("c.mag", i, rng.choice(gens.HUGE) + rng.randrange(L + 2), L)
            g("c.cm", i, rng.randrange(3))
            g("c.ci", i, rng.choice([int64(rng), max(I64MIN, min(I64MAX, g.m.C[i]))]))
    for _ in range(n // 2):
        # conversions of native types at their limits, and failures
        g.begin()
        v = rng.choice([1 << 63, -(1 << 63), 1 << 64, 0, 1 << 32, -(1 << 64), 1 << 31]) + rng.choice([-2, -1, 0, 1, 2])
        cmake(g, 0, v, True)
        for c in ("c.g64", "c.g64i", "c.g64u", "c.pr"):
            g(c, 0)
        for k in range(0, 4):
            g("c.blk", 0, k)
        radix = rng.choice([2, 3, 10, 16, 36, 10, 0, 1, 37, -5])
        t = gens.bad_text(rng, radix).encode("latin-1")
        g("c.s", 1, radix, hx(t))
        g("c.as", 0, radix, hx(t))
        g("c.all")
        for c in ("c.g64i", "c.g64u"):
            g(c, 0)
        s = bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 5, 15, 16, 17, 100])))
        g("c.str", hx(s))
        w, le = vals.wbytes(rng)
        g("c.b", 5, hx(w), le)
        w, le = vals.wbytes(rng)
        g("c.ab", 0, hx(w), le)
        g("c.all")
    for _ in range(n // 12):
        g.begin()
        for i in range(4):
            cmake(g, i, integer(rng, None, rng.random() < 0.1), True)
        for _ in range(60):
            live = [i for i in g.m.C if g.m.C[i] is not None]
            if live:
                cstep(g, live)
        g("c.all")
    gens.giants(g, gens.few(budget, n // 150, 6), "C", most=gens.most(budget))
    if not budget.get("light"):
        gens.farshifts(g, shard, nshards, part, "C")


def texts(g):
    """the script's own texts for every code, so that statuses can be read"""
    for i in range(17):
        g.pre("sreg", i, hx(b"T%d" % i), i)


# ---------------------------------------------------------------- P15 (registration histories)
def p15(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    texts(g)
    for _ in range(n):
        g.begin()
        for _ in range(rng.randrange(10, 60)):
            r = rng.random()
            known = list(g.m.info)
            code = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 63, 64, 1000, 0xfffffffe, 0xffffffff]) if rng.random() < 0.6 else rng.choice(known)
            C = "c." if rng.random() < 0.4 else ""
            if r < 0.2:
                g(C + "sreg", code, hx(rng.choice([b"t%d" % rng.randrange(1000), b"", b"x", b"a longer text than fits into a small string %d" % code])), rng.choice([-1, -1, 1, 2, 17, 30, 62, rng.randrange(1, 63)]))
            elif r < 0.35:
                g(C + "gset", code)
            elif r < 0.45:
                g(C + "gst")
            elif r < 0.55:
                g(C + "scinfo", code)
            elif r < 0.6:
                g("sfind", code)
            elif r < 0.65:
                g("scall", code)
            elif r < 0.72:
                if C:
                    g(*rng.choice([("c.snew", rng.randrange(8)), ("c.snewe", rng.randrange(8), code)]))
                else:
                    g(*rng.choice([("snew", rng.randrange(8), code), ("sdef", rng.randrange(8))]))
            elif r < 0.82:
                g(C + "sset", rng.randrange(8), code)
            elif r < 0.92:
                g(C + "sinfo", rng.randrange(8))
            elif r < 0.95:
                g("c.sdel", rng.randrange(8))
            else:
                g("smv", rng.randrange(8), rng.randrange(8))


# ---------------------------------------------------------------- P20
def p20(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    texts(g)
    symbols(g, throw=False)

    def dividend():
        r = rng.random()
        if r < 0.25:
            return 0
        if r < 0.5:
            return int64(rng)
        return integer(rng)

    def zero(i):
        """a zero in slot i, reached in some way"""
        q = rng.randrange(7)
        if q == 0:
            g("n", i)
        elif q == 1:
            g("ni", i, 0)
        elif q == 2:
            g("ns", i, rng.randrange(2, 37), hx(rng.choice([b"0", b"-0", b"+0", b"000000000000"])), 1)
        elif q == 3:
            make(g, i, integer(rng))
            g("ib", rng.choice(["-", "^"]), i, i)
        elif q == 4:
            make(g, i, signed(rng, rng.getrandbits(40)))
            g("isr", i, 200)
            if g.m.B[i]:
                g("in", "++x", i)
        elif q == 5:
            g("nb", i, rng.choice(["-", "00", "0000000000000000"]), rng.randrange(2))
        else:
            make(g, i, integer(rng))
            g("ai", i, 0)
    for _ in range(n):
        g.begin()
        a = dividend()
        op = rng.choice("/%")
        g("gset", 0)
        f = rng.randrange(13)
        make(g, 1, a)
        zero(2)
        if g.m.B.get(2) != 0:
            continue
        if f == 0:
            g("bo", op, 0, 1, 2)
        elif f == 1:
            g("ib", op, 1, 2)
        elif f == 2:
            g("br", op, 0, 1, 0)
        elif f == 3:
            g("ii", op, 1, 0)
        elif f == 4:
            g("bl", op, 0, int64(rng), 2)
        elif f == 5:
            g(*rng.choice([("ib", op, 2, 2), ("bo", op, 0, 2, 2), ("bo", op, 2, 2, 2)]))
        elif f == 6:
            cmake(g, 0, a, True)
            cmake(g, 1, 0, True)
            g("c.gset", 0)
            g("c.op", op, *rng.choice([(0, 1), (0, 1), (1, 1)]))
        elif f == 7:
            cmake(g, 0, a, True)
            g("c.gset", 0)
            g("c.oi", op, 0, 0)
        elif f in (8, 9):
            z = rng.choice(["0", "zero", "(1-1)", "0x0", "(one-one)", "-0", "f1(0)", "f0()", "(3%3)", "(1>2)", "0!*0" if 0 else "(5-5)"])
            t = literal(rng, abs(a))
            t = rng.choice([t, "-" + t, "(%s)" % t, "f1(%s)" % t])
            s = rng.choice(["%s %s %s", "1+%s %s %s", "(%s %s %s)*0", "~(%s %s %s)", "0*(%s %s %s)", "f1(%s %s %s)", "1 ? %s %s %s : 3", "%s %s %s ? 1 : 2", "5 - -%s %s %s"]) % (t, op, z)
            ev(g, s, 0 if f == 8 else 1, rng.choice([1, 2, 4]), rng.randrange(2))
            if f == 9:
                continue        # the worker's status, not this thread's
        elif f == 10:
            g("gset", 0)
            g("fn", 1, 1, 2, rng.choice([0, 1, 2]))
        elif f == 11:
            make(g, 3, integer(rng, None, False) or 1)
            if g.m.B[3] == 0:
                continue
            g("fn", 1, 1, 3, 0)
            g("fn", 2, 2, 3, 0)     # zero
            g("gset", 0)
            g(*rng.choice([("fop", "/", 3, 1, 2), ("fop", "/", 3, 2, 2), ("frec", 3, 2, rng.choice([0, 1, 2]))]))
        else:
            make(g, 3, integer(rng, None, False) or 1)
            if g.m.B[3] == 0:
                continue
            g("fn", 1, 1, 3, 0)
            g("gset", 0)
            g("fsd", 1, 2, rng.choice([0, 1, 2]))
        if g.cmds[-1].split()[0] != "gset":
            g("gst")
    for _ in range(n):
        # divisors that are not zero, near zero in representation
        g.begin()
        g("gset", 0)
        b = rng.choice([1, -1, 2, 1 << 32, 1 << 64, -(1 << 96), (1 << 32) - 1, 1 << 31, 1 << 63, -(1 << 63), 3 << 64]) if rng.random() < 0.6 else (integer(rng) or 1)
        a = dividend()
        make(g, 1, a)
        gens.reach(g, 2, b)
        if g.m.B.get(2) in (None, 0):
            continue
        op = rng.choice("/%")
        g("gset", 0)
        gens.binary(g, op, a, b)
        g("gst")
        if rng.random() < 0.3:
            t = "-" * (a < 0) + literal(rng, abs(a))
            ev(g, "%s %s %s" % (t, op, "(%s)" % ("-" * (b < 0) + literal(rng, abs(b)))), 0, 1, 0)
            g("gst")
        if rng.random() < 0.3:
            cmake(g, 0, a, True)
            cmake(g, 1, b, True)
            g("c.gset", 0)
            g("c.op", op, 0, 1)
            if -(1 << 63) <= b < 1 << 63:
                g("c.oi", op, 0, b)
            g("c.gst")
        if rng.random() < 0.3 and a:
            g("fn", 1, 1, 2, 1) if g.m.B.get(1) is not None else None
            if g.m.F.get(1) is not None:
                g("frec", 2, 1, 1) if g.m.F[1][0] else None
                g("fop", "/", 3, 1, 1) if g.m.F[1][0] else None


# ---------------------------------------------------------------- P16, P18, P19 (the whole library)
def anything(g, n, steps, par=0.1):
    """histories over all parts of the API"""
    rng = g.rng
    for _ in range(n):
        g.begin()
        for i in range(5):
            make(g, i, integer(rng, None, rng.random() < 0.15))
        for i in range(3):
            cmake(g, i, integer(rng, None, rng.random() < 0.1), True)
        for _ in range(steps):
            live = [i for i in range(6) if g.m.B.get(i) is not None]
            r = rng.random()
            if len(live) < 2:
                for i in range(5):
                    make(g, i, integer(rng, None, False))
            elif r < 0.5:
                hist_step(g, live)
            elif r < 0.68:
                cl = [i for i in g.m.C if g.m.C[i] is not None]
                if cl:
                    cstep(g, cl)
            elif r < 0.74:
                i = rng.randrange(3)
                g("fn", i, rng.choice(live), rng.choice(live), rng.choice([0, 1]))
                fl = [x for x in g.m.F if g.m.F[x] is not None]
                if fl:
                    j, k = rng.choice(fl), rng.choice(fl)
                    if rng.random() < 0.6:
                        g("fop", rng.choice("+-*/"), i, j, k)
                    elif g.m.F[j][0]:
                        g("frec", i, j, 0)
                    if g.m.F.get(i) is not None:
                        g(*rng.choice([("fob", i), ("fts", i, rng.randrange(2, 37)), ("fdec", i, rng.randrange(30)), ("fc", i, i)]))
            elif r < 0.86:
                if rng.random() < 0.6:
                    wf(g, 1, rng.choice([1, 2, 3, 5, 8]), par=1 if rng.random() < par else 0, threads=rng.choice([1, 2, 4]))
                else:
                    ev(g, clean(mutate(rng, expression(rng, rng.choice([1, 2, 3, 5]))))[:2000], 1 if rng.random() < par else 0, 2, rng.randrange(2))
            elif r < 0.92:
                i = rng.choice(live)
                radix = rng.choice([2, 8, 10, 16, 36, rng.randrange(2, 37)])
                g("ts", i, radix)
                if rng.random() < 0.5:
                    g(rng.choice(["ns", "ss"]), i, radix, hx(gens.bad_text(rng, radix).encode("latin-1")), rng.randrange(3))
            else:
                i = rng.choice(live)
                g(*rng.choice([("mag", i, rng.randrange(40)), ("blk", i, rng.randrange(6)), ("g64", i), ("as", i), ("pr", i), ("cm", i, rng.choice(live)), ("ci", i, int64(rng))]))
            if any(abs(v).bit_length() > 8000 for v in g.m.B.values() if v is not None):
                for i in list(g.m.B):
                    if g.m.B[i] is not None and abs(g.m.B[i]).bit_length() > 8000:
                        g("isr", i, 7000)


def hist_step(g, live):
    rng = g.rng
    i, j, k = rng.choice(live), rng.choice(live), rng.choice(live)
    a, b = g.m.B[i], g.m.B[j]
    r = rng.randrange(12)
    op = rng.choice(OPS)
    if r <= 2:
        if not (op in "/%" and b == 0):
            g("ib", op, i, j)
    elif r == 3:
        c = g.m.B[k]
        if not (op in "/%" and c == 0):
            g("bo", op, i, j, k)
    elif r == 4:
        v = int64(rng) or 1
        g("ii", op, i, v)
    elif r == 5:
        g("in", rng.choice(["++x", "--x", "x++", "x--", "negate", "abs", "notself", "notbits"]), i)
    elif r == 6:
        g("isl", i, rng.choice(gens.SHIFTS[:24]))
    elif r == 7:
        g("isr", i, rng.choice(gens.SHIFTS))
    elif r == 8:
        if i != j:
            g(rng.choice(["ca", "nc", "sw"]), i, j)
        else:
            g("ca", i, i)
    elif r == 9:
        if i != j:
            g(rng.choice(["ma", "nm"]), i, j)
            g(*rng.choice([("ai", j, int64(rng)), ("ca", j, i), ("sb", j, "00ff", 0)]))
    elif r == 10:
        g(*rng.choice([("ai", i, int64(rng)), ("aii", i, int64(rng))]))
    else:
        if a >= 0 and b >= 0:
            g("gcd", i, j, k) if g.m.B[k] >= 0 else None


def p16(g, shard, nshards, part, tier, budget):
    n = budget["n"]
    symbols(g, throw=True)
    anything(g, n, budget.get("steps", 60))
    gens.history(g, n // 2, 50, OPS, slots=4, observe=0.2)
    gens.karatsuba(g, n // 3)
    gens.addback(g, n // 3)
    if not budget.get("light"):
        p10(g, shard, nshards, 1, tier, {"n": n})
    corners(g, n // 2)


def p19(g, shard, nshards, part, tier, budget):
    n = budget["n"]
    symbols(g, throw=True)
    anything(g, n, 60, par=0.04)
    gens.history(g, n // 2, 50, OPS, slots=4, observe=0.2)
    gens.karatsuba(g, n // 3)
    gens.addback(g, n // 3)
    corners(g, n // 2)


def corners(g, n):
    """a little of the workloads of the parts that anything() leaves out"""
    from . import gens3
    for f, k in ((p14, n), (gens.p05, n), (gens.p06, n), (p12, n // 2), (p20, n // 2), (gens3.p24, n), (gens3.p23, n // 2), (gens3.p26, n // 8)):
        if k:
            f(g, 0, 1, 1, "quick", {"n": k, "light": 1})
