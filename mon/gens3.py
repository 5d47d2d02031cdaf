"""Workloads of the layers below and beside the public integer: the integer implementation, gcd, the expression front end."""
from . import gens, gens2, vals
from .model import OPS, enc, hx
from .vals import int64, integer, related, signed

IOPS = ["+", "-", "*", "/", "&", "|", "^"]
UN = ["inc", "dec", "notself", "notbits", "negate", "abs"]


def imake(g, i, v):
    """v in slot i, reached in one of many ways (so that room, sharing and cached state differ)"""
    rng = g.rng
    r = rng.randrange(9)
    m = abs(v)
    ls = []
    while m:
        ls.append(m & 0xffffffff)
        m >>= 32
    if r == 0 and gens.fits(v):
        g("i.ni", i, v)
    elif r == 1:
        radix = rng.randrange(2, 37)
        g("i.ns", i, radix, hx(vals.text_of(rng, v, radix).encode()))
    elif r == 2:
        low = rng.randrange(3)
        x = [rng.getrandbits(32) for _ in range(low)] + ls + [0] * rng.randrange(3)
        if len(x) > low:
            g("i.mag", i, low, -1 if v < 0 else 1, *x)
        else:
            g("i.n", i)
    elif r == 3 and v:
        k = rng.choice([1, 31, 32, 33, 64, 70])
        g("i.nv", i, enc(v << k))
        g("i.oi", ">>", i, k)
    elif r == 4:
        d = integer(rng, None, False)
        g("i.nv", i, enc(v - d))
        g("i.nv", 20, enc(d))
        g("i.op", "+", i, 20)
    elif r == 5:
        d = integer(rng, None, False)
        g("i.nv", i, enc(v ^ d))
        g("i.nv", 20, enc(d))
        g("i.op", "^", i, 20)
    elif r == 6:
        g("i.nv", i, enc(~v))
        g("i.un", "notself", i)
    else:
        g("i.nv", i, enc(v))
    if rng.random() < 0.3:
        g("i.q", i, rng.randrange(max(1, len(ls) + 2)))
    if rng.random() < 0.2:
        g("i.cp", 21, i)
    if rng.random() < 0.15: # leaves room and shares
        g("i.un", "inc", i)
        g("i.un", "dec", i)


def weigh(g, i):
    v = g.m.I.get(i)
    return 0 if v is None else (abs(v).bit_length() + 31) // 32


def istep(g, live):
    rng = g.rng
    i, j, k, l = (rng.choice(live) for _ in range(4))
    for x in (i, j, k, l):
        if g.m.I.get(x) is None or weigh(g, x) > 400:
            imake(g, x, integer(rng, None, False))
    r = rng.randrange(18)
    if r <= 3:
        o = rng.choice(IOPS)
        if o == "*" and weigh(g, i) + weigh(g, j) > 400:
            o = "-"
        if o != "/" or g.m.I[j]:
            g("i.op", o, i, j)
    elif r == 4:
        o = rng.choice(IOPS)
        v = int64(rng)
        if o != "/" or v:
            g("i.oi", o, i, v)
    elif r == 5:
        g("i.oi", ">>", i, rng.choice(gens.SHIFTS))
    elif r == 6:
        g("i.oi", "<<", i, rng.choice(gens.SHIFTS[:24]))
    elif r == 7:
        if i != j:
            g("i.sw", i, j, rng.randrange(2))
    elif r == 8:
        g("i.un", rng.choice(UN), i)
    elif r == 9:
        if len({i, j, k}) == 3 and g.m.I[j]:
            g(rng.choice(["i.dr", "i.mq"]), i, j, k)
    elif r == 10:
        v = int64(rng)
        if i != j and v:
            g(rng.choice(["i.dri", "i.mqi"]), i, v, j)
    elif r == 11:
        if i not in (j, k):
            g("i.mul", i, j, k)
    elif r == 12:
        if i != j and k not in (i, j) and l not in (i, j) and g.m.I[l]:
            g("i.div", i, j, k, l)
        elif i != j and k not in (i, j):
            g("i.divi", i, j, k, int64(rng) or 3)
    elif r == 13:
        g(rng.choice(["i.as", "i.as2"]), i, j)
    elif r == 14:
        if i != j:
            g(rng.choice(["i.ma", "i.ma2", "i.mv"]), i, j)
            g(rng.choice(["i.as", "i.as2"]), j, i) if rng.random() < 0.5 else g("i.ai", j, int64(rng))
    elif r == 15:
        g("i.q", i, rng.randrange(weigh(g, i) + 3))
        g("i.cm", i, j)
    elif r == 16:
        w, le = vals.wbytes(rng)
        g("i.sb", i, hx(w), le)
    else:
        radix = rng.choice([10, 10, rng.randrange(2, 37)])
        t = vals.text_of(rng, integer(rng, None, False), radix)
        g("i.ss", i, radix, hx(t if isinstance(t, bytes) else t.encode("latin-1")))


def p24(g, shard, nshards, part, tier, budget):
    n = budget["n"]
    rng = g.rng
    for _ in range(n // 6):                 # histories
        g.begin()
        live = list(range(rng.choice([3, 4, 5])))
        for i in live:
            imake(g, i, integer(rng, None, rng.random() < 0.2))
        for _ in range(rng.choice([10, 25, 40])):
            istep(g, live)
            if rng.random() < 0.4 and all(x is not None for x in g.m.I.values()):
                g("i.all")
        for i in live:
            if g.m.I.get(i) is not None:
                g("i.q", i, rng.randrange(weigh(g, i) + 2))
                if rng.random() < 0.3:
                    g("i.ts", i, rng.randrange(2, 37))
    for _ in range(n // 2):                 # divisions in every form
        g.begin()
        a, b = vals.division_pair(rng)
        if rng.random() < 0.2:
            b = int64(rng)
        b = b or 1
        imake(g, 0, a)
        imake(g, 1, b)
        for x in (2, 3, 4):
            imake(g, x, integer(rng, None, False))
        g("i.cp", 5, 0)
        if gens.fits(b) and rng.random() < 0.6:
            g(*rng.choice([("i.dri", 5, b, 2), ("i.mqi", 5, b, 2), ("i.divi", 2, 3, 0, b)]))
        g(*rng.choice([("i.dr", 0, 1, 4), ("i.mq", 0, 1, 4), ("i.div", 2, 3, 0, 1), ("i.dr", 0, 0, 4), ("i.mq", 0, 0, 4)] if a else [("i.dr", 0, 1, 4)]))
        g("i.all")
    for _ in range(n // 4):                 # products
        g.begin()
        a = integer(rng)
        b = related(rng, a) if rng.random() < 0.4 else integer(rng)
        imake(g, 0, a)
        imake(g, 1, b)
        imake(g, 2, integer(rng))
        g(*rng.choice([("i.mul", 2, 0, 1), ("i.mul", 2, 1, 0), ("i.mul", 2, 0, 0), ("i.op", "*", 0, 1), ("i.op", "*", 1, 1)]))
        g("i.all")
        g("i.un", rng.choice(UN), 2)
        g("i.all")
    for _ in range(n // 2):                 # one mutation among sharers, then a bitwise operation that trusts the cached state
        g.begin()
        v = integer(rng, None, False)
        w = integer(rng, None, False)
        if rng.random() < 0.6:
            v <<= 32 * rng.randrange(4)
        if rng.random() < 0.6:
            w <<= 32 * rng.randrange(4)
        imake(g, 0, v)
        imake(g, 1, w)
        g("i.cp", 2, 0)
        for _ in range(rng.randrange(1, 4)):
            i, j = rng.sample([0, 1, 2], 2)
            if rng.random() < 0.6:
                o = rng.choice(["&", "|", "^", "+", "-"])
                g("i.op", o, i, j)
            elif rng.random() < 0.5:
                g("i.sw", i, j, rng.randrange(2))
            else:
                g("i.un", rng.choice(UN), i)
            if rng.random() < 0.5:
                g("i.sw", *rng.sample([0, 1, 2], 2), rng.randrange(2))
            if rng.random() < 0.4:
                g("i.q", rng.randrange(3), rng.randrange(6))
        g("i.all")
        for i in range(3):
            g("i.q", i, rng.randrange(weigh(g, i) + 2))
            g("i.un", rng.choice(["notself", "negate"]), i)
            g("i.q", i, rng.randrange(weigh(g, i) + 2))
        g("i.op", rng.choice(["&", "|", "^"]), *rng.sample([0, 1, 2], 2))
        g("i.all")
    for _ in range(n // 8):                 # texts that are no numbers leave the target as it is
        g.begin()
        radix = rng.randrange(2, 37)
        imake(g, 0, integer(rng, None, False))
        t = gens.bad_text(rng, radix)
        t = t if isinstance(t, bytes) else t.encode("latin-1")
        g(rng.choice(["i.ss", "i.ns"]), 0, radix, hx(t))
        g("i.q", 0, 1)
    for _ in range(n // 10):                # a zero divisor
        g.begin()
        imake(g, 0, integer(rng))
        g("i.ni", 1, 0)
        g("i.n", 2)
        g("i.n", 3)
        g(*rng.choice([("i.op", "/", 0, 1), ("i.oi", "/", 0, 0), ("i.dr", 0, 1, 2), ("i.dri", 0, 0, 2), ("i.mq", 0, 1, 2), ("i.mqi", 0, 0, 2), ("i.div", 2, 3, 0, 1), ("i.divi", 2, 3, 0, 0)]))
    gens.units(g, n // 6, "I")
    gens.giants(g, gens.few(budget, n // 100, 6), "I", most=gens.most(budget))
    if not budget.get("light"):
        gens.farshifts(g, shard, nshards, part, "I")


def fib(n):
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b
    return a, b


def p23(g, shard, nshards, part, tier, budget):
    n = budget["n"]
    rng = g.rng

    def nat(big=True):
        return abs(integer(rng, None, big))

    def ask(a, b):
        g.begin()
        vals.make(g, 1, a)
        vals.make(g, 2, b)
        r = rng.randrange(6)
        if r == 0:
            g("gcd", 1, 1, 2)
        elif r == 1:
            g("gcd", 2, 1, 2)
        else:
            g("gcd", 0, 1, 2)
        if r >= 2 and rng.random() < 0.5:
            g("gcd", 3, 2, 1)
        g("all")
    for a in (0, 1, 2, 3, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 6 * 2**96, 3**80):
        for b in (0, 1, 2, 3, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 6 * 2**96, 3**80):
            if not part and (a + 7 * b) % nshards == shard:
                ask(a, b)
    for _ in range(n):
        r = rng.randrange(9)
        if r == 0:
            a, b = nat(), nat()
        elif r == 1:                # a common factor
            k = nat(False) or 6
            a, b = nat(False) * k, nat(False) * k
        elif r == 2:                # one divides the other
            b = nat(False)
            a = b * nat(False)
        elif r == 3:                # many steps
            a, b = fib(rng.randrange(2, 300))
            k = rng.choice([1, 1, 6, 2**40, nat(False) or 1])
            a, b = a * k, b * k
        elif r == 4:
            a = nat(False)
            b = rng.choice([0, 1, a, a + 1, max(0, a - 1)])
        elif r == 5:                # powers of two
            a, b = rng.randrange(1, 50) << rng.randrange(200), rng.randrange(1, 50) << rng.randrange(200)
        elif r == 6:                # operands of very different sizes
            a, b = nat(), rng.choice([2, 3, 2**32 - 1, 2**32, 2**64 - 1, 97])
        elif r == 7:                # remainders with a long gap, quotients of all ones
            k = rng.randrange(1, 6) * 32
            b = nat(False) or 1
            a = b * ((1 << k) - 1) + rng.choice([0, 1, b - 1])
        else:
            a = nat(False)
            b = abs(related(rng, a))
        if max(a, b).bit_length() > 3000:
            a, b = a >> 2000, b >> 2000
        if rng.random() < 0.5:
            a, b = b, a
        ask(a, b)
    for _ in range(n // 10):        # the same variable twice, copies that share
        g.begin()
        v = nat(False)
        vals.make(g, 1, v)
        g("nc", 2, 1)
        g("gcd", rng.choice([0, 1, 2]), 1, rng.choice([1, 2]))
        g("all")


# ---------------------------------------------------------------- P26
def spell(rng):
    """a literal of some kind, or something near one"""
    r = rng.random()
    v = abs(integer(rng, None, False)) if r < 0.3 else rng.choice([0, 1, 7, 8, 9, 17, 77, 255, 4095, 123456789])
    s = gens2.literal(rng, v)
    if rng.random() < 0.15 and s.isdigit() and s[0] != "0":
        s += "." + str(rng.randrange(10 ** rng.randrange(1, 12)))
    if rng.random() < 0.05:
        s += rng.choice("abzAZ9")
    return s


def hooked(g):
    """an expression under a literal hook; well-formed ones show every literal once, in the order of the text"""
    rng = g.rng
    g.begin()
    g("x.hook", rng.choice([1, 2, 3, 5, 5, 4, 0]))
    for _ in range(rng.choice([1, 2, 4])):
        for _ in range(8):
            if rng.random() < 0.4:
                toks = []
                for k in range(rng.choice([1, 1, 2, 3, 6])):
                    toks += ([rng.choice(["+", "-", "|", "==", "<", "*"])] if k else []) + [spell(rng)]
            else:
                toks = gens2.expression(rng, rng.choice([1, 2, 3, 6, 12]), True, False)
            if "nest" in toks or len("".join(toks)) > 3000:
                continue
            text = gens2.join(rng, toks)
            if rng.random() < 0.15:
                text = gens2.clean(gens2.mutate(rng, toks))[:2000]
                if "nest" in text:
                    continue
            par = 1 if rng.random() < 0.1 else 0
            if gens2.ev(g, text, par, rng.choice([1, 2, 4]), rng.randrange(2)):
                g("x.lits")
                break
        if rng.random() < 0.3:
            g("x.hook", rng.choice([0, 1, 2, 3, 4, 5]))


def reparse(g):
    """one parser and one pool for many texts; every tree keeps its meaning"""
    rng = g.rng
    g.begin()
    g("x.new")
    if rng.random() < 0.3:
        g("x.hook", rng.choice([1, 2, 3, 5]))
    for k in range(rng.choice([3, 6, 12])):
        r = rng.random()
        toks = gens2.expression(rng, rng.choice([0, 1, 2, 4, 8, 20, 45]), True, False)
        if "nest" in toks or len("".join(toks)) > 3000:
            continue
        text = gens2.join(rng, toks) if r < 0.7 else gens2.clean(gens2.mutate(rng, toks))[:2000] if r < 0.97 else ""
        if "nest" in text:
            continue
        i = rng.randrange(8)
        g("x.parse", i, rng.randrange(2), hx(text.encode("latin-1")))
        if i in g.m.trees and rng.random() < 0.6:
            run_tree(g, i)
        if g.m.trees and rng.random() < 0.5:
            run_tree(g, rng.choice(sorted(g.m.trees)))
        if rng.random() < 0.05:
            g("x.new")
    for i in sorted(g.m.trees):
        run_tree(g, i)


def run_tree(g, i):
    e = g.m.step(["x.run", str(i)])
    if e.kind != "any":
        g("x.run", i)


def stream(g):
    rng = g.rng
    g.begin()
    n = rng.choice([0, 1, 2, 3, 7, 8, 30, 200])
    t = bytes(rng.randrange(256) if rng.random() < 0.3 else rng.choice(b"0123abcxyz+- \t\0\xff") for _ in range(n))
    kind = rng.choice("cs")
    copy = rng.randrange(2)
    ops = "".join(rng.choice("gggggpett" + "ma" * (rng.random() < 0.2)) for _ in range(rng.choice([3, 10, n + 5, n * 2 + 5])))
    if copy and rng.random() < 0.6:
        k = rng.randrange(len(ops) + 1)
        ops = ops[:k] + "d" + ops[k:]
    if rng.random() < 0.7:
        ops += "g" * max(0, n - ops.count("g")) + "epggt"
    g("x.st", kind, copy, hx(t), ops)


def p26(g, shard, nshards, part, tier, budget):
    n = budget["n"]
    gens2.symbols(g, throw=False)
    for _ in range(n):
        hooked(g)
        reparse(g)
        stream(g)
