"""Workloads.  Every generator fills cases through g(command, operands...); the model computes what has to be seen."""
import math

from . import vals
from .model import I64MIN, I64MAX, OPS, enc, hx
from .vals import integer, int64, related, make, signed
from .refexpr import to_radix

ARITH = ["+", "-", "*", "/", "%"]
BITS = ["&", "|", "^"]


def fits(v):
    return I64MIN <= v <= I64MAX


def binary(g, op, a, b, d=0, i=1, j=2):
    """one of the forms of a op b, operands in slots i and j (already holding a and b), result in d"""
    rng = g.rng
    forms = ["bo", "ib"]
    if fits(b):
        forms += ["br", "ii"]
    if fits(a):
        forms += ["bl"]
    f = rng.choice(forms)
    if f == "bo":
        g("bo", op, rng.choice([d, d, i, j]), i, j)
    elif f == "ib":
        g("ib", op, i, j)
    elif f == "br":
        g("br", op, rng.choice([d, i]), i, b)
    elif f == "ii":
        g("ii", op, i, b)
    else:
        g("bl", op, rng.choice([d, j]), a, j)


def pair(rng, op, big=True):
    if op in "/%" and rng.random() < 0.7:
        a, b = vals.division_pair(rng, big)
    else:
        a = integer(rng, None, big)
        b = related(rng, a) if rng.random() < 0.4 else integer(rng, None, big)
        if rng.random() < 0.3:
            a, b = b, a
    if rng.random() < 0.15:
        b = int64(rng)
    elif rng.random() < 0.1:
        a = int64(rng)
    return a, b


def gen_pairs(ops, nonzero=True):
    def fn(g, n):
        rng = g.rng
        for _ in range(n):
            op = rng.choice(ops)
            a, b = pair(rng, op)
            if b == 0 and op in "/%" and nonzero:
                b = 1
            g.begin()
            make(g, 1, a)
            make(g, 2, b)
            binary(g, op, a, b)
    return fn


def aliases(g, ops, n):
    rng = g.rng
    for _ in range(n):
        v = integer(rng)
        op = rng.choice(ops)
        if op in "/%" and v == 0:
            v = 1
        g.begin()
        make(g, 1, v)
        r = rng.randrange(3)
        if r == 0:
            g("ib", op, 1, 1)
        elif r == 1:
            g("bo", op, rng.choice([0, 1]), 1, 1)
        else:
            g("nc", 2, 1)
            g(*rng.choice([("ib", op, 1, 2), ("ib", op, 2, 1), ("bo", op, 1, 1, 2), ("bo", op, 3, 2, 1)]))
        g("all")


def grid(g, ops, shard, nshards, part):
    """every pair of the curated values, every sign, every operator"""
    cur = vals.curated()
    k = 0
    for a in cur:
        for b in cur:
            k += 1
            if part or k % nshards != shard:
                continue
            for sa, sb in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                x, y = sa * a, sb * b
                if (sa < 0 and not a) or (sb < 0 and not b):
                    continue
                g.begin()
                g("nv", 1, enc(x))
                g("nv", 2, enc(y))
                for op in ops:
                    if op in "/%" and y == 0:
                        continue
                    g("bo", op, 0, 1, 2)
                    if fits(y):
                        g("br", op, 0, 1, y)
                    if fits(x):
                        g("bl", op, 0, x, 2)
                    if g.rng.random() < 0.3:
                        g("nc", 3, 1)
                        g("ib", op, 3, 2)


def lengths(g, ops, shard, nshards, pairs):
    """operand lengths around every threshold, in every combination"""
    rng = g.rng
    for k, (n, m) in enumerate(pairs):
        if k % nshards != shard:
            continue
        g.begin()
        a, b = vals.magnitude(rng, n), vals.magnitude(rng, m)
        g("nv", 1, enc(signed(rng, a)))
        g("nv", 2, enc(signed(rng, b)))
        for op in ops:
            if rng.random() < 0.5:
                g("bo", op, 0, 1, 2)
            else:
                g("nc", 0, 1)
                g("ib", op, 0, 2)


KARA = [(n, m) for n in (1, 2, 39, 40, 41, 78, 79, 80, 81, 82, 83, 119, 120, 121, 158, 159, 160, 161, 162, 240, 319, 320, 321, 400)
        for m in (1, 2, 40, 79, 80, 81, 82, 120, 159, 160, 161, 200, 320)]


def karatsuba(g, n):
    """halves that are zero, all ones, or short: the splits and recombination of the multiplication"""
    rng = g.rng
    for _ in range(n):
        n1 = rng.choice([80, 80, 81, 82, 83, 90, 100, 119, 120, 159, 160, 161, 170, 240])
        n2 = rng.choice([80, 80, 81, 82, 83, 90, 100, 119, 120, 159, 160, 161, 170, 240])
        half = (max(n1, n2) + 1) // 2

        def op(n):
            lo, hi = half, n - half
            parts = []
            for m in (lo, max(hi, 0)):
                r = rng.randrange(5)
                parts.append(0 if r == 0 or m == 0 else (1 << 32 * m) - 1 if r == 1 else vals.magnitude(rng, m) if r == 2 else vals.magnitude(rng, rng.randrange(1, m + 1)) if r == 3 else 1)
            v = parts[0] + (parts[1] << 32 * lo)
            if v.bit_length() <= 32 * (n - 1):
                v |= 1 << (32 * n - 1 - rng.choice([0, 31]))
            return signed(rng, v)
        g.begin()
        a, b = op(n1), op(n2)
        g("nv", 1, enc(a))
        g("nv", 2, enc(b))
        r = rng.random()
        if r < 0.4:
            g("bo", "*", 0, 1, 2)
        elif r < 0.7:
            g("ib", "*", 1, 2)
        elif r < 0.85:
            g("ib", "*", 1, 1)
        else:
            g("bo", "*", 0, 1, 2)
            if b:
                g("bo", "/", 3, 0, 2)
                g("bo", "%", 4, 0, 2)


def unary_cases(g, n, ops):
    rng = g.rng
    for _ in range(n):
        v = integer(rng)
        if rng.random() < 0.3:
            v = signed(rng, (1 << 32 * rng.randrange(1, 5)) + rng.choice([-1, 0, 1]))
        g.begin()
        make(g, 1, v)
        for _ in range(rng.randrange(1, 4)):
            o = rng.choice(ops)
            if o in ("+", "-", "neg", "~", "abs"):
                g("un", o, rng.choice([0, 1]), 1)
            else:
                g("in", o, 1)
        if rng.random() < 0.3:
            g("pr", 1)


def addback(g, n):
    rng = g.rng
    for u, v in vals.addback_pairs(rng, n):
        g.stats.extra["long divisions with an add-back step"] += 1
        g.begin()
        g("nv", 1, enc(signed(rng, u)))
        g("nv", 2, enc(signed(rng, v)))
        g("bo", "/", 3, 1, 2)
        g("bo", "%", 4, 1, 2)
        g("bo", "*", 5, 3, 2)
        g("ib", "+", 5, 4)
        g("cm", 5, 1)


def history(g, n, steps, ops=OPS, slots=6, observe=0.15, moves=True, reads=True, maxlimbs=60):
    """long histories over a few variables that keep sharing, growing and shrinking their storage"""
    rng = g.rng
    for _ in range(n):
        g.begin()
        for i in range(slots):
            make(g, i, integer(rng, None, rng.random() < 0.1))
        for _ in range(steps):
            live = [i for i in range(slots) if g.m.B.get(i) is not None]
            if len(live) < 2:
                for i in range(slots):
                    make(g, i, integer(rng, None, False))
                continue
            i, j, k = rng.choice(live), rng.choice(live), rng.choice(live)
            r = rng.random()
            a, b = g.m.B[i], g.m.B[j]
            if r < 0.30:
                op = rng.choice(ops)
                if op in "/%" and b == 0:
                    continue
                if op == "*" and (abs(a).bit_length() + abs(b).bit_length()) > 32 * maxlimbs:
                    op = rng.choice(["-", "%", "/"])
                    if b == 0:
                        continue
                g("ib", op, i, j)
            elif r < 0.38:
                op = rng.choice(ops)
                v = int64(rng)
                if op in "/%" and v == 0:
                    continue
                if op == "*" and abs(a).bit_length() > 32 * maxlimbs:
                    op = "/"
                    v = v or 1
                g("ii", op, i, v)
            elif r < 0.48:
                op = rng.choice(ops)
                c = g.m.B[k]
                if op in "/%" and c == 0 or op == "*" and (abs(b).bit_length() + abs(c).bit_length()) > 32 * maxlimbs:
                    continue
                g("bo", op, i, j, k)
            elif r < 0.53:
                g("in", rng.choice(["++x", "--x", "x++", "x--", "negate", "abs", "notself", "notbits"]), i)
            elif r < 0.60:
                n_ = rng.choice([0, 1, 31, 32, 33, 63, 64, 65, 96, rng.randrange(200)])
                if rng.random() < 0.5 and abs(a).bit_length() < 32 * maxlimbs:
                    g("isl", i, n_)
                else:
                    g("isr", i, n_)
            elif r < 0.75:
                if i != j:
                    f = rng.choice(["ca", "ca", "nc", "sw"] + (["ma", "nm"] if moves else []))
                    g(f, i, j)
                    if f in ("ma", "nm") and rng.random() < 0.7:
                        # the moved-from variable is assigned again
                        q = rng.randrange(4)
                        if q == 0:
                            g("ca", j, rng.choice([x for x in live if x != j]))
                        elif q == 1:
                            g("ai", j, int64(rng))
                        elif q == 2:
                            g("sb", j, hx(vals.wbytes(rng)[0]), 1)
                        else:
                            g("ma", j, i) if rng.random() < 0.3 else g("aii", j, int64(rng))
                else:
                    g("ca", i, i)
            elif r < 0.80:
                q = rng.randrange(5)
                if q == 0:
                    g("ai", i, int64(rng))
                elif q == 1:
                    g("aii", i, int64(rng))
                elif q == 2:
                    w, le = vals.wbytes(rng)
                    g("sb", i, hx(w), le)
                elif q == 3:
                    v = integer(rng, None, False)
                    radix = rng.randrange(2, 37)
                    g("ss", i, radix, hx(vals.text_of(rng, v, radix).encode()), rng.choice([0, 1, 2]))
                else:
                    make(g, i, integer(rng, None, rng.random() < 0.1))
            elif r < 0.84:
                g("un", rng.choice(["+", "-", "neg", "~", "abs"]), i, j)
            elif reads:
                q = rng.randrange(7)
                if q == 0:
                    g("ts", i, rng.choice([10, 16, 2, 36, rng.randrange(2, 37)]))
                elif q == 1:
                    g("cm", i, j)
                elif q == 2:
                    g("ci", i, int64(rng))
                elif q == 3:
                    g("pr", i)
                elif q == 4:
                    g("blk", i, rng.randrange(0, 6))
                elif q == 5:
                    g("as", i)
                else:
                    g("mag", i, rng.randrange(0, 24))
            if rng.random() < observe:
                g("all")
        g("all")


def bigness(g, c):
    return g.m.weight >= 2


# sizes and indices that do not fit into narrower types
HUGE = [1 << 31, 1 << 32, 1 << 33, (1 << 59) - 1, 1 << 62, 1 << 63, (1 << 64) - 1000000]


# numbers of limbs around the powers of two at which a narrower counter, a fixed buffer or a table ends
GIANT = [127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537]


def giant(rng, most=65537):
    """a value of very many limbs, cheap to build"""
    sizes = [x for x in GIANT if x <= most]
    n = sizes[int(len(sizes) * rng.random() ** 1.7)]
    r = rng.randrange(6)
    if r == 0:
        v = (1 << 32 * n) - 1
    elif r == 1:
        v = 1 << 32 * n - rng.choice([1, 32, 31, 16])
    elif r == 2:
        v = rng.getrandbits(32 * n) | 1 << 32 * n - 1
    elif r == 3:
        v = (rng.getrandbits(40) | 1) << 32 * n - 41
    elif r == 4:
        v = (1 << 32 * n) - (1 << 32 * rng.randrange(n))
    else:
        v = (1 << 32 * n - rng.randrange(1, 33)) + rng.getrandbits(64)
    return signed(rng, v + rng.choice([-1, 0, 0, 0, 1]))


def few(budget, n, least):
    return 1 if budget.get("light") else max(least, n)


def most(budget, limbs=65537):
    return 2049 if budget.get("light") else limbs


def twos(v, extra=0):
    return v.to_bytes((v if v >= 0 else ~v).bit_length() // 8 + 1 + extra, "little", signed=True)


def giants(g, n, layer="B", ops="+-*/%&|^<>cutbq", most=65537):
    """few operations on very long values; ops: operators, <> shifts, c comparison, u unary, t text, b bytes and blocks, q copies"""
    rng = g.rng
    pre = {"B": "", "C": "c.", "I": "i."}[layer]

    def put(i, v):
        if layer == "C":
            g("c.ab" if i in g.m.C else "c.b", i, hx(twos(v, rng.choice([0, 0, 3, 4]))), 1)
        elif layer == "I":
            g("i.nv", i, enc(v))
        elif rng.random() < 0.3:
            g("nb", i, hx(twos(v, rng.choice([0, 0, 3, 4]))), 1)
        else:
            g("nv", i, enc(v))

    def op(o, i, j):
        if layer == "B":
            g(*rng.choice([("ib", o, i, j), ("bo", o, 3, i, j), ("bo", o, i, i, j)]))
        else:
            g(pre + "op", o, i, j)

    for _ in range(n):
        g.begin()
        a = giant(rng, most)
        small = abs(a).bit_length() <= 32 * 2050
        tiny = abs(a).bit_length() <= 32 * 520
        o = rng.choice(ops)
        b = related(rng, a) if rng.random() < 0.5 else giant(rng, most) if small else integer(rng, None, False)
        if o in "*/%":
            if not small:
                b = integer(rng, rng.randrange(1, 4))
            b = b or 3
        put(1, a)
        put(2, b)
        if o in "+-*/%&|^":
            if o == "%" and layer == "I":
                o = "/"
            if rng.random() < 0.25 and layer != "I":
                g(*(("c.oi", o, 1, int64(rng) or 7) if layer == "C" else ("ii", o, 1, int64(rng) or 7)))
            elif rng.random() < 0.1 and o not in "*/%":
                op(o, 1, 1)
            else:
                op(o, *rng.choice([(1, 2), (1, 2), (2, 1)] if o not in "/%" else [(1, 2)]))
        elif o in "<>":
            bl = abs(a).bit_length()
            k = rng.choice([1, 31, 32, 33, 1000, 4096, 32 * 256, 32 * 1023 + 5, 1 << 16, 1 << 20, (1 << 21) + 1]) if o == "<" else rng.choice([1, 32, 33, bl - 1, bl, bl + 1, bl // 2, bl - 32, bl // 64 * 32, max(0, bl - 64)])
            if layer == "B":
                g("isl" if o == "<" else "isr", 1, k)
            else:
                g(pre + "oi", o * 2, 1, k)
        elif o == "c":
            g(pre + "cm", 1, 2)
            g(pre + "cm", 2, 1)
            put(2, a + rng.choice([-1, 0, 1]))
            g(pre + "cm", 1, 2)
        elif o == "u":
            c = rng.choice(["negate", "abs", "notself", "notbits"] + (["inc", "dec"] if layer != "B" else ["++x", "--x", "x++", "x--"]))
            g(*(("in", c, 1) if layer == "B" else (pre + "un", c, 1)))
        elif o == "t":
            radix = rng.choice([2, 4, 8, 16, 32] if tiny else [16]) if rng.random() < 0.5 or not tiny else rng.randrange(2, 37)
            if small and layer != "I":
                g(pre + "ts", 1, radix)
            if tiny:
                t = hx(vals.text_of(rng, b if abs(b).bit_length() <= 32 * 520 else 5, radix).encode())
                g(*(("c.as", 1, radix, t) if layer == "C" else ("i.ns", 1, radix, t) if layer == "I" else ("ss", 1, radix, t, 1)))
        elif o == "b":
            L = (abs(a).bit_length() + 7) // 8
            if layer != "I":
                g(pre + "mag", 1, rng.choice([L, L + 1, L + 5, L - 1, L - 5, L // 2, 1025]))
                for k in (rng.randrange(L // 4 + 2), L // 4, max(0, L // 4 - 1), L // 4 + 1):
                    g(pre + "blk", 1, k)
                g(pre + "g64", 1)
            else:
                g("i.q", 1, rng.randrange(L // 4 + 2))
        else: # a copy, and one of the two changed
            g(*{"C": ("c.cp", 4, 1), "I": ("i.cp", 4, 1), "B": ("nc", 4, 1)}[layer])
            k = rng.choice([1, 4])
            g(*(("in", rng.choice(["++x", "--x", "negate", "notself"]), k) if layer == "B" else (pre + "un", rng.choice(["inc", "dec", "negate", "notself"]), k)))
            g(pre + "cm", 1, 4)


# numbers of limbs at which a narrower shift count or limb count ends, and right shifts whose count would be small if it were cut off
FARLEFT = [32 * k + d for k in (255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 17, 1 << 18, 1 << 20) for d in (0, 1, 31)]
FARRIGHT = [(1 << b) + j for b in (15, 16, 20, 21, 31, 32, 33, 36, 37, 38, 53, 62, 63) for j in (0, 1, 33)]


def farshifts(g, shard, nshards, part, layer="B", share=1, longest=1 << 26):
    """shift counts around everything a count may be narrowed to, dealt over the shards"""
    rng = g.rng
    pre = {"B": "", "C": "c.", "I": "i."}[layer]
    k = 0
    for d, counts in (("<", FARLEFT), (">", FARRIGHT)):
        for s in counts:
            k += 1
            if part or s > longest and d == "<" or k % nshards != shard or k // nshards % share or layer != "B" and s > I64MAX:
                continue
            v = rng.choice([1, 3, -1, -5, 0xffffffff, -(1 << 32), (1 << 63) + 1, -(1 << 64) - 1, rng.getrandbits(90), -rng.getrandbits(200)])
            g.begin()
            if layer == "C":
                g("c.b", 1, hx(twos(v)), 1)
            else:
                g(pre + "nv", 1, enc(v))
            if layer != "B":
                g(pre + "oi", d * 2, 1, s)
                if d == "<":
                    g(pre + "oi", ">>", 1, max(0, s - rng.choice([0, 1, 31, 40])))
            elif d == "<":
                g(*rng.choice([("isl", 1, s), ("sl", 1, 1, s)]))
                g("isr", 1, max(0, s - rng.choice([0, 1, 31, 40])))
            else:
                g(*rng.choice([("isr", 1, s), ("sr", 1, 1, s)]))
            g(pre + "cm", 1, 1)


# ---------------------------------------------------------------- P01
def p01(g, shard, nshards, part, tier, budget):
    rng = g.rng
    grid(g, ARITH, shard, nshards, part)
    if part == 0:
        lengths(g, ["*", "+", "-"], shard, nshards, KARA)
        lengths(g, ["/", "%"], shard, nshards, [(n, m) for n in (2, 3, 4, 5, 8, 79, 80, 81, 160, 161) for m in (1, 2, 3, 4, 5, 79, 80)])
    n = budget["n"]
    gen_pairs(ARITH)(g, n)
    addback(g, n // 12)
    karatsuba(g, n // 20)
    aliases(g, ARITH, n // 10)
    unary_cases(g, n // 6, ["+", "-", "neg", "abs", "++x", "--x", "x++", "x--", "negate", "abs"])
    history(g, n // 150, 60, ARITH, observe=0.1, moves=False)
    giants(g, few(budget, n // 200, 6), ops="+-*/%u", most=most(budget))


# ---------------------------------------------------------------- P02
SHIFTS = [0, 1, 2, 15, 16, 30, 31, 32, 33, 34, 47, 62, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 255, 256, 1000, 1024, 2559, 2560, 2561]


def p02(g, shard, nshards, part, tier, budget):
    rng = g.rng
    grid(g, BITS, shard, nshards, part)
    # shifts of the grid
    cur = vals.curated()
    k = 0
    for a in cur:
        for s in SHIFTS:
            k += 1
            if part or k % nshards != shard:
                continue
            g.begin()
            for v in {a, -a}:
                g("nv", 1, enc(v))
                for c in rng.sample(["sl", "sr", "isl", "isr"], 2):
                    if c[0] == "i":
                        g("nc", 2, 1)
                        g(c, 2, s)
                    else:
                        g(c, 2, 1, s)
                g("un", "~", 3, 1)
                g("nc", 4, 1)
                g("in", "notbits", 4)
                g("pr", 4)
    n = budget["n"]
    gen_pairs(BITS)(g, n)
    aliases(g, BITS, n // 10)
    for _ in range(n // 2):
        v = integer(rng)
        if rng.random() < 0.4:
            # low zero limbs and a few low bits: what floor rounding of negatives looks at
            v = signed(rng, (abs(v) or 1) << rng.choice([0, 1, 5, 31, 32, 33, 64, 96]))
            if rng.random() < 0.5:
                v += rng.choice([-1, 1, 1 << rng.choice([0, 1, 31, 32, 63])])
        g.begin()
        make(g, 1, v)
        bl = abs(v).bit_length()
        s = rng.choice(SHIFTS + [bl, max(0, bl - 1), bl + 1, (bl + 31) // 32 * 32, rng.randrange(1, 200), max(0, bl - 32)])
        r = rng.random()
        if r < 0.4:
            g("isr", 1, rng.choice([s, s, s, s, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 32]))
        elif r < 0.6:
            g("sr", 2, 1, rng.choice([s, s, s, 1 << 33, (1 << 63) - 1]))
        elif r < 0.8:
            g("isl", 1, s)
        else:
            g("sl", 2, 1, s)
        g("all")
        if rng.random() < 0.05:
            g("nv", 3, enc(0))
            g(rng.choice(["isl", "isr"]), 3, rng.choice(HUGE))
            g("pr", 3)
        if rng.random() < 0.4:
            g("isr", 1, rng.choice(SHIFTS))
            g("isl", 1, rng.choice(SHIFTS))
            g("ib", rng.choice(BITS), 1, 1)
    for _ in range(n // 3):
        # masks: sparse and dense operands of very different lengths
        a = signed(rng, 1 << rng.randrange(0, 300))
        b = signed(rng, ((1 << rng.randrange(1, 200)) - 1) << rng.randrange(0, 200))
        g.begin()
        make(g, 1, a + rng.choice([-1, 0, 0, 1]))
        make(g, 2, b + rng.choice([-1, 0, 0, 1]))
        for op in BITS:
            binary(g, op, g.m.B[1], g.m.B[2]) if g.m.B.get(1) is not None and g.m.B.get(2) is not None else None
        g("in", "notself", 1)
    unary_cases(g, n // 6, ["~", "notself", "notbits", "notbits"])
    units(g, n // 16)
    history(g, n // 200, 60, BITS, observe=0.1, moves=False)
    giants(g, few(budget, n // 200, 6), ops="&|^<>u", most=most(budget))
    if not budget.get("light"):
        farshifts(g, shard, nshards, part)


def units(g, n, layer="B"):
    """+1 or -1 as an operation leaves it (with what it remembers about itself), changed in place into something of another shape, then read limb by limb"""
    rng = g.rng
    I = layer == "I"

    def put(i, v):
        g("i.nv" if I else "nv", i, enc(v))

    def op(o, i, j):
        g("i.op" if I else "ib", o, i, j)

    def un(o, i):
        g("i.un", o, i) if I else g("in", {"inc": "++x", "dec": "--x"}.get(o, o), i)

    def shift(o, i, s):
        g("i.oi", o, i, s) if I else g("isl" if o == "<<" else "isr", i, s)

    for _ in range(n):
        g.begin()
        u = rng.choice([1, -1])
        r = rng.randrange(7)
        if r == 0:                          # counted from zero
            put(1, 0)
            un("inc" if u > 0 else "dec", 1)
        elif r == 1:                        # everything shifted out
            u = -1
            v = -abs(integer(rng, None, False)) - 1
            put(1, v)
            shift(">>", 1, v.bit_length() + rng.choice([0, 1, 31, 32, 33, 100]))
        elif r == 2:                        # a quotient of equal sizes
            v = (integer(rng, None, False) or 1) << rng.choice([0, 0, 32, 64])
            put(1, v)
            put(2, u * v)
            op("/", 1, 2)
        elif r == 3:                        # complement of zero
            u = -1
            put(1, 0)
            un("notself", 1)
        elif r == 4:                        # a product of units
            put(1, rng.choice([1, -1]))
            put(2, u * (g.m.I if I else g.m.B)[1])
            op("*", 1, 2)
        elif r == 5:
            put(1, 0)
            un("inc" if u < 0 else "dec", 1)
            un("negate", 1)
        else:
            put(1, u)
        if rng.random() < 0.3:
            g("i.cp" if I else "nc", 4, 1)
        if rng.random() < 0.2:
            un("negate", 1)
            u = -u
        low = 32 * rng.choice([1, 1, 1, 2, 3, 5])
        t = signed(rng, (rng.choice([1, 1, 3, rng.getrandbits(40) | 1])) << low)
        if rng.random() < 0.2:
            t += signed(rng, rng.choice([1, 1 << 31]))
        if I and rng.random() < 0.25:       # as a result that is overwritten
            k = rng.randrange(3)
            put(2, 0)
            un("dec" if rng.random() < 0.5 else "inc", 2)
            if k == 0:
                b = signed(rng, abs(t) + 1 + rng.getrandbits(70))
                put(3, b * (integer(rng, 3, False) or 1) + (abs(t) if b > 0 else -abs(t)))
                put(5, b)
                g(*rng.choice([("i.dr", 3, 5, 2), ("i.div", 1, 2, 3, 5)]))
            elif k == 1:
                b = (integer(rng, 3, False) or 1)
                put(3, b * t)
                put(5, b)
                g(*rng.choice([("i.mq", 3, 5, 2), ("i.div", 2, 1, 3, 5)]))
            else:
                put(3, 1 << low)
                put(5, t)
                g("i.mul", 2, 3, 5)
            if rng.random() < 0.5:
                g("i.un", "negate", 2)
            g("i.q", 2, rng.randrange(1, 4))
            put(6, integer(rng, None, False))
            op(rng.choice("&|^"), 6, 2)
            un("notself", 2)
            g("i.all")
            continue
        r = rng.randrange(8)
        if r <= 1:
            put(3, t - u)
            op("+", 1, 3)
        elif r <= 3:
            put(3, u - t)
            op("-", 1, 3)
        elif r == 4:
            shift("<<", 1, low + rng.randrange(32))
        elif r == 5:
            put(3, t)
            op("*", 1, 3)
        elif r == 6:
            put(3, t ^ u)
            op("^", 1, 3)
        else:                               # in two steps
            d = integer(rng, None, False)
            put(3, d)
            op("+", 1, 3)
            put(3, t - u - d)
            op("+", 1, 3)
        if rng.random() < 0.4:
            un("negate", 1)
        if I:
            g("i.q", 1, rng.randrange(1, 4))
        put(6, integer(rng, None, False))
        r = rng.random()
        if r < 0.4:
            op(rng.choice("&|^"), 1, 6)
        elif r < 0.8:
            op(rng.choice("&|^"), 6, 1)
        un(rng.choice(["notself", "notself", "notbits", "inc"]), 1)
        g("i.all" if I else "all")


# ---------------------------------------------------------------- P03
def reach(g, i, v):
    """brings slot i to the value v by some history"""
    rng = g.rng
    r = rng.randrange(14)
    if r <= 2:
        make(g, i, v)
    elif r == 3:
        d = integer(rng, None, False)
        make(g, i, v + d)
        make(g, 23, d)
        g("ib", "-", i, 23)
    elif r == 4:
        d = integer(rng, None, False)
        make(g, i, v - d)
        make(g, 23, d)
        g("ib", "+", i, 23)
    elif r == 5:
        d = integer(rng, None, False) or 3
        make(g, i, v * d)
        make(g, 23, d)
        g("ib", "/", i, 23)
    elif r == 6:
        d = integer(rng, None, False)
        make(g, i, v ^ d)
        make(g, 23, d)
        g("ib", "^", i, 23)
    elif r == 7:
        s = rng.choice([1, 31, 32, 33, 64, 100])
        make(g, i, (v << s) + rng.randrange(1 << s))
        g("isr", i, s)
    elif r == 8:
        make(g, i, -v)
        g("in", "negate", i)
    elif r == 9:
        make(g, i, ~v)
        g("in", "notself", i)
    elif r == 10:
        make(g, i, v - 1)
        g("in", "++x", i)
    elif r == 11:
        make(g, i, v + 1)
        g("in", "x--", i)
    elif r == 12:
        # a remainder
        m = abs(v) + 1 + (abs(integer(rng, None, False)))
        q = integer(rng, None, False)
        x = m * abs(q) + abs(v)
        make(g, i, -x if v < 0 else x)
        make(g, 23, m)
        g("ib", "%", i, 23)
    else:
        # a long value first, then a short one in its storage
        make(g, i, integer(rng, rng.choice([3, 6, 20])))
        if fits(v):
            g("ai", i, v)
        else:
            n = (v if v >= 0 else ~v).bit_length() // 8 + 1
            g("sb", i, hx(v.to_bytes(n, "little", signed=True)), 1)
    g("del", 23) if 23 in g.m.B else None


def p03(g, shard, nshards, part, tier, budget):
    rng = g.rng
    cur = vals.curated()
    k = 0
    for a in cur:
        for b in cur:
            k += 1
            if part or k % nshards != shard:
                continue
            g.begin()
            for x, y in ((a, b), (-a, b), (a, -b), (-a, -b)):
                g("nv", 1, enc(x))
                g("nv", 2, enc(y))
                g("cm", 1, 2)
                if fits(y):
                    g("ci", 1, y)
                g("pr", 1)
    n = budget["n"]
    for _ in range(n):
        g.begin()
        v = integer(rng, None, rng.random() < 0.15)
        if rng.random() < 0.3:
            v = rng.choice([0, 1, -1, 2, -2, 2**32, -2**32, 2**32 - 1, 2**63, -2**63, 2**64, 2**64 - 1])
        w = v if rng.random() < 0.5 else related(rng, v) if rng.random() < 0.7 else integer(rng, None, False)
        reach(g, 1, v)
        reach(g, 2, w)
        if g.m.B.get(1) is None or g.m.B.get(2) is None:
            continue
        g("cm", 1, 2)
        g("cm", 2, 1)
        g("cm", 1, 1)
        for i in (1, 2):
            g("pr", i)
        q = rng.randrange(5)
        x = g.m.B[1]
        if q == 0:
            g("ci", 1, x if fits(x) else int64(rng))
        elif q == 1:
            g("ci", 1, int64(rng))
        elif q == 2 and fits(x):
            g("ci", 1, max(I64MIN, min(I64MAX, x + rng.choice([-1, 1]))))
        # every other observer of a value reached by a history
        for c in rng.sample([("ts", 1, rng.choice([2, 10, 16, 36])), ("as", 1), ("g64", 1), ("blk", 1, rng.randrange(0, 4)), ("mag", 1, rng.randrange(0, 40)),
                             ("ts", 2, rng.choice([3, 7, 10, 35])), ("blk", 2, rng.randrange(0, 4)), ("as", 2), ("g64", 2)], 3):
            g(*c)
        if rng.random() < 0.3:
            # equal values have to behave equally in what follows as well
            g("ib", rng.choice(["+", "-", "*", "&", "|", "^"]), 1, 2)
            g("cm", 1, 2)
            g("pr", 1)
            g("ts", 1, 10)
    giants(g, few(budget, n // 300, 4), ops="ccq", most=most(budget))


# ---------------------------------------------------------------- P04
def radix_values(rng, radix):
    """values at which the digit blocks of the conversions begin and end"""
    r = rng.random()
    if r < 0.35:
        k = rng.choice([1, 2, 5, 8, 9, 10, 11, 12, 13, 17, 18, 19, 20, 24, 27, 30, 31, 36, 38, 39, 40, 54, 62, 63, 64, 93, rng.randrange(1, 200)])
        v = radix ** k + rng.choice([-1, 0, 1, 0, -radix, radix ** (k // 2), -radix ** (k // 2)])
    elif r < 0.5:
        v = rng.randrange(1, radix) * radix ** rng.randrange(0, 130)
    elif r < 0.6:
        # sparse digits
        v = sum(rng.randrange(radix) * radix ** rng.randrange(0, 150) for _ in range(rng.randrange(1, 4)))
    else:
        return integer(rng)
    return signed(rng, abs(v))


def p04(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    # every radix, a few values each, then random ones
    for radix in range(2, 37):
        for _ in range(budget.get("per", 6)):
            v = radix_values(rng, radix)
            g.begin()
            g("ns", 1, radix, hx(vals.text_of(rng, v, radix).encode()), rng.choice([0, 1, 1, 2]))
            g("ts", 1, radix)
            g("nv", 2, enc(v))
            g("ts", 2, radix)
            g("cm", 1, 2)
    for _ in range(n):
        radix = rng.randrange(2, 37)
        v = radix_values(rng, radix)
        g.begin()
        r = rng.random()
        if r < 0.45:
            make(g, 1, v)
            g("ts", 1, radix)
            s = to_radix(v, radix)
            g("ns", 2, radix, hx(s.encode()), 1)
            g("cm", 1, 2)
        elif r < 0.75:
            reach(g, 1, v)
            if g.m.B.get(1) is not None:
                g("ts", 1, radix)
                g("ts10", 1)
        else:
            # parse over an old value, long or short
            make(g, 1, integer(rng))
            if rng.random() < 0.4:
                g("nc", 2, 1)
            g("ss", 1, radix, hx(vals.text_of(rng, v, radix).encode()), rng.choice([0, 1, 2]))
            g("ts", 1, rng.choice([radix, 10, 16]))
            g("all")
            g("pr", 1)
    for _ in range(n // 3):
        # texts made of digits, not of values: zeros inside, all-maximal digits, block boundaries
        radix = rng.randrange(2, 37)
        k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 26, 27, 28, 29, 30, 31, 32, 38, 39, 60, 61, 62, 63, 64, rng.randrange(1, 400)])
        digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
        m = rng.randrange(4)
        s = "".join(rng.choice(digs) for _ in range(k)) if m == 0 else digs[-1] * k if m == 1 else digs[1] + "0" * (k - 1) if m == 2 else "".join(rng.choice("0" + digs[-1]) for _ in range(k))
        s = "".join(c.upper() if rng.random() < 0.3 else c for c in s)
        s = rng.choice(["", "", "-", "+"]) + s
        g.begin()
        g("ns", 1, radix, hx(s.encode()), rng.choice([0, 1, 2]))
        g("ts", 1, radix)
        g("ts", 1, rng.randrange(2, 37))
    if part == 0 and shard < 4:
        for _ in range(2 if tier == "quick" else 6):
            # long ones: thousands of digits
            radix = rng.choice([2, 10, 16, 36, rng.randrange(3, 36)])
            v = signed(rng, vals.magnitude(rng, rng.choice([700, 1000, 2000])))
            g.begin()
            g("ns", 1, radix, hx(vals.text_of(rng, v, radix).encode()), 1)
            g("ts", 1, rng.choice([10, radix]))
    giants(g, few(budget, n // 300, 3), ops="t", most=most(budget, 2049))
    far = budget.get("far", 0)
    if part == 0 and far:
        # the longest texts that can be afforded: radix by shard
        radix = [2, 10, 16, 32, 36, 7, 8, 3][shard % 8]
        for bits in (1 << 17, far):
            digits = int((bits + 40) / math.log2(radix)) + 1
            g.begin()
            v = signed(rng, int(rng.choice("123456789"[:radix - 1]) + "".join(rng.choice("0123456789abcdefghijklmnopqrstuvwxyz"[:radix]) for _ in range(digits)), radix))
            g("ns", 1, radix, hx(to_radix(v, radix).encode()), 1)
            g("ts", 1, radix if bits > 1 << 17 or radix in (2, 8, 16, 32) else 10)


# ---------------------------------------------------------------- P05
def bad_text(rng, radix):
    """a text that is not an integer of the radix (or, with a radix out of range, any text)"""
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"
    ok = digs[:radix] if 2 <= radix <= 36 else digs[:10]
    k = rng.choice([1, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 19, 20, 29, 30, 31, 32, 40, rng.randrange(1, 120)])
    s = "".join(rng.choice(ok) for _ in range(k))
    if rng.random() < 0.3:
        s = s.upper()
    if rng.random() < 0.3:
        s = "0" * rng.randrange(1, 5) + s
    sign = rng.choice(["", "", "+", "-"])
    junk = " \t\n\0.,_xX+-eE/:;@[`{g~\x7f\x80\xff" + (digs[radix:] + digs[radix:].upper() if 2 <= radix < 36 else "")
    r = rng.randrange(9)
    if r == 0:
        return ""
    if r == 1:
        return rng.choice(["+", "-", "++", "--", "+-", "-+", "- ", " +", "-\0"])
    if r == 2:
        return rng.choice(["+", "-"]) + rng.choice(["+", "-"]) + s
    if r == 3:      # sign inside or at the end
        i = rng.randrange(1, len(s) + 1)
        return sign + s[:i] + rng.choice("+-") + s[i:]
    if r == 4:
        return sign + rng.choice(junk) + s
    if r == 5:
        return sign + s + rng.choice(junk)
    if r == 6:
        return rng.choice(junk) + sign + s
    i = rng.randrange(0, len(s) + 1)
    return sign + s[:i] + rng.choice(junk) + s[min(len(s), i + rng.randrange(2)):]


def p05(g, shard, nshards, part, tier, budget):
    from .refexpr import parse_radix
    rng = g.rng
    n = budget["n"]
    for _ in range(n):
        radix = rng.randrange(2, 37) if rng.random() < 0.85 else rng.choice([0, 1, -1, 37, 38, 64, -10, 100, 256, 258, 2**31 - 1, -2**31])
        s = bad_text(rng, radix) if rng.random() < 0.9 else vals.text_of(rng, integer(rng, None, False), radix if 2 <= radix <= 36 else 10)
        h = hx(s.encode("latin-1"))
        g.begin()
        r = rng.random()
        if r < 0.4:
            g("ns", 1, radix, h, rng.choice([0, 1, 2, 2]))
            g("pr", 1)
            g("ts10", 1)
            g("ib", "+", 1, 1)
        else:
            v = integer(rng, None, rng.random() < 0.1)
            reach(g, 1, v) if rng.random() < 0.5 else make(g, 1, v)
            if rng.random() < 0.5:
                g("nc", 2, 1)
            g("ss", 1, radix, h, rng.choice([0, 1, 2, 2]))
            g("all")
            g("pr", 1)
            q = rng.random()
            if q < 0.3:
                # and the object goes on being usable
                g("ii", rng.choice(["+", "-", "*", "&"]), 1, int64(rng))
                g("all")
            elif q < 0.5:
                g("ss", 1, 10, hx(vals.text_of(rng, integer(rng, None, False), 10).encode()), 1)
                g("all")
        if parse_radix(s.encode("latin-1"), radix) is None:
            g.stats.extra["malformed texts"] += 1
    # every position of a junk character, every radix, short texts
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"
    k = 0
    for radix in range(2, 37):
        for pos in range(0, 26):
            k += 1
            if part or k % nshards != shard:
                continue
            L = rng.randrange(pos + 1, pos + 14)
            s = [rng.choice(digs[1:radix]) for _ in range(L)]
            s[pos] = rng.choice((digs[radix:] or "~") + "-+ .")
            s = rng.choice(["", "-", "+"]) + "".join(s)
            g.begin()
            make(g, 1, integer(rng, None, False))
            g("ss", 1, radix, hx(s.encode()), 1)
            g("all")
            g("ns", 2, radix, hx(s.encode()), 2)
            g.stats.extra["malformed texts"] += 1


# ---------------------------------------------------------------- P06
def p06(g, shard, nshards, part, tier, budget):
    rng = g.rng
    n = budget["n"]
    for _ in range(n):
        g.begin()
        w, le = vals.wbytes(rng)
        if rng.random() < 0.5:
            g("nb", 1, hx(w), le)
        else:
            make(g, 1, integer(rng, None, rng.random() < 0.2))
            if rng.random() < 0.5:
                g("nc", 2, 1)
            g("sb", 1, hx(w), le)
            if rng.random() < 0.3:
                g("all")
        v = g.m.B[1]
        L = (abs(v).bit_length() + 7) // 8
        for cap in {rng.choice([0, 1, 2, 3, 4, 5, 7, 8]), L, L + rng.choice([1, 4, 9]), max(0, L - rng.choice([1, 2, 3, 4, 5])), rng.randrange(0, L + 2)}:
            g("mag", 1, cap)
        if rng.random() < 0.3:
            g("mag", 1, rng.choice(HUGE) + rng.choice([0, 0, L, max(0, L - 1)]), L)
        nb = L // 4
        for b in {0, 1, nb, nb + 1, max(0, nb - 1), rng.randrange(0, nb + 3), rng.choice(HUGE) + rng.choice([0, 0, 1, nb])}:
            g("blk", 1, b)
        g("g64", 1)
        g("as", 1)
        g("pr", 1)
    for _ in range(n):
        # the boundaries of the native types
        g.begin()
        v = rng.choice([1 << 63, -(1 << 63), 1 << 64, -(1 << 64), 1 << 32, 1 << 31, -(1 << 31), 0, 1 << 96, -(1 << 96), 1 << 62, 1 << 16, 1 << 8, (1 << 64) + (1 << 63)]) + rng.choice([-2, -1, 0, 0, 1, 2])
        if rng.random() < 0.2:
            v = signed(rng, rng.getrandbits(rng.randrange(1, 140)))
        reach(g, 1, v)
        if g.m.B.get(1) is None:
            continue
        g("g64", 1)
        g("as", 1)
        for b in range(0, 4):
            g("blk", 1, b)
        if rng.random() < 0.3:
            g("g64", 1)
        if fits(v):
            g(rng.choice(["ni", "ni"]), 2, v)
            g("ai", 1, v)
            g("aii", 1, v)
            g("cm", 1, 2)
    for _ in range(n // 2):
        # blocks read from a value reached by a history, negative ones above all
        g.begin()
        v = -abs(integer(rng, rng.randrange(1, 7)) << rng.choice([0, 0, 32, 64, 37])) if rng.random() < 0.7 else integer(rng, None, False)
        reach(g, 1, v)
        if g.m.B.get(1) is None:
            continue
        for b in rng.sample(range(0, 9), 4):
            g("blk", 1, b)
        g("in", rng.choice(["++x", "--x", "negate", "notself"]), 1)
        for b in rng.sample(range(0, 9), 3):
            g("blk", 1, b)
        g("as", 1)
        g("mag", 1, rng.randrange(0, 40))
    giants(g, few(budget, n // 200, 4), ops="b", most=most(budget))


# ---------------------------------------------------------------- P07
def p07(g, shard, nshards, part, tier, budget):
    n = budget["n"]
    rng = g.rng
    history(g, n // 12, 70, OPS, slots=rng.choice([3, 4, 6]), observe=0.5)
    history(g, n // 20, 40, OPS, slots=3, observe=1.0)
    aliases(g, OPS, n // 2)
    for _ in range(n):
        # share, then one operation on one of the sharers, then everything is looked at
        g.begin()
        v = integer(rng)
        make(g, 0, v)
        k = rng.randrange(1, 5)
        for i in range(1, k + 1):
            if rng.random() < 0.5:
                g("nc", i, rng.randrange(i))
            else:
                make(g, i, integer(rng, None, False))
                g("ca", i, rng.randrange(i))
        if rng.random() < 0.4:
            g(rng.choice(["blk", "ts"]), rng.randrange(k + 1), 2)
        i = rng.randrange(k + 1)
        j = rng.randrange(k + 1)
        r = rng.randrange(15)
        op = rng.choice(OPS)
        if r <= 3:
            if not (op in "/%" and g.m.B[j] == 0):
                g("ib", op, i, j)
        elif r == 4:
            x = int64(rng) or 1
            g("ii", op, i, x)
        elif r == 5:
            g("in", rng.choice(["++x", "--x", "x++", "x--", "negate", "abs", "notself", "notbits"]), i)
        elif r == 6:
            g("isl", i, rng.choice(SHIFTS))
        elif r == 7:
            g("isr", i, rng.choice(SHIFTS))
        elif r == 8:
            g("ai", i, int64(rng))
        elif r == 9:
            w, le = vals.wbytes(rng)
            g("sb", i, hx(w), le)
        elif r == 10:
            g("ss", i, 10, hx(vals.text_of(rng, integer(rng, None, False), 10).encode()), 1)
        elif r == 11:
            g("sw", i, (i + 1) % (k + 1))
        elif r == 12:
            g("del", i)
        elif r == 13:
            g("ma", i, j)
            if i == j:
                pass
            else:
                g(*rng.choice([("ai", j, int64(rng)), ("ca", j, i), ("aii", j, int64(rng)), ("sb", j, "ff01", 1), ("n", j)]))
        else:
            t = (i + 1) % (k + 1)
            g("nm", 9, t)
            g(*rng.choice([("ai", t, int64(rng)), ("ca", t, 9), ("ma", t, 9), ("n", t)]))
            if g.m.B.get(9) is None:
                g("ni", 9, 5)
        g("all")
        if i in g.m.B and g.m.B[i] is not None:
            g("in", rng.choice(["++x", "--x", "negate", "notself"]), i)
            g("all")
            q = [x for x in g.m.B if x != i and g.m.B[x] is not None]
            if q:
                g("in", rng.choice(["++x", "--x", "notbits", "notself"]), rng.choice(q))
                g("all")
    giants(g, few(budget, n // 150, 4), ops="q+-*/&|^<>u", most=most(budget, 8193))
