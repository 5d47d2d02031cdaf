"""Hostile operands: boundary limbs, lengths around every threshold, operands derived from one another."""
from .model import I64MIN, I64MAX, enc, hx
from .refexpr import to_radix

LIMBS = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x10000, 0xffff, 0xffff0000, 0x40000000, 0xc0000000]
I64S = [0, 1, -1, 2, -2, 3, 7, 10, -10, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, -2**31, -2**31 - 1, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1,
        -(2**32 - 1), -2**32, -2**32 - 1, 2**33, 2**48, 10**9, 10**18, -10**18, 2**62, 2**63 - 2, 2**63 - 1, -2**63, -2**63 + 1, 0x7fffffff00000000, 0x0000000180000000, -0x80000000ffffffff % 2**63]


def int64(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(I64S)
    if r < 0.75:
        k = rng.randrange(0, 64)
        v = (1 << k) + rng.choice([-1, 0, 1])
        v = -v if rng.random() < 0.5 else v
        return max(I64MIN, min(I64MAX, v))
    k = rng.randrange(1, 64)
    v = rng.getrandbits(k)
    return -v if rng.random() < 0.5 else v


def limbs_len(rng, big=True):
    r = rng.random()
    if r < 0.05:
        return 0
    if r < 0.55:
        return rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
    if r < 0.75 or not big:
        return rng.randrange(1, 20)
    if r < 0.85:
        return rng.randrange(20, 79)
    if r < 0.96:
        return rng.choice([79, 80, 80, 81, 82, 85, 100, 120])
    return rng.choice([158, 159, 160, 161, 162, 200, 319, 320, 330])


def from_limbs(ls):
    v = 0
    for x in reversed(ls):
        v = v << 32 | x
    return v


def magnitude(rng, n):
    """a magnitude of exactly n limbs (n > 0)"""
    if n == 0:
        return 0
    r = rng.random()
    if r < 0.25:
        ls = [rng.getrandbits(32) for _ in range(n)]
    elif r < 0.5:
        ls = [rng.choice(LIMBS) for _ in range(n)]
    elif r < 0.65:      # runs
        ls = []
        while len(ls) < n:
            ls += [rng.choice(LIMBS + [rng.getrandbits(32)])] * rng.randrange(1, max(2, n))
        ls = ls[:n]
    elif r < 0.8:       # a power of two and its neighbours
        k = 32 * (n - 1) + rng.choice([0, 0, 1, 15, 16, 30, 31, rng.randrange(32)])
        v = (1 << k) + rng.choice([0, 0, -1, 1, -2, 1 << (k // 2), -(1 << (k // 2))])
        return abs(v) or 1
    elif r < 0.9:       # all ones, with a hole
        v = (1 << 32 * n) - 1 - (rng.choice([0, 1, 1 << rng.randrange(32 * n), 0xffffffff << 32 * rng.randrange(n)]))
        return max(v, 1)
    else:               # zeros between a high and a low part
        ls = [0] * n
        for _ in range(rng.choice([1, 1, 2, 3])):
            ls[rng.randrange(n)] = rng.choice(LIMBS + [rng.getrandbits(32)])
    if ls[-1] == 0:
        ls[-1] = rng.choice([1, 0x80000000, 0xffffffff, rng.getrandbits(32) or 1])
    return from_limbs(ls)


def signed(rng, v):
    return -v if rng.random() < 0.5 else v


def integer(rng, n=None, big=True):
    if n is None:
        n = limbs_len(rng, big)
    return signed(rng, magnitude(rng, n))


def related(rng, a):
    """an operand derived from a"""
    r = rng.randrange(12)
    if r == 0:
        return a
    if r == 1:
        return -a
    if r == 2:
        return a + rng.choice([-1, 1])
    if r == 3:
        return -a + rng.choice([-1, 1])
    if r == 4:
        return ~a
    if r == 5:
        return a >> rng.choice([1, 31, 32, 33, 64])
    if r == 6:
        return a << rng.choice([1, 31, 32, 33, 64])
    if r == 7:
        n = max(1, (abs(a).bit_length() + 31) // 32)
        return signed(rng, abs(a) ^ (1 << rng.randrange(32 * n)))
    if r == 8:
        n = max(1, (abs(a).bit_length() + 31) // 32)
        return signed(rng, (1 << 32 * n) - abs(a))      # carries through every limb
    if r == 9:
        n = max(1, abs(a).bit_length())
        return signed(rng, abs(a) % (1 << rng.randrange(1, n + 1)))
    if r == 10:
        return signed(rng, (1 << max(1, abs(a).bit_length())) - 1)
    return integer(rng, max(1, (abs(a).bit_length() + 31) // 32 + rng.choice([-1, 0, 1])))


B32 = 1 << 32


def knuth(u, v):
    """(corrections of the first estimate, add-backs, digits whose estimate reached the base) of a textbook division u / v"""
    n = (v.bit_length() + 31) // 32
    if n < 2 or u < v:
        return 0, 0, 0
    s = 32 * n - v.bit_length()
    u, v = u << s, v << s
    m = max(0, (u.bit_length() + 31) // 32 - n)
    vl = [(v >> 32 * i) & (B32 - 1) for i in range(n)]
    fix = add = full = 0
    for j in range(m, -1, -1):
        top = u >> 32 * (j + n - 2)
        hi = top >> 32
        qh, rh = divmod(hi, vl[-1])
        if qh >= B32:
            full += 1
        low = top & (B32 - 1)
        if qh >= B32 or qh * vl[-2] > rh * B32 + low:
            fix += 1
            qh -= 1
        q = u // (v << 32 * j)
        if qh > q:
            add += 1
        u -= q * (v << 32 * j)
    return fix, add, full


def division_pair(rng, big=True):
    """(a, b) around the hard cases of long division"""
    nb = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 8, 16]) if rng.random() < 0.85 or not big else rng.choice([40, 79, 80, 81])
    nq = rng.choice([0, 1, 1, 2, 2, 3, 4, 8]) if rng.random() < 0.85 or not big else rng.choice([40, 80, 81, 160])
    r = rng.random()
    if r < 0.35:
        # high limb of the divisor minimal or maximal, the next ones extreme: estimates are off most often here
        ls = [rng.choice([0, 1, 0xffffffff, 0xfffffffe, 0x80000000, rng.getrandbits(32)]) for _ in range(nb)]
        ls[-1] = rng.choice([0x80000000, 0x80000001, 0xffffffff, 0x7fffffff, 1, 0x40000000, 2])
        b = from_limbs(ls)
    else:
        b = magnitude(rng, nb)
    q = magnitude(rng, nq)
    k = rng.randrange(7)
    rem = [0, 1, b - 1, b // 2, max(0, b - 2), rng.randrange(b), 0][k] if b > 1 else 0
    a = q * b + rem
    if rng.random() < 0.25:
        # dividend with all-ones or zero stretches
        n = nb + nq
        ls = [rng.choice([0, 0, 0xffffffff, 0xfffffffe, 1, 0x7fffffff, 0x80000000]) for _ in range(max(1, n))]
        a = from_limbs(ls)
        if rng.random() < 0.5 and b:
            # leading limbs equal to the divisor's: the estimate reaches the base
            a = (b << 32 * max(1, nq)) - rng.choice([1, 2, 1 << 32, b // 3 + 1, B32 ** max(1, nq)])
            a = abs(a)
    return signed(rng, a), signed(rng, b)


ADDBACK = []


def addback_pairs(rng, want):
    """pairs whose long division needs the rare add-back step, found by search"""
    out = []
    tries = 0
    while len(out) < want and tries < 4000:
        tries += 1
        n = rng.choice([2, 3, 3, 3, 4, 5, 6])
        m = rng.choice([1, 1, 2, 3])
        # v = (2^31, 0.., hi) with a large lowest part; u just below a multiple: q-hat one too large
        ls = [rng.choice([0xffffffff, 0xfffffffe, rng.getrandbits(32), 1, 0]) for _ in range(n)]
        ls[-1] = rng.choice([0x80000000, 0x80000000, 0x80000001, 0xc0000000, 0x8000ffff])
        if n > 2:
            ls[-2] = rng.choice([0, 0, 1, 0xfffffffe, 0xffffffff])
        v = from_limbs(ls)
        ql = [rng.choice([0xffffffff, 0xfffffffe, 0x80000000, 1, 3, rng.getrandbits(32)]) for _ in range(m)]
        ql[-1] = ql[-1] or 1
        u = from_limbs(ql) * v + rng.choice([0, -1, 1, v - 1, v // 2])
        if u < 0:
            continue
        s = rng.choice([0, 0, 0, 1, 7, 31])
        if s:
            # an unnormalised divisor
            v >>= s
            u >>= s
        if v and knuth(u, v)[1]:
            out.append((u, v))
    return out


def curated():
    """small grid of values, every pair of which is worth trying"""
    s = {0, 1, 2, 3, 5, 10, 0xff, 0x100, 0xffff, 0x10000}
    for k in (31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 160):
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
    s |= {0xffffffff00000000, 0xffffffff00000001, 0x1ffffffff, 0x80000000ffffffff, 0x7fffffffffffffffffffffff, 0x800000000000000000000000,
          (1 << 96) - (1 << 32), (1 << 96) - (1 << 64), 0xffffffffffffffff00000000ffffffff, 10**9, 10**18, 10**19, 10**27, 10**38}
    return sorted(s)


def wbytes(rng):
    """a two's complement byte string and its byte order"""
    n = rng.choice([0, 1, 1, 2, 3, 4, 4, 5, 7, 8, 8, 9, 11, 12, 13, 15, 16, 17, 31, 32, 33, rng.randrange(1, 80), rng.randrange(300, 340)])
    r = rng.random()
    if r < 0.3:
        b = bytes(rng.getrandbits(8) for _ in range(n))
    elif r < 0.6:
        b = bytes(rng.choice([0, 0xff, 0x80, 0x7f, 1]) for _ in range(n))
    elif r < 0.8:
        b = bytes([rng.choice([0, 0xff])]) * n
        if n and rng.random() < 0.7:
            i = rng.randrange(n)
            b = b[:i] + bytes([rng.choice([0, 1, 0x7f, 0x80, 0xff, 0xfe])]) + b[i + 1:]
    else:           # sign padding, then a value
        k = rng.randrange(0, n + 1)
        b = bytes(rng.getrandbits(8) for _ in range(n - k))
        b = b + bytes([rng.choice([0, 0xff])]) * k if rng.random() < 0.5 else bytes([rng.choice([0, 0xff])]) * k + b
    return b, rng.randrange(2)


def text_of(rng, v, radix):
    """a valid text of v"""
    s = to_radix(abs(v), radix)
    s = "0" * rng.choice([0, 0, 0, 1, 2, 7, 30]) + s
    r = rng.random()
    if r < 0.35:
        s = s.upper()
    elif r < 0.5:
        s = "".join(c.upper() if rng.random() < 0.5 else c for c in s)
    if v < 0:
        return "-" + s
    return ("+" if rng.random() < 0.25 else "") + s


# native and textual ways to bring about the value v in slot i
def make(g, i, v):
    rng = g.rng
    r = rng.random()
    if I64MIN <= v <= I64MAX and r < 0.35:
        g("ni", i, v)
    elif r < 0.5:
        radix = rng.choice([10, 10, 16, 2, 36, rng.randrange(2, 37)])
        g("ns", i, radix, hx(text_of(rng, v, radix).encode()), rng.choice([0, 1, 2]))
    elif r < 0.75:
        n = (v if v >= 0 else ~v).bit_length() // 8 + 1 + rng.choice([0, 0, 1, 3, 8])
        le = rng.randrange(2)
        g("nb", i, hx(v.to_bytes(n, "little" if le else "big", signed=True)), le)
    else:
        g("nv", i, enc(v))
