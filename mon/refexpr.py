"""Reference recogniser and evaluator of infix expressions (the oracle of P08-P11, P20, P21).

Written from the statements of the properties, not from the parser: a scanner by regular expressions and
precedence climbing, with Python integers as values.  Texts whose meaning no property fixes raise Unspecified."""
import math
import re

DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


class Malformed(Exception):
    pass


class Unspecified(Exception):
    pass


class DivZero(Exception):
    pass


def parse_radix(s, radix):
    """value of s (bytes or str) in the radix, or None if it is not an integer of that radix"""
    if not 2 <= radix <= 36:
        return None
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    neg = False
    if s[:1] in ("+", "-"):
        neg = s[0] == "-"
        s = s[1:]
    if not s:
        return None
    ok = set(DIGITS[:radix] + DIGITS[:radix].upper())
    for c in s:
        if c not in ok:
            return None
    v = _conv(s, radix)
    return -v if neg else v


def _conv(s, radix):
    if radix in (2, 4, 8, 16, 32) or len(s) <= 2000:
        return int(s, radix)
    h = len(s) // 2
    return _conv(s[:h], radix) * radix ** (len(s) - h) + _conv(s[h:], radix)


def to_radix(v, radix):
    if v == 0:
        return "0"
    neg, v = v < 0, abs(v)
    if radix == 10:
        s = str(v)
    elif radix == 16:
        s = "%x" % v
    elif radix == 8:
        s = "%o" % v
    elif radix == 2:
        s = bin(v)[2:]
    else:
        s = _to(v, radix)
    return "-" + s if neg else s


def _to(v, radix):
    # divide and conquer on powers of the radix
    pows = [(radix, 1)]
    while pows[-1][0] * pows[-1][0] <= v:
        p, n = pows[-1]
        pows.append((p * p, 2 * n))

    def rec(x, k, pad):
        if k < 0:
            return DIGITS[x]
        p, n = pows[k]
        hi, lo = divmod(x, p)
        if hi == 0 and not pad:
            return rec(lo, k - 1, False)
        return rec(hi, k - 1, pad) + rec(lo, k - 1, True)
    return rec(v, len(pows) - 1, False).lstrip("0") or "0"


TWO = ("**", "<<", ">>", "<=", ">=", "==", "!=")
ONE = "+-*/%!&|^~<>(),?:"
WS = " \t\r\n"


def plain_hook(radix, digits, frac):
    """what the library makes of a literal if nobody changes it"""
    return parse_radix(digits, radix) if re.match(r"^[0-9a-zA-Z]+$", digits) else None


def scan(text, symbols, hook=plain_hook):
    """list of tokens: ('num', v) | ('const', name) | ('func', name) | (op,)"""
    toks = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c in WS:
            i += 1
            continue
        if c == "\0" or c in "\v\f":
            raise Unspecified("white space of an unlisted kind")
        if c in DIGITS[:10]:
            j = i
            while j < n and (text[j].isascii() and text[j].isalnum()):
                j += 1
            word = text[i:j]
            frac = None
            if j < n and text[j] == ".":
                k = j + 1
                while k < n and text[k].isascii() and text[k].isalnum():
                    k += 1
                frac = text[j + 1:k]
            toks.append(literal(word, frac, hook))
            i = j if frac is None else k
            if word == "0" and frac is not None:
                raise Unspecified("0.x")
            continue
        if (c.isascii() and c.isalpha()) or c == "_":
            j = i
            while j < n and ((text[j].isascii() and text[j].isalnum()) or text[j] == "_"):
                j += 1
            name = text[i:j]
            kind = symbols.get(name)
            if kind is None:
                raise Malformed("undefined symbol " + name)
            toks.append((kind[0], name))
            i = j
            continue
        two = text[i:i + 2]
        if two in TWO:
            toks.append((two,))
            i += 2
        elif c in ONE:
            toks.append((c,))
            i += 1
        else:
            raise Malformed("character")
    return toks


LIT = re.compile(r"^0(\d{0,2})x([0-9a-zA-Z]*)$")


def literal(word, frac, hook=plain_hook):
    if re.match(r"^0\d{0,2}X", word):
        raise Unspecified("upper-case X")
    m = LIT.match(word)
    if m:
        radix = int(m.group(1)) if m.group(1) else 16
        digits = m.group(2)
    elif word == "0":
        radix, digits = 10, "0"
    elif word[0] == "0":
        if not word[1].isdigit():
            raise Malformed("0 followed by a letter")  # two tokens that cannot stand beside each other
        radix, digits = 8, word[1:]
    else:
        radix, digits = 10, word
    if frac is not None:
        if radix != 10 or m or word[0] == "0":
            if word == "0":
                raise Unspecified("0.x")
            raise Malformed("fraction part of a non-decimal literal")
        if not re.match(r"^\d+$", frac):
            raise Unspecified("fraction part")
    if not 2 <= radix <= 36:
        raise Malformed("radix")
    v = hook(radix, digits.lower(), frac or "")
    if v is None:
        raise Malformed("literal")
    return ("num", v)


BIN = {"|": 1, "^": 2, "&": 3, "==": 4, "!=": 4, "<": 5, "<=": 5, ">": 5, ">=": 5, "<<": 6, ">>": 6,
       "+": 7, "-": 7, "*": 8, "/": 8, "%": 8, "**": 9}


def parse(text, symbols, hook=plain_hook):
    toks = scan(text, symbols, hook)
    pos = 0

    def peek():
        return toks[pos][0] if pos < len(toks) else None

    def take(t):
        nonlocal pos
        if peek() == t:
            pos += 1
            return True
        return False

    def expr():
        c = binary(1)
        if not take("?"):
            return c
        t = expr()
        if not take(":"):
            raise Malformed(":")
        return ("?", c, t, expr())

    def binary(level):
        if level == 10:
            return unary()
        left = binary(level + 1)
        while BIN.get(peek()) == level:
            op = peek()
            take(op)
            left = ("b" + op, left, binary(level + 1))
        return left

    def unary():
        for op in "+-~":
            if take(op):
                return ("u" + op, unary())
        return postfix()

    def postfix():
        v = prim()
        while take("!"):
            v = ("!", v)
        return v

    def prim():
        nonlocal pos
        if take("("):
            v = expr()
            if not take(")"):
                raise Malformed(")")
            return v
        if peek() in ("num", "const"):
            pos += 1
            return toks[pos - 1]
        if peek() == "func":
            name = toks[pos][1]
            pos += 1
            if not take("("):
                raise Malformed("call")
            args = []
            if not take(")"):
                while True:
                    args.append(expr())
                    if take(")"):
                        break
                    if not take(","):
                        raise Malformed(",")
            argc = symbols[name][1]
            if argc != -1 and argc != len(args):
                raise Malformed("number of arguments")
            return ("call", name, args)
        raise Malformed("operand")

    v = expr()
    if pos != len(toks):
        raise Malformed("trailing tokens")
    return v


class Thrown(Exception):
    pass


class Evaluator:
    """value of a tree; .calls the calls that have to happen.  With eager, the branches of ?: that are not taken
    are evaluated as well, and .lost tells that something in them has no value"""

    def __init__(self, symbols, max_bits=400000, eager=False):
        self.eager, self.lost, self.huge = eager, False, False
        self.symbols = symbols
        self.calls = []
        self.max_bits = self.max_shift = max_bits
        self.max_fact = 3000
        self.div = False

    def ev(self, t):
        k = t[0]
        if k == "num":
            return t[1]
        if k == "const":
            return self.symbols[t[1]][1]
        if k == "?":
            taken, other = (t[2], t[3]) if self.ev(t[1]) != 0 else (t[3], t[2])
            if self.eager:
                try:
                    self.ev(other)
                except Unspecified:
                    self.huge = True
                except (DivZero, Thrown):
                    self.lost = True
            return self.ev(taken)
        if k == "call":
            args = [self.ev(x) for x in t[2]]
            self.calls.append((t[1], tuple(args)))
            return call(self.symbols[t[1]][2], t[1], args)
        if k == "u+":
            return self.ev(t[1])
        if k == "u-":
            return -self.ev(t[1])
        if k == "u~":
            return ~self.ev(t[1])
        if k == "!":
            v = self.ev(t[1])
            if v < 0 or v > self.max_fact:
                raise Unspecified("factorial operand")
            return math.factorial(v)
        a, b = self.ev(t[1]), self.ev(t[2])
        r = binop(k[1:], a, b, self.max_shift if k == "b<<" else self.max_bits)
        return r


def call(kind, name, args):
    if kind in ("throw", "throwplain"):
        raise Thrown(name)
    if kind in ("sum", "mut"):
        return sum(args)
    if kind == "max":
        return max(args) if args else 0
    if kind == "poly":
        r = 0
        for a in reversed(args):
            r = r * 1000003 + a
        return r
    if kind == "count":
        return len(args)
    if kind == "nest":
        return sum(args) + 9
    return args[0] if args else 7


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def binop(op, a, b, max_bits=1 << 62):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if b == 0:
            raise DivZero()
        return tdiv(a, b)
    if op == "%":
        if b == 0:
            raise DivZero()
        return a - b * tdiv(a, b)
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<":
        if b < 0 or (a and b > max_bits):
            raise Unspecified("shift count")
        if a == 0:
            return 0
        return a << b
    if op == ">>":
        if b < 0:
            raise Unspecified("shift count")
        if b > a.bit_length():
            return -1 if a < 0 else 0
        return a >> b
    if op == "**":
        if b < 0:
            raise Unspecified("exponent")
        if b > 2000 or a.bit_length() * b > max_bits:
            raise Unspecified("too big")
        return a ** b
    r = {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    return 1 if r else 0


def cheap(t):
    """one shift to the left among few operations none of which is costly on a very long operand: the result may be very long"""
    ops = []

    def rec(x):
        ops.append(x[0])
        if x[0] not in ("num", "const"):
            for y in x[2] if x[0] == "call" else x[1:]:
                rec(y)
    rec(t)
    return len(ops) <= 9 and ops.count("b<<") == 1 and not set(ops) & {"b*", "b/", "b**", "!", "call", "?"}


def size(t):
    """number of nodes"""
    if t[0] in ("num", "const"):
        return 1
    if t[0] == "call":
        return 1 + sum(size(x) for x in t[2])
    return 1 + sum(size(x) for x in t[1:])


def all_calls_possible(t):
    """does any ?: have a call in a branch?"""
    def has_call(x):
        if x[0] == "call":
            return True
        if x[0] in ("num", "const"):
            return False
        return any(has_call(y) for y in (x[2] if x[0] == "call" else x[1:]))

    def rec(x):
        if x[0] == "?":
            if has_call(x[2]) or has_call(x[3]):
                return True
        if x[0] in ("num", "const"):
            return False
        return any(rec(y) for y in (x[2] if x[0] == "call" else x[1:]))
    return rec(t)


def risky(t):
    """does the tree contain an operator whose cost depends on the value of an operand?"""
    if t[0] in ("num", "const"):
        return False
    return t[0] in ("b**", "b<<", "!") or any(risky(x) for x in (t[2] if t[0] == "call" else t[1:]))
