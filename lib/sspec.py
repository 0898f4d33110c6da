"""Reference semantics of stream operators on bit patterns, written from the operator definitions.

A value is (bits, width, signed, point).  Arithmetic on operands of one signedness is the mathematical
operation reduced to the result width; operands of mixed signedness follow Verilog (both unsigned)."""
import collections

V = collections.namedtuple('V', 'bits width signed point')


def mask(w):
    return (1 << w) - 1


def num(v):
    """integer represented by the value"""
    if v.signed and v.bits >> (v.width - 1) & 1:
        return v.bits - (1 << v.width)
    return v.bits


def mk(n, width, signed, point=0):
    return V(int(n) & mask(width), width, signed, point)


def const(n):
    return mk(n, n.bit_length() + 1, True)


def nums(a, b, w, point=None):
    """operands seen by a binary operator at width w, points aligned"""
    p = max(a.point, b.point)
    if a.signed and b.signed:
        x, y = num(a), num(b)
    else:
        x, y = a.bits, b.bits
    return x << (p - a.point), y << (p - b.point)


def binattr(a, b):
    p = max(a.point, b.point)
    return max(a.width - a.point, b.width - b.point) + p, a.signed and b.signed, p


def plus(a, b):
    w, s, p = binattr(a, b)
    x, y = nums(a, b, w)
    return mk(x + y, w, s, p)


def minus(a, b):
    w, s, p = binattr(a, b)
    x, y = nums(a, b, w)
    return mk(x - y, w, s, p)


def times(a, b):
    p = min(max(a.point, b.point), a.point + b.point)
    return mk((num(a) * num(b)) >> (a.point + b.point - p), max(a.width, b.width), a.signed and b.signed, p)


def muladd(a, b, c):
    return mk(num(a) * num(b) + num(c), max(a.width, b.width, c.width), a.signed and b.signed and c.signed,
              a.point + b.point)


def _div(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def divide(a, b):
    w, s, p = binattr(a, b)
    x, y = nums(a, b, w)
    return None if y == 0 else mk(_div(x, y), w, s, p)


def mod(a, b):
    w, s, p = binattr(a, b)
    x, y = nums(a, b, w)
    return None if y == 0 else mk(x - _div(x, y) * y, w, s, p)


def compare(f):
    def g(a, b):
        x, y = nums(a, b, None)
        return mk(f(x, y), 1, False)
    return g


lt = compare(lambda x, y: x < y)
le = compare(lambda x, y: x <= y)
gt = compare(lambda x, y: x > y)
ge = compare(lambda x, y: x >= y)
eq = compare(lambda x, y: x == y)
ne = compare(lambda x, y: x != y)


def ext(a, b):
    """bitwise operands extended to the common width"""
    w = max(a.width, b.width)
    if a.signed and b.signed:
        return num(a) & mask(w), num(b) & mask(w), w
    return a.bits, b.bits, w


def bitwise(f):
    def g(a, b):
        x, y, w = ext(a, b)
        return mk(f(x, y), w, False)
    return g


band = bitwise(lambda x, y: x & y)
bor = bitwise(lambda x, y: x | y)
bxor = bitwise(lambda x, y: x ^ y)
bxnor = bitwise(lambda x, y: ~(x ^ y))


def land(a, b):
    return mk(bool(a.bits) and bool(b.bits), 1, False)


def lor(a, b):
    return mk(bool(a.bits) or bool(b.bits), 1, False)


def sll(a, n):
    return mk(a.bits << n, a.width + n, a.signed, a.point)._replace(
        bits=(num(a) << n) & mask(a.width + n))


def sllv(a, b):
    w = a.width + 2 ** b.width
    return V((num(a) << b.bits) & mask(w), w, a.signed, a.point)


def srl(a, n):
    return V(a.bits >> n, a.width, False, a.point)


def sra(a, n):
    return mk(num(a) >> n, a.width, a.signed, a.point)


def uminus(a):
    return mk(-num(a), a.width, a.signed, a.point)


def unot(a):
    return mk(~a.bits, a.width, False)


def red(f):
    return lambda a: mk(f(a), 1, False)


uand = red(lambda a: a.bits == mask(a.width))
unand = red(lambda a: a.bits != mask(a.width))
uor = red(lambda a: a.bits != 0)
unor = red(lambda a: a.bits == 0)
uxor = red(lambda a: bin(a.bits).count('1') & 1)
uxnor = red(lambda a: 1 - (bin(a.bits).count('1') & 1))


def absv(a):
    return mk(abs(num(a)), a.width, a.signed, a.point)


def cast(a, width=None, point=None, signed=None):
    width = a.width if width is None else width
    point = a.point if point is None else point
    signed = a.signed if signed is None else signed
    n = num(a)
    n = n << (point - a.point) if point >= a.point else n >> (a.point - point)
    return mk(n, width, signed, point)


def recast(a, width=None, point=None, signed=None):
    width = a.width if width is None else width
    signed = a.signed if signed is None else signed
    return mk(num(a), width, signed, a.point if point is None else point)


def bit(a, i):
    return mk(a.bits >> i & 1 if i < a.width else 0, 1, False)


def slc(a, hi, lo):
    return mk(a.bits >> lo, hi - lo + 1, False)


def cat(*vs):
    b = w = 0
    for v in vs:
        b = b << v.width | v.bits
        w += v.width
    return mk(b, w, False)


def cond(c, a, b):
    """selects one value; the result format holds both operands"""
    p = max(a.point, b.point)
    w = max(a.width - a.point, b.width - b.point) + p
    x, y = nums(a, b, w)
    return mk(x if c.bits else y, w, a.signed or b.signed, p)


def tree(f, *a):
    if len(a) == 1:
        return a[0]
    h = len(a) // 2
    return f(tree(f, *a[:h]), tree(f, *a[h:]))


def plusn(*a):
    s = all(v.signed for v in a)
    return mk(sum(num(v) if s else v.bits for v in a), max(v.width for v in a), any(v.signed for v in a))
