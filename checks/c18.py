"""C18: fixed-point and saturating arithmetic is exact up to the declared point."""
import itertools
import os
import re
import sys
from fractions import Fraction as F
from math import floor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import iv
import rtl

import veriloggen as vg
import veriloggen.types.fixed as fx
import veriloggen.types.saturate as sat

Q = tier() == 'quick'


def val(bits, w, s, p):
    n = bits - (1 << w) if s and bits >> (w - 1) else bits
    return F(n) / F(2) ** p


def fl(v, p):
    """the value truncated to p fraction bits"""
    return F(floor(v * F(2) ** p)) / F(2) ** p


def quo(a, b):
    """the integer part of a quotient"""
    q = abs(a) / abs(b)
    return floor(q) * (1 if (a < 0) == (b < 0) else -1)


class Skip(Exception):
    pass


CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


class X:
    """an exact value with its point; operations are those of the operands' width, so operands and results have to fit"""

    def __init__(self, v, p, w, s):
        v = F(v)
        raw = v * F(2) ** p
        if raw.denominator != 1:
            raise HarnessError('%s has no point %d' % (v, p))
        if not (-(1 << (w - 1)) <= raw < 1 << (w - 1) if s else 0 <= raw < 1 << w):
            raise Skip
        self.v, self.p, self.w, self.s = v, p, w, s

    def mk(self, v, p):
        return X(v, p, self.w, self.s)

    def align(self, o):
        p = max(self.p, o.p)
        self.mk(self.v, p), self.mk(o.v, p)
        return p

    def __add__(self, o):
        return self.mk(self.v + o.v, self.align(o))

    def __sub__(self, o):
        return self.mk(self.v - o.v, self.align(o))

    def __neg__(self):
        return self.mk(-self.v, self.p)

    def __mul__(self, o):
        p = max(self.p, o.p)
        self.mk(self.v * o.v, self.p + o.p)
        return self.mk(fl(self.v * o.v, p), p)

    def __truediv__(self, o):
        if o.v == 0:
            raise Skip
        p = max(self.p, o.p)
        if self.p <= o.p:
            self.align(o)
        # magnitudes too: the sign of the most negative value does not go away
        self.mk(abs(self.v), self.p), self.mk(abs(o.v), o.p)
        d = max(self.p - o.p, 0)    # the quotient carries the difference of the points (K-C18-1)
        return self.mk(F(quo(self.v * 2 ** d, o.v), 2 ** d), p)

    def cmp(self, o, f):
        self.align(o)
        return f(self.v, o.v)


class T(X):
    """what a thread program computes with: 32-bit words, plain numbers mix in with point 0"""

    def lift(self, o):
        return o if isinstance(o, X) else T(o, 0, self.w, self.s)

    def mk(self, v, p):
        return T(v, p, self.w, self.s)

    @property
    def int_part(self):
        return floor(self.v)

    @property
    def point(self):
        return self.p

    def __rshift__(self, n):
        return self.mk(fl(self.v / 2 ** n, self.p), self.p)

    def __lshift__(self, n):
        return self.mk(self.v * 2 ** n, self.p)


def _lift(n, swap):
    f = getattr(X, n)

    def g(self, o):
        o = self.lift(o)
        return f(o, self) if swap else f(self, o)
    setattr(T, n if not swap else n.replace('__', '__r', 1), g)


for _n in ('__add__', '__sub__', '__mul__', '__truediv__'):
    _lift(_n, False)
    _lift(_n, True)
for _n, _f in CMP.items():
    setattr(T, '__%s__' % _n, (lambda f: lambda self, o: self.cmp(self.lift(o), f))(_f))

# name -> (python expression over x, y, the same over exact values)
BIN = {
    'plus': (lambda x, y: x + y, None),
    'minus': (lambda x, y: x - y, None),
    'times': (lambda x, y: x * y, None),
    'div': (lambda x, y: x / y, None),
    'mix': (lambda x, y: (x + y) * x - y, None),
    'neg': (lambda x, y: -(x - y) + y, None),
    'mul3': (lambda x, y: x * y * x, None),
    'paren': (lambda x, y: x - (y - (x - y)), None),
}
UN = {
    'id': (lambda x: x, lambda a: a),
    'neg': (lambda x: -x, lambda a: -a),
    'pos': (lambda x: +x, lambda a: a),
    'int': (lambda x: x.int_part, lambda a: a.mk(floor(a.v), 0)),
    'toint': (lambda x: x.to_int(), lambda a: a.mk(floor(a.v), 0)),
    'fxint': (lambda x: fx.fixed_to_int(x, x.point), lambda a: a.mk(floor(a.v), 0)),
    'dec': (lambda x: fx._FixedSkipUnaryOperator(x.dec_part, x.point, True), lambda a: a.mk(a.v - floor(a.v), a.p)),
    'low': (lambda x: fx._FixedSkipUnaryOperator(fx.fixed_to_int_low(x, x.point), x.point, True), lambda a: a.mk(a.v - floor(a.v), a.p)),
    'sll1': (lambda x: x << 1, lambda a: a.mk(a.v * 2, a.p)),
    'sra1': (lambda x: x >> 1, lambda a: a.mk(fl(a.v / 2, a.p), a.p)),
    'raw': (lambda x: x.raw, lambda a: a.mk(a.v * 2 ** a.p % 2 ** a.w, 0)),
    'real': (lambda x: vg.SystemTask('rtoi', fx.fixed_to_real(x, x.point) * vg.SystemTask('itor', 1 << x.point)), lambda a: a.mk(a.v * 2 ** a.p, 0)),
    'reinterpret': (lambda x: fx.reinterpret_cast_to_fixed(x, 2, x.signed), lambda a: a.mk(a.v * F(2) ** a.p / 4, 2)),
    'cast': (lambda x: fx.reinterpret_cast_to_fixed(fx.write_adjust(x, 1), 1, x.signed), lambda a: a.mk(fl(a.v, 1), 1)),
}
for _k in (0, 1, 3, -2, 'c', 'd'):
    _n = {'c': F(3, 2), 'd': F(-5, 4)}.get(_k, F(_k) if not isinstance(_k, str) else None)
    _c = (lambda n: lambda: fx.FixedConst(float(n), point=3))(_n) if isinstance(_k, str) else (lambda k: lambda: k)(_k)
    _p = 3 if isinstance(_k, str) else 0
    for _b in ('plus', 'minus', 'times', 'div'):
        if _b == 'div' and _k == 0:
            continue
        UN['%s %s' % (_b, _k)] = ((lambda b, c: lambda x: BIN[b][0](x, c()))(_b, _c), (lambda b, n, p: lambda a: BIN[b][0](a, a.mk(n, p)))(_b, _n, _p))
    for _b in CMP:
        UN['%s %s' % (_b, _k)] = ((lambda b, c: lambda x: CMP[b](x, c()))(_b, _c), (lambda b, n, p: lambda a: a.cmp(a.mk(n, p), CMP[b]))(_b, _n, _p))


def grid(w, k):
    if w <= (6 if k == 1 else 5):
        return list(range(1 << w))
    m, h = (1 << w) - 1, 1 << (w - 1)
    return sorted({v & m for v in (0, 1, 2, 3, m, m - 1, m - 6, h, h + 1, h - 1, 0x5a5a5a5a, 0xa5a5a5a5, 1 << (w // 2), (1 << (w // 2)) - 1, 0x100, 0xff, 0xffffff80, 0x12345678)})


# ---------------------------------------------------------------------------
def skip(v):
    if v is None:
        raise Skip
    return v


def clamp(v, lo, hi):
    return min(max(v, lo), hi)


@rtl.guarded
def sats(res, it):
    """saturating writes and operations of plain signals of width w into width d"""
    w, s, d = it
    sg = bool(s)
    m = vg.Module('main')
    x, y = m.Input('x', w, signed=sg), m.Input('y', w, signed=sg)
    lo, hi = (-(1 << (d - 1)), (1 << (d - 1)) - 1) if s else (0, (1 << d) - 1)
    W = 72
    outs = []

    def out(name, e, spec, write=False):
        i = len(outs)
        o = m.Output('o%d' % i, d if write else W, signed=sg)
        if write:
            m.Assign(sat.write(o, e))
        else:
            o.assign(e)
        outs.append((name, spec, d if write else W))

    E = {'plus': (lambda a, b: a + b), 'minus': (lambda a, b: a - b), 'x': (lambda a, b: a), 'plus3': (lambda a, b: a + b + a),
         'pm': (lambda a, b: a + b - a), 'mp': (lambda a, b: a - b + b), 'mm': (lambda a, b: a - (b - a)), 'pxm': (lambda a, b: a + (b - a)), 'pxp': (lambda a, b: b + (a + b)), 'deep': (lambda a, b: (a - b) + (b - a) - (a + b)), 'const': (lambda a, b: a + 3), 'constm': (lambda a, b: a - 3)}

    def steps(e, lo, hi):
        class C:
            def __init__(self, v):
                self.v = v

            def __add__(self, o):
                return C(clamp(self.v + (o.v if isinstance(o, C) else o), lo, hi))

            def __sub__(self, o):
                return C(clamp(self.v - (o.v if isinstance(o, C) else o), lo, hi))
        return lambda v: clamp(e(C(v[0]), C(v[1])).v, lo, hi)
    for n, e in E.items():
        out('write ' + n, e(x, y), steps(e, lo, hi), True)
    if d >= w:    # limits of their own; both operands are inside the range of the result
        out('add', sat.add(x, y, d), lambda v: clamp(v[0] + v[1], lo, hi))
        out('sub', sat.sub(x, y, d), lambda v: clamp(v[0] - v[1], lo, hi))
    h2, l2 = max(hi - 2, 1), (min(lo + 1, -1) if s else 1)
    out('add lim', sat.add(x, y, d, h2, l2), lambda v: clamp(v[0] + v[1], l2 if s else 0, h2))
    if s or d >= w:
        out('sub lim', sat.sub(x, y, d, h2, l2), lambda v: clamp(v[0] - v[1], l2, h2))
    out('sub const', sat.sub(vg.Int(3), x, d) if not s else sat.sub(x, 3, d), (lambda v: clamp(v[0] - 3, lo, hi) if d >= w else None) if s else (lambda v: clamp(3 - v[0], lo, hi)))
    out('to', sat.to_saturate(x, d, h2, l2, sg), lambda v: clamp(v[0], l2 if s else 0, h2))

    sweep(res, 'sat %d%s>%d' % (w, 'us'[s], d), m, [('x', w), ('y', w)], [(n, k) for n, _, k in outs], lambda bits: [int(val(b, w, s, 0)) for b in bits],
          lambda j, v: skip(outs[j][1](v)) & ((1 << outs[j][2]) - 1))


@rtl.guarded
def ops(res, it):
    fmts, q = it
    m = vg.Module('main')
    xs = [fx.FixedInput(m, 'xy'[i], width=w, point=p, signed=bool(s)) for i, (w, s, p) in enumerate(fmts)]
    w0, s0 = max(f[0] for f in fmts), fmts[0][1]
    outs = []

    def out(name, e, spec, bit=False):
        i = len(outs)
        if bit:
            m.Output('o%d' % i, 1).assign(e)
        else:
            fx.FixedOutput(m, 'o%d' % i, width=w0, point=q, signed=bool(s0)).assign(e)
        outs.append((name, spec, bit))

    if len(fmts) == 1:
        for name, (e, spec) in UN.items():
            k = name.split()[-1] if ' ' in name else ''
            if name == 'real' and (fmts[0][2] > 30 or w0 > 31 and not s0):    # $itor takes a 32-bit integer
                continue
            if not s0 and (k in ('-2', 'd', 'c') or name == 'neg'):
                continue
            out(name, e(xs[0]), (lambda spec: lambda v: spec(v[0]))(spec), name.split()[0] in CMP)
    else:
        for name, (e, _) in BIN.items():
            out(name, e(*xs), (lambda e: lambda v: e(*v))(e))
        for name, f in CMP.items():
            out(name, f(*xs), (lambda f: lambda v: v[0].cmp(v[1], f))(f), True)
            out(name + ' sum', f(xs[0] + xs[1], xs[1]), (lambda f: lambda v: (v[0] + v[1]).cmp(v[1], f))(f), True)

    def expect(j, v):
        name, spec, bit = outs[j]
        e = spec([X(a, p, w0, s) for a, (w, s, p) in zip(v, fmts)])
        if bit:
            return int(e)
        if e.p < q:
            e.mk(e.v, q)
        return floor(e.v * F(2) ** q) & ((1 << w0) - 1)

    sweep(res, '%s>%s' % (fmts, q), m, [('xy'[i], w) for i, (w, s, p) in enumerate(fmts)], [(n, 1 if b else w0) for n, _, b in outs],
          lambda bits: [val(b, *f) for b, f in zip(bits, fmts)], expect)


# thread programs: every input vector is one run of the body
BODY = """
t = x + y
o0.value = t
t = x - y
u = t * 3
o1.value = u
if x < y:
    o2.value = x
elif x == y:
    o2.value = (x + 1) - x
else:
    o2.value = y
i0.value = x.int_part
i1.value = vthread.fixed.fixed_to_int(y, y.point)
z = x * y
z += 2
o3.value = z
c = vthread.fixed.FixedConst(0.5, PA)
c = c + x
o4.value = c
o5.value = x - 3
i2.value = 1 if y < 2 else 0
i3.value = 5
if y >= -1:
    i3.value = 6
if x != y and not x > 0:
    i3.value += 8
n = x.int_part
n = n + 2
k = vthread.fixed.cast_to_fixed(n, 3)
o6.value = k
k = k - 1
for j in range(3):
    k = k + j
o7.value = k
ram.write(3, x)
ram.write(4, y)
r = ram.read(3)
r = r + ram.read(4)
o8.value = r
fifo.enq(y)
fifo.enq(x)
q = fifo.deq()
o9.value = q
q = fifo.deq()
o10.value = q + y
o11.value = x * 1.5
o12.value = x + 0.25
i4.value = 1 if y < 0.75 else 0
o14.value = (x + y) >> 1
o15.value = -x
o16.value = vthread.fixed.reinterpret_cast_to_fixed(y, 1)
o13.value = xn
ram.write(2, xn)
o17.value = ram.read(2)
"""


class Shim:
    """vthread as the reference sees it"""

    class fixed:
        FixedConst = staticmethod(lambda v, p: T(F(int(F(v) * 2 ** p)) / 2 ** p, p, 32, 1))
        cast_to_fixed = staticmethod(lambda v, p: T(fl(F(v if not isinstance(v, X) else v.v), p), p, 32, 1))
        fixed_to_int = staticmethod(lambda v, p: floor(v.v))
        reinterpret_cast_to_fixed = staticmethod(lambda v, p: T(v.v * F(2) ** (v.p - p), p, 32, 1))


class Cell:
    def __init__(self):
        self.value = None


class Mem(dict):
    def __init__(self, p):
        self.p, self.q = p, []

    def cast(self, v):
        return T(fl(v.v, self.p), self.p, 32, 1)

    def write(self, a, v):
        self[a] = self.cast(v)

    def read(self, a):
        return self[a]

    def enq(self, v):
        self.q.append(self.cast(v))

    def deq(self):
        return self.q.pop(0)


def lit(body, point):
    """float literals have the point of the thread"""
    return re.sub(r'(?<![\w(])(\d+\.\d+)', lambda mo: 'vthread.fixed.FixedConst(%s, %d)' % (mo.group(1), point), body)


@rtl.guarded
def progs(res, it):
    (wa, pa), (wb, pb), q, mp, tp, dw = it
    tag = 'p%d_%d_%d_%d_%d_%d_%d_%d' % (wa, pa, wb, pb, q, mp, tp, dw)
    m = vg.Module('main')
    clk, rst = m.Input('CLK'), m.Input('RST')
    req, ack = m.Input('req'), m.OutputReg('ack', initval=0)
    E = dict(x=fx.FixedInput(m, 'x', 32, pa), y=fx.FixedInput(m, 'y', 32, pb), xn=fx.FixedInput(m, 'xn', wa, pa), req=req, ack=ack)
    names = sorted(set(re.findall(r'\b([oi]\d+)\.value', BODY)), key=lambda n: (n[0], int(n[1:])))
    for n in names:
        E[n] = fx.FixedOutputReg(m, n, width=32, point=q, initval=0) if n[0] == 'o' else m.OutputReg(n, 32, signed=True, initval=0)
    import veriloggen.thread as vthread
    E['ram'] = vthread.FixedRAM(m, 'ram', clk, rst, 32, 3, point=mp)
    E['fifo'] = vthread.FixedFIFO(m, 'fifo', clk, rst, 32, 2, point=mp)
    body = re.sub(r'(o\d+).value = (.*)', r'\1.value = vthread.fixed.cast_to_fixed(\2, %d)' % q, BODY.replace('PA', str(pa)))    # a thread refuses to assign across points
    if dw > 32:
        body = '\n'.join(l for l in body.splitlines() if 'ram.' not in l and 'fifo.' not in l and not re.match('o(8|9|10|17).value|q = |r = ', l))
    ind = lambda n, t: '\n'.join(' ' * n + l for l in t.strip().splitlines())
    text = 'import veriloggen.thread as vthread\ndef build(m, clk, rst, E, dw, tp):\n'
    text += ''.join('    %s = E["%s"]\n' % (n, n) for n in E)
    text += '    def prog():\n        while True:\n            while req == ack:\n                pass\n%s\n            ack.value = req\n' % ind(12, body)
    text += '    vthread.Thread(m, "th", clk, rst, prog, datawidth=dw, point=tp).start()\n'
    with open(tag + '.py', 'w') as f:
        f.write(text)
    import importlib.util
    import linecache
    spec = importlib.util.spec_from_file_location(tag, os.path.abspath(tag + '.py'))
    mod = importlib.util.module_from_spec(spec)
    linecache.clearcache()
    spec.loader.exec_module(mod)
    mod.build(m, clk, rst, E, dw, tp)
    ref = compile(lit(body, tp), tag, 'exec')
    cache = {}

    def expect(j, v):
        key = tuple(v)
        if key not in cache:
            cells = {n: Cell() for n in names}
            env = dict(cells, x=T(v[0], pa, 32, 1), xn=T(v[0], pa, 32, 1), y=T(v[1], pb, 32, 1), vthread=Shim, ram=Mem(mp), fifo=Mem(mp))
            env['fifo'] = Mem(mp)
            exec(ref, env)
            cache.clear()
            cache[key] = cells
        e = cache[key][names[j]].value
        if e is None:
            raise Skip
        if not isinstance(e, X):
            e = T(e, 0, 32, 1)
        return floor(e.v * F(2) ** (q if names[j][0] == 'o' else 0)) & 0xffffffff
    sweep(res, 'thread ' + tag, m, [('x', wa), ('y', wb)], [(n, 32) for n in names], lambda b: [val(b[0], wa, 1, pa), val(b[1], wb, 1, pb)], expect, seq=True)


def sweep(res, what, m, ins, outs, conv, expect, seq=False):
    text = m.to_verilog()
    grids = [grid(w, len(ins)) for _, w in ins]
    decl, loops, conn = [], [], []
    for i, (n, w) in enumerate(ins):
        decl.append('reg signed [%d:0] %s; reg [%d:0] g%d [0:%d]; integer i%d;' % (w - 1, n, w - 1, i, len(grids[i]) - 1, i))
        loops.append('for(i%d=0; i%d<%d; i%d=i%d+1)' % (i, i, len(grids[i]), i, i))
        conn.append('.%s(%s)' % (n, n))
    for j, (n, w) in enumerate(outs):
        decl.append('wire [%d:0] o%d;' % (w - 1, j))
        conn.append('.%s(o%d)' % (n if seq else 'o%d' % j, j))
    wait = '#1'
    if seq:
        decl.append('reg CLK=0, RST=0, req=0; wire ack; always #5 CLK = !CLK; initial begin RST=1; #23 RST=0; #2000000000 $finish(0); end')
        conn += ['.CLK(CLK)', '.RST(RST)', '.req(req)', '.ack(ack)', '.xn(x)']
        loops.insert(0, '#50')
        wait = 'req = !req; while(ack !== req) @(negedge CLK);'
    init = ' '.join("g%d[%d]=%d'h%x;" % (i, k, ins[i][1], v) for i, g in enumerate(grids) for k, v in enumerate(g))
    tb = 'module tb;\n%s\n main u(%s);\n initial begin %s\n %s begin %s %s $display("%s", %s); end $finish(0); end\nendmodule\n' % (
        '\n'.join(decl), ', '.join(conn), init, ' '.join(loops), ' '.join('%s=g%d[i%d];' % (n, i, i) for i, (n, w) in enumerate(ins)), wait,
        ' '.join(['%h'] * len(outs)), ', '.join('o%d' % j for j in range(len(outs))))
    try:
        lines = [l.split() for l in iv.simulate(text + tb, tag='f' + re.sub(r'\W+', '_', what)).splitlines() if l.strip()]
    except iv.Reject as e:
        res['violations'].append(('invalid:' + what, 'emitted text rejected: %s' % str(e)[-400:], text))
        return
    bad = set()
    pts = list(itertools.product(*grids))
    if len(lines) != len(pts):
        raise HarnessError('%s: %d lines of %d' % (what, len(lines), len(pts)))
    for bits, line in zip(pts, lines):
        v = conv(bits)
        for j, (name, w) in enumerate(outs):
            if name in bad:
                continue
            try:
                e = expect(j, v)
            except Skip:
                continue
            res['transitions'] += 1
            if not re.fullmatch('[0-9a-f]+', line[j]) or int(line[j], 16) != e:
                bad.add(name)
                res['violations'].append(('op:' + name, '%s of %s (%s): is 0x%s, expected 0x%x' % (name, [str(x) for x in v], what, line[j], e), text))
    res['states'] += len(pts) * len(outs)
    res['traces'] += 1
    res['counts']['operator instances'] = res['counts'].get('operator instances', 0) + len(outs)
    res['samples'].append(dict(config=what, operators=len(outs), vectors=len(pts)))


def dispatch(it):
    return globals()[it[0]](*it[1:])


def items():
    its = []
    for w in (2, 3, 4, 6, 8, 32):
        for s in (0, 1):
            for p in sorted({0, 1, 2, w // 2, w - 1}):
                if p < w:
                    for q in (0, 2, 4) if Q else (0, 1, 2, 3, 4, 8):
                        its.append(('ops', (((w, s, p),), q)))
    for w, d in itertools.product((2, 3, 4, 5) if Q else (2, 3, 4, 5, 6, 7), (2, 3, 4, 5, 6, 8)):
        for s in (0, 1):
            its.append(('sats', (w, s, d)))
    its += [('sats', (w, s, d)) for w, d in ((8, 8), (16, 8), (31, 16), (32, 32), (40, 32), (33, 33)) for s in (0, 1)]
    for w in (3, 4, 5) if Q else (2, 3, 4, 5, 6):
        for s in (0, 1):
            for pa, pb in itertools.product(range(min(w, 4)), repeat=2):
                for q in (1, 3) if Q else (0, 1, 2, 3, 5):
                    its.append(('ops', (((w, s, pa), (w, s, pb)), q)))
    for a, b in itertools.permutations((3, 4, 6), 2):
        for s in (0, 1):
            for pa, pb in itertools.product(range(3), repeat=2):
                its.append(('ops', (((a, s, pa), (b, s, pb)), 2)))
    for w, pa, pb in ((8, 4, 4), (8, 2, 4), (8, 4, 2), (16, 8, 4), (32, 8, 8), (32, 8, 16), (32, 16, 8), (16, 8, 0), (32, 0, 16)):
        for s in (0, 1):
            for q in (pa, pb, 1):
                its.append(('ops', (((w, s, pa), (w, s, pb)), q)))
    for pa, pb in itertools.product((0, 2, 3) if Q else (0, 1, 2, 3), repeat=2):
        its.append(('progs', ((5, pa), (4, pb), 2 if pa != 2 else 4, 3, 3, 32)))
    its += [('progs', ((5, 1), (4, 3), q, mp, tp, dw)) for q, mp, tp, dw in ((0, 3, 4, 32), (1, 1, 2, 32), (5, 0, 2, 32), (3, 3, 3, 40), (8, 6, 6, 32), (4, 8, 3, 24))]
    return its


def main():
    c = Check('C18')
    its = items()
    if len(sys.argv) > 1:
        its = [i for i in its if i[0] == sys.argv[1]]
    for r in pmap(dispatch, its, 'c18'):
        c.absorb(r)
    c.assumptions = ['Icarus Verilog is correct']
    c.finish()


if __name__ == '__main__':
    main()
