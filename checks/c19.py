"""C19: dataflow graphs and pipelines are functional and stall-safe."""
import itertools
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import iv
import rtl
import sspec as S
import dfx

import veriloggen as vg
import veriloggen.dataflow as df
from veriloggen.pipeline.pipeline import Pipeline

Q = tier() == 'quick'


# ---------------------------------------------------------------------------
# operators: (name, number of operands, build(vars) -> node, spec(values) -> value, filter(values))
def same(*v):
    return len({x.signed for x in v}) == 1


def nopoint(*v):
    return all(x.point == 0 for x in v)


def uns(i):
    return lambda *v: not v[i].signed


OPS = []


def op(name, n, build, spec, ok=None):
    OPS.append((name, n, build, spec, ok))


op('plus', 2, lambda x, y: x + y, S.plus)
op('minus', 2, lambda x, y: x - y, S.minus)
op('times', 2, lambda x, y: x * y, S.times)
op('div', 2, lambda x, y: x / y, S.divide, lambda x, y: same(x, y) and nopoint(x, y) and max(x.width, y.width) >= 4)
op('mod', 2, lambda x, y: x % y, S.mod, lambda x, y: same(x, y) and nopoint(x, y) and max(x.width, y.width) >= 4)
op('lt', 2, lambda x, y: x < y, S.lt)
op('le', 2, lambda x, y: x <= y, S.le)
op('gt', 2, lambda x, y: x > y, S.gt)
op('ge', 2, lambda x, y: x >= y, S.ge)
op('eq', 2, lambda x, y: df.Eq(x, y), S.eq)
op('ne', 2, lambda x, y: df.NotEq(x, y), S.ne)
op('and', 2, lambda x, y: x & y, S.band)
op('or', 2, lambda x, y: x | y, S.bor)
op('xor', 2, lambda x, y: x ^ y, S.bxor)
op('xnor', 2, lambda x, y: df.Xnor(x, y), S.bxnor)
op('land', 2, lambda x, y: df.Land(x, y), S.land)
op('lor', 2, lambda x, y: df.Lor(x, y), S.lor)
op('sllv', 2, lambda x, y: x << y, S.sllv, lambda x, y: uns(1)(x, y) and nopoint(y) and y.width <= 5)
op('srlv', 2, lambda x, y: x >> y, lambda a, b: S.srl(a, b.bits), lambda x, y: uns(1)(x, y) and nopoint(y))
op('srav', 2, lambda x, y: df.Sra(x, y), lambda a, b: S.sra(a, b.bits), lambda x, y: uns(1)(x, y) and nopoint(y))
op('pointer', 2, lambda x, y: x[y], lambda a, b: S.bit(a, b.bits) if b.bits < a.width else None,
   lambda x, y: uns(1)(x, y) and nopoint(y) and x.width > 1)
op('cat', 2, lambda x, y: df.Cat(x, y), S.cat)
op('andlist', 2, lambda x, y: df.AndList(x, y, x), S.land)
op('orlist', 2, lambda x, y: df.OrList(x, y, x), S.lor)
op('cond', 3, lambda x, y, z: df.Mux(x, y, z), S.cond)
op('mux-cmp', 3, lambda x, y, z: df.Mux(x > 0, y, z), lambda a, b, c: S.cond(S.gt(a, S.const(0)), b, c), nopoint)
op('cat3', 3, lambda x, y, z: df.Cat(x, y, z), S.cat)
op('nest3', 3, lambda x, y, z: (x + y) * z - x, lambda a, b, c: S.minus(S.times(S.plus(a, b), c), a))
op('custom3', 3, lambda x, y, z: df.CustomOp(lambda a, b, c: (a & b) | c, x, y, z),
   lambda a, b, c: S.mk((a.bits & b.bits) | c.bits, max(a.width, b.width, c.width), any(v.signed for v in (a, b, c))),
   lambda *v: nopoint(*v) and not any(x.signed for x in v))
op('uminus', 1, lambda x: -x, S.uminus)
op('uplus', 1, lambda x: +x, lambda a: a)
op('unot', 1, lambda x: ~x, S.unot)
op('ulnot', 1, lambda x: df.Not(x), lambda a: S.mk(not a.bits, 1, False))
for _n in ('uand', 'unand', 'uor', 'unor', 'uxor', 'uxnor'):
    op(_n, 1, (lambda c: lambda x: c(x))(getattr(df, _n.capitalize())), getattr(S, _n))
op('abs', 1, lambda x: df.Abs(x), S.absv)
for _k in (0, 1, 2, 3):
    op('sll%d' % _k, 1, (lambda k: lambda x: x << k)(_k), (lambda k: lambda a: S.mk(a.bits << k if not a.signed else S.num(a) << k, a.width + k, a.signed, a.point))(_k))
    op('srl%d' % _k, 1, (lambda k: lambda x: x >> k)(_k), (lambda k: lambda a: S.srl(a, k))(_k))
    op('sra%d' % _k, 1, (lambda k: lambda x: df.Sra(x, k))(_k), (lambda k: lambda a: S.sra(a, k))(_k))
    op('bit%d' % _k, 1, (lambda k: lambda x: x[k])(_k), (lambda k: lambda a: S.bit(a, k))(_k),
       (lambda k: lambda x: x.width > k and x.width > 1)(_k))
    op('bit-%d' % (_k + 1), 1, (lambda k: lambda x: x[-1 - k])(_k), (lambda k: lambda a: S.bit(a, a.width - 1 - k))(_k),
       (lambda k: lambda x: x.width > k and x.width > 1)(_k))
for _h, _l in ((0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (3, 2)):
    op('slice%d_%d' % (_h, _l), 1, (lambda h, l: lambda x: df.Slice(x, h, l))(_h, _l),
       (lambda h, l: lambda a: S.slc(a, h, l))(_h, _l), (lambda h: lambda x: x.width > h and x.width > 1)(_h))
    op('index%d_%d' % (_h, _l), 1, (lambda h, l: lambda x: x[l:h + 1])(_h, _l),
       (lambda h, l: lambda a: S.slc(a, h, l))(_h, _l), (lambda h: lambda x: x.width > h and x.width > 1)(_h))
op('step2', 1, lambda x: x[0:4:2], lambda a: S.cat(S.bit(a, 2), S.bit(a, 0)), lambda x: x.width >= 4)
op('neg:', 1, lambda x: x[-2:], lambda a: S.slc(a, a.width - 1, a.width - 2), lambda x: x.width >= 2)
op(':neg', 1, lambda x: x[:-1], lambda a: S.slc(a, a.width - 2, 0), lambda x: x.width >= 2)
for _t in (1, 2, 3):
    op('repeat%d' % _t, 1, (lambda t: lambda x: df.Repeat(x, t))(_t), (lambda t: lambda a: S.cat(*[a] * t))(_t))
for _k in (-3, 0, 1, 5):
    op('plus%d' % _k, 1, (lambda k: lambda x: x + k)(_k), (lambda k: lambda a: S.plus(a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
    op('rminus%d' % _k, 1, (lambda k: lambda x: df.Int(k) - x)(_k), (lambda k: lambda a: S.minus(S.const(k), a))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
    op('times%d' % _k, 1, (lambda k: lambda x: x * k)(_k), (lambda k: lambda a: S.times(a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
    op('lt%d' % _k, 1, (lambda k: lambda x: x < k)(_k), (lambda k: lambda a: S.lt(a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
    op('mux%d' % _k, 1, (lambda k: lambda x: df.Mux(x > 1, x, k))(_k),
       (lambda k: lambda a: S.cond(S.gt(a, S.const(1)), a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
for _k in (3, -2):
    op('div%d' % _k, 1, (lambda k: lambda x: x / k)(_k), (lambda k: lambda a: S.divide(a, S.const(k)))(_k),
       lambda x: x.signed and x.point == 0 and x.width >= 4)
op('lut', 1, lambda x: df.LUT(x, [3, 250, 7, 0, 1, 2, 9, 255, 17, 4, 5, 6, 8, 10, 11, 12], width=8, signed=False),
   lambda a: S.mk([3, 250, 7, 0, 1, 2, 9, 255, 17, 4, 5, 6, 8, 10, 11, 12][a.bits], 8, False),
   lambda x: not x.signed and x.point == 0 and x.width <= 4)


# the divider takes its operands as signed: a magnitude that reaches the top bit is read as negative
for _o in [o for o in OPS if o[0] in ('div', 'mod', 'div3', 'div-2')]:
    def _split(o):
        k = int(o[0][3:]) if len(o[0]) > 3 else None

        def hit(*v):
            w = max(x.width for x in v)
            if k is not None:
                w = max(w, S.const(k).width)
            return any(abs(S.num(x)) >> (w - 1) & 1 for x in v)
        neg = (lambda *v: S.num(v[1]) < 0) if o[0] == 'mod' else lambda *v: False
        OPS[OPS.index(o)] = (o[0], o[1], o[2], lambda *v: None if hit(*v) or neg(*v) else o[3](*v), o[4])
        if o[0] == 'mod':   # and the sign of the remainder is that of the quotient
            op('mod neg', o[1], o[2], lambda *v: o[3](*v) if neg(*v) and not hit(*v) else None, o[4])
        op(o[0] + ' top', o[1], o[2], lambda *v: o[3](*v) if hit(*v) else None, o[4])
    _split(_o)


class Wide(df.CustomOp):
    """the node, three bits wider"""

    def __init__(self, z):
        df.CustomOp.__init__(self, lambda v: v, z)
        self.width = z.get_width() + 3
        self.point = z.get_point()
        self.signed = z.get_signed()


def grid(w, k):
    """every value of a narrow operand; of a wide one (k operands) the values where carries, signs and halves change"""
    if w <= 5:
        return list(range(1 << w))
    m = (1 << w) - 1
    h = 1 << (w - 1)
    vals = (0, 1, m, h, h - 1, 0xa5a5a5a5a5a5a5a5, 1 << (w // 2), 3, 0x0123456789abcdef, m - 6, h + 1, 2, 7, m - 1,
            (1 << (w // 2)) - 1, 0x7fffffff, 0x80000000, 0xffffffff)
    return sorted({v & m for v in vals[:18 if k == 1 else (10 if Q else 18) if k == 2 else (6 if Q else 8)]})


def shapes():
    ws = (1, 2, 3, 4) if Q else (1, 2, 3, 4, 5)
    out = []
    for w in ws + ((6,) if Q else (6, 7, 8)):
        for s in (0, 1):
            for p in ((0, 1, 2) if w in (3, 4) else (0,)):
                out.append(((w, s, p),))
    for a in ws:
        for b in ws:
            for sa, sb in itertools.product((0, 1), repeat=2):
                out.append(((a, sa, 0), (b, sb, 0)))
    for a, b, pa, pb in ((3, 3, 0, 1), (3, 3, 1, 1), (4, 3, 2, 1), (4, 4, 1, 3), (3, 4, 1, 0), (2, 4, 0, 2)) + \
            (() if Q else ((4, 4, 2, 2), (5, 4, 3, 0), (4, 5, 0, 4))):
        for sa, sb in ((0, 0), (1, 1)):
            out.append(((a, sa, pa), (b, sb, pb)))
    for a, b, c in ((1, 3, 3), (2, 2, 3), (3, 2, 2), (3, 3, 3)) + (() if Q else ((4, 4, 4), (2, 4, 5), (5, 3, 2))):
        for sa, sb, sc in itertools.product((0, 1), repeat=3):
            out.append(((a, sa, 0), (b, sb, 0), (c, sc, 0)))
    wide = ((16, 16), (32, 8), (33, 32)) + (() if Q else ((64, 64), (32, 32), (40, 31), (9, 9), (48, 48), (12, 64), (63, 63)))
    for a, b in wide:
        for sa, sb in itertools.product((0, 1), repeat=2):
            out.append(((a, sa, 0), (b, sb, 0)))
        for s in (0, 1):
            out.append(((a, s, 0),))
            out.append(((a, s, a // 2),))
            out.append(((a, s, a // 2), (b, s, b // 4)))
            out.append(((a, s, 0), (b, s, 0), (b, s, 0)))
    for ss in (0, 1):
        out.append(((3, ss, 1), (3, ss, 1), (4, ss, 2)))
        out.append(((3, ss, 1), (3, ss, 0), (4, ss, 2)))
    return out


TB = r'''
module tb;
  reg CLK=0, RST=1; %(decl)s
  main u(%(conn)s);
  integer t, k, pass;
  initial begin
    %(init)s
    repeat(3) begin #1 CLK=1; #1 CLK=0; end
    RST=0; #1 CLK=1; #1 CLK=0;
    for(pass=0; pass<2; pass=pass+1)
    for(k=0; k<%(n)d+%(lat)d; k=k+1) begin
      t = (pass? k*%(mul)d+%(add)d : k) %% %(n)d;
      %(drive)s
      #1;
      if(k>=%(lat)d) $display("%(fmt)s", %(args)s);
      CLK=1; #1 CLK=0;
    end
  end
endmodule
'''


@rtl.guarded
def comb(res, it):
    """all operators on one combination of operand formats, every operand value, two orders"""
    res['counts']['operand formats'] = 1
    groups = {}
    for o in OPS:
        if o[1] == len(it) and (o[4] is None or o[4](*[S.V(0, w, bool(s), p) for w, s, p in it])):
            groups.setdefault(o[0] in ('div', 'mod', 'average3') or o[0].startswith(('div', 'mod')), []).append(o)
    for g, ops in groups.items():
        sweep(res, it, ops, '%s%s' % ('_'.join('%d%s%d' % (w, 'us'[s], p) for w, s, p in it), '_d' if g else ''))


def sweep(res, it, ops, tag):
    vg.reset()
    vars_ = [df.Variable('x%d' % i, width=w, point=p, signed=bool(s)) for i, (w, s, p) in enumerate(it)]
    nodes, outs, live = [], [], []
    for i, (name, n, build, spec, ok) in enumerate(ops):
        try:
            z = build(*vars_)
        except Exception:
            res['violations'].append(('op:%s:reject' % name, 'operator %s rejected for %s: %s' % (name, it, exc_text()[-400:]), None))
            continue
        if any(z is v for v in vars_):      # an operator may return its operand
            z = df.CustomOp(lambda v: v, z)
        wide = Wide(z)     # shows the signedness of the result
        z.output('z%d' % i)
        wide.output('w%d' % i)
        outs.append((i, z.get_width()))
        nodes += [z, wide]
        live.append((name, spec, z.get_width(), z.get_signed(), z.get_point()))
    if not nodes:
        return
    s = df.Dataflow(*nodes)
    m = s.to_module('main')
    text = m.to_verilog()
    lat = s.pipeline_depth()
    grids = [grid(w, len(it)) for w, _, _ in it]
    n, drive, init, strides = 1, [], [], []
    tabs = []
    for i, (w, _, _) in enumerate(it):
        drive.append('x%d = t%d[(t / %d) %% %d];' % (i, i, n, len(grids[i])))
        strides.append(n)
        n *= len(grids[i])
        tabs.append('reg [%d:0] t%d [0:%d];' % (w - 1, i, len(grids[i]) - 1))
        init += ['x%d=0;' % i] + ["t%d[%d]=%d'h%x;" % (i, j, w, v) for j, v in enumerate(grids[i])]
    decl = ' '.join('reg [%d:0] x%d;' % (w - 1, i) for i, (w, _, _) in enumerate(it))
    decl += ' ' + ' '.join('wire [%d:0] z%d; wire [%d:0] w%d;' % (w - 1, i, w + 2, i) for i, w in outs)
    names = ['CLK', 'RST'] + ['x%d' % i for i in range(len(it))] + [x for i, _ in outs for x in ('z%d' % i, 'w%d' % i)]
    ports = set(re.findall(r'\b(?:input|output)\s+(?:reg\s+)?(?:signed\s+)?(?:\[[^]]*\]\s*)?(\w+)', text.split('module main')[1].split(');')[0]))
    conn = ', '.join('.%s(%s)' % (x, x) for x in names if x in ports)
    unused = [x for x in names if x.startswith('x') and x not in ports]
    if unused:
        res['violations'].append(('op:port', '%s: input %s is missing' % (it, unused), text))
        return
    mul = next(k for k in (5, 7, 11, 13) if math.gcd(k, n) == 1)
    add = 3 % n
    tb = TB % dict(decl=decl + ' '.join(tabs), conn=conn, n=n, lat=lat, init=' '.join(init),
                   drive=' '.join(drive), fmt=' '.join('%h %h' for _ in outs),
                   args=', '.join('z%d, w%d' % (i, i) for i, _ in outs), mul=mul, add=add)
    try:
        out = iv.simulate(text + tb, tag='c' + re.sub(r'\W', '_', tag))
    except iv.Reject as e:
        res['violations'].append(('op:invalid:%s' % (it,), 'emitted text rejected: %s' % str(e)[-500:], text))
        return
    lines = [l.split() for l in out.splitlines() if l.strip()]
    if len(lines) != 2 * n:
        raise HarnessError('%s: %d lines of %d' % (it, len(lines), 2 * n))
    bad = set()
    for r, line in enumerate(lines):
        k = r % n
        t = (k * mul + add) % n if r >= n else k
        vals = [S.V(g[t // o % len(g)], w, bool(sg), p) for g, o, (w, sg, p) in zip(grids, strides, it)]
        for j, (name, spec, zw, zs, zp) in enumerate(live):
            if name in bad:
                continue
            exp = spec(*vals)
            if exp is None:
                continue
            res['transitions'] += 1
            gotz, gotw = line[2 * j], line[2 * j + 1]
            ewide = S.num(exp) & S.mask(exp.width + 3)
            why = None
            if zw != exp.width or zp != exp.point:
                why = 'result format is %d bits point %d, expected %d point %d' % (zw, zp, exp.width, exp.point)
            elif 'x' in gotz + gotw or 'z' in gotz + gotw or int(gotz, 16) != exp.bits:
                why = 'is 0x%s, expected 0x%x' % (gotz, exp.bits)
            elif int(gotw, 16) != ewide:
                why = 'extends to 0x%s, expected 0x%x' % (gotw, ewide)
            if why:
                bad.add(name)
                res['violations'].append(('op:%s' % name, '%s(%s): %s' % (name, ', '.join(
                    '%s[%d%s.%d]' % (S.num(v), v.width, 'us'[v.signed], v.point) for v in vals), why), text))
    res['states'] += n * len(live)
    res['traces'] += 1
    res['counts']['operator instances'] = res['counts'].get('operator instances', 0) + len(live)
    res['samples'].append(dict(config=tag, operators=len(live), vectors=2 * n))





# ---------------------------------------------------------------------------
# graphs, under every schedule of their inputs and outputs
U2 = dict(width=2, signed=False)


def lat(node, n):
    node.latency = n
    return node


# name: (arity, builder, C++ expression over a b c (2-bit unsigned) and the state s, update before it)
GOPS = {
    'sub': (2, lambda a, b: a - b, '(a-b)&3', ''),
    'mul': (2, lambda a, b: lat(a * b, 3), '(a*b)&3', ''),
    'mul7': (2, lambda a, b: a * b, '(a*b)&3', ''),
    'div': (2, lambda a, b: df.Slice(df.Cat(df.ParameterVariable(0, 2, signed=False), a) / df.Cat(df.ParameterVariable(0, 2, signed=False), b), 1, 0), 'b?a/b:3', ''),
    'inv': (1, lambda a: ~a, '~a&3', ''),
    'mux': (3, lambda a, b, c: df.Mux(a, b, c), 'a?b:c', ''),
    'cat': (2, lambda a, b: df.Slice(df.Cat(a, b), 2, 1), '((a<<2|b)>>1)&3', ''),
    'ptr': (2, lambda a, b: df.Cat(df.ParameterVariable(0, 1, signed=False), df.Pointer(a, b & 1)), '(a>>(b&1))&1', ''),
    'lut': (1, lambda a: df.LUT(a, [2, 0, 3, 1], width=2, signed=False), '("\\2\\0\\3\\1")[a]', ''),
    'racc': (1, lambda a: df.ReduceAdd(a, **U2), 's', 's=(s+a)&3;'),
    'rmul': (1, lambda a: df.ReduceMul(a, initval=1, **U2), 's', 'if(!q){ q=1; s=1; } s=(s*a)&3;'),
    'raccS': (1, lambda a: df.ReduceAdd(a, size=2, **U2), 's', 's=((q?s:0)+a)&3; q=!q;'),
    'raccE': (2, lambda a, b: df.ReduceAdd(a, enable=b, **U2), 's', 'if(b) s=(s+a)&3;'),
    'raccR': (2, lambda a, b: df.ReduceAdd(a, reset=b, **U2), 's', 's=((b?0:s)+a)&3;'),
    'raccER': (3, lambda a, b, c: df.ReduceAdd(a, enable=b, reset=c, initval=1, **U2), 's', 'if(!q){ q=1; s=1; } if(c) s=1; if(b) s=(s+a)&3;'),
    'raccES': (2, lambda a, b: df.ReduceSub(a, size=3, enable=b, **U2), 's', 'if(b){ s=((q?s:0)-a)&3; q=(q+1)%3; }'),
    'raccV': (1, lambda a: df.Mux(*(lambda d, v: (v, d, df.ParameterVariable(3, 2, signed=False)))(*df.ReduceAddValid(a, 2, **U2))), 'q?3:s', 's=((q?s:0)+a)&3; q=!q;'),
    'custom': (1, lambda a: df.ReduceCustom(lambda s, x: s ^ x, a, **U2), 's', 's^=a;'),
    'count': (1, lambda a: df.Counter(control=a, **U2), '(s-1)&3', 's=(s+1)&3;'),
    'countS': (1, lambda a: df.Counter(control=a, size=3, initval=1, **U2), 's', 's=q?(s+1)&3:1; q=(q+1)%3;'),
    'countE': (1, lambda a: df.Counter(step=2, enable=a, **U2), 's', 'if(!q){ q=1; s=2; } if(a) s=(s+2)&3;'),
    'free': (1, lambda a: a + df.Counter(**U2), '(a+s-1)&3', 's=(s+1)&3;'),
    'prev': (1, lambda a: df.CustomOp(lambda v: v, a.prev(1)), 's', ''),
    'prev2': (1, lambda a: df.CustomOp(lambda v: v, a.prev(2)), 's', ''),
    'diff': (1, lambda a: a - a.prev(1), '(a-s)&3', ''),
}
AFTER = {'prev': 's=a;', 'diff': 's=a;', 'prev2': 's=q; q=a;'}
SRC = ['in[0]', 'in[1]', '1u', '2u']
HEAVY = ('mul7', 'div')


def gname(ops, outs):
    t = 'xy1p'
    return ' '.join('%s(%s)' % (op, ','.join(t[k] if k < 4 else 'n%d' % (k - 4) for k in o)) for op, o in ops) + ' -> ' + ','.join(t[k] if k < 4 else 'n%d' % (k - 4) for k in outs)


def builder(ops, outs, two, managed=False):
    def build(name, ins, mode):
        var = lambda n: df.Variable(n, valid=n + '_v' if mode[0] else None, ready=n + '_r' if 'r' in mode[0] else None, width=2, signed=False)
        vals = [var('x'), var('y') if two else None, df.ParameterVariable(1, 2, signed=False), None]
        if any(3 in o for _, o in ops):
            vals[3] = df.Parameter('P', 2, width=2, signed=False)
        for op, o in ops:
            vals.append(GOPS[op][1](*[vals[k] for k in o]))
        zs = []
        for j, k in enumerate(outs):
            z = vals[k]
            if z.output_data is not None or k < 2 and len(outs) < 2:
                z = df.CustomOp(lambda v: v, z)
            z.output('z%d' % j, 'z%d_v' % j if mode[1] else None, 'z%d_r' % j if 'r' in mode[1] else None)
            zs.append(z)
        d = df.Dataflow(*zs)
        m = d.to_module(name)
        return m, d.pipeline_depth(), [('z%d' % j, z.get_width()) for j, z in enumerate(zs)]
    return build


def gcase(ops, outs, mode, vals, table=GOPS, after=AFTER, make=None):
    used = set(k for _, o in ops for k in o) | set(outs)
    two = 1 in used
    src = SRC + ['v%d' % k for k in range(len(ops))]
    code = []
    for i, (op, o) in enumerate(ops):
        nm = ' '.join('uint32_t %s=%s; (void)%s;' % (n, src[k], n) for n, k in zip('abc', o))
        code.append('{ %s uint8_t&s=r.s[%d]; uint8_t&q=r.q[%d]; (void)s; (void)q; %s v%d=%s; %s }' % (nm, i, i, table[op][3], i, table[op][2], after.get(op, '')))
    ref = 'struct REF { uint8_t s[%d], q[%d]; };\nstatic void ref(REF&r,const uint32_t*in,uint64_t*out){ uint32_t %s; %s %s }\n' % (
        len(ops), len(ops), ','.join('v%d=0' % i for i in range(len(ops))), ' '.join(code), ' '.join('out[%d]=%s;' % (j, src[k]) for j, k in enumerate(outs)))
    ins = [(n, 2, vals) for n in 'xy'[:2 if two else 1]]
    return (gname(ops, outs), (make or builder)(ops, outs, two), ins, ref, mode)


@rtl.guarded
def graphs(res, it):
    tag, cs = it
    dfx.explore_many(res, 'graphs %s' % tag, [gcase(*c) for c in cs])
    res['counts']['graphs'] = len(cs)


def allgraphs():
    """(operators, outputs, mode, input values)"""
    VR, V, VO, NO, VE = ('vr', 'vr'), ('v', 'v'), ('vr', 'v'), ('', ''), ('vr', 'vre')
    G = []
    # one operator
    for op, g in GOPS.items():
        for o in itertools.product((0, 1, 2, 3), repeat=g[0]):
            if 0 not in o or (1 in o and o.index(1) < o.index(0)) or (3 in o and (o[-1] != 3 or g[0] == 3)) or op == 'ptr' and o[0] in (2, 3):
                continue
            if op in HEAVY and 1 in o and Q:
                continue
            for mode in (VR, V, VO, NO):
                if mode == VR or not Q or hash_(op, o, mode) % 3 == 0:
                    G.append(([(op, o)], [4], mode, [0, 1, 2, 3] if op not in HEAVY and (1 not in o) else [1, 2]))
    # two: the second reads the first
    alpha = [k for k in GOPS if k not in HEAVY]
    first = [(op, o) for op in alpha for o in ((0,), (0, 1), (0, 2), (0, 1, 0), (0, 0, 1)) if GOPS[op][0] == len(o)]
    second = [(op, o) for op in alpha for o in ((4,), (4, 0), (0, 4), (4, 1), (1, 4), (4, 4), (0, 4, 1), (4, 0, 1), (1, 0, 4), (4, 4, 0)) if GOPS[op][0] == len(o)]
    for f in first:
        for s in second:
            g = [f, s]
            h = hash_(f, s)
            outs = [[5], [4, 5], [5, 0], [5, 4]][h // 7 % 4]
            both = 1 in f[1] or 1 in s[1]
            if both:    # an output that needs only one of the inputs comes without the other
                outs = [5, 4] if len(outs) > 1 and 1 in f[1] else [5]
            if h % ((16 if both else 8) if Q else 3):
                continue
            # outputs with readies of their own: only where no operator joins a value that has another user (K-C19-3)
            plain = len(outs) == 1 or set(s[1]) - {2, 3} == {4} and 0 not in outs and s[0] not in ('free', 'ptr')
            G.append((g, outs, VR if plain else VE, [1, 2]))
            if h % (5 if Q else 2) == 0:
                G.append((g, outs, (V, VO, NO)[h // 28 % 3], [1, 2]))
    # a constant or a counter that is computed is not there yet when reset ends: without a ready it costs the first element (K-C19-4)
    return [g for g in G if g[2][0] == 'vr' or not any(op == 'free' or op in ('ptr', 'div') and set(o) & {2, 3} for op, o in g[0])]


def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


FORKS = [
    ([('cat', (0, 2)), ('raccE', (0, 4))], [5, 4]),
    ([('racc', (0,)), ('raccES', (0, 4))], [5, 4]),
    ([('cat', (0, 2)), ('mul', (4, 0))], [4, 5]),
    ([('raccE', (0, 2)), ('free', (4,))], [4, 5]),
    ([('sub', (0, 1)), ('raccR', (4, 1))], [5, 4]),
    ([('custom', (0,)), ('raccER', (4, 4, 0))], [5, 0]),
    ([('free', (0,)), ('ptr', (0, 4))], [5, 0]),
]


def forks():
    """outputs that stall on their own, where an operator joins a value that another one uses too"""
    return [(g, outs, ('vr', 'vr'), [1, 2]) for g, outs in FORKS] + [([('div', (0, 3))], [4], m, [1, 2]) for m in (('', ''), ('v', 'v'))]


# ---------------------------------------------------------------------------
# pipelines: name: (arity, builder(p, operands), C++ expression, update before it)
POPS = {
    'sub': (2, lambda p, a, b: p.stage(a - b), '(a-b)&3', ''),
    'nest': (2, lambda p, a, b: p.stage((a + b) * a ^ b), '(((a+b)&3)*a^b)&3', ''),
    'inv': (1, lambda p, a: p.stage(~a), '~a&3', ''),
    'uor': (1, lambda p, a: p.stage(vg.Uor(a) + vg.Not(a)), '1', ''),
    'neg': (2, lambda p, a, b: p.stage(-a + ~b), '(3-a-b)&3', ''),
    'mux': (3, lambda p, a, b, c: p.stage(vg.Mux(a > b, b, c)), 'a>b?b:c', ''),
    'cat': (2, lambda p, a, b: p.stage(vg.Cat(a, b) >> 1), '((a<<2|b)>>1)&3', ''),
    'slice': (1, lambda p, a: p.stage((a >> 1) + vg.Repeat(vg.Uand(a), 2)), '((a>>1)+(a==3?3:0))&3', ''),
    'ptr': (2, lambda p, a, b: p.stage(a >> b), '(a>>b)&3', ''),
    'cmp': (2, lambda p, a, b: p.stage(vg.Land(a <= b, a != 3)), '(a<=b&&a!=3)', ''),
    'two': (1, lambda p, a: p.stage(p.stage(a + 1) << 1), '((a+1)<<1)&3', ''),
    'late': (1, lambda p, a: p.stage(p.stage(p.stage(a + 1)) - a), '1', ''),
    'call': (2, lambda p, a, b: p(a | b, initval=1), 'a|b', ''),
    'aadd': (1, lambda p, a: p.acc_add(a), 's', 's=(s+a)&3;'),
    'asub': (1, lambda p, a: p.acc_sub(a, initval=1), 's', 'if(!q){ q=1; s=1; } s=(s-a)&3;'),
    'anand': (1, lambda p, a: p.acc_nand(a), 's', 's=~(s&a)&3;'),
    'anor': (1, lambda p, a: p.acc_nor(a, initval=2), 's', 'if(!q){ q=1; s=2; } s=~(s|a)&3;'),
    'axnor': (1, lambda p, a: p.acc_xnor(a), 's', 's=~(s^a)&3;'),
    'aand': (1, lambda p, a: p.acc_and(a, initval=3), 's', 'if(!q){ q=1; s=3; } s&=a;'),
    'amul': (1, lambda p, a: p.acc_mul(a, initval=1), 's', 'if(!q){ q=1; s=1; } s=s*a&3;'),
    'amax': (1, lambda p, a: p.acc_max(a), 's', 's=s>a?s:a;'),
    'amin': (1, lambda p, a: p.acc_min(a, initval=3), 's', 'if(!q){ q=1; s=3; } s=s<a?s:a;'),
    'acust': (2, lambda p, a, b: p.acc_custom(a - b, lambda s, v: (s << 1) ^ v), 's', 's=(s<<1^(a-b))&3;'),
    'prev': (1, lambda p, a: p.stage(a.prev(1)), 's', ''),
    'prev2': (1, lambda p, a: p.stage(a.prev(2)), 's', ''),
    'diff': (1, lambda p, a: p.stage(a - a.prev(1)), '(a-s)&3', ''),
    'mid': (2, lambda p, a, b: p.stage(vg.Mux(a.prev(2) == b, a.prev(1), a)), 'q==b?s:a', ''),
}
PAFTER = {'prev': 's=a;', 'diff': 's=a;', 'prev2': 's=q; q=a;', 'mid': 'q=s; s=a;'}


def pbuilder(ops, outs, two):
    def build(name, ins, mode):
        m = vg.Module(name)
        clk, rst = m.Input('CLK'), m.Input('RST')
        p = Pipeline(m, 'p', clk, rst, width=2)
        vals = []
        for n in 'xy'[:len(ins)]:
            data = m.Input(n, 2)
            vals.append(p.input(data, valid=m.Input(n + '_v') if mode[0] else None, ready=m.Output(n + '_r') if 'r' in mode[0] else None))
        vals = (vals + [None])[:2] + [vg.Int(1, width=2, base=2), m.Parameter('P', 2, width=2)]
        for op, o in ops:
            vals.append(POPS[op][1](p, *[vals[k] for k in o]))
        for j, k in enumerate(outs):
            vals[k].output(m.Output('z%d' % j, 2), m.Output('z%d_v' % j) if mode[1] else None, m.Input('z%d_r' % j) if 'r' in mode[1] else None)
        p.make_always()
        return m, p.max_stage_id, [('z%d' % j, 2) for j in range(len(outs))]
    return build


@rtl.guarded
def pipes(res, it):
    tag, cs = it
    dfx.explore_many(res, 'pipelines %s' % tag, [gcase(*c, table=POPS, after=PAFTER, make=pbuilder) for c in cs])
    res['counts']['pipelines'] = len(cs)


def allpipes():
    VR, V, VO, NO, VE = ('vr', 'vr'), ('v', 'v'), ('vr', 'v'), ('', ''), ('vr', 'vre')
    G = []
    con = ('prev', 'prev2', 'diff', 'mid')    # need a value of the pipeline, not a constant
    for op, g in POPS.items():
        for o in itertools.product((0, 1, 2, 3), repeat=g[0]):
            if 0 not in o or (1 in o and o.index(1) < o.index(0)) or op in con and o[0] > 1:
                continue
            for mode in (VR, V, VO, NO):
                G.append(([(op, o)], [4], mode, [0, 1, 2, 3] if 1 not in o else [1, 2]))
    first = [(op, o) for op in POPS for o in ((0,), (0, 1), (0, 2), (0, 1, 0), (0, 0, 1)) if POPS[op][0] == len(o)]
    second = [(op, o) for op in POPS for o in ((4,), (4, 0), (0, 4), (4, 1), (1, 4), (4, 4), (0, 4, 1), (4, 0, 1), (1, 0, 4), (4, 4, 0)) if POPS[op][0] == len(o)]
    for f in first:
        for s in second:
            h = hash_(f, s)
            both = 1 in f[1] or 1 in s[1]
            outs = [[5], [4, 5], [5, 0], [5, 4]][h // 7 % 4]
            if both:
                outs = [5, 4] if len(outs) > 1 and 1 in f[1] else [5]
            if h % ((16 if both else 6) if Q else 2):
                continue
            plain = len(outs) == 1
            G.append(([f, s], outs, VR if plain else VE, [1, 2]))
            if h % (5 if Q else 2) == 0:
                mode = (V, VO, NO)[h // 28 % 3]
                if mode == NO and (s[0].startswith('a') or s[0] in con):   # without a valid, what was there before the first element counts
                    continue
                G.append(([f, s], outs, mode, [1, 2]))
    return G


def dispatch(it):
    return globals()[it[0]](*it[1:])


def items():
    its = [('comb', s) for s in shapes()]
    gs = allgraphs()
    heavy = [g for g in gs if any(o in HEAVY for o, _ in g[0])]
    light = [g for g in gs if g not in heavy]
    its += [('graphs', ('heavy %d' % k, heavy[k:k + 4])) for k in range(0, len(heavy), 4)]
    its += [('graphs', ('%d' % k, light[k:k + 24])) for k in range(0, len(light), 24)]
    its += [('graphs', ('fork %d' % k, [g])) for k, g in enumerate(forks())]
    ps = allpipes()
    its += [('pipes', ('%d' % k, ps[k:k + 24])) for k in range(0, len(ps), 24)]
    return its


def main():
    c = Check('C19')
    its = items()
    if len(sys.argv) > 1:
        its = [i for i in its if i[0] == sys.argv[1]]
    for r in pmap(dispatch, its, 'c19'):
        c.absorb(r)
    c.assumptions = ['Verilator and Icarus Verilog are correct']
    c.finish()


if __name__ == '__main__':
    main()
