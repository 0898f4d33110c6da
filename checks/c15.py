"""C15: every stream operator computes its function for all inputs, signs and widths."""
import itertools
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import iv
import rtl
import sspec as S
import strmx

import veriloggen as vg
import veriloggen.stream as st
import veriloggen.core.vtypes as vtypes

Q = tier() == 'quick'

# ---------------------------------------------------------------------------
# stateless operators: (name, number of operands, build(vars) -> node, spec(values) -> value, filter(values))


def same(*v):
    return len({x.signed for x in v}) == 1


def nopoint(*v):
    return all(x.point == 0 for x in v)


def uns(i):
    return lambda *v: not v[i].signed


OPS = []


def op(name, n, build, spec, ok=None):
    OPS.append((name, n, build, spec, ok))


op('plus', 2, lambda x, y: x + y, S.plus)
op('minus', 2, lambda x, y: x - y, S.minus)
op('times', 2, lambda x, y: x * y, S.times)
op('div', 2, lambda x, y: x / y, S.divide, lambda x, y: same(x, y) and nopoint(x, y) and max(x.width, y.width) >= 4)
op('mod', 2, lambda x, y: x % y, S.mod, lambda x, y: same(x, y) and nopoint(x, y) and max(x.width, y.width) >= 4)
op('lt', 2, lambda x, y: x < y, S.lt)
op('le', 2, lambda x, y: x <= y, S.le)
op('gt', 2, lambda x, y: x > y, S.gt)
op('ge', 2, lambda x, y: x >= y, S.ge)
op('eq', 2, lambda x, y: st.Eq(x, y), S.eq)
op('ne', 2, lambda x, y: st.NotEq(x, y), S.ne)
op('and', 2, lambda x, y: x & y, S.band)
op('or', 2, lambda x, y: x | y, S.bor)
op('xor', 2, lambda x, y: x ^ y, S.bxor)
op('xnor', 2, lambda x, y: st.Xnor(x, y), S.bxnor)
op('land', 2, lambda x, y: st.Land(x, y), S.land)
op('lor', 2, lambda x, y: st.Lor(x, y), S.lor)
op('sllv', 2, lambda x, y: x << y, S.sllv, lambda x, y: uns(1)(x, y) and nopoint(y) and y.width <= 5)
op('srlv', 2, lambda x, y: x >> y, lambda a, b: S.srl(a, b.bits), lambda x, y: uns(1)(x, y) and nopoint(y))
op('srav', 2, lambda x, y: st.Sra(x, y), lambda a, b: S.sra(a, b.bits), lambda x, y: uns(1)(x, y) and nopoint(y))
op('pointer', 2, lambda x, y: x[y], lambda a, b: S.bit(a, b.bits) if b.bits < a.width else None,
   lambda x, y: uns(1)(x, y) and nopoint(y) and x.width > 1)
op('cat', 2, lambda x, y: st.Cat(x, y), S.cat)
op('max', 2, lambda x, y: st.Max(x, y), lambda a, b: S.cond(S.gt(a, b), a, b), same)
op('min', 2, lambda x, y: st.Min(x, y), lambda a, b: S.cond(S.lt(a, b), a, b), same)
op('ands', 2, lambda x, y: st.Ands(x, y, x), S.land)
op('ors', 2, lambda x, y: st.Ors(x, y, x), S.lor)
op('average', 2, lambda x, y: st.Average(x, y), lambda a, b: S.sra(S.plus(a, b), 1))
op('averound', 2, lambda x, y: st.AverageRound(x, y),
   lambda a, b: S.sra(S.plus(S.plus(a, b), S.const(1)), 1), nopoint)
op('cond', 3, lambda x, y, z: st.Mux(x, y, z), S.cond)
op('mux-cmp', 3, lambda x, y, z: st.Mux(x > 0, y, z), lambda a, b, c: S.cond(S.gt(a, S.const(0)), b, c), nopoint)
op('muladd', 3, lambda x, y, z: st.MulAdd(x, y, z),
   lambda a, b, c: S.muladd(a, b, c) if a.point + b.point == c.point else S.plus(S.times(a, b), c))
op('plusn', 3, lambda x, y, z: st.PlusN(x, y, z), S.plusn, nopoint)
op('addtree', 3, lambda x, y, z: st.AddTree(x, y, z), lambda *a: S.tree(S.plus, *a))
op('max3', 3, lambda x, y, z: st.Max(x, y, z),
   lambda *a: S.tree(lambda p, q: S.cond(S.gt(p, q), p, q), *a), same)
op('min3', 3, lambda x, y, z: st.Min(x, y, z),
   lambda *a: S.tree(lambda p, q: S.cond(S.lt(p, q), p, q), *a), same)
op('average3', 3, lambda x, y, z: st.Average(x, y, z),
   lambda a, b, c: S.divide(S.plus(a, S.plus(b, c)), S.const(3)), lambda *v: nopoint(*v) and all(x.signed for x in v) and max(x.width for x in v) >= 4)
op('cat3', 3, lambda x, y, z: st.Cat(x, y, z), S.cat)
op('custom3', 3, lambda x, y, z: st.CustomOp(lambda a, b, c: (a & b) | c, x, y, z),
   lambda a, b, c: S.mk((a.bits & b.bits) | c.bits, max(a.width, b.width, c.width), any(v.signed for v in (a, b, c))),
   lambda *v: nopoint(*v) and not any(x.signed for x in v))
op('uminus', 1, lambda x: -x, S.uminus)
op('uplus', 1, lambda x: +x, lambda a: a)
op('unot', 1, lambda x: st.Unot(x), S.unot)
op('ulnot', 1, lambda x: st.Not(x), lambda a: S.mk(not a.bits, 1, False))
for _n in ('uand', 'unand', 'uor', 'unor', 'uxor', 'uxnor'):
    op(_n, 1, (lambda c: lambda x: c(x))(getattr(st, _n.capitalize())), getattr(S, _n))
op('abs', 1, lambda x: st.Abs(x), S.absv)
op('sign', 1, lambda x: st.Sign(x), lambda a: S.mk(S.num(a) < 0, a.width, a.signed, a.point))
op('complement2', 1, lambda x: st.Complement2(x), S.uminus)
for _k in (0, 1, 2, 3):
    op('sll%d' % _k, 1, (lambda k: lambda x: x << k)(_k), (lambda k: lambda a: S.sll(a, k))(_k))
    op('srl%d' % _k, 1, (lambda k: lambda x: x >> k)(_k), (lambda k: lambda a: S.srl(a, k))(_k))
    op('sra%d' % _k, 1, (lambda k: lambda x: st.Sra(x, k))(_k), (lambda k: lambda a: S.sra(a, k))(_k))
    op('bit%d' % _k, 1, (lambda k: lambda x: x[k])(_k), (lambda k: lambda a: S.bit(a, k))(_k),
       (lambda k: lambda x: x.width > k and x.width > 1)(_k))
    op('bit-%d' % (_k + 1), 1, (lambda k: lambda x: x[-1 - k])(_k), (lambda k: lambda a: S.bit(a, a.width - 1 - k))(_k),
       (lambda k: lambda x: x.width > k and x.width > 1)(_k))
for _w in (1, 3, 4, 7):
    for _p in (0, 2):
        for _s in (False, True):
            op('cast%d.%d%s' % (_w, _p, _s), 1, (lambda k: lambda x: st.Cast(x, *k))((_w, _p, _s)),
               (lambda k: lambda a: S.cast(a, *k))((_w, _p, _s)))
            op('recast%d.%d%s' % (_w, _p, _s), 1, (lambda k: lambda x: st.ReinterpretCast(x, *k))((_w, _p, _s)),
               (lambda k: lambda a: S.recast(a, *k))((_w, _p, _s)))
for _h, _l in ((0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (3, 2)):
    op('slice%d_%d' % (_h, _l), 1, (lambda h, l: lambda x: st.Slice(x, h, l))(_h, _l),
       (lambda h, l: lambda a: S.slc(a, h, l))(_h, _l), (lambda h: lambda x: x.width > h and x.width > 1)(_h))
    op('index%d_%d' % (_h, _l), 1, (lambda h, l: lambda x: x[l:h + 1])(_h, _l),
       (lambda h, l: lambda a: S.slc(a, h, l))(_h, _l), (lambda h: lambda x: x.width > h and x.width > 1)(_h))
op('step2', 1, lambda x: x[0:4:2], lambda a: S.cat(S.bit(a, 2), S.bit(a, 0)), lambda x: x.width >= 4)
op('neg:', 1, lambda x: x[-2:], lambda a: S.slc(a, a.width - 1, a.width - 2), lambda x: x.width >= 2)
op(':neg', 1, lambda x: x[:-1], lambda a: S.slc(a, a.width - 2, 0), lambda x: x.width >= 2)
for _t in (1, 2, 3):
    op('repeat%d' % _t, 1, (lambda t: lambda x: st.Repeat(x, t))(_t), (lambda t: lambda a: S.cat(*[a] * t))(_t))
for _i in (0, 1):
    op('split2_%d' % _i, 1, (lambda i: lambda x: st.Split(x, width=x.get_width() // 2)[i])(_i),
       (lambda i: lambda a: S.mk(a.bits >> ((1 - i) * (a.width // 2)), a.width // 2, a.signed, a.point))(_i),
       lambda x: x.width in (2, 4))
    op('splitn_%d' % _i, 1, (lambda i: lambda x: st.Split(x, num_chunks=2, reverse=True)[i])(_i),
       (lambda i: lambda a: S.mk(S.num(a) >> (i * ((a.width + 1) // 2)), (a.width + 1) // 2, a.signed, a.point))(_i),
       lambda x: x.width > 1)
for _k in (-3, 0, 1, 5):
    op('plus%d' % _k, 1, (lambda k: lambda x: x + k)(_k), (lambda k: lambda a: S.plus(a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
    op('times%d' % _k, 1, (lambda k: lambda x: x * k)(_k), (lambda k: lambda a: S.times(a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
    op('lt%d' % _k, 1, (lambda k: lambda x: x < k)(_k), (lambda k: lambda a: S.lt(a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
    op('mux%d' % _k, 1, (lambda k: lambda x: st.Mux(x > 1, x, k))(_k),
       (lambda k: lambda a: S.cond(S.gt(a, S.const(1)), a, S.const(k)))(_k),
       (lambda k: lambda x: k >= 0 or x.signed)(_k))
for _k in (3, -2):
    op('div%d' % _k, 1, (lambda k: lambda x: x / k)(_k), (lambda k: lambda a: S.divide(a, S.const(k)))(_k),
       lambda x: x.signed and x.point == 0 and x.width >= 4)
op('lut', 1, lambda x: st.LUT(x, [3, 250, 7, 0, 1, 2, 9, 255, 17, 4, 5, 6, 8, 10, 11, 12], width=8, signed=False),
   lambda a: S.mk([3, 250, 7, 0, 1, 2, 9, 255, 17, 4, 5, 6, 8, 10, 11, 12][a.bits], 8, False),
   lambda x: not x.signed and x.point == 0 and x.width <= 4)
for _k in (0, 1, 2):
    # round half away from zero
    op('sraround%d' % _k, 1, (lambda k: lambda x: st.SraRound(x, k))(_k),
       (lambda k: lambda a: S.mk(S._div(abs(S.num(a)) + (1 << k >> 1), 1 << k) * (-1 if S.num(a) < 0 else 1),
                                 a.width, a.signed, a.point))(_k), lambda x: x.signed and x.width > 1 and x.point == 0)


def grid(w, k):
    """every value of a narrow operand; of a wide one (k operands) the values where carries, signs and halves change"""
    if w <= 5:
        return list(range(1 << w))
    m = (1 << w) - 1
    h = 1 << (w - 1)
    vals = (0, 1, m, h, h - 1, 0xa5a5a5a5a5a5a5a5, 1 << (w // 2), 3, 0x0123456789abcdef, m - 6, h + 1, 2, 7, m - 1,
            (1 << (w // 2)) - 1, 0x7fffffff, 0x80000000, 0xffffffff)
    return sorted({v & m for v in vals[:18 if k == 1 else (10 if Q else 18) if k == 2 else (6 if Q else 8)]})


def shapes():
    ws = (1, 2, 3, 4) if Q else (1, 2, 3, 4, 5)
    out = []
    for w in ws + ((6,) if Q else (6, 7, 8)):
        for s in (0, 1):
            for p in ((0, 1, 2) if w in (3, 4) else (0,)):
                out.append(((w, s, p),))
    for a in ws:
        for b in ws:
            for sa, sb in itertools.product((0, 1), repeat=2):
                out.append(((a, sa, 0), (b, sb, 0)))
    for a, b, pa, pb in ((3, 3, 0, 1), (3, 3, 1, 1), (4, 3, 2, 1), (4, 4, 1, 3), (3, 4, 1, 0), (2, 4, 0, 2)) + \
            (() if Q else ((4, 4, 2, 2), (5, 4, 3, 0), (4, 5, 0, 4))):
        for sa, sb in ((0, 0), (1, 1)):
            out.append(((a, sa, pa), (b, sb, pb)))
    for a, b, c in ((1, 3, 3), (2, 2, 3), (3, 2, 2), (3, 3, 3)) + (() if Q else ((4, 4, 4), (2, 4, 5), (5, 3, 2))):
        for sa, sb, sc in itertools.product((0, 1), repeat=3):
            out.append(((a, sa, 0), (b, sb, 0), (c, sc, 0)))
    wide = ((16, 16), (32, 8), (33, 32)) + (() if Q else ((64, 64), (32, 32), (40, 31), (9, 9), (48, 48), (12, 64), (63, 63)))
    for a, b in wide:
        for sa, sb in itertools.product((0, 1), repeat=2):
            out.append(((a, sa, 0), (b, sb, 0)))
        for s in (0, 1):
            out.append(((a, s, 0),))
            out.append(((a, s, a // 2),))
            out.append(((a, s, a // 2), (b, s, b // 4)))
            out.append(((a, s, 0), (b, s, 0), (b, s, 0)))
    for ss in (0, 1):
        out.append(((3, ss, 1), (3, ss, 1), (4, ss, 2)))
        out.append(((3, ss, 1), (3, ss, 0), (4, ss, 2)))
    return out


TB = r'''
module tb;
  reg CLK=0, RST=1; %(decl)s
  main u(%(conn)s);
  integer t, k, pass;
  initial begin
    %(init)s
    repeat(3) begin #1 CLK=1; #1 CLK=0; end
    RST=0; #1 CLK=1; #1 CLK=0;
    for(pass=0; pass<2; pass=pass+1)
    for(k=0; k<%(n)d+%(lat)d; k=k+1) begin
      t = (pass? k*%(mul)d+%(add)d : k) %% %(n)d;
      %(drive)s
      #1;
      if(k>=%(lat)d) $display("%(fmt)s", %(args)s);
      CLK=1; #1 CLK=0;
    end
  end
endmodule
'''


@rtl.guarded
def comb(res, it):
    """all operators on one combination of operand formats, every operand value, two orders"""
    res['counts']['operand formats'] = 1
    groups = {}
    for o in OPS:
        if o[1] == len(it) and (o[4] is None or o[4](*[S.V(0, w, bool(s), p) for w, s, p in it])):
            groups.setdefault(o[0] in ('div', 'mod', 'average3') or o[0].startswith('div'), []).append(o)
    for g, ops in groups.items():
        sweep(res, it, ops, '%s%s' % ('_'.join('%d%s%d' % (w, 'us'[s], p) for w, s, p in it), '_d' if g else ''))


def sweep(res, it, ops, tag):
    vg.reset()
    vars_ = [st.Variable('x%d' % i, width=w, point=p, signed=bool(s)) for i, (w, s, p) in enumerate(it)]
    nodes, outs, live = [], [], []
    for i, (name, n, build, spec, ok) in enumerate(ops):
        try:
            z = build(*vars_)
        except Exception:
            res['violations'].append(('op:%s:reject' % name, 'operator %s rejected for %s: %s' % (name, it, exc_text()[-400:]), None))
            continue
        if any(z is v for v in vars_):      # an operator may return its operand
            z = st.Cast(z)
        wide = st.Cast(z, width=z.get_width() + 3, signed=False)     # shows the signedness of the result
        z.output('z%d' % i)
        wide.output('w%d' % i)
        outs.append((i, z.get_width()))
        nodes += [z, wide]
        live.append((name, spec, z.get_width(), z.get_signed(), z.get_point()))
    if not nodes:
        return
    s = st.Stream(*nodes)
    m = s.to_module('main')
    text = m.to_verilog()
    lat = s.pipeline_depth()
    grids = [grid(w, len(it)) for w, _, _ in it]
    n, drive, init, strides = 1, [], [], []
    tabs = []
    for i, (w, _, _) in enumerate(it):
        drive.append('x%d = t%d[(t / %d) %% %d];' % (i, i, n, len(grids[i])))
        strides.append(n)
        n *= len(grids[i])
        tabs.append('reg [%d:0] t%d [0:%d];' % (w - 1, i, len(grids[i]) - 1))
        init += ['x%d=0;' % i] + ["t%d[%d]=%d'h%x;" % (i, j, w, v) for j, v in enumerate(grids[i])]
    decl = ' '.join('reg [%d:0] x%d;' % (w - 1, i) for i, (w, _, _) in enumerate(it))
    decl += ' ' + ' '.join('wire [%d:0] z%d; wire [%d:0] w%d;' % (w - 1, i, w + 2, i) for i, w in outs)
    names = ['CLK', 'RST'] + ['x%d' % i for i in range(len(it))] + [x for i, _ in outs for x in ('z%d' % i, 'w%d' % i)]
    ports = set(re.findall(r'\b(?:input|output)\s+(?:reg\s+)?(?:signed\s+)?(?:\[[^]]*\]\s*)?(\w+)', text.split('module main')[1].split(');')[0]))
    conn = ', '.join('.%s(%s)' % (x, x) for x in names if x in ports)
    unused = [x for x in names if x.startswith('x') and x not in ports]
    if unused:
        res['violations'].append(('op:port', '%s: input %s is missing' % (it, unused), text))
        return
    mul = next(k for k in (5, 7, 11, 13) if math.gcd(k, n) == 1)
    add = 3 % n
    tb = TB % dict(decl=decl + ' '.join(tabs), conn=conn, n=n, lat=lat, init=' '.join(init),
                   drive=' '.join(drive), fmt=' '.join('%h %h' for _ in outs),
                   args=', '.join('z%d, w%d' % (i, i) for i, _ in outs), mul=mul, add=add)
    try:
        out = iv.simulate(text + tb, tag='c' + re.sub(r'\W', '_', tag))
    except iv.Reject as e:
        res['violations'].append(('op:invalid:%s' % (it,), 'emitted text rejected: %s' % str(e)[-500:], text))
        return
    lines = [l.split() for l in out.splitlines() if l.strip()]
    if len(lines) != 2 * n:
        raise HarnessError('%s: %d lines of %d' % (it, len(lines), 2 * n))
    bad = set()
    for r, line in enumerate(lines):
        k = r % n
        t = (k * mul + add) % n if r >= n else k
        vals = [S.V(g[t // o % len(g)], w, bool(sg), p) for g, o, (w, sg, p) in zip(grids, strides, it)]
        for j, (name, spec, zw, zs, zp) in enumerate(live):
            if name in bad:
                continue
            exp = spec(*vals)
            if exp is None:
                continue
            res['transitions'] += 1
            gotz, gotw = line[2 * j], line[2 * j + 1]
            ewide = S.num(exp) & S.mask(exp.width + 3)
            why = None
            if zw != exp.width or zp != exp.point:
                why = 'result format is %d bits point %d, expected %d point %d' % (zw, zp, exp.width, exp.point)
            elif 'x' in gotz + gotw or 'z' in gotz + gotw or int(gotz, 16) != exp.bits:
                why = 'is 0x%s, expected 0x%x' % (gotz, exp.bits)
            elif int(gotw, 16) != ewide:
                why = 'extends to 0x%s, expected 0x%x' % (gotw, ewide)
            if why:
                bad.add(name)
                res['violations'].append(('op:%s' % name, '%s(%s): %s' % (name, ', '.join(
                    '%s[%d%s.%d]' % (S.num(v), v.width, 'us'[v.signed], v.point) for v in vals), why), text))
    res['states'] += n * len(live)
    res['traces'] += 1
    res['counts']['operator instances'] = res['counts'].get('operator instances', 0) + len(live)
    res['samples'].append(dict(config=tag, operators=len(live), vectors=2 * n))



# ---------------------------------------------------------------------------
# operators with history: explored as transition systems under every input and stall schedule

# an accumulation window: restarts at 'reset', after SIZE accumulated elements; only every INTERVAL-th
# enabled element is accumulated
ACC = r"""
typedef int64_t L;
static inline L sx(uint64_t v,int w,int s){ v&=(w>=64?~0ull:(1ull<<w)-1); return s&&(v>>(w-1)&1)? (L)v-(1ll<<w) : (L)v; }
struct REF { uint32_t acc; uint16_t n; uint8_t k, full; };
static uint64_t ref(REF&r,const uint32_t*in,uint64_t&care){
  L x=sx(in[0],XW,XS); int en=%(en)s, rst=%(rst)s; L size=%(size)s, itv=%(itv)s;
  int full=r.full, fired=0;
  if(rst){ r.acc=INIT&MASK; r.n=0; r.k=0; r.full=full=0; }
  int pulse=0;
  if(en){
    if(++r.k>=itv){ r.k=0;
      if(full){ r.acc=INIT&MASK; r.n=0; }
      L a=sx(r.acc,AW,AS); (void)a; (void)x;
      r.acc=(uint32_t)(%(op)s)&MASK; fired=1; r.n++; if(!size) r.n=0;
      pulse=r.full= size>0&&r.n>=size; if(pulse) r.n=0; } }
  // after a completed window an element that accumulates nothing shows the total or the initial value
  uint64_t v= %(pulse)d? 0 : r.acc; care=~0ull;
  if(full && !fired) care=0;
  if(%(pulse)d){ v=pulse; care=~0ull; if(%(hold)d && full && !fired) care=0; }
  return v; }
"""

# a counter shows its value for each element, then advances on every INTERVAL-th enabled one
CNT = r"""
typedef int64_t L;
struct REF { uint32_t c; uint16_t k; };
static uint64_t ref(REF&r,const uint32_t*in,uint64_t&care){
  int en=%(en)s, rst=%(rst)s; L size=%(size)s, itv=%(itv)s;
  if(rst){ r.c=INIT&MASK; r.k=0; }
  uint64_t v=r.c;
  if(en && ++r.k>=itv){ r.k=0;
    L n=(L)r.c+STEP; if(size>0 && (L)r.c>=size-STEP) n=%(wrap)s;
    r.c=n&MASK; }
  return v; }
"""


def acc_cases():
    """(name, class, C++ fold of a and x, input width, signed, accumulator width, signed, init)"""
    base = [('ReduceAdd', 'a+x', 2, 1, 3, 1, 0), ('ReduceAdd', 'a+x', 2, 0, 3, 0, 5), ('ReduceSub', 'a-x', 2, 1, 3, 1, -2),
            ('ReduceMax', '(a<x?x:a)', 3, 1, 3, 1, -4), ('ReduceMin', '(a>x?x:a)', 3, 1, 3, 1, 3),
            ('ReduceMax', '(a<x?x:a)', 2, 0, 3, 0, 1), ('ReduceMin', '(a>x?x:a)', 2, 0, 3, 0, 7),
            ('ReduceCustom', '(a^x)', 2, 0, 2, 0, 1), ('Pulse', '0', 1, 0, 1, 0, 0)]
    out = []
    for b in base:
        for en, rst in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for size in (None, 1, 2, 3, 'v'):
                for itv in (None, 1, 2, 3):
                    if b[0] == 'Pulse' and size is None:
                        continue
                    main = b[0] in ('ReduceAdd', 'Pulse') and b[3] == b[5]
                    if Q and not main and (itv in (1, 2) or size in (1, 3) or en + rst == 1):
                        continue
                    if Q and main and ((itv == 1 and size != 2) or (itv == 3 and size == 3)):
                        continue
                    if size == 'v' and itv not in (None, 2):
                        continue
                    out.append(b + (en, rst, size, itv))
    out.append(('Pulse strict',) + base[-1][1:] + (1, 0, 2, None))
    return out


@rtl.guarded
def accs(res, it):
    """a batch of accumulators in one exploration"""
    strmx.explore_many(res, 'acc batch %s' % (it[0],), [acc(c) for c in it])
    res['counts']['accumulators'] = len(it)


def acc(it):
    strict = it[0] == 'Pulse strict'      # low on every element that does not complete a window
    if strict:
        it = ('Pulse',) + it[1:]
    cls, fold, xw, xs, aw, as_, init, en, rst, size, itv = it
    ins = [('x', xw, bool(xs), 0, None)]
    idx = {}
    for n, on, w in (('en', en, 1), ('rst', rst, 1), ('size', size == 'v', 2)):
        if on:
            idx[n] = len(ins)
            ins.append((n, w, False, 0, [1, 2] if n == 'size' else None))

    def make(x, *more):
        kw = {}
        if en:
            kw['enable'] = more[idx['en'] - 1]
        if rst:
            kw['reset'] = more[idx['rst'] - 1]
        sz = more[idx['size'] - 1] if size == 'v' else size
        if cls == 'Pulse':
            return st.Pulse(sz, interval=itv, dependency=x, **kw)
        if cls == 'ReduceCustom':
            return st.ReduceCustom(lambda a, b: a ^ b, x, sz, itv, init, width=aw, signed=bool(as_), **kw)
        return getattr(st, cls)(x, sz, itv, init, width=aw, signed=bool(as_), **kw)
    ref = ACC % dict(en='in[%d]' % idx['en'] if en else '1', rst='in[%d]' % idx['rst'] if rst else '0',
                     size='in[%d]' % idx['size'] if size == 'v' else size or 0, itv=itv or 1, op=fold, pulse=cls == 'Pulse', hold=cls == 'Pulse' and en and not rst and itv is None and not strict)
    d = '#define XW %d\n#define XS %d\n#define AW %d\n#define AS %d\n#define INIT (%d)\n#define MASK ((1u<<AW)-1)\n' % (
        xw, xs, aw, as_, init)
    key = 'acc %s%s %d%s en=%d rst=%d size=%s interval=%s' % (cls, ' strict' * strict, xw, 'us'[xs], en, rst, size, itv)
    return key, make, ins, d + ref, 'r.acc=(%d)&((1u<<%d)-1);' % (init, aw)


def cnt_cases():
    out = []
    for en, rst in ((0, 0), (1, 0), (0, 1), (1, 1)):
        for size, step, init, off in ((None, 1, 0, None), (None, 3, 2, None), (3, 1, 0, None), (5, 2, 1, None), (4, 1, 2, 1),
                                      (6, 2, 0, 2), (1, 1, 0, None)):
            for itv in (None, 1, 2, 3):
                if Q and itv == 1 and size != 3:
                    continue
                out.append((en, rst, size, step, init, off, itv))
    return out


@rtl.guarded
def cnts(res, it):
    strmx.explore_many(res, 'counter batch %s' % (it[0],), [cnt(c) for c in it])
    res['counts']['counters'] = len(it)


def cnt(it):
    en, rst, size, step, init, off, itv = it
    ins = [('x', 1, False, 0, [0])]
    idx = {}
    for n, on in (('en', en), ('rst', rst)):
        if on:
            idx[n] = len(ins)
            ins.append((n, 1, False, 0, None))

    def make(x, *more):
        kw = {}
        if en:
            kw['enable'] = more[idx['en'] - 1]
        if rst:
            kw['reset'] = more[idx['rst'] - 1]
        return st.Counter(size, step, itv, init, off, dependency=x, width=4, **kw)
    ref = CNT % dict(en='in[%d]' % idx['en'] if en else '1', rst='in[%d]' % idx['rst'] if rst else '0', size=size or 0,
                     itv=itv or 1, wrap=off if off is not None else 'n-size')
    d = '#define INIT (%d)\n#define STEP %d\n#define MASK 15\n' % (init, step)
    key = 'counter en=%d rst=%d size=%s step=%d init=%d offset=%s interval=%s' % it
    return key, make, ins, d + ref, 'r.c=(%d)&15;' % init


# ---------------------------------------------------------------------------
# operators that remember earlier elements

HDR = 'typedef int64_t L;\nstatic inline L sx(uint64_t v,int w){ v&=(1ull<<w)-1; return (v>>(w-1)&1)? (L)v-(1ll<<w) : (L)v; }\n'


def mem_cases():
    """(name, make, ins, reference, init)"""
    X = ('x', 2, False, 0, None)
    XS = ('x', 2, True, 0, None)
    W = ('w', 1, False, 0, None)
    out = []

    def c(name, ins, make, state, body, init='', defs=''):
        out.append((name, make, ins, HDR + defs + 'struct REF { %s };\nstatic uint64_t ref(REF&r,const uint32_t*in,uint64_t&care){ %s }\n'
                    % (state or 'uint8_t none;', body), init))
    for nm, cls in (('Predicate', st.Predicate), ('Reg', st.Reg)):
        c(nm + ' when', [X, W], (lambda k: lambda x, w: k(x, w))(cls), 'uint8_t v;', 'if(in[1]) r.v=in[0]; return r.v;')
        c(nm, [X], (lambda k: lambda x: k(x))(cls), '', 'return in[0];')
    c('Predicate computed when', [X, W], lambda x, w: st.Predicate(x + 1, (x > 1) & w), 'uint8_t v;',
      'if(in[0]>1&&in[1]) r.v=(in[0]+1)&3; return r.v;')
    for d in (1, 2, 3):
        c('prev%d' % d, [X], (lambda k: lambda x: x.prev(k) | 0)(d), 'uint8_t h[4];',
          'for(int i=3;i;i--) r.h[i]=r.h[i-1]; r.h[0]=in[0]; return r.h[%d];' % d)
    c('prev mixed', [X, W], lambda x, w: (x * 3 + w).prev(2) + x.prev(1) + w, 'uint8_t h[3]; uint8_t p;',
      'for(int i=2;i;i--) r.h[i]=r.h[i-1]; int m=in[0]*3; if(m>=8) m-=8; r.h[0]=((in[0]*3)+in[1])&7; uint8_t o=(r.h[2]+r.p+in[1])&7; r.p=in[0]; return o;')
    c('prev chain', [XS], lambda x: [x - x.prev(1), x.prev(1).prev(1) | 0], 'uint8_t a,b;',
      'uint64_t o=((sx(in[0],2)-sx(r.a,2))&3) | r.b<<2; r.b=r.a; r.a=in[0]; return o;')
    # ring buffers: read(-d) is the element written d elements ago
    for L in (4, 3, 5, 8):
        for lat in (1, 2, 3):
            ds = [k for k in range(L) if k <= L - lat - 1]
            if len(ds) < 1:
                continue
            for wen in (0, 1):
                for signed in (1, 0):
                    if Q and (L == 8 or (wen and L == 5) or (not signed and (L == 3 or wen))):
                        continue
                    O = ('o', 4, bool(signed), 0, [-k for k in ds] if signed else ds)

                    def make(x, o, *w, L=L, lat=lat, signed=signed):
                        off = o if signed else -st.Cast(o, signed=True)
                        for _ in range(lat - 1 - (0 if signed else 1)):
                            off = off + 0
                        b = st.RingBuffer(x, L, *w)
                        return b.read(off)
                    if not signed and lat == 1:
                        continue
                    c('RingBuffer %d lat=%d enable=%d %s' % (L, lat, wen, 'us'[signed]), [('x', 1, False, 0, None), O] + [W] * wen, make,
                      'uint8_t h[8]; uint8_t n;',
                      ('int k=0; if(%s){ for(int i=7;i;i--) r.h[i]=r.h[i-1]; r.h[0]=in[0]; if(r.n<%d) r.n++; } else k=1; '
                       'int d=%s-k; if(d<0||d>=r.n) care=0; return d>=0&&d<8? r.h[d] : 0;') % ('in[2]' if wen else '1', L, '-sx(in[1],4)' if signed else 'in[1]'))
    # scratchpads: a read sees the writes of its element and of the earlier ones
    for L in (4, 3):
        for wen in (0, 1):
            A = ('a', 2, False, 0, list(range(L)))
            B = ('b', 2, False, 0, list(range(L)))
            c('Scratchpad %d when=%d' % (L, wen), [('x', 1, False, 0, None), A, B] + [W] * wen,
              lambda x, a, b, *w: st.Scratchpad(x, a, 4, *w).read(b), 'uint8_t h[4]; uint8_t s[4];',
              'if(%s){ r.h[in[1]]=in[0]; r.s[in[1]]=1; } if(!r.s[in[2]]) care=0; return r.h[in[2]];' % ('in[3]' if wen else '1'))
    # the format of what is read is the format of what was written
    for nm, pt in (('', 0), (' point', 1)):
        XP = ('x', 2, True, pt, [1, 3])
        c('RingBuffer format' + nm, [XP, ('o', 4, False, 0, [0])], lambda x, o: st.Cast(st.RingBuffer(x, 4).read(o), width=4, point=1, signed=True),
          '', 'return (sx(in[0],2)*%d)&15;' % (2 - pt))
        c('Scratchpad format' + nm, [XP, ('o', 4, False, 0, [0, 1])],
          lambda x, o: st.Cast(st.Scratchpad(x, o, 4).read(o), width=4, point=1, signed=True), '', 'return (sx(in[0],2)*%d)&15;' % (2 - pt))
    # index of the extremum of the window so far
    for nm, cmp_, ini in (('Max', '>', -2), ('Min', '<', 1)):
        for v in ('', 'Valid'):
            for size in (2, 3):
                fn = getattr(st, 'ReduceArg' + nm + v)
                c('ReduceArg%s%s size=%d' % (nm, v, size), [XS],
                  (lambda f, s, i: lambda x: f(x, s, initval=i, width=2))(fn, size, ini), 'int8_t m; uint8_t i,n;',
                  'L x=sx(in[0],2); if(r.n==%d) r.n=0; if(!r.n){ r.m=%d; r.i=0; } if(x %s r.m){ r.m=x; r.i=r.n; } r.n++; '
                  'return (uint64_t)r.i | (uint64_t)(r.m&3)<<32 %s;' % (size, ini, cmp_, '| (uint64_t)(r.n==%d)<<34' % size if v else ''),
                  'r.m=%d; r.n=%d;' % (ini, size))
    c('RandXorshift', [W], lambda w: st.Cast(st.RandXorshift(0x12345678, dependency=w), width=32), 'uint32_t s; uint8_t n;',
      'uint32_t v=r.s; if(r.n<6){ r.n++; r.s^=r.s<<13; r.s^=r.s>>17; r.s^=r.s<<5; } else care=0; return v;', 'r.s=0x12345678;')
    c('CounterValid', [('x', 1, False, 0, [0]), W], lambda x, w: st.CounterValid(3, enable=w, reset=None, dependency=x, width=3), 'uint8_t c,p;',
      'uint64_t o=r.c; if(in[1]){ r.p=r.c==2; r.c=(r.c+1)%3; } else if(r.p) care=7; return o | (uint64_t)r.p<<3;')
    for s in (2, 3):
        c('ReduceAddValid size=%d' % s, [XS], (lambda k: lambda x: st.ReduceAddValid(x, k, width=4))(s), 'uint8_t a,n;',
          'if(r.n==%d){ r.n=0; r.a=0; } r.a=(r.a+sx(in[0],2))&15; r.n++; return r.a | (uint64_t)(r.n==%d)<<4;' % (s, s))
    # counters by a function: the initial values at a reset, else the function of the previous values
    R = ('r', 1, False, 0, None)
    for na in (0, 1, 2, 3):
        def make(x, r, na=na):
            f = lambda a, b, *v: (vtypes.Mux(a == 2, 0, a + 1), b + a + sum(v, vtypes.Int(0)))
            return st.CustomCounter(f, (1, 2), args=[x, x + 1, x + 2][:na] or None, reset=r, width_list=(2, 3), signed_list=(False, False))
        c('CustomCounter args=%d' % na, [('x', 2, False, 0, [0, 1])] + [R], make, 'uint8_t a,b,s;',
          'if(in[1]){ r.a=1; r.b=2; r.s=1; } else { uint8_t v=0; if(%d>0) v+=in[0]; if(%d>1) v+=(in[0]+1)&3; if(%d>2) v+=(in[0]+2)&3; '
          'r.b=(r.b+r.a+v)&7; r.a=r.a==2?0:r.a+1; r.a&=3; } if(!r.s){ care=0; r.a=r.b=0; } return r.a|r.b<<2;' % (na, na, na))
    # feedback: a consumer shows what the last element with the condition produced
    def lat0(v):
        v.latency = 0
        return v
    for when in (0, 1):
        for rst in (0, 1):
            def make(strm, x, *more, when=when, rst=rst):
                cur = strm.Consumer(1, width=3, signed=False)
                nxt = lat0(st.Plus(cur, x))
                kw = {}
                if when:
                    kw['when'] = more[0]
                if rst:
                    kw['reset'] = more[when]
                p = strm.Producer(cur, nxt, **kw)
                return [nxt, p]
            make.managed = True
            c('Producer when=%d reset=%d' % (when, rst), [('x', 2, False, 0, None)] + [W] * when + [R] * rst, make, 'uint8_t v;',
              'uint8_t n=(r.v+in[0])&7; uint64_t o=n; if(%s) r.v=n; if(%s) r.v=1; return o|(uint64_t)r.v<<PW;' %
              ('in[1]' if when else '1', 'in[%d]' % (1 + when) if rst else '0'), 'r.v=1;', '#define PW 3\n')
    # forwarding from the directly preceding element
    def make(strm, v, i, d):
        dst = strm.ForwardDest(v, i)
        nv = st.Plus(dst, d)
        src = strm.ForwardSource(nv, i, dst)
        return [src | 0]
    make.managed = True
    c('Forward', [('v', 2, False, 0, None), ('i', 1, False, 0, None), ('d', 2, False, 0, [1, 2])], make, 'uint8_t v,i,s;',
      'uint8_t b=r.s&&r.i==in[1]? r.v : in[0]; r.v=(b+in[2])&3; r.i=in[1]; r.s=1; return r.v;')
    out[-1] = out[-1] + (True,)
    # line buffers
    for (sx_, sy), M, rot in (((2, 2), 3, 0), ((2, 2), 3, 1), ((1, 3), 3, 1), ((3, 2), 3, 1)) + (() if Q else (((2, 2), 4, 1), ((3, 3), 3, 0))):
        n = sx_ * sy

        def make(x, a, sx_=sx_, sy=sy, M=M, rot=rot):
            lb = st.LineBuffer((sx_, sy), [M], x, [0], [M - 1], st.Eq(a, 1), [st.Eq(a, 2)] if rot else None)
            return [lb.get_window(k) | st.Int(0) for k in range(sx_ * sy)]
        c('LineBuffer %dx%d mem=%d rotate=%d' % (sx_, sy, M, rot), [('x', 1, False, 0, None), ('a', 2, False, 0, [0, 1, 2] if rot else [0, 1])], make,
          'uint8_t w[%d], k[%d], m[%d][%d], mk[%d][%d], head, tail;' % (n, n, sy, M, sy, M),
          """ enum { SX=%d, SY=%d, M=%d }; int sh=in[1]==1, ro=in[1]==2;
  if(sh||ro){ uint8_t nin[SY], nk[SY];
    for(int y=0;y<SY;y++){ int from= ro? y : y+1; if(from<SY){ nin[y]=r.m[from][r.head]; nk[y]=r.mk[from][r.head]; } else { nin[y]=in[0]; nk[y]=1; } }
    for(int y=0;y<SY;y++){ r.m[y][r.tail]=r.w[y*SX]; r.mk[y][r.tail]=r.k[y*SX];
      for(int x=0;x<SX-1;x++){ r.w[y*SX+x]=r.w[y*SX+x+1]; r.k[y*SX+x]=r.k[y*SX+x+1]; }
      r.w[y*SX+SX-1]=nin[y]; r.k[y*SX+SX-1]=nk[y]; }
    r.head=(r.head+1)%%M; r.tail=(r.tail+1)%%M; }
  uint64_t o=0; for(int i=0;i<SX*SY;i++){ o|=(uint64_t)r.w[i]<<(i*LW); if(!r.k[i]) care&=~(((1ull<<LW)-1)<<(i*LW)); } return o;"""
          % (sx_, sy, M), 'for(int i=0;i<%d;i++) r.k[i]=1; r.tail=%d;' % (n, M - 1), '#define LW 1\n')
    return out


@rtl.guarded
def mems(res, it):
    cs = [c for c in mem_cases() if c[0] in it]
    strmx.explore_many(res, 'memory batch %s' % it[0], cs)
    res['counts']['operators with memory'] = len(it)


if __name__ == '__main__':
    c = Check('C15')
    only = sys.argv[1] if len(sys.argv) > 1 else None
    items = [('comb', s) for s in shapes()]
    items += [('accs', tuple(x)) for x in chunks(acc_cases(), 8)] + [('cnts', tuple(x)) for x in chunks(cnt_cases(), 8)]
    items += [('mems', tuple(x)) for x in chunks([c[0] for c in mem_cases()], 8)]
    if only:
        items = [i for i in items if only in str(i)]

    def one(it):
        return {'comb': comb, 'accs': accs, 'cnts': cnts, 'mems': mems}[it[0]](it[1])
    for r in pmap(one, items, 'c15'):
        c.absorb(r)
    c.finish()
