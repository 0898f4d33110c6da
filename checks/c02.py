"""C02: procedural statements and module items behave like the same constructs written directly in Verilog."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import iv
import moditems
import timedstm

import veriloggen as vg
import veriloggen.core.vtypes as vt
import veriloggen.core.task as vtask

Q = tier() == 'quick'
GROUP = 40

# ---------------------------------------------------------------------------
# statements over r (3 bits), s (2 bits), m (two 1-bit words); inputs a (2 bits), b (1 bit)
#   ('=', target, expr, blk)
#   ('if', cond, T, E|None)  ('elif', c1, T, c2, U, E|None)  ('pif', ((cond|None, body), ..))
#   ('case', 'case'|'casex', comp, ((conds|None, body), ..))
#   ('for', n, body)  ('while', n, body)
# a body is a tuple of statements
# targets and expressions are pairs: (Verilog text, Python source over the names)
TG = {'r': 'r', 's': 's', 'r[0]': 'r[0]', 'r[2]': 'r[2]', 's[b]': 's[b]', 'r[2:1]': 'r[1:3]', 'r[a]': 'r[a]', 'm[b]': 'm[b]', 'm[0]': 'm[0]',
      '{s, r}': 'vg.Cat(s, r)', '{r[0], s}': 'vg.Cat(r[0], s)', '{m[1], r[1:0]}': 'vg.Cat(m[1], r[0:2])', 'r[i]': 'r[i]', 's[a-:1]': 's[a]'}
EX = {'a': 'a', 'r + 1': 'r + 1', 's': 's', 'r': 'r', '~s': 'vg.Unot(s)', 'm[b]': 'm[b]', '{b, s}': 'vg.Cat(b, s)', '{r, s}': 'vg.Cat(r, s)',
      'a + s': 'a + s', 'b': 'b', 'r >> 1': 'r >> 1', '1': '1', '0': '0', '5': '5', 'i': 'i', 'r + i': 'r + i', '3\'b1x0': 'vg.Int("3\'b1x0")',
      'r ^ {a, b}': 'r ^ vg.Cat(a, b)', 'm[0] + m[1]': 'm[0] + m[1]', 'f(r, a)': 'f.call(r, a)'}
CO = {'b': 'b', 'a == 1': 'a == 1', 'r > 3': 'r > 3', '!s': 'vg.Not(s)', 'a': 'a', 'r[0] && b': 'vg.Land(r[0], b)', 'a[1] || m[0]': 'vg.Lor(a[1], m[0])'}
PATS = {'0': '0', '1': '1', '2': '2', '3': '3', 's': 's', "3'bx1x": 'vg.Int("3\'bx1x")', "3'b1xx": 'vg.Int("3\'b1xx")', 'r == 0': 'r == 0', 'b': 'b', 'a > 1': 'a > 1'}
CMP = {'a': 'a', 'r': 'r', "1'd1": "vg.Int(1, width=1)", '{b, a}': 'vg.Cat(b, a)'}
CODE = dict((k, compile(v, k, 'eval')) for D in (TG, EX, CO, PATS, CMP) for k, v in D.items())


def py(k, env):
    return eval(CODE[k], {'vg': vg}, env)


class Writer:
    """the reference text of a statement; sfx renames the variables, blk forces blocking assignments"""

    def __init__(self, sfx, blk):
        self.sfx, self.blk = sfx, blk

    def n(self, text):
        return re.sub(r'\b([rsmi])\b', lambda x: x.group(1) + self.sfx, text)

    def body(self, b):
        return 'begin ' + ' '.join(self.st(x) for x in b) + ' end'

    def st(self, t):
        k = t[0]
        if k == '=':
            return '%s %s %s;' % (self.n(t[1].replace('[a-:1]', '[a]')), '=' if t[3] or self.blk else '<=', self.n(t[2]))
        if k == 'if':
            return 'if(%s) %s' % (self.n(t[1]), self.body(t[2])) + (' else ' + self.body(t[3]) if t[3] is not None else '')
        if k == 'elif':
            return 'if(%s) %s else if(%s) %s' % (self.n(t[1]), self.body(t[2]), self.n(t[3]), self.body(t[4])) + \
                (' else ' + self.body(t[5]) if t[5] is not None else '')
        if k == 'pif':
            s = ''
            for c, b in t[1]:
                s += (' else ' if s else '') + ('if(%s) ' % self.n(c) if c is not None else '') + self.body(b)
            return s
        if k == 'case':
            return '%s(%s) ' % (t[1], self.n(t[2])) + ' '.join(
                (', '.join(self.n(x) for x in c) if c else 'default') + ': ' + self.body(b) for c, b in t[3]) + ' endcase'
        if k == 'for':
            return self.n('for(i = 0; i < %s; i = i + 1) ' % t[1]) + self.body(t[2])
        if k == 'while':
            return 'begin ' + self.n('i = 0; while(i < %s) begin ' % t[1]) + ' '.join(self.st(x) for x in t[2]) + self.n(' i = i + 1; end end')
        raise ValueError(k)


def build(t, env):
    """the same statement through the veriloggen API"""
    k = t[0]
    if k == '=':
        l, r = py(t[1], env), py(t[2], env)
        return l(r, blk=True) if t[3] else l(r)
    if k == 'if':
        x = vg.If(py(t[1], env))(*bodies(t[2], env))
        return x if t[3] is None else x.Else(*bodies(t[3], env))
    if k == 'elif':
        x = vg.If(py(t[1], env))(*bodies(t[2], env)).Elif(py(t[3], env))(*bodies(t[4], env))
        return x if t[5] is None else x.Else(*bodies(t[5], env))
    if k == 'pif':
        return vg.PatternIf(*[(None if c is None else py(c, env), bodies(b, env)) for c, b in t[1]])
    if k == 'case':
        c = (vg.Case if t[1] == 'case' else vg.Casex)(py(t[2], env))
        w = [vg.When(*([py(x, env) for x in p] if p else []))(*bodies(b, env)) for p, b in t[3]]
        if len(w) > 2:          # the last arms arrive with add()
            return c(*w[:-1]).add(w[-1])
        return c(*w)
    i = env['i']
    if k == 'for':
        return vg.For(i(0), i < py(t[1], env) if t[1] in CODE else i < int(t[1]), i(i + 1))(*bodies(t[2], env))
    if k == 'while':
        return [i(0, blk=True), vg.While(i < int(t[1]))(*(bodies(t[2], env) + [i(i + 1, blk=True)]))]
    raise ValueError(k)


def bodies(b, env):
    r = []
    for x in b:
        y = build(x, env)
        r += y if isinstance(y, list) else [y]
    return r


# ---------------------------------------------------------------------------
def wx(t):
    """assignments and statements of one level"""
    A = lambda l, e, blk=False: ('=', l, e, blk)
    simple = [A(l, e) for l, e in (('r', 'r + 1'), ('r', 'a'), ('s', '~s'), ('s', 'r'), ('r[0]', 'b'), ('r[2:1]', 'a'), ('r[a]', 'm[b]'), ('m[b]', 'r'), ('m[0]', 'm[0] + m[1]'),
                                   ('{s, r}', '{r, s}'), ('{r[0], s}', 'r + 1'), ('{m[1], r[1:0]}', 'a + s'), ('s[b]', '1'), ('r', '{b, s}'), ('r', 'f(r, a)'))]
    return simple


def levels():
    A = lambda l, e, blk=False: ('=', l, e, blk)
    simple = wx(None)
    blocking = [A('r', 'r + 1', True), A('s', 'a + s', True), A('r[a]', 'b', True), A('m[b]', 's', True), A('{s, r}', '{r, s}', True), A('r[2:1]', 's', True), A('s', 'r >> 1')]
    S = [simple[0], simple[3], simple[6], simple[7]]
    C = list(CO)
    d1 = []
    for c in C:
        for x in S:
            d1.append(('if', c, (x,), None))
            d1.append(('if', c, (), (x,)))
        for x, y in itertools.product(S, S):
            if x != y:
                d1.append(('if', c, (x,), (y,)))
    for c, e in (('b', 'a == 1'), ('a', 'r > 3'), ('r[0] && b', '!s')):
        for x, y, z in ((S[0], S[1], S[2]), (S[2], S[3], S[1]), (S[0], S[0], S[3])):
            d1 += [('elif', c, (x,), e, (y,), (z,)), ('elif', c, (x,), e, (y,), None), ('elif', c, (x, y), e, (z, x), (y, z)),
                   ('pif', ((c, (x,)), (e, (y,)), (None, (z,)))), ('pif', ((c, (x,)), (e, (y, z))))]
    for kind in ('case', 'casex'):
        for comp, arms in (('a', (('0',), ('1',), ('2', '3'))), ('a', (('0', '3'), ('1',), None)), ('r', (('s',), ('1', '2'), None)), ('r', (("3'bx1x",), ("3'b1xx",), None)),
                           ("1'd1", (('r == 0',), ('b',), ('a > 1',))), ('{b, a}', (('0', '1'), ('s',), None)), ('a', (('1',),)), ('a', (None,)), ('r', (("3'b1xx",), ('0',), ('1',)))):
            for rot in range(3 if len(arms) > 1 else 2):
                d1.append(('case', kind, comp, tuple((p, (S[(rot + j) % 4],)) for j, p in enumerate(arms))))
                d1.append(('case', kind, comp, tuple((p, (S[(rot + j) % 4], S[(rot + j + 1) % 4])) for j, p in enumerate(arms))))
    loops = []
    for n in ('0', '1', '2', '3'):
        for x in (A('r', 'r + i', True), A('r[i]', 'm[b]'), A('r[i]', 'r[0] && b', True), A('s', 'a + s', True), A('r', 'r ^ {a, b}'), A('r', 'i')):
            loops += [('for', n, (x,)), ('while', n, (x,))]
            loops += [('for', n, (('if', 'r > 3', (x,), (A('s', 'r', True),)),)), ('while', n, (('case', 'case', 'a', ((('1',), (x,)), (None, (A('r', 'r + 1', True),)))),))]
    for x in (A('s', 'a + s', True), A('r', 'r + i', True)):
        loops += [('for', 'a', (x,)), ('for', 's', (x,))]
    return simple, blocking, S, d1, loops


EX.setdefault('r[0] && b', 'vg.Land(r[0], b)')
CODE['r[0] && b'] = compile('vg.Land(r[0], b)', 'x', 'eval')


def nest(d1, S, pick):
    """depth two: each compound with one compound inside"""
    out = []
    for x in d1[::pick]:
        for c, y in (('b', S[0]), ('a == 1', S[3])):
            out += [('if', c, (x,), None), ('if', c, (x,), (y,)), ('if', c, (y,), (x,)), ('if', c, (y, x), (x, y)), ('elif', c, (x,), 'r > 3', (y,), (x,)), ('elif', c, (y,), 'r > 3', (x,), None)]
        out += [('case', 'case', 'a', ((('0',), (x,)), (('1', '2'), (S[1],)), (None, (S[2], x)))), ('pif', (('b', (S[1],)), ('a', (x,)), (None, (S[0],)))),
                ('if', 'b', (('if', 'a', (x,), None),), (S[1],)), ('if', 'b', (('if', 'a', (S[2],), None),), (x,))]
    return out


def programs():
    simple, blocking, S, d1, loops = levels()
    ps = [(x,) for x in simple + blocking + d1 + loops]
    ps += [(x, y) for x in simple + blocking for y in simple + blocking]
    ps += [(x, y) for x in d1[::7 if Q else 2] for y in S[:2] + d1[::29 if Q else 9]] + [(y, x) for x in d1[::7 if Q else 2] for y in S[2:]]
    ps += [(x, y) for x in loops for y in blocking[:2]]
    ps += [(x,) for x in nest(d1, S, 2 if Q else 1)]
    if not Q:
        d2 = nest(d1, S, 4)
        ps += [(x,) for x in nest(d2, S, 7)]
        ps += [(x, y, z) for x in simple for y in blocking for z in d1[::19]]
    return ps


# ---------------------------------------------------------------------------
FUNC = 'function [2:0] f(input [2:0] x, input [1:0] y); begin f = x ^ y; if(y == 2) f = x + 1; end endfunction'


def api_func(m):
    f = m.Function('f', 3)
    x = f.Input('x', 3)
    y = f.Input('y', 2)
    f.Body(f(x ^ y), vg.If(y == 2)(f(x + 1)))
    return f


def clocked(res, progs, edge):
    """the whole transition relation of every program: all states and inputs, one clock edge"""
    m = vg.Module('dut')
    clk = m.Input('CLK')
    a = m.Input('a', 2)
    b = m.Input('b')
    f = api_func(m)
    ref = ['module refm(input CLK, input [1:0] a, input b);', FUNC]
    for k, p in enumerate(progs):
        env = dict(a=a, b=b, f=f, r=m.Reg('r%d' % k, 3), s=m.Reg('s%d' % k, 2), m=m.Reg('m%d' % k, dims=2), i=m.Integer('i%d' % k))
        m.Always((vg.Posedge if edge == 'posedge' else vg.Negedge)(clk))(*bodies(p, env))
        ref.append('reg [2:0] r%d; reg [1:0] s%d; reg m%d [0:1]; integer i%d; always @(%s CLK) %s' % (k, k, k, k, edge, Writer(str(k), False).body(p)))
    ref.append('endmodule')
    text = m.to_verilog()
    K = range(len(progs))
    tb = ['module tb; reg CLK; reg [1:0] a; reg b; integer v, n; reg [%d:0] rep; dut u(.CLK(CLK), .a(a), .b(b)); refm w(.CLK(CLK), .a(a), .b(b));' % len(progs)]
    tb.append('initial begin n = 0; rep = 0; CLK = %d; #1;' % (edge == 'negedge'))
    tb.append('for(v = 0; v < 1024; v = v + 1) begin {a, b} = v[2:0];')
    for x in 'uw':
        tb += ['%s.m%d[0] = v[3]; %s.m%d[1] = v[4]; %s.s%d = v[6:5]; %s.r%d = v[9:7];' % (x, k, x, k, x, k, x, k) for k in K]
    tb.append('#1 CLK = ~CLK; #1;')
    for k in K:
        cat = lambda x: '{%s.r%d, %s.s%d, %s.m%d[1], %s.m%d[0]}' % (x, k, x, k, x, k, x, k)
        tb.append('if(%s !== %s && !rep[%d]) begin rep[%d] = 1; $display("MIS %d v=%%b got=%%b want=%%b", v[9:0], %s, %s); end' % (cat('u'), cat('w'), k, k, k, cat('u'), cat('w')))
    # the other edge changes nothing
    tb.append('#1 CLK = ~CLK; #1; n = n + 1;')
    for k in K:
        tb.append('if(%s !== %s && !rep[%d]) begin rep[%d] = 1; $display("MIS %d other edge v=%%b got=%%b want=%%b", v[9:0], %s, %s); end' % (cat2('u', k), cat2('w', k), k, k, k, cat2('u', k), cat2('w', k)))
    tb.append('end $display("DONE %0d", n); $finish; end endmodule')
    verdict(res, 'clocked', progs, text, ref, tb, 2 * len(progs))


def cat2(x, k):
    return '{%s.r%d, %s.s%d, %s.m%d[1], %s.m%d[0]}' % (x, k, x, k, x, k, x, k)


def verdict(res, kind, progs, text, ref, tb, per):
    try:
        out = iv.simulate(text + '\n' + '\n'.join(ref) + '\n' + '\n'.join(tb), tag='c02')
    except iv.Reject as ex:
        if len(progs) == 1:
            res['violations'].append(('%s:invalid:%r' % (kname(kind), progs[0]), 'the simulator rejects %s: %s' % (show(kind, progs[0]), str(ex)[:300]), text[-1500:]))
            return
        h = len(progs) // 2
        RUN[kind](res, progs[:h])
        RUN[kind](res, progs[h:])
        return
    n = None
    for line in out.splitlines():
        if line.startswith('MIS'):
            k = int(line.split()[1])
            res['violations'].append(('%s:value:%r' % (kname(kind), progs[k]), '%s: %s' % (show(kind, progs[k]), line), None))
        elif line.startswith('DONE'):
            n = int(line.split()[1])
    if not n:
        raise HarnessError('no DONE: ' + out[-400:])
    res['states'] += n * len(progs)
    res['transitions'] += n * per
    res['traces'] += n * len(progs)


def outputs(progs):
    """programs over blocking targets only for combinational logic and functions"""
    return progs


def comb(res, progs):
    """always @* and functions and tasks: every input value; r, s and m start from the inputs"""
    m = vg.Module('dut')
    a = m.Input('a', 2)
    b = m.Input('b')
    z = m.Input('z', 5)
    f = api_func(m)
    ref = ['module refm(input [1:0] a, input b, input [4:0] z);', FUNC]
    for k, p in enumerate(progs):
        env = dict(a=a, b=b, f=f, r=m.Reg('r%d' % k, 3), s=m.Reg('s%d' % k, 2), m=m.Reg('m%d' % k, dims=2), i=m.Integer('i%d' % k))
        pre = [env['r'](z[2:5], blk=True), env['s'](z[0:2], blk=True), env['m'][0](z[0], blk=True), env['m'][1](z[4], blk=True)]
        # implicit and explicit sensitivity
        al = m.Always() if k % 3 == 0 else m.Always(vt.SensitiveAll()) if k % 3 == 1 else m.Always(a, b, z)
        al(*(pre + bodies(block(p), env)))
        ref.append('reg [2:0] r%d; reg [1:0] s%d; reg m%d [0:1]; integer i%d; always @(%s) begin r%d = z[4:2]; s%d = z[1:0]; m%d[0] = z[0]; m%d[1] = z[4]; %s end' % (
            k, k, k, k, 'a or b or z', k, k, k, k, Writer(str(k), True).body(p)))
    ref.append('endmodule')
    tb = ['module tb; reg [1:0] a; reg b; reg [4:0] z; integer v, n; reg [%d:0] rep; dut u(.a(a), .b(b), .z(z)); refm w(.a(a), .b(b), .z(z));' % len(progs)]
    tb.append('initial begin n = 0; rep = 0; #1; for(v = 0; v < 512; v = v + 1) begin {z, a, b} = v[7:0] ^ (v[8] ? 8\'h35 : 8\'h00); #1; n = n + 1;')
    for k in range(len(progs)):
        tb.append('if(%s !== %s && !rep[%d]) begin rep[%d] = 1; $display("MIS %d z=%%b a=%%b b=%%b got=%%b want=%%b", z, a, b, %s, %s); end' % (cat2('u', k), cat2('w', k), k, k, k, cat2('u', k), cat2('w', k)))
    tb.append('end $display("DONE %0d", n); $finish; end endmodule')
    verdict(res, 'comb', progs, m.to_verilog(), ref, tb, 1)


def block(p):
    """the same program with blocking assignments"""
    def b(t):
        if t[0] == '=':
            return t[:3] + (True,)
        return tuple(tuple(b(x) if isinstance(x, tuple) and x and x[0] in ('=', 'if', 'elif', 'pif', 'case', 'for', 'while') else deep(x) for x in t))

    def deep(x):
        if isinstance(x, tuple):
            return tuple(b(y) if isinstance(y, tuple) and y and y[0] in ('=', 'if', 'elif', 'pif', 'case', 'for', 'while') else deep(y) for y in x)
        return x
    return tuple(b(x) for x in p)


def routine(res, progs):
    """function and task bodies: assignments there are blocking whatever the flag"""
    m = vg.Module('dut')
    a = m.Input('a', 2)
    b = m.Input('b')
    z = m.Input('z', 5)
    ref = ['module refm(input [1:0] a, input b, input [4:0] z);']
    for k, p in enumerate(progs):
        # function: all the state is local and packed into the result
        f = m.Function('fn%d' % k, 7)
        x = f.Input('z', 5)
        fa = f.Input('a', 2)
        fb = f.Input('b')
        r, s, i, c0, c1 = f.Reg('r', 3), f.Reg('s', 2), f.Integer('i'), f.Reg('m0'), f.Reg('m1')
        env = dict(a=fa, b=fb, r=r, s=s, i=i, m=Words(c0, c1), f=None)
        f.Body(*([r(x[2:5]), s(x[0:2]), c0(x[0]), c1(x[4])] + bodies(p, env) + [f(vg.Cat(r, s, c1, c0))]))
        o = m.Wire('o%d' % k, 7)
        o.assign(f.call(z, a, b))
        w = Writer('', True)
        ref.append('function [6:0] fn%d(input [4:0] z, input [1:0] a, input b); reg [2:0] r; reg [1:0] s; integer i; reg m0, m1; begin r = z[4:2]; s = z[1:0]; m0 = z[0]; m1 = z[4]; %s fn%d = {r, s, m1, m0}; end '
                   'endfunction wire [6:0] o%d; assign o%d = fn%d(z, a, b);' % (k, words(w.body(p)), k, k, k, k))
        # task: works on module variables, called from an always block
        T = m.Task('tk%d' % k)
        ta = T.Input('a', 2)
        tb_ = T.Input('b')
        ti = T.Integer('i')
        e2 = dict(a=ta, b=tb_, r=m.Reg('r%d' % k, 3), s=m.Reg('s%d' % k, 2), m=m.Reg('m%d' % k, dims=2), i=ti, f=None)
        T.Body(*bodies(p, e2))
        m.Always(a, b, z)(e2['r'](z[2:5], blk=True), e2['s'](z[0:2], blk=True), e2['m'][0](z[0], blk=True), e2['m'][1](z[4], blk=True),
                          vt.SingleStatement(T.call(a, b)), e2['s'](e2['s'] + 1, blk=True))
        ref.append('reg [2:0] r%d; reg [1:0] s%d; reg m%d [0:1]; task tk%d(input [1:0] a, input b); integer i; %s endtask always @(a or b or z) begin r%d = z[4:2]; s%d = z[1:0]; m%d[0] = z[0]; '
                   'm%d[1] = z[4]; tk%d(a, b); s%d = s%d + 1; end' % (k, k, k, k, re.sub(r'\bi%d\b' % k, 'i', Writer(str(k), True).body(p)), k, k, k, k, k, k, k))
    ref.append('endmodule')
    tb = ['module tb; reg [1:0] a; reg b; reg [4:0] z; integer v, n; reg [%d:0] rep; dut u(.a(a), .b(b), .z(z)); refm w(.a(a), .b(b), .z(z));' % len(progs)]
    tb.append('initial begin n = 0; rep = 0; #1; for(v = 0; v < 256; v = v + 1) begin {z, a, b} = v[7:0]; #1; n = n + 1;')
    for k in range(len(progs)):
        cu, cw = ('{%s.o%d, %s}' % (x, k, cat2(x, k)) for x in 'uw')
        tb.append('if(%s !== %s && !rep[%d]) begin rep[%d] = 1; $display("MIS %d z=%%b a=%%b b=%%b got=%%b want=%%b", z, a, b, %s, %s); end' % (cu, cw, k, k, k, cu, cw))
    tb.append('end $display("DONE %0d", n); $finish; end endmodule')
    verdict(res, 'routine', progs, m.to_verilog(), ref, tb, 1)


class Words:
    """an array of two separate registers"""

    def __init__(self, *w):
        self.w = w

    def __getitem__(self, i):
        return self.w[i]


def words(s):
    return s.replace('m[0]', 'm0').replace('m[1]', 'm1')


def timed(res, progs, always):
    """delays, events and waits: the values at every time unit, for every input waveform of the set"""
    text, ref, tb = timedstm.module(progs, always)
    verdict(res, ('timed', always), progs, text, ref, tb, timedstm.NV)


def moditem(name):
    """every sequence of input vectors to a depth"""
    f, ports, text, depth = moditems.IT[name]
    depth = min(depth, 4 if Q else 5)
    res = dict(states=0, transitions=0, traces=0, counts={'module items': 1}, violations=[], samples=[])
    names = ports.split()
    m = vg.Module('dut')
    p = dict((n, m.Input(n)) for n in names)
    o = m.Output('o', 16)
    try:
        f(m, o, p)
        dut = m.to_verilog()
    except Exception:
        if '/veriloggen/' not in exc_text():
            raise
        res['violations'].append(('items:reject:' + name, 'veriloggen fails on %s\n%s' % (name, exc_text()), None))
        return res
    par = re.match(r'((?:parameter [^;]*; )*)(.*)', text, re.S)
    ref = 'module dut(%s, output [15:0] o); %s%s endmodule' % (', '.join('input ' + n for n in names), par.group(1), par.group(2))
    N = len(names)
    outs = []
    cat = '{%s}' % ', '.join(names)
    tb = ['module tb; %s wire [15:0] o; integer v, k; dut u(%s, .o(o)); initial begin' % (' '.join('reg %s;' % n for n in names), ', '.join('.%s(%s)' % (n, n) for n in names))]
    tb.append('%s = 0; #1; for(v = 0; v < %d; v = v + 1) begin for(k = 0; k < %d; k = k + 1) begin %s = v >> (%d * k); #1; $display("S %%b %%b", %s, o); end end $display("DONE"); $finish; end endmodule' % (
        cat, 2 ** (N * depth), depth, cat, N, cat))
    for which, t in (('dut', dut), ('ref', ref)):
        try:
            outs.append([l for l in iv.simulate(t + '\n' + '\n'.join(tb), tag='i' + name + which).splitlines() if '$finish' not in l])
        except iv.Reject as ex:
            if which == 'ref':
                raise HarnessError('reference of %s: %s' % (name, str(ex)[:300]))
            res['violations'].append(('items:invalid:' + name, 'the simulator rejects %s: %s' % (name, str(ex)[:300]), t))
            return res
    if 'DONE' not in outs[1]:
        raise HarnessError('no DONE: %r' % outs[1][-2:])
    if outs[0] != outs[1]:
        k = [i for i in range(min(map(len, outs))) if outs[0][i] != outs[1][i]]
        k = k[0] if k else min(map(len, outs))
        res['violations'].append(('items:value:' + name, '%s: after %s: got %s want %s' % (name, outs[1][max(0, k - 4):k], outs[0][k:k + 1], outs[1][k:k + 1]), dut))
    res['states'] = res['transitions'] = res['traces'] = len(outs[1])
    return res


def kname(kind):
    return kind if isinstance(kind, str) else '%s_%s' % kind


def show(kind, p):
    if isinstance(kind, tuple):
        return ' '.join(timedstm.text(t, 0, '=' if kind[1] is None else '<=') for t in p)
    return Writer('', False).body(p)


RUN = {'clocked': lambda res, p: (clocked(res, p, 'posedge')), 'comb': comb, 'routine': routine,
       ('timed', None): lambda res, p: timed(res, p, None), ('timed', 'posedge'): lambda res, p: timed(res, p, 'posedge'), ('timed', 'level'): lambda res, p: timed(res, p, 'level')}


def stat(kind, progs):
    res = dict(states=0, transitions=0, traces=0, counts={}, violations=[], samples=[])
    ok = []
    for k in range(0, len(progs), GROUP):
        g = progs[k:k + GROUP]
        try:
            RUN[kind](res, g)
        except HarnessError:
            raise
        except Exception:
            for p in g:
                try:
                    RUN[kind](res, [p])
                except HarnessError:
                    raise
                except Exception:
                    if '/veriloggen/' not in exc_text():
                        raise
                    res['violations'].append(('%s:reject:%r' % (kname(kind), p), 'veriloggen fails on %s\n%s' % (show(kind, p), exc_text()), None))
    res['counts']['programs: ' + kname(kind)] = len(progs)
    res['samples'].append({'kind': kname(kind), 'program': show(kind, progs[0])})
    return res


def negedge(progs):
    res = dict(states=0, transitions=0, traces=0, counts={}, violations=[], samples=[])
    for k in range(0, len(progs), GROUP):
        clocked(res, progs[k:k + GROUP], 'negedge')
    res['counts']['programs: negedge'] = len(progs)
    return res


def uses(p, *names):
    return any(n in repr(p) for n in names)


def dispatch(it):
    return globals()[it[0]](*it[1:])


def items():
    ps = programs()
    its = []
    n = 400
    for k in range(0, len(ps), n):
        its.append(('stat', 'clocked', ps[k:k + n]))
    cs = [p for p in ps if not uses(p, "'a - b'")][::2 if Q else 1]
    for k in range(0, len(cs), n):
        its.append(('stat', 'comb', cs[k:k + n]))
    fs = [p for p in ps if not uses(p, 'f(r, a)', 'm[b]')][::3 if Q else 1]
    for k in range(0, len(fs), n):
        its.append(('stat', 'routine', fs[k:k + n]))
    its.append(('negedge', ps[::37]))
    for al in (None, 'posedge', 'level'):
        ts = timedstm.programs(al, Q)
        for k in range(0, len(ts), n):
            its.append(('stat', ('timed', al), ts[k:k + n]))
    its += [('moditem', x) for x in moditems.IT]
    return its


def main():
    c = Check('C02')
    its = items()
    if len(sys.argv) > 1:
        its = [i for i in its if sys.argv[1] in str(i[:2])]
    for r in pmap(dispatch, its, 'c02'):
        c.absorb(r)
    c.assumptions = ['the language semantics are those of Icarus Verilog on the reference text', 'two assignments to one whole wire in the two branches of a generate-if are rejected by veriloggen; partial assignments are used there']
    c.finish()


if __name__ == '__main__':
    main()
