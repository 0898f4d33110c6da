"""C01: emitted expressions denote the operator tree that was built."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import iv

import veriloggen as vg
import veriloggen.core.vtypes as vt

# ---------------------------------------------------------------- trees
# a tree is a nested tuple; mk() builds it through the veriloggen API,
# ref() writes the same tree as fully parenthesised Verilog, independently.

BIN = {
    '+': (lambda l, r: l + r, '+'), '-': (lambda l, r: l - r, '-'),
    '*': (lambda l, r: l * r, '*'), '/': (lambda l, r: l / r, '/'),
    '%': (lambda l, r: l % r, '%'), '**': (lambda l, r: l ** r, '**'),
    '<': (lambda l, r: l < r, '<'), '<=': (lambda l, r: l <= r, '<='),
    '>': (lambda l, r: l > r, '>'), '>=': (lambda l, r: l >= r, '>='),
    '==': (lambda l, r: l == r, '=='), '!=': (lambda l, r: l != r, '!='),
    '===': (lambda l, r: vt.Eql(l, r), '==='), '!==': (lambda l, r: vt.NotEql(l, r), '!=='),
    '&': (lambda l, r: l & r, '&'), '|': (lambda l, r: l | r, '|'),
    '^': (lambda l, r: l ^ r, '^'), '~^': (lambda l, r: vt.Xnor(l, r), '~^'),
    '&&': (lambda l, r: vt.Land(l, r), '&&'), '||': (lambda l, r: vt.Lor(l, r), '||'),
    '<<': (lambda l, r: l << r, '<<'), '>>': (lambda l, r: l >> r, '>>'),
    '>>>': (lambda l, r: vt.Sra(l, r), '>>>'),
}
# alternative spellings of the same operators
ALT = {
    'Add': (vt.Add, '+'), 'Sub': (vt.Sub, '-'), 'Mul': (vt.Mul, '*'), 'Div': (vt.Div, '/'),
    'Plus': (vt.Plus, '+'), 'Minus': (vt.Minus, '-'), 'Times': (vt.Times, '*'),
    'Divide': (vt.Divide, '/'), 'Mod': (vt.Mod, '%'), 'Power': (vt.Power, '**'),
    '//': (lambda l, r: l // r, '/'), 'Sll': (vt.Sll, '<<'), 'Srl': (vt.Srl, '>>'),
    '.sra': (lambda l, r: l.sra(r), '>>>'), 'LessThan': (vt.LessThan, '<'),
    'LessEq': (vt.LessEq, '<='), 'GreaterThan': (vt.GreaterThan, '>'),
    'GreaterEq': (vt.GreaterEq, '>='), 'Eq': (vt.Eq, '=='), 'NotEq': (vt.NotEq, '!='),
    'And': (vt.And, '&'), 'Or': (vt.Or, '|'), 'Xor': (vt.Xor, '^'),
    'AndList': (lambda l, r: vt.AndList(l, r), '&&'), 'OrList': (lambda l, r: vt.OrList(l, r), '||'),
    'Ands': (lambda l, r: vt.Ands(l, r), '&&'), 'Ors': (lambda l, r: vt.Ors(l, r), '||'),
}
UN = {
    'u-': (lambda x: -x, '-'), 'u+': (lambda x: +x, '+'), '~': (lambda x: ~x, '~'),
    '!': (lambda x: vt.Not(x), '!'), 'u&': (lambda x: vt.Uand(x), '&'),
    'u|': (lambda x: vt.Uor(x), '|'), 'u^': (lambda x: vt.Uxor(x), '^'),
    'u~&': (lambda x: vt.Unand(x), '~&'), 'u~|': (lambda x: vt.Unor(x), '~|'),
    'u~^': (lambda x: vt.Uxnor(x), '~^'),
}
UALT = {
    'Uminus': (vt.Uminus, '-'), 'Uplus': (vt.Uplus, '+'), 'Unot': (vt.Unot, '~'),
    'Ulnot': (vt.Ulnot, '!'),
}
SIGS = {'a': (3, False), 'b': (3, False), 'c': (3, True), 'e': (2, True), 'd': (1, False)}


def V(n):
    return ('v', n)


# literal forms: name -> (constructor, reference text)
LITS = {
    '5': (lambda: 5, '5'),
    '-3': (lambda: -3, '(-3)'),
    'True': (lambda: True, '1'),
    'False': (lambda: False, '0'),
    'Int(2)': (lambda: vt.Int(2), '2'),
    'Int(-2)': (lambda: vt.Int(-2), '(-2)'),
    'Int(5,w4)': (lambda: vt.Int(5, width=4), "4'd5"),
    'Int(6,w3,s)': (lambda: vt.Int(6, width=3, signed=True), "3'sd6"),
    'Int(-3,w4)': (lambda: vt.Int(-3, width=4), "(-4'sd3)"),
    'Int(10,b2)': (lambda: vt.Int(10, width=5, base=2), "5'b1010"),
    'Int(10,b8)': (lambda: vt.Int(10, width=6, base=8), "6'o12"),
    'Int(10,b10)': (lambda: vt.Int(10, width=6, base=10), "6'd10"),
    'Int(10,b16)': (lambda: vt.Int(10, width=6, base=16), "6'ha"),
    'Int(10,b2,s)': (lambda: vt.Int(10, width=4, base=2, signed=True), "4'sb1010"),
    'Int(10,b8,s)': (lambda: vt.Int(10, width=4, base=8, signed=True), "4'so12"),
    'Int(10,b10,s)': (lambda: vt.Int(10, width=4, base=10, signed=True), "4'sd10"),
    'Int(10,b16,s)': (lambda: vt.Int(10, width=4, base=16, signed=True), "4'sha"),
    'Int(12,b2 nowidth)': (lambda: vt.Int(12, base=2), "'b1100"),
    'Int(-6,b2,w5)': (lambda: vt.Int(-6, width=5, base=2), "(-5'sb110)"),
    'Int(-6,b16,w5)': (lambda: vt.Int(-6, width=5, base=16), "(-5'sh6)"),
    'Int(-6,b8,w5)': (lambda: vt.Int(-6, width=5, base=8), "(-5'so6)"),
    "Int('4'b1x0z')": (lambda: vt.Int("4'b1x0z"), "4'b1x0z"),
    "Int('6'hx3')": (lambda: vt.Int("6'hx3"), "6'hx3"),
    "Int('6'o7z')": (lambda: vt.Int("6'o7z"), "6'o7z"),
    "Int('8'hA_5')": (lambda: vt.Int("8'hA_5"), "8'hA5"),
    "Int('8'b1010_0101')": (lambda: vt.Int("8'b1010_0101"), "8'b10100101"),
    "Int('4'sb1010')": (lambda: vt.Int("4'sb1010"), "4'sb1010"),
    "Int('4'sd9')": (lambda: vt.Int("4'sd9"), "4'sd9"),
    "Int('5'd19')": (lambda: vt.Int("5'd19"), "5'd19"),
    "Int('5'sh1F')": (lambda: vt.Int("5'sh1F"), "5'sh1f"),
    "Int('5'o27')": (lambda: vt.Int("5'o27"), "5'o27"),
    "Int('17')": (lambda: vt.Int('17'), '17'),
    'IntX(3)': (lambda: vt.IntX(3), "3'hx"),
    'IntZ(3)': (lambda: vt.IntZ(3), "3'hz"),
    'IntX(4,2)': (lambda: vt.IntX(4, 2), "4'bx"),
    "Int(255,w4)": (lambda: vt.Int(255, width=8), "8'd255"),
}


def mk(t, S):
    k = t[0]
    if k == 'v':
        return S[t[1]]
    if k == 'lit':
        return LITS[t[1]][0]()
    if k in BIN:
        return BIN[k][0](mk(t[1], S), mk(t[2], S))
    if k == 'alt':
        return ALT[t[1]][0](mk(t[2], S), mk(t[3], S))
    if k == 'ualt':
        return UALT[t[1]][0](mk(t[2], S))
    if k in UN:
        return UN[k][0](mk(t[1], S))
    if k == 'mux':
        return vt.Mux(mk(t[1], S), mk(t[2], S), mk(t[3], S))
    if k == 'cond':
        return vt.Cond(mk(t[1], S), mk(t[2], S), mk(t[3], S))
    if k == 'cat':
        return vt.Cat(*[mk(x, S) for x in t[1:]])
    if k == 'rep':
        return vt.Repeat(mk(t[1], S), t[2])
    if k == '.rep':
        return mk(t[1], S).repeat(t[2])
    if k == 'ptr':
        return mk(t[1], S)[mk(t[2], S) if isinstance(t[2], tuple) else t[2]]
    if k == 'pys':          # python slice [lo:hi:step]
        return mk(t[1], S)[t[2]:t[3]:t[4]]
    if k == 'slice':
        return vt.Slice(mk(t[1], S), t[2], t[3])
    if k == '.slice':
        return mk(t[1], S).slice(t[2], t[3])
    if k == 'sys':
        return vt.SystemTask(t[1], *[mk(x, S) for x in t[2:]])
    if k == 'signed':
        return vt.Signed(mk(t[1], S))
    if k == 'abs':
        return vt.Abs(mk(t[1], S))
    if k == '__abs__':
        return abs(mk(t[1], S))
    if k == 'sign':
        return vt.Sign(mk(t[1], S))
    if k == 'c2':
        return vt.Complement2(mk(t[1], S))
    if k == 'andl':
        return vt.AndList(*[mk(x, S) for x in t[1:]])
    if k == 'orl':
        return vt.OrList(*[mk(x, S) for x in t[1:]])
    if k == 'pmux':
        return vt.PatternMux(*[(mk(c, S) if c is not None else None, mk(v, S)) for c, v in t[1:]])
    if k == 'emb':
        return vt.EmbeddedNumeric(t[1])
    if k == 'reduce+':
        r = mk(t[1], S)
        for x in t[2:]:
            r = r + mk(x, S)
        return r
    raise KeyError(k)


def wid(t):
    """bit width of signals, for reference text of negative indices"""
    return {'s': 8, 'a': 3, 'b': 3, 'c': 3, 'e': 2, 'd': 1}[t[1]]


def ref(t):
    k = t[0]
    if k == 'v':
        return t[1]
    if k == 'lit':
        return LITS[t[1]][1]
    if k in BIN:
        return '(%s %s %s)' % (ref(t[1]), BIN[k][1], ref(t[2]))
    if k == 'alt':
        return '(%s %s %s)' % (ref(t[2]), ALT[t[1]][1], ref(t[3]))
    if k == 'ualt':
        return '(%s(%s))' % (UALT[t[1]][1], ref(t[2]))
    if k in UN:
        return '(%s(%s))' % (UN[k][1], ref(t[1]))
    if k in ('mux', 'cond'):
        return '((%s) ? (%s) : (%s))' % (ref(t[1]), ref(t[2]), ref(t[3]))
    if k == 'cat':
        return '{%s}' % ', '.join(ref(x) for x in t[1:])
    if k in ('rep', '.rep'):
        return '{%d{%s}}' % (t[2], ref(t[1]))
    if k == 'ptr':
        if isinstance(t[2], tuple):
            return '%s[%s]' % (ref(t[1]), ref(t[2]))
        i = t[2]
        if i < 0:
            i += wid(t[1])
        return '%s[%d]' % (ref(t[1]), i)
    if k == 'pys':
        n = wid(t[1])
        idx = list(range(n))[t[2]:t[3]:t[4]]
        if t[4] is None:
            return '%s[%d:%d]' % (ref(t[1]), idx[-1], idx[0])
        return '{%s}' % ', '.join('%s[%d]' % (ref(t[1]), i) for i in reversed(idx))
    if k in ('slice', '.slice'):
        return '%s[%d:%d]' % (ref(t[1]), t[2], t[3])
    if k == 'sys':
        return '$%s(%s)' % (t[1], ', '.join(ref(x) for x in t[2:]))
    if k == 'signed':
        return '$signed(%s)' % ref(t[1])
    if k in ('abs', '__abs__'):
        x = ref(t[1])
        return "(((%s) < 'sd0) ? ((~(%s)) + 1) : (%s))" % (x, x, x)
    if k == 'sign':
        return "((%s) < 'sd0)" % ref(t[1])
    if k == 'c2':
        return '((~(%s)) + 1)' % ref(t[1])
    if k == 'andl':
        r = ref(t[1])
        for x in t[2:]:
            r = '(%s && %s)' % (r, ref(x))
        return r
    if k == 'orl':
        r = ref(t[1])
        for x in t[2:]:
            r = '(%s || %s)' % (r, ref(x))
        return r
    if k == 'pmux':
        r = None
        for c, v in reversed(t[1:]):
            r = ref(v) if r is None else '((%s) ? (%s) : (%s))' % (ref(c), ref(v), r)
        return r
    if k == 'emb':
        return t[1]
    if k == 'reduce+':
        r = ref(t[1])
        for x in t[2:]:
            r = '(%s + %s)' % (r, ref(x))
        return r
    raise KeyError(k)


def trees():
    a, b, c, e, d, s = (V(x) for x in 'abceds')
    out = []
    L = lambda n: ('lit', n)
    # depth 1
    for o in BIN:
        for l, r in [(a, b), (c, e), (a, c), (c, a), (d, a), (e, c), (s, a)]:
            out.append((o, l, r))
    for o in ALT:
        for l, r in [(a, b), (c, e), (e, a)]:
            out.append(('alt', o, l, r))
    for o in UN:
        for x in (a, c, d, s):
            out.append((o, x))
    for o in UALT:
        for x in (a, c):
            out.append(('ualt', o, x))
    # literals, both sides, all operators
    for o in BIN:
        for n in ('5', '-3', 'Int(2)', 'Int(-2)', 'Int(5,w4)', 'Int(6,w3,s)', 'Int(-3,w4)'):
            for x in (a, c):
                out.append((o, x, L(n)))
                out.append((o, L(n), x))
    for n in LITS:
        if n in ('True', 'False'):
            continue
        out.append(L(n))
        if n.startswith('Int'):
            for o in UALT:
                out.append(('ualt', o, L(n)))
                out.append(('+', c, ('ualt', o, L(n))))
        for x in (a, c, s):
            out.append(('+', x, L(n)))
            out.append(('-', L(n), x))
        out.append(('===', c, L(n)))
        out.append(('<', c, L(n)))
        if 'nowidth' not in n and n.startswith('Int') and ',w' in n or "'" in n and n[5].isdigit():
            if '-' not in n and "Int('17" not in n:
                out.append(('cat', d, L(n)))
    for n in ('True', 'False'):
        for x in (a, c):
            out.append(('+', x, L(n)))
            out.append(('==', x, L(n)))
            out.append(('mux', d, x, L(n)))
    # depth 2: every pair of binary operators, both associations, mixed signs
    for o1 in BIN:
        for o2 in BIN:
            out.append((o1, (o2, a, b), c))
            out.append((o1, c, (o2, a, b)))
            out.append((o1, (o2, c, e), c))
            out.append((o1, e, (o2, c, e)))
    for u in UN:
        for o in BIN:
            out.append((u, (o, a, c)))
            out.append((u, (o, c, e)))
            out.append((o, (u, a), b))
            out.append((o, c, (u, e)))
            out.append((o, (u, c), (u, e)))
        for u2 in UN:
            out.append((u, (u2, a)))
            out.append((u, (u2, c)))
            for u3 in ('u-', '~', 'u&', 'u|', '!'):
                out.append((u, (u2, (u3, a))))
    # conditionals in every operand position
    m = ('mux', d, a, c)
    ms = ('mux', ('<', c, e), c, e)
    for o in BIN:
        for mm in (m, ms):
            out.append((o, mm, b))
            out.append((o, e, mm))
        out.append(('mux', (o, a, c), b, e))
        out.append(('mux', d, (o, a, b), c))
        out.append(('mux', d, c, (o, c, e)))
        out.append(('cond', (o, c, e), (o, a, b), (o, c, a)))
    for u in UN:
        out.append((u, m))
        out.append(('mux', (u, a), b, c))
        out.append(('mux', d, (u, a), (u, c)))
    out.append(('mux', d, ('mux', ('<', a, b), a, b), ('mux', ('<', c, e), c, e)))
    out.append(('mux', ('mux', d, a, b), c, e))
    out.append(('mux', d, a, ('mux', a, b, ('mux', b, c, e))))
    out.append(('mux', d, ('mux', a, b, c), e))
    for x in (a, c, d):
        out.append(('mux', x, L('5'), L('-3')))
        out.append(('mux', x, ('lit', 'Int(-3,w4)'), c))
    # concatenation / repeat / selects
    simple = [a, c, d, ('+', a, b), ('mux', d, a, b), ('~', a), ('u&', a), ('-', c, e)]
    for x in simple:
        for y in simple:
            out.append(('cat', x, y))
        out.append(('cat', x, d, x))
        out.append(('cat', x))
        for n in (1, 2, 3):
            out.append(('rep', x, n))
        out.append(('cat', ('rep', x, 2), d))
        out.append(('rep', ('cat', x, d), 2))
        for o in BIN:
            out.append((o, ('cat', x, d), c))
            out.append((o, e, ('rep', x, 2)))
        out.append(('signed', x))
        for o in ('<', '>>>', '/', '+', '*', '>='):
            out.append((o, ('signed', x), c))
            out.append((o, ('signed', x), L('Int(2)')))
            out.append((o, ('sys', 'unsigned', c), ('signed', x)))
        out.append(('sys', 'signed', x))
        out.append(('sys', 'unsigned', x))
        out.append(('sys', 'clog2', x))
        out.append(('abs', x))
        out.append(('__abs__', x))
        out.append(('sign', x))
        out.append(('c2', x))
        out.append(('andl', x, d, a))
        out.append(('orl', x, d, a))
        out.append(('andl', x))
        out.append(('pmux', (('<', x, b), a), (d, c), (None, e)))
        out.append(('pmux', (x, a), (d, L('-3')), (None, L('5'))))
        out.append(('reduce+', x, a, b, c))
    out.append(('.rep', a, 2))
    out.append(('cat', s, a, b, c))
    for i in range(-8, 8):
        out.append(('ptr', s, i))
        out.append(('+', ('ptr', s, i), a))
    for i in range(-3, 3):
        out.append(('ptr', c, i))
    for x in (a, b, ('+', a, d), ('-', a, L('Int(2)')), ('mux', d, a, b), ('&', a, b)):
        out.append(('ptr', s, x))
        out.append(('ptr', V('mem'), x))
        out.append(('ptr', ('ptr', V('mem'), x), 1))
        out.append(('ptr', ('ptr', V('mem'), x), a))
        out.append(('+', ('ptr', V('mem'), x), ('ptr', V('smem'), x)))
        out.append(('ptr', ('ptr', V('m2'), x), a))
        out.append(('ptr', ('ptr', V('m2'), a), x))
        out.append(('ptr', ('ptr', ('ptr', V('m2'), a), x), 2))
        for o in BIN:
            out.append((o, ('ptr', V('smem'), x), c))
    for lo in list(range(0, 8)) + [None, -3, -1]:
        for hi in list(range(1, 9)) + [None, -1, -2]:
            for st in (None, 1, 2, 3):
                if len(list(range(8))[lo:hi]) >= 1:
                    out.append(('pys', s, lo, hi, st))
    for hi in range(8):
        for lo in range(hi + 1):
            out.append(('slice', s, hi, lo))
            out.append(('-', a, ('.slice', s, hi, lo)))
    out.append(('emb', "a + b"))
    # depth 3 over precedence-critical operators
    core = ['+', '-', '*', '/', '%', '<<', '>>>', '<', '==', '&', '^', '|', '&&', '||', '**', '~^']
    if tier() == 'thorough':
        core = list(BIN)
    for o1 in core:
        for o2 in core:
            for o3 in ('-', '<<', '&', '<', '||', '**') if tier() == 'quick' else core:
                out.append((o1, (o2, a, (o3, b, c)), e))
                out.append((o1, a, (o2, (o3, b, c), e)))
                out.append((o1, (o2, a, b), (o3, c, e)))
            out.append(('u-', (o1, ('~', (o2, a, c)), e)))
            out.append(('mux', (o1, a, b), (o2, c, e), (o1, e, (o2, c, a))))
    seen, res = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res


PORTS = [('a', 3, False), ('b', 3, False), ('c', 3, True), ('e', 2, True), ('d', 1, False),
         ('s', 8, False)]
OW = 9


def batch(arg):
    bi, ts = arg
    res = dict(states=0, transitions=0, traces=0, violations=[], samples=[], counts={})
    bad = emit_and_run(bi, ts, res)
    return res


def emit_and_run(bi, ts, res, alone=False):
    m = vg.Module('dut')
    S = {}
    for n, w, sg in PORTS:
        S[n] = m.Input(n, w, signed=sg)
    trg = m.Input('trg')
    mem = m.Wire('mem', 4, dims=(8,))
    smem = m.Wire('smem', 4, dims=(8,), signed=True)
    m2 = m.Wire('m2', 4, dims=(8, 8))
    S.update(mem=mem, smem=smem, m2=m2)
    refs = []
    ref_decl = ['wire [3:0] mem [0:7];', 'wire signed [3:0] smem [0:7];', 'wire [3:0] m2 [0:7][0:7];']
    for i in range(8):
        m.Assign(mem[i](S['s'] + (3 * i)))
        m.Assign(smem[i](S['s'] - (5 * i)))
        ref_decl.append('assign mem[%d] = s + %d; assign smem[%d] = s - %d;' % (i, 3 * i, i, 5 * i))
        for j in range(8):
            m.Assign(m2[i][j](S['s'] ^ (i + 2 * j)))
            ref_decl.append('assign m2[%d][%d] = s ^ %d;' % (i, j, i + 2 * j))
    ok = []
    for i, t in enumerate(ts):
        try:
            e = mk(t, S)
            signed = bool(i & 1)
            if i % 3 == 2:
                o = m.OutputReg('o%d' % i, OW, signed=signed)
                m.Always(vg.Posedge(trg))(o(e, blk=bool(i & 2)))
            else:
                o = m.Output('o%d' % i, OW, signed=signed)
                o.assign(e)
        except Exception:
            res['violations'].append(('reject:' + repr(t), 'legal expression rejected: %r\n%s' % (t, exc_text()), None))
            continue
        ok.append((i, t))
    try:
        text = m.to_verilog()
    except Exception:
        if alone:
            res['violations'].append(('emit:' + repr(ts[0]), 'emission failed: %r\n%s' % (ts[0], exc_text()), None))
            return
        for t in ts:
            emit_and_run(bi, [t], res, True)
        return
    r = ['module refm(', ',\n'.join(
        'input %s[%d:0] %s' % ('signed ' if sg else '', w - 1, n) for n, w, sg in PORTS)]
    for i, t in ok:
        r.append(',\noutput [%d:0] o%d' % (OW - 1, i))
    r.append(');')
    r += ref_decl
    for i, t in ok:
        r.append('assign o%d = %s;' % (i, ref(t)))
    r.append('endmodule')
    tb = ['module tb; reg trg;']
    for n, w, sg in PORTS:
        tb.append('reg %s[%d:0] %s;' % ('signed ' if sg else '', w - 1, n))
    for p in ('x', 'y'):
        for i, t in ok:
            tb.append('wire [%d:0] %s%d;' % (OW - 1, p, i))
    for mod, p in (('dut', 'x'), ('refm', 'y')):
        tb.append('%s %s_i(%s);' % (mod, mod, ', '.join((['.trg(trg)'] if mod == 'dut' else []) +
            ['.%s(%s)' % (n, n) for n, _, _ in PORTS] + ['.o%d(%s%d)' % (i, p, i) for i, t in ok])))
    tb.append('reg [%d:0] rep; integer v, n; initial rep = 0;' % max(1, len(ts)))
    tb.append('task cmp; begin trg = 0; #1; trg = 1; #1; n = n + 1;')
    for i, t in ok:
        tb.append('if (x%d !== y%d && !rep[%d]) begin rep[%d] = 1; '
                  '$display("MIS %d got=%%b want=%%b a=%%b b=%%b c=%%b e=%%b d=%%b s=%%b", x%d, y%d, a,b,c,e,d,s); end'
                  % (i, i, i, i, i, i, i))
    tb.append('end endtask')
    tb.append('function [7:0] px; input integer k; case (k) 0: px = 8\'b00000000; 1: px = 8\'b01011011;'
              ' 2: px = 8\'b1x0z1x10; 3: px = 8\'bxxxxxxxx; 4: px = 8\'bz1z0z1z0; default: px = 8\'b11111x01; endcase endfunction')
    tb.append('''
  integer k1, k2, k3;
  initial begin n = 0;
    for (v = 0; v < 4096; v = v + 1) begin
      {a, b, c, e, d} = v[11:0]; s = {v[7:0]} * 8'd37 + 8'd11 + (v >> 3); cmp;
    end
    for (k1 = 0; k1 < 6; k1 = k1 + 1) for (k2 = 0; k2 < 6; k2 = k2 + 1) for (k3 = 0; k3 < 6; k3 = k3 + 1) begin
      a = px(k1); b = px(k2); c = px(k3); e = px(k1) >> 1; d = px(k2) >> 2; s = px((k1 + k3) % 6); cmp;
    end
    $display("DONE %0d", n); $finish;
  end
endmodule''')
    full = text + '\n' + '\n'.join(r) + '\n' + '\n'.join(tb)
    try:
        out = iv.simulate(full, tag='b%d' % bi)
    except iv.Reject as ex:
        if alone or len(ts) == 1:
            try:
                iv.simulate('\n'.join(r), tag='r%d' % bi, check_only=True)
            except iv.Reject:
                res['counts']['skipped_tool_unsupported'] = res['counts'].get('skipped_tool_unsupported', 0) + 1
                return
            res['violations'].append(('invalid:' + repr(ts[0]),
                                      'emitted text rejected by the simulator for %r: %s' % (ts[0], str(ex)[:400]),
                                      text[:4000]))
            return
        # localise
        h = len(ts) // 2
        emit_and_run(bi, ts[:h], res)
        emit_and_run(bi, ts[h:], res)
        return
    n = 0
    for line in out.splitlines():
        if line.startswith('MIS'):
            i = int(line.split()[1])
            t = ts[i]
            import re
            src = re.findall(r'.*\bo%d\b\s*=.*' % i, text)
            res['violations'].append(('value:' + repr(t), 'tree %r: %s; emitted: %s' % (t, line, src[:2]), None))
        elif line.startswith('DONE'):
            n = int(line.split()[1])
    if not n:
        raise HarnessError('no DONE: ' + out[-500:])
    res['states'] += len(ok)
    res['transitions'] += n * len(ok)
    res['traces'] += len(ok)
    if bi % 5 == 0 and ok:
        res['samples'].append(dict(tree=repr(ok[0][1]), reference=ref(ok[0][1]), vectors=n))


def main():
    c = Check('C01')
    ts = trees()
    for r in pmap(batch, list(enumerate(chunks(ts, 160))), 'c01'):
        c.absorb(r)
    c.assumptions = ['Icarus Verilog implements IEEE 1364 expression semantics (used for both sides)',
                     'states = expression trees enumerated, transitions = (tree, input vector) evaluations']
    c.finish()


if __name__ == '__main__':
    main()
