"""C21: composition connects what was named, and clashes are rejected."""
import collections
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import iv

import veriloggen as vg
import veriloggen.core.vtypes as vt
from veriloggen.core.submodule import Submodule

Q = tier() == 'quick'


def blank():
    return dict(states=0, transitions=0, traces=0, counts={}, violations=[], samples=[])


def attempt(f):
    """('ok', value) or ('reject', exception); errors that are no rejection are passed on"""
    try:
        return 'ok', f()
    except (ValueError, TypeError, KeyError, IndexError, AttributeError) as e:
        return 'reject', e


# ---------------------------------------------------------------------------
# names: every sequence of definitions
DEFS = collections.OrderedDict([
    ('input', lambda m, n: m.Input(n)), ('output', lambda m, n: m.Output(n)), ('outreg', lambda m, n: m.OutputReg(n)), ('inout', lambda m, n: m.Inout(n)),
    ('wire', lambda m, n: m.Wire(n)), ('reg', lambda m, n: m.Reg(n)), ('integer', lambda m, n: m.Integer(n)), ('real', lambda m, n: m.Real(n)), ('genvar', lambda m, n: m.Genvar(n)),
    ('parameter', lambda m, n: m.Parameter(n, 1)), ('localparam', lambda m, n: m.Localparam(n, 1)),
    ('function', lambda m, n: func(m, n)), ('task', lambda m, n: task(m, n)), ('instance', lambda m, n: m.Instance(SUB[0], n)),
    ('genfor', lambda m, n: m.GenerateFor(m.Genvar('g_' + str(len(m.items)))(0), vt.LessThan(1, 0), vt.Subst(m.Genvar('h_' + str(len(m.items))), 1), scope=n)),
    ('genif', lambda m, n: m.GenerateIf(1, scope=n)), ('likein', lambda m, n: m.InputLike(SRC[0], name=n)), ('likereg', lambda m, n: m.RegLike(SRC[0], name=n)),
])
SUB = [None]
SRC = [None]
# two declarations of one object
PAIRS = {frozenset(p) for p in (('output', 'reg'), ('output', 'wire'), ('input', 'wire'), ('inout', 'wire'), ('likein', 'wire'), ('output', 'likereg'))}
ALONE = {'outreg'}


def func(m, n):
    f = m.Function(n, 2)
    x = f.Input('x_')
    return f.Body(f(x))


def task(m, n):
    t = m.Task(n)
    return t.Body(vg.Display('x'))


def allowed(hist):
    """the name space of one module: accept iff every name has one object (a port may have its net or register)"""
    kinds = collections.defaultdict(list)
    for k, n in hist:
        kinds[n].append(k)
    for n, ks in kinds.items():
        if len(ks) == 1:
            continue
        if len(ks) == 2 and frozenset(ks) in PAIRS and len(set(ks)) == 2:
            continue
        return False
    return True


def names(hists):
    res = blank()
    mods = []
    for i, h in enumerate(hists):
        SUB[0] = vg.Module('sub')
        SRC[0] = vg.Module('src').Reg('src', 3)
        m = vg.Module('n%d' % i)

        def run():
            for k, n in h:
                if k == 'genfor':
                    g = m.Genvar('gv%d' % len(m.items))
                    m.GenerateFor(g(0), g < 2, g(g + 1), scope=n)
                else:
                    DEFS[k](m, n)
            return m.to_verilog()
        out = attempt(run)
        want = allowed(h)
        if (out[0] == 'ok') != want:
            res['violations'].append(('names:%s:%r' % ('accepted' if not want else 'rejected', h), '%s is %s: %s' % (h, 'accepted' if not want else 'rejected', str(out[1])[:200]), str(out[1])))
        elif want:
            mods.append((h, out[1]))
        res['states'] += 1
        res['transitions'] += len(h)
    lint(res, 'names', mods)
    res['counts']['definition histories'] = len(hists)
    return res


def lint(res, kind, mods):
    """the accepted ones are valid Verilog"""
    for k in range(0, len(mods), 100):
        part = mods[k:k + 100]
        try:
            iv.simulate('\n'.join(re.sub(r'module sub\b.*?endmodule', '', t, flags=re.S) for _, t in part) + '\nmodule sub(); endmodule\nmodule tb; ' +
                        ' '.join('n%s i%d();' % (re.search(r'module n(\d+)', t).group(1), j) for j, (_, t) in enumerate(part)) + '\ninitial $finish; endmodule', tag='lint')
        except iv.Reject as ex:
            if len(part) == 1:
                res['violations'].append(('%s:invalid:%r' % (kind, part[0][0]), '%s gives invalid Verilog: %s' % (part[0][0], str(ex)[:300]), part[0][1]))
            else:
                h = len(part) // 2
                lint(res, kind, part[:h])
                lint(res, kind, part[h:])
    res['traces'] += len(mods)


def name_histories():
    ks = list(DEFS)
    hs = [((k, 'a'), (l, n)) for k in ks for l in ks for n in 'ab']
    core = ['input', 'output', 'wire', 'reg', 'outreg', 'localparam', 'genif'] if Q else ks
    hs += [((k, 'a'), (l, x), (j, y)) for k in core for l in core for j in core for x, y in (('a', 'a'), ('b', 'a'), ('a', 'b'))]
    return hs


# temporary names
def temps(hists):
    res = blank()
    mods = []
    for i, h in enumerate(hists):
        m = vg.Module('n%d' % i)
        vals = []

        def run():
            scope = {'m': m}
            for k, (op, where) in enumerate(h):
                s = scope[where] if where in scope else scope.setdefault(where, m.GenerateIf(1, scope='s' + where))
                if op in ('TmpWire', 'TmpWireLike'):
                    v = s.TmpWire(8) if op == 'TmpWire' else s.TmpWireLike(m.find_identifier('rf'))
                elif op == 'TmpReg':
                    v = s.TmpReg(8)
                elif op == 'TmpLocalparam':
                    s.TmpLocalparam(k)
                    continue
                elif op == 'TmpPrefix':
                    v = s.TmpWire(8, prefix='_tmp_0')
                else:
                    v = s.Wire(op, 8)
                vals.append((k, s, v))
            # each gets its own value once all exist
            for k, s, v in vals:
                if isinstance(v, vt.Reg):
                    s.Initial(v(k + 17))
                else:
                    s.Assign(v(k + 17))
            for k, s, v in vals:
                # a temporary of the module is visible in every scope
                for t in scope.values() if s is m else [s]:
                    t.Initial(vg.Delay(1), vg.Display('T n%d %%0d %%0d' % i, k, v))
            return m.to_verilog()
        m.Wire('rf', 8)
        out = attempt(run)
        taken = [op for op, _ in h if op.startswith('_')]
        if out[0] == 'reject':
            # only a user name that looks like a temporary one may be refused
            if not taken:
                res['violations'].append(('temps:rejected:%r' % (h,), '%s is rejected: %s' % (h, out[1]), None))
        else:
            mods.append((h, i, out[1], sum(1 if s is not m else 1 + len(set(w for _, w in h if w != 'm')) for _, s, _ in vals), [k for k, _, _ in vals]))
        res['states'] += 1
        res['transitions'] += len(h)
    for k in range(0, len(mods), 200):
        part = mods[k:k + 200]
        play(res, part)
    res['counts']['temporary histories'] = len(hists)
    return res


def play(res, part):
    try:
        out = iv.simulate('\n'.join(p[2] for p in part) + '\nmodule tb; ' + ' '.join('n%d i%d();' % (p[1], p[1]) for p in part) + ' initial #3 $finish; endmodule', tag='tmp')
    except iv.Reject as ex:
        if len(part) == 1:
            res['violations'].append(('temps:invalid:%r' % (part[0][0],), '%s gives invalid Verilog: %s' % (part[0][0], str(ex)[:300]), part[0][2]))
            return
        h = len(part) // 2
        play(res, part[:h])
        play(res, part[h:])
        return
    got = collections.defaultdict(list)
    for l in out.splitlines():
        w = l.split()
        if w[:1] == ['T']:
            got[w[1]].append((int(w[2]), w[3]))
    for h, i, text, n, ks in part:
        g = got['n%d' % i]
        bad = [x for x in g if x[1] != str(x[0] + 17)]
        if bad or len(g) != n:
            res['violations'].append(('temps:value:%r' % (h,), '%s: object %s reads another value (%d of %d reads)' % (h, bad[:2], len(g), n), text))
    res['traces'] += len(part)


def temp_histories():
    ops = [(o, w) for o in ('TmpWire', 'TmpReg', 'TmpLocalparam', 'TmpPrefix', 'TmpWireLike') for w in ('m', 'g')] + [('TmpWire', 'h'), ('_tmp_0', 'm'), ('_tmp_1', 'g'), ('_tmp_0_0', 'm'), ('x', 'g'), ('x', 'h'), ('y', 'm')]
    hs = []
    for n in range(1, 4 if Q else 5):
        for h in itertools.product(ops[::2] + [('TmpWire', 'g'), ('TmpWire', 'h')] if n > 3 else ops, repeat=n):
            # one user name once per scope, and not in two nested ones
            us = [o for o, w in h if not o.startswith('Tmp')]
            gs = [(o, w) for o, w in h if not o.startswith('Tmp')]
            if len(set(gs)) == len(gs) and not (n > 2 and Q and hash_(h) % 3):
                hs.append(h)
    return hs


def hash_(h):
    return sum((i + 1) * sum(map(ord, a + b)) for i, (a, b) in enumerate(h))


# ---------------------------------------------------------------------------
# instances: forms of connection
def child():
    c = vg.Module('child')
    W = c.Parameter('W', 2)
    K = c.Parameter('K', 5)
    c.Localparam('L', W + 1)
    V = c.Localparam('V', W)
    A = c.Localparam('KA', K)
    x = c.Input('x', V)
    y = c.Input('y', 3, signed=True)
    o = c.Output('o', W + 2)
    p = c.Output('p')
    c.Wire('inner', 2)
    o.assign(x * 2 + A)
    p.assign(y < 0)
    return c


def cref(W, K, x, y):
    """the child's outputs"""
    x = 0 if x is None else x
    return ((x & (2 ** W - 1)) * 2 + K) & (2 ** (W + 2) - 1), int(y >> 2 & 1) if y is not None else None


PORTS = ['x', 'y', 'o', 'p']


def forms():
    """(params form, ports form, expectation): ports map child port -> wrapper signal or None for unconnected"""
    out = []
    pf = [('none', None, {}, True)]
    for kv in ({}, {'W': 3}, {'K': 2}, {'W': 1, 'K': 7}, {'K': 3, 'W': 2}):
        pf += [('dict', dict(kv), kv, True), ('list', list(kv.items()), kv, True), ('tuple', tuple(kv.items()), kv, True)]
    pf += [('pos', (3,), {'W': 3}, True), ('pos', [1, 6], {'W': 1, 'K': 6}, True), ('pos', (1, 2, 3), None, False), ('bad', {'L': 1}, None, False), ('bad', {'Z': 1}, None, False),
           ('bad', [('x', 1)], None, False), ('dup', [('W', 1), ('W', 2)], None, False), ('mix', [('W', 1), 2], None, False), ('mix', [1, ('K', 2)], None, False)]
    sig = {'x': 'A', 'y': 'B', 'o': 'C', 'p': 'D'}
    po = []
    for perm in itertools.permutations(PORTS):
        po.append(('list', [(k, sig[k]) for k in perm], dict(sig), True))
    for n in range(1, 4):
        for sub in itertools.combinations(PORTS, n):
            po.append(('dict', [(k, sig[k]) for k in sub], {k: sig[k] for k in sub}, True))
            po.append(('list', [(k, sig[k]) for k in reversed(sub)], {k: sig[k] for k in sub}, True))
    for n in range(1, 5):
        po.append(('pos', [sig[k] for k in PORTS[:n]], {k: sig[k] for k in PORTS[:n]}, True))
    po.append(('pos', ['B', 'A', 'C', 'D'], {'x': 'B', 'y': 'A', 'o': 'C', 'p': 'D'}, True))
    po.append(('pos', [None, 'B', 'C', 'D'], {'y': 'B', 'o': 'C', 'p': 'D'}, True))
    po.append(('list', [('x', None), ('y', 'B'), ('o', 'C'), ('p', None)], {'y': 'B', 'o': 'C'}, True))
    po += [('pos', ['A', 'B', 'C', 'D', 'A'], None, False), ('bad', [('x', 'A'), ('q', 'B')], None, False), ('bad', [('inner', 'A')], None, False), ('bad', [('W', 'A')], None, False),
           ('bad', [('L', 'A')], None, False), ('dup', [('x', 'A'), ('o', 'C'), ('x', 'B')], None, False), ('mix', [('x', 'A'), 'B'], None, False), ('mix', ['A', ('y', 'B')], None, False),
           ('bad', [('X', 'A')], None, False), ('bad', [(None, 'A')], None, False) if False else ('bad', [('', 'A')], None, False)]
    for i, a in enumerate(pf):
        for j, b in enumerate(po):
            if Q and (i * 7 + j) % 5 and i and a[3] and b[3]:
                continue
            out.append((a, b))
    return out


def instances(fs):
    res = blank()
    todo = []
    for i, (pf, po) in enumerate(fs):
        m = vg.Module('n%d' % i)
        S = {'A': m.Input('A', 3), 'B': m.Input('B', 3, signed=True), 'C': m.Output('C', 5), 'D': m.Output('D')}
        conv = lambda x: None if x is None else S[x]
        if po[0] == 'dict':
            ports = collections.OrderedDict((k, conv(v)) for k, v in po[1])
        elif po[0] == 'pos':
            ports = [conv(v) for v in po[1]]
        else:
            ports = [(e[0], conv(e[1])) if isinstance(e, tuple) else conv(e) for e in po[1]]
        out = attempt(lambda: (m.Instance(child(), 'u', pf[1], ports), m.to_verilog())[1])
        want = pf[3] and po[3]
        res['states'] += 1
        if (out[0] == 'ok') != want:
            res['violations'].append(('instances:%s:%r' % ('rejected' if want else 'accepted', (pf[1], po[1])), 'Instance with params=%s ports=%s is %s %s' % (
                pf[1], po[1], 'rejected' if want else 'accepted', out[1] if want else ''), str(out[1])))
        elif want:
            todo.append(((pf[1], po[1]), i, out[1], dict({'W': 2, 'K': 5}, **pf[2]), po[2]))
    for k in range(0, len(todo), 100):
        drive(res, 'instances', todo[k:k + 100])
    res['counts']['instance forms'] = len(fs)
    return res


def drive(res, kind, part):
    """every input value of the wrapper"""
    tb = ['module tb; reg [2:0] A, B; integer v;']
    for key, i, text, prm, conn in part:
        tb.append('wire [4:0] C%d; wire D%d; n%d i%d(.A(A), .B(B), .C(C%d), .D(D%d));' % (i, i, i, i, i, i))
    tb.append('initial begin for(v = 0; v < 64; v = v + 1) begin {A, B} = v; #1;')
    for key, i, text, prm, conn in part:
        tb.append('$display("R %d %%b %%b", C%d, D%d);' % (i, i, i))
    tb.append('end $finish; end endmodule')
    child_text = None
    texts = []
    for p in part:
        texts.append(re.sub(r'\nmodule child\b.*?\nendmodule\n', '\n', '\n' + p[2] + '\n', flags=re.S))
        child_text = re.search(r'\nmodule child\b.*?\nendmodule\n', '\n' + p[2] + '\n', flags=re.S).group(0)
    try:
        out = iv.simulate('\n'.join(texts + [child_text] + tb), tag='inst')
    except iv.Reject as ex:
        if len(part) == 1:
            res['violations'].append(('%s:invalid:%r' % (kind, part[0][0]), '%s gives invalid Verilog: %s' % (part[0][0], str(ex)[:300]), part[0][2]))
            return
        h = len(part) // 2
        drive(res, kind, part[:h])
        drive(res, kind, part[h:])
        return
    got = collections.defaultdict(list)
    for l in out.splitlines():
        w = l.split()
        if w[:1] == ['R']:
            got[int(w[1])].append((w[2], w[3]))
    for key, i, text, prm, conn in part:
        for v in range(64):
            val = {'A': v >> 3, 'B': v & 7}
            o, p = cref(prm['W'], prm['K'], val.get(conn.get('x')), val.get(conn.get('y')))
            c, d = got[i][v]
            if conn.get('o') == 'C' and conn.get('x') is not None:
                # an output narrower than the net leaves the upper bits undriven
                n = min(5, prm['W'] + 2)
                if c[5 - n:] != format(o, '05b')[5 - n:] or set(c[:5 - n]) - set('z0'):
                    res['violations'].append(('%s:value:%r' % (kind, key), '%s A=%d B=%d: C=%s want %s' % (key, v >> 3, v & 7, c, format(o, '05b')), text))
                    break
            if conn.get('p') == 'D' and conn.get('y') is not None and d != str(p):
                res['violations'].append(('%s:value:%r' % (kind, key), '%s A=%d B=%d: D=%s want %s' % (key, v >> 3, v & 7, d, p), text))
                break
            if conn.get('o') is None and set(c) != {'z'} or conn.get('p') is None and d != 'z':
                res['violations'].append(('%s:value:%r' % (kind, key), '%s: an unconnected net is driven: C=%s D=%s' % (key, c, d), text))
                break
    res['transitions'] += 64 * len(part)
    res['traces'] += 64 * len(part)


# ---------------------------------------------------------------------------
# module names in a hierarchy: every tree of modules over two names
def trees(depth, names, fan):
    """(name, constant, children)"""
    if depth == 0:
        return [(n, ()) for n in names]
    sub = trees(depth - 1, names, fan)
    out = [(n, ()) for n in names]
    for n in names:
        for k in range(1, fan + 1):
            out += [(n, c) for c in itertools.product(sub, repeat=k)]
    return out


def scope(m, gen, k):
    if gen == 'if':
        return m.GenerateIf(1, scope='s%d' % k)
    if gen == 'anon':
        return m.GenerateIf(1)
    if gen == 'else':
        return m.GenerateIf(0, scope='s%d' % k).Else('e%d' % k)
    if gen == 'for':
        g = m.Genvar('g%d' % k)
        return m.GenerateFor(g(0), g < 1, g(g + 1), scope='s%d' % k)
    if gen == 'nest':
        return scope(scope(scope(m, 'for', k), 'else', 8), 'if', 9)
    return m


def hierarchies(ts):
    """every module adds its own constant to the sum of its children; same-named modules are different modules"""
    res = blank()
    todo = []
    for i, (t, share, gen, hook) in enumerate(ts):
        count = [0]
        cache = {}

        def make(t, top=False):
            # with share, equal subtrees are the same module object, or separately built equal modules
            if share and t in cache:
                if share == 'object':
                    return cache[t]
                const = cache[t][1]
            else:
                const = 1 << count[0]
                count[0] += 1
            m = vg.Module('n%d' % i if top else 'n%d_%s' % (i, t[0]))
            clk = m.Input('CLK')
            o = m.Output('o', 16)
            total = const
            acc = vt.Int(const)
            if hook:
                # the constant comes from a sequence that is written out by a hook, in the module or in a generate block
                acc = m.Wire('c', 16)
                where = m.GenerateIf(0, scope='off').Else('on') if hook == 'scope' else m
                r = where.Reg('r', 16)
                seq = vg.Seq(where, 'seq', clk)
                seq(r(const))
                where.Assign(acc(r))
            for k, c in enumerate(t[1]):
                mod, val = make(c)
                w = m.Wire('w%d' % k, 16)
                where = scope(m, gen, k)
                where.Instance(mod, 'u%d' % k, ports=[('CLK', clk), ('o', w)])
                acc = acc + w
                total += val
            o.assign(acc)
            if share == 'equal' and t in cache:
                return m, total
            cache.setdefault(t, (m, total if share == 'object' else const))
            return m, total
        out = attempt(lambda: (lambda mt: (mt[0].to_verilog(), mt[1], mt[0].to_verilog()))(make(t, True)))
        key = 'hierarchy:%s:%r' % ('%s', (t, share, gen, hook))
        res['states'] += 1
        if out[0] == 'reject':
            res['violations'].append((key % 'rejected', 'modules %s are rejected: %s' % (t, out[1]), None))
            continue
        if out[1][0] != out[1][2]:
            res['violations'].append((key % 'again', 'modules %s: the second text differs' % (t,), out[1][0]))
            continue
        todo.append((key, i, out[1][0], out[1][1]))
    for k in range(0, len(todo), 150):
        sums(res, todo[k:k + 150])
    res['counts']['hierarchies'] = len(ts)
    return res


def sums(res, part):
    try:
        out = iv.simulate('\n'.join(p[2] for p in part) + '\nmodule tb; ' + ' '.join('wire [15:0] o%d; n%d i%d(.CLK(CLK), .o(o%d));' % (p[1], p[1], p[1], p[1]) for p in part) + ' reg CLK; initial begin CLK = 0; #1; CLK = 1; #1; ' +
                          ' '.join('$display("H %d %%0d", o%d);' % (p[1], p[1]) for p in part) + ' $finish; end endmodule', tag='hier')
    except iv.Reject as ex:
        if len(part) == 1:
            res['violations'].append((part[0][0] % 'invalid', 'invalid Verilog: %s' % str(ex)[:300], part[0][2]))
            return
        h = len(part) // 2
        sums(res, part[:h])
        sums(res, part[h:])
        return
    got = {int(l.split()[1]): l.split()[2] for l in out.splitlines() if l.startswith('H ')}
    for key, i, text, total in part:
        if got[i] != str(total):
            res['violations'].append((key % 'value', '%s: the sum over the hierarchy is %s, want %d' % (key % 'value', got[i], total), text))
    res['traces'] += len(part)
    res['transitions'] += len(part)


# ---------------------------------------------------------------------------
# copies of ports, variables and constants
def source():
    s = vg.Module('source')
    P = s.Parameter('P', 3)
    PQ = s.Parameter('PQ', P + 1)
    PR = s.Parameter('PR', PQ)
    L = s.Localparam('L', P * 2)
    LR = s.Localparam('LR', PR)
    LQ = s.Localparam('LQ', vt.Mux(L > 4, L - 1, PQ))
    s.Input('ia', P)
    s.Input('iab', L - 1, signed=True)
    s.Output('oa', LR + 1)
    s.OutputReg('ob', 2, signed=True, initval=P)
    s.Inout('io')
    s.Input('arr', P)
    s.Reg('ra', L + P, initval=1)
    s.Wire('wa', vt.Mux(P > 2, P, 1), signed=True)
    s.Reg('mem', P, dims=(L,))
    s.Integer('n')
    return s


WIDTH = {'ia': 3, 'iab': 5, 'oa': 5, 'ob': 2, 'io': 1, 'arr': 3, 'ra': 9, 'wa': 3, 'mem': 3, 'n': 32}
SIGNED = {'iab', 'ob', 'wa'}
KIND = collections.OrderedDict([('ia', 'Input'), ('iab', 'Input'), ('oa', 'Output'), ('ob', 'Output'), ('io', 'Inout'), ('arr', 'Input')])
VARS = ['ob', 'ra', 'wa', 'mem', 'n']
PARS = collections.OrderedDict([('P', 3), ('PQ', 4), ('PR', 4)])
LOCS = collections.OrderedDict([('L', 6), ('LR', 4), ('LQ', 5)])


def selected(names, include, exclude, full):
    pick = lambda pats, n: any((re.fullmatch if full else re.match)(p, n) for p in pats)
    inc = [include] if isinstance(include, str) else include or []
    exc = [exclude] if isinstance(exclude, str) else exclude or []
    return [n for n in names if (not inc or pick(inc, n)) and not pick(exc, n)]


def copies(cs):
    res = blank()
    todo = []
    for i, (what, prefix, postfix, inc, exc, full, wire) in enumerate(cs):
        m = vg.Module('n%d' % i)
        s = source()
        kw = dict(prefix=prefix, postfix=postfix, include=inc, exclude=exc, use_fullmatch=full)
        pn = lambda n: (prefix or '') + n + (postfix or '')
        names = list(PARS) if 'params' in what and what != 'copy_localparams' else list(LOCS) if what == 'copy_localparams' else VARS if what == 'copy_vars' else list(KIND)
        want = selected(names, inc, exc, full)
        con = dict(prefix=prefix, postfix=postfix)

        def run():
            # the constants the widths need come with the same renaming
            if what not in ('copy_params', 'copy_params_as_localparams'):
                (m.copy_params if i % 2 else m.copy_params_as_localparams)(s, **con)
                if what != 'copy_localparams':
                    m.copy_localparams(s, **con)
            elif exc or inc:
                # what is left out is defined by hand
                for k in PARS:
                    if k not in want:
                        m.Localparam(pn(k), PARS[k])
            else:
                pass
            if what == 'copy_localparams':
                for k in LOCS:
                    if k not in want:
                        m.Localparam(pn(k), LOCS[k])
            if what in ('copy_ports_as_vars', 'copy_sim_ports'):
                kw['use_wire'] = wire
            return getattr(m, what)(s, **kw)
        out = attempt(run)
        key = repr((what, prefix, postfix, inc, exc, full, wire))
        res['states'] += 1
        if out[0] == 'reject':
            res['violations'].append(('copies:rejected:' + key, '%s is rejected: %s' % (key, out[1]), None))
            continue
        got = out[1]
        bad = []
        if list(got) != [pn(n) for n in want]:
            bad.append('copied %s, want %s' % (list(got), [pn(n) for n in want]))
        for n in want:
            v = got.get(pn(n))
            if v is None:
                continue
            if v.name != pn(n) or m.find_identifier(pn(n)) is None:
                bad.append('%s is called %s' % (n, v.name))
            if what == 'copy_ports' and type(v).__name__ != KIND[n]:
                bad.append('%s became %s' % (n, type(v).__name__))
            if what in ('copy_ports_as_vars', 'copy_sim_ports'):
                k = 'Wire' if wire or KIND[n] != 'Input' else 'Reg'
                if type(v).__name__ != k:
                    bad.append('%s became %s instead of %s' % (n, type(v).__name__, k))
            if n in WIDTH and bool(v.signed) != (n in SIGNED):
                bad.append('%s signed=%s' % (n, v.signed))
        if what in ('copy_params', 'copy_params_as_localparams'):
            for n in want:
                table = m.global_constant if what == 'copy_params' else m.local_constant
                if pn(n) not in table:
                    bad.append('%s is no %s' % (n, what))
        if bad:
            res['violations'].append(('copies:wrong:' + key, '%s: %s' % (key, '; '.join(bad[:4])), None))
            continue
        # the widths and values are those of the source
        shows = []
        for n in want:
            if n in WIDTH:
                shows.append((n, '$bits(%s)' % pn(n) if n != 'mem' else '$bits(%s[0])' % pn(n), WIDTH[n]))
                if n == 'mem':
                    shows.append((n, '$size(%s)' % pn(n), 6))
            else:
                shows.append((n, pn(n), dict(PARS, **LOCS)[n]))
        m.EmbeddedCode('initial begin #1; %s end' % ' '.join('$display("C %d %s %%0d", %s);' % (i, n, e) for n, e, _ in shows))
        t = attempt(m.to_verilog)
        if t[0] == 'reject':
            res['violations'].append(('copies:emit:' + key, '%s: %s' % (key, t[1]), None))
            continue
        todo.append((key, i, t[1], shows))
    for k in range(0, len(todo), 100):
        bits(res, todo[k:k + 100])
    res['counts']['copies'] = len(cs)
    return res


def bits(res, part):
    try:
        out = iv.simulate('\n'.join(p[2] for p in part) + '\nmodule tb; ' + ' '.join('n%d i%d();' % (p[1], p[1]) for p in part) + ' initial #3 $finish; endmodule', tag='cp')
    except iv.Reject as ex:
        if len(part) == 1:
            res['violations'].append(('copies:invalid:' + part[0][0], '%s gives invalid Verilog: %s' % (part[0][0], str(ex)[:300]), part[0][2]))
            return
        h = len(part) // 2
        bits(res, part[:h])
        bits(res, part[h:])
        return
    got = collections.defaultdict(list)
    for l in out.splitlines():
        w = l.split()
        if w[:1] == ['C']:
            got[int(w[1])].append((w[2], w[3]))
    for key, i, text, shows in part:
        want = [(n, str(v)) for n, _, v in shows]
        if got[i] != want:
            res['violations'].append(('copies:value:' + key, '%s: %s want %s' % (key, [x for x in got[i] if x not in want], [x for x in want if x not in got[i]]), text))
    res['traces'] += len(part)
    res['transitions'] += len(part)


def copy_settings():
    cs = []
    pats = {'p': [None, 'P', ['P$'], ['PQ'], ('P', 'PQ'), ['.Q'], ['X']], 'l': [None, 'L', ['LQ'], ['L$', 'LQ']],
            'o': [None, 'ia', ['ia$'], ['ia', 'o'], ['i.*'], ('oa', 'io'), ['.*b$'], ['none']], 'v': [None, 'ra', ['ob', 'n'], ['mem'], ['.a']]}
    for what, g in (('copy_params', 'p'), ('copy_params_as_localparams', 'p'), ('copy_localparams', 'l'), ('copy_ports', 'o'), ('copy_ports_as_vars', 'o'), ('copy_sim_ports', 'o'), ('copy_vars', 'v')):
        for prefix, postfix in ((None, None), ('p_', None), (None, '_q'), ('p_', '_q')):
            for inc in pats[g]:
                for exc in pats[g]:
                    for full in (False, True):
                        for wire in ((False, True) if 'vars' in what and 'ports' in what or 'sim' in what else (False,)):
                            if Q and prefix and postfix and (inc is not None and exc is not None):
                                continue
                            cs.append((what, prefix, postfix, inc, exc, full, wire))
    return cs


# connect_params and connect_ports
def connects(_):
    res = blank()
    pats = [None, 'a', ['ab'], ['a', 'c'], ('.b',)]
    for have in itertools.product((0, 1, 2), repeat=3):
        for prefix, postfix in ((None, None), ('p_', None), (None, '_q')):
            for inc, exc, full, strict in itertools.product(pats, [None, 'a', ('.b',)] if Q else pats, (False, True), (False, True)):
                for what in ('ports', 'params'):
                    t = vg.Module('t')
                    m = vg.Module('m')
                    mine = {}
                    for n, h in zip(('a', 'ab', 'c'), have):
                        (t.Input if what == 'ports' else lambda x: t.Parameter(x, 1))(n)
                        my = (prefix or '') + n + (postfix or '')
                        if h:
                            mine[n] = ((m.Input if h == 1 else m.Wire) if what == 'ports' else (lambda x: m.Parameter(x, 1)) if h == 1 else (lambda x: m.Localparam(x, 1)))(my)
                    want = selected(['a', 'ab', 'c'], inc, exc, full)
                    kw = dict(prefix=prefix, postfix=postfix, include=inc, exclude=exc, strict=strict, use_fullmatch=full)
                    out = attempt(lambda: getattr(m, 'connect_' + what)(t, **kw))
                    missing = [n for n in want if n not in mine]
                    key = repr((what, have, prefix, postfix, inc, exc, full, strict))
                    res['states'] += 1
                    if strict and missing:
                        if out[0] != 'reject' or not isinstance(out[1], IndexError):
                            res['violations'].append(('connects:accepted:' + key, 'connect_%s accepts a missing %s' % (what, missing), None))
                    elif out[0] == 'reject' or [(k, id(v)) for k, v in out[1].items()] != [(n, id(mine[n])) for n in want if n in mine]:
                        res['violations'].append(('connects:wrong:' + key, 'connect_%s: got %s want %s' % (what, out[1], [n for n in want if n in mine]), None))
    res['transitions'] = res['traces'] = res['states']
    res['counts']['connects'] = res['states']
    return res


# ---------------------------------------------------------------------------
# Submodule
def subchild(deep):
    c = vg.Module('child')
    W = c.Parameter('W', 2)
    K = c.Parameter('K', 5)
    V = c.Localparam('V', W) if deep else None
    N = c.Localparam('N', V + 2) if deep else None
    x = c.Input('x', W)
    y = c.Input('y', 3, signed=True)
    o = c.Output('o', N if deep else W + 2)
    p = c.Output('p')
    o.assign(x * 2 + K)
    p.assign(y < 0)
    return c


def submodules(fs):
    res = blank()
    todo = []
    for i, (params, args, as_io, as_wire, prefix, form, deep) in enumerate(fs):
        m = vg.Module('n%d' % i)
        S = {'x': m.Input('A', 3), 'y': m.Input('B', 3, signed=True), 'o': m.Output('C', 5), 'p': m.Output('D')}
        pre = 'u_' if prefix is None else prefix

        def run():
            ports = [(k, S[k]) for k in args]
            if form == 'dict':
                ports = dict(ports)
            elif form == 'pos':
                ports = [S[k] for k in args]
            s = Submodule(m, subchild(deep), 'u', prefix, arg_params=params, arg_ports=ports, as_io=as_io, as_wire=as_wire)
            for k in PORTS:
                if k in args:
                    continue
                v = s[k]
                if getattr(s, k) is not v:
                    raise HarnessError('attribute and item differ')
                if v.name != pre + k:
                    return 'port %s is called %s' % (k, v.name)
                if k in as_io:
                    if type(v).__name__ != ('Input' if k in 'xy' else 'Output'):
                        return 'port %s is no port of the parent' % k
                elif k in 'xy':
                    if (k in as_wire) != isinstance(v, vt.Wire):
                        return 'port %s: wrong kind' % k
                    if k in as_wire:
                        v.assign(S[k])
                    else:
                        m.Always()(v(S[k], blk=True))
                else:
                    S[k].assign(v)
            return m
        out = attempt(run)
        key = repr((params, args, as_io, as_wire, prefix, form, deep))
        res['states'] += 1
        bad = form == 'unknown'
        if out[0] == 'reject':
            res['violations'].append(('submodules:rejected:' + key, 'Submodule%s is rejected: %r' % (key, out[1]), exc_text() if False else None))
            continue
        if isinstance(out[1], str):
            res['violations'].append(('submodules:wrong:' + key, 'Submodule%s: %s' % (key, out[1]), None))
            continue
        # ports of the parent made with as_io are tied to A..D outside
        w = ['module w%d(input [2:0] A, input signed [2:0] B, output [4:0] C, output D);' % i]
        con = []
        for k, g in (('x', 'A'), ('y', 'B'), ('o', 'C'), ('p', 'D')):
            con.append('.%s(%s)' % (pre + k if k in as_io else g, g))
        text = out[1].to_verilog()
        w.append('n%d i(%s); endmodule' % (i, ', '.join(con)))
        if isinstance(params, dict):
            prm = params
        elif params is None:
            prm = {}
        else:
            prm = dict(params) if params and isinstance(params[0], tuple) else dict(zip(('W', 'K'), params))
        todo.append((key, i, re.sub(r'\bn%d\b' % i, 'z%d' % i, text) + '\n' + '\n'.join(w).replace('n%d i(' % i, 'z%d i(' % i).replace('module w%d' % i, 'module n%d' % i), dict({'W': 2, 'K': 5}, **prm),
                     {'x': 'A', 'y': 'B', 'o': 'C', 'p': 'D'}))
    by = collections.defaultdict(list)
    for t in todo:
        by['True)' in t[0][-6:]].append(t)
    for part in by.values():
        for k in range(0, len(part), 60):
            drive(res, 'submodules', part[k:k + 60])
    res['counts']['submodules'] = len(fs)
    return res


def subforms():
    out = []
    for params in (None, {'W': 3}, [('K', 1)], (1,), [3, 2], {'K': 3, 'W': 1}):
        for where in itertools.product('aiwv', repeat=4):       # argument, io, wire, variable
            args = [k for k, w in zip(PORTS, where) if w == 'a']
            as_io = [k for k, w in zip(PORTS, where) if w == 'i']
            as_wire = [k for k, w in zip(PORTS, where) if w == 'w']
            if Q and len(set(where)) > 2 and params is not None:
                continue
            for prefix in (None, 'q') if not Q or params is None else (None,):
                for form in ('list', 'dict') + (('pos',) if args == PORTS[:len(args)] and args else ()):
                    for deep in (False, True):
                        out.append((params, args, as_io, as_wire, prefix, form, deep))
    return out


def refused(_):
    """what has to be refused elsewhere"""
    res = blank()
    c = lambda: child()

    def two(f):
        m = vg.Module('m')
        return f(m)
    A = lambda m: m.Wire('A', 3)
    cases = {
        'submodule unknown port': lambda m: Submodule(m, c(), 'u', arg_ports=[('zz', A(m))]),
        'submodule unknown port dict': lambda m: Submodule(m, c(), 'u', arg_ports={'zz': A(m)}),
        'submodule unknown parameter': lambda m: Submodule(m, c(), 'u', arg_params=[('ZZ', 1)]),
        'submodule too many ports': lambda m: Submodule(m, c(), 'u', arg_ports=[A(m)] * 1 + [m.Wire('b%d' % k) for k in range(4)]),
        'submodule twice': lambda m: (Submodule(m, c(), 'u'), Submodule(m, c(), 'u')),
        'submodule item': lambda m: Submodule(m, c(), 'u')['zz'],
        'function input twice': lambda m: [m.Function('f').Input(n) for n in 'xx'] if False else fx(m.Function('f'), 'Input', 'Input'),
        'function reg twice': lambda m: fx(m.Function('f'), 'Reg', 'Integer'),
        'task input twice': lambda m: fx(m.Task('t'), 'Input', 'Input'),
        'copy over an existing variable': lambda m: (m.Reg('x', 7), m.copy_sim_ports(c())),
        'copy over an existing constant': lambda m: (m.Localparam('W', 7), m.copy_params(c())),
        'same scope in both branches': lambda m: (lambda g: (g.Wire('x'), g.Else('s').Wire('y')))(m.GenerateIf(1, scope='s')) and None,
        'input in generate': lambda m: m.GenerateIf(1).Input('a'),
        'else scope as name': lambda m: (m.GenerateIf(1, scope='s'), m.GenerateFor(m.Genvar('i')(0), 1, m.Genvar('j')(1), scope='s')),
        'wire in generate twice': lambda m: (lambda g: (g.Wire('x'), g.Wire('x')))(m.GenerateIf(1, scope='s')),
        'reg and wire in generate': lambda m: (lambda g: (g.Reg('x'), g.Wire('x')))(m.GenerateIf(1)),
    }
    del cases['same scope in both branches']        # legal Verilog: only one branch exists
    for name, f in cases.items():
        out = attempt(lambda: two(f))
        res['states'] += 1
        if out[0] == 'ok':
            res['violations'].append(('refused:' + name, '%s is accepted' % name, None))
    res['transitions'] = res['traces'] = res['states']
    res['counts']['refused'] = res['states']
    return res


def fx(f, a, b):
    getattr(f, a)('x')
    getattr(f, b)('x')


# ---------------------------------------------------------------------------
def dispatch(it):
    return globals()[it[0]](*it[1:])


def items():
    its = [('refused', 0), ('connects', 0)]
    for name, xs, n in (('names', name_histories(), 400), ('temps', temp_histories(), 400), ('instances', forms(), 200), ('copies', copy_settings(), 300), ('submodules', subforms(), 200)):
        its += [(name, xs[k:k + n]) for k in range(0, len(xs), n)]
    ts = trees(2, 'AB', 2)
    gens = (None, 'if', 'anon', 'else', 'for', 'nest')
    settings = [(sh, g, h) for sh in (None, 'object', 'equal') for g in gens for h in (None, 'module', 'scope')]
    # every setting on the small trees, one plain and one further setting on each larger one
    hs = []
    for k, t in enumerate(ts):
        few = repr(t).count('(') < 7
        hs += [(t,) + x for j, x in enumerate(settings) if few or not Q and j % 3 == k % 3 or j in (0, 1 + k % 53)]
    if not Q:
        hs += [(('A', (a, b)), None, None, None) for a in trees(2, 'AB', 1) for b in ts]
    its += [('hierarchies', hs[k:k + 300]) for k in range(0, len(hs), 300)]
    return its


def main():
    c = Check('C21')
    its = items()
    if len(sys.argv) > 1:
        its = [i for i in its if i[0] == sys.argv[1]]
    for r in pmap(dispatch, its, 'c21'):
        c.absorb(r)
    c.assumptions = []
    c.finish()


if __name__ == '__main__':
    main()
