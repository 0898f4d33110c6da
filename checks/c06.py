"""C06: an FSM performs each state's actions and transitions exactly as declared."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import seqm
import special
import vl
import c05

import veriloggen as vg
import veriloggen.core.vtypes as vt
from veriloggen.fsm.fsm import FSM, TmpFSM

c05.TREES = [(3, 5), (2, 7)] if tier() == 'quick' else [(3, 6), (2, 9)]
REGS = ('x', 'y', 'z', 'w', 'state')
D = lambda t, v: ('do', [(t, v)])
OPTS = [[], [('Delay', 1)], [('Delay', 2)], [('Keep', 2)], [('Delay', 1), ('EagerVal',)],
        [('Delay', 2), ('LazyCond',)], [('Delay', 1), ('Keep', 2)], [('Delay', 2), ('EagerVal',), ('LazyCond',)]]
FULL = [([('Delay', d)] if d else []) + ([('Keep', 2)] if k else []) + ([('EagerVal',)] if e else []) + ([('LazyCond',)] if z else [])
        for d in (0, 1, 2, 3) for k in (0, 1) for e in (0, 1) for z in (0, 1)]
SMALL = [[], [('Delay', 1)], [('Delay', 2)]]


def jumps():
    """ways to leave the current state: (calls, number of new states)"""
    return [
        [[('goto_next',)]],
        [[('If', 'a'), ('goto_next',)]],
        [[('If', 'a', 'b'), ('goto_next',)]],
        [[('goto_nextkw', 'b')]],
        [[('If', 'a'), ('goto', 0)], [('goto_next',)]],
        [[('If', 'b'), ('goto', 2)], [('If', 'a'), ('goto_next',)]],
        [[('If', 'a'), ('goto', 2)], [('Elif', 'b'), ('goto', 0)], [('Else',), ('goto_next',)]],
        [[('If', 'a'), ('goto', 2)], [('Else',), ('goto', 1)], [('inc',)]],
        [[('gotokw', 1, 'a', 2)], [('inc',)]],
        [[('gotokw', 1, 'a', None)], [('inc',)]],
        [[('goto_init',)], [('If', 'b'), ('goto', 1)], [('inc',)]],
        [[('If', 'b'), ('goto_init',)], [('inc',)], [('goto_from', 0, 1)]],
        [[('goto_fromkw', 0, 1, 'a', 2)], [('inc',)]],
        [[('inc',)], [('When', 0), ('If', 'a'), ('goto', 1)]],
        [[('inc',)], [('State', 0), ('goto', 1)]],
        [[('inc',)], [('When', 0), ('goto_next',)]],
        [[('inc',)], [('State', 0), ('If', 'b'), ('goto_init',)], [('When', 0), ('If', 'a'), ('goto_next',)]],
        [[('set_index', 2)], [('If', 'a'), ('goto', 0)], [('set_index', 1)], [('goto_from', 0, 2)]],
    ]


def programs():
    P = []
    J = jumps()
    # F1: transition forms in every pair of consecutive states
    for j1, j2 in itertools.product(J, J):
        P.append([[D('x', 'cnt')]] + j1 + [[D('x', 'x+1')], [('If', 'b'), D('y', 'x+cnt')]] +
                 [[tuple([el[0]] + [(n + 1 if isinstance(n, int) and el[0] in ('goto', 'gotokw', 'set_index', 'goto_from', 'goto_fromkw', 'When', 'State') else n)
                                    for n in el[1:]]) for el in c] for c in j2] +
                 [[D('z', 'y+x')], [('goto_init',)]])
    # F2: option combinations on one action in each kind of state
    for o in FULL:
        for cnd in ([], [('If', 'a')], [('If', 'a', 'b')], [('If', 'cnt>x')]):
            if o not in OPTS and cnd not in ([], [('If', 'a')]):
                continue
            for jf in (J[0], J[1], J[5]):
                P.append([cnd + o + [D('x', 'x+cnt')]] + jf + [[D('y', 'cnt')], [('If', 'b'), ('goto_next',)],
                                                               cnd + o + [D('y', 'y+3')], [('goto_init',)]])
                P.append([[D('z', 'x+cnt')]] + jf + [cnd + o + [('do', [('x', 'mux'), ('y', 'y+x')])], [('If', 'b'), ('goto_next',)],
                                                     [('goto', 1)]])
    # F3: if / elif / else chains inside a state, mixed with transitions
    for o1 in OPTS[:6]:
        for o2 in SMALL:
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('Else',)] + o2 + [D('x', 'x+1')], [('If', 'b'), ('goto_next',)],
                      [D('y', 'y+3')], [('goto_init',)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('Elif', 'b')] + o2 + [D('y', 'y+3')], [('Else',)] + o1 + [D('z', 'y+x')],
                      [('goto_next',)], [('If', 'b'), ('goto', 0)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('Then',), ('goto_next',)], [('If', 'b')] + o2 + [D('x', 'k9')], [('Then',), ('goto_init',)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('Then',)] + o2 + [D('y', 'x+cnt')], [('Then',), ('goto_next',)],
                      [D('z', 'z-1')], [('goto_init',)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('Then',), ('goto', 1)], [('Else',)] + o2 + [D('y', 'cnt')], [('goto_next',)],
                      [D('z', 'z-1')], [('If', 'b'), ('goto_init',)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('Else',), ('goto', 1)], [D('y', 'cnt')] if not o2 else o2 + [D('y', 'cnt')],
                      [('inc',)], [D('z', 'z-1')], [('If', 'b'), ('goto_init',)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('Elif', 'b'), ('goto', 1)], [('Else',)] + o2 + [D('y', 'cnt')],
                      [('inc',)], [D('z', 'z-1')], [('If', 'b'), ('goto_init',)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('If', 'b'), ('goto', 1)], [('Else',)] + o2 + [D('y', 'cnt')],
                      [('inc',)], [D('z', 'z-1')], [('If', 'b'), ('goto_init',)]])
            P.append([[('If', 'a')] + o1 + [D('x', 'cnt')], [('If', 'b'), ('goto', 1)], [('Elif', 'cnt0')] + o2 + [D('y', 'cnt')], [('Else',), ('goto', 2)],
                      [('inc',)], [D('z', 'z-1')], [('If', 'b'), ('goto_init',)], [('inc',)], [D('w', 'cnt')], [('goto', 0)]])
            P.append([[('If', 'a'), ('goto', 1)], [('Elif', 'b')] + o1 + [D('y', 'cnt')], [('Else',)] + o2 + [D('z', 'cnt')],
                      [('inc',)], [D('x', 'x+1')], [('goto_init',)]])
            P.append([[('If', 'a'), ('goto', 1)], [('Elif', 'b')] + o1 + [D('y', 'cnt')], [('Elif', 'cnt0'), ('goto', 2)], [('Else',)] + o2 + [D('z', 'cnt')],
                      [('inc',)], [D('x', 'x+1')], [('goto_init',)], [('inc',)], [D('x', 'cnt')], [('If', 'a'), ('goto', 0)]])
    # F4: explicit state index
    for o in OPTS:
        P.append([[D('x', 'cnt')], [('If', 'a'), ('goto_next',)], [('When', 0), ('If', 'b')] + o + [D('y', 'cnt')],
                  [('When', 1), ('If', 'b')] + o + [D('z', 'cnt')], [('State', 0)] + o + [D('w', 'cnt')], [('If', 'b'), ('goto', 0)]])
        P.append([[('When', 1), ('If', 'a')] + o + [D('x', 'cnt')], [('goto_next',)], [('When', 0)] + o + [D('x', 'x+1')],
                  [('State', 2), ('If', 'b')] + o + [D('y', 'cnt')], [('goto_next',)], [('State', 2), ('If', 'a'), ('goto', 0)]])
        P.append([[('kw', [('x', 'x+cnt'), ('y', 'cnt')], dict(cond='a', delay=1, index=1))], [('goto_next',)],
                  [('kw', [('z', 'cnt')], dict(cond=['a', 'b'], keep=2, index=0))] if not o else o + [D('z', 'x+1')], [('goto_init',)]])
    # F5: Always section and Prev against state actions
    for o in OPTS[:5]:
        P.append([[('always', [('If', 'a')] + o + [D('x', 'k5')])], [('If', 'b'), D('x', 'cnt')], [('goto_next',)], [('always', [D('y', 'y+3')])],
                  [('If', 'a'), D('y', 'k0')], [('If', 'b'), ('goto_init',)]])
    for n in (1, 2, 3):
        P.append([[('prev', 'x', 'cnt', n, None)], [('If', 'a'), ('goto_next',)], [('prev', 'y', 'x+cnt', n, 'b')], [('goto_init',)]])
        P.append([[D('x', 'cnt')], [('If', 'a'), ('goto_next',)], [('If', 'b'), ('prev', 'y', 'cnt', n, None)], [('prev', 'z', 'x+cnt', n, None)], [('goto_init',)]])
    # F6: same register written from several states with overlapping delays
    for p, q in itertools.product(OPTS, OPTS[:5]):
        P.append([[('If', 'a')] + p + [D('x', 'cnt')], [('goto_next',)], [('If', 'b')] + q + [D('x', 'x+1')], [('goto_next',)],
                  p + [D('x', 'k9')], [('goto_init',)]])
        P.append([p + [D('x', 'x+cnt')], q + [D('x', 'k5')], [('If', 'a'), ('goto_next',)], [('goto_init',)]])
    # F7: partial and multiple targets, method statements
    for t in ('x[0]', 'x[1:3]', '{x,y}', '{w,z}', 'inc x', 'dec y', 'x.add'):
        for o in OPTS[:6]:
            P.append([[('If', 'a')] + o + [D(t, 'cat')], [('If', 'b'), ('goto_next',)], o + [D(t, 'cnt')], [('goto_init',)]])
    P.append([[D('x', 'x+1')], [('IfThen',), D('y', 'y+3')] if False else [('If', 'a'), D('z', 'cnt')], [('goto_next',)], [('goto_init',)]])
    # F8: multi-state rings with waits
    for k in (3, 4):
        p = []
        for s in range(k):
            p += [[('If', 'ab'[s % 2]), D('xyz'[s % 3], 'x+cnt' if s != 1 else 'y+x')], [('If', 'ba'[s % 2]), ('goto_next',) if s < k - 1 else ('goto_init',)]]
        P.append(p)
    seen, res = set(), []
    for p in P:
        r = repr(p)
        if r not in seen and seqm.Spec(p, True).cur < 8:
            seen.add(r)
            res.append(p)
    return res


def cases():
    out = []
    for i, p in enumerate(programs()):
        out.append((p, 'inline'))
        if i % 2 == 0 or tier() != 'quick':
            out.append((p, 'if'))
        if not c05.partial(p) and (i % 3 != 1 or tier() != 'quick'):
            out.append((p, 'module'))
        if i % 9 == 0:
            out.append((p, 'tmp'))
        if i % 9 == 4 and not c05.partial(p):
            out.append((p, 'modif'))
    return out


def build(idx, prog, form):
    m = vg.Module('p%d' % idx)
    clk, rst0, rst = m.Input('CLK'), m.Input('RST0'), m.Input('RST')
    E = dict(vt=vt, m=m)
    E['a'], E['b'] = m.Input('a'), m.Input('b')
    E['P'] = m.Parameter('P', 6)
    cnt = E['cnt'] = m.Reg('cnt', 4, initval=0)
    m.Always(vg.Posedge(clk))(vg.If(rst0)(cnt(0)).Else(cnt(cnt * 5 + 3)))
    for r, w in seqm.REGW.items():
        E[r] = m.Reg(r, w, initval=seqm.INIT[r])
        m.Output(r + '_o', w).assign(E[r])
    mem = E['mem'] = m.Wire('mem', 4, dims=(4,))
    for i in range(4):
        m.Assign(mem[i](E['a'] + 3 * i))
    kw = {}
    if form == 'module':
        kw['as_module'] = True
    elif form in ('if', 'modif'):
        kw['nohook'] = True
    f = TmpFSM(m, clk, rst, **kw) if form == 'tmp' else FSM(m, 'fsm', clk, rst, **kw)
    m.Output('state_o', 8).assign(f.state)
    if callable(prog):
        prog(f, E)
    else:
        seqm.apply_real(f, prog, E)
    rest = vg.Seq(m, 'rest', clk, rst)
    used = [str(v) if not hasattr(v, 'var') else str(v.var) for v in list(f.dst_var.values()) + list(f.seq.dst_var.values())]
    for r in seqm.REGW:
        if str(E[r]) not in used and not any('{' in k and r in k for k in list(f.dst_var) + list(f.seq.dst_var)):
            rest(E[r](E[r]))
    if form == 'if':
        f.make_always(case=False)
    elif form == 'modif':
        f.make_module(case=False)
    return m


def batch(arg):
    bi, cs = arg
    res = dict(states=0, transitions=0, traces=0, violations=[], samples=[], counts={})
    c05.run_batch(bi, cs, res, build, True, REGS)
    return res


def wrap(f):
    """a statement shape used as a state action of a two-state machine"""
    def prog(fsm, E):
        f(lambda *st: fsm(*st), E)
        fsm.If(E['a']).goto_next()
        fsm(E['w'](E['cnt'][0]))
        fsm.If(E['b']).goto_init()
    prog.__name__ = f.__name__
    return prog


def special_batch(bi):
    res = dict(states=0, transitions=0, traces=0, violations=[], samples=[], counts={})
    fs = [wrap(f) for f in special.SPECIAL]
    c05.compare_forms(bi, fs, ['inline', 'if', 'module', 'modif'], res,
                      lambda idx, f, form: build(idx, f, form), 'FSM', [f.__name__ for f in special.NOMOD])
    return res


def main():
    c = Check('C06')
    cs = list(enumerate(cases()))
    c.count('programs', len(cs))
    for r in pmap(batch, list(enumerate(chunks(cs, 48))), 'c06'):
        c.absorb(r)
    for r in pmap(special_batch, [9999], 'c06s'):
        c.absorb(r)
    c.assumptions = ['states = (program, form) pairs; transitions = nodes of the exhaustive input tree (a, b, rst per cycle) to the (input bits, depth) bounds %r' % (c05.TREES,),
                     'Verilator 2-state semantics of the emitted text']
    c.finish()


if __name__ == '__main__':
    main()
