"""C05: Seq applies each registered update under its condition, delay and reset."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import numpy as np
import seqm
import special
import vl

import veriloggen as vg
import veriloggen.core.vtypes as vt
from veriloggen.seq.seq import Seq, TmpSeq

# (input bits, depth): bit0=a bit1=b bit2=rst
TREES = [(3, 5), (2, 7)] if tier() == 'quick' else [(3, 6), (2, 9)]


def programs():
    P = []
    kw = lambda **k: {a: b for a, b in k.items() if b is not None}
    post = [[('If', 'b'), ('do', [('z', 'x+cnt')])]]
    # F1: one update, every option combination, keyword and builder forms
    for cond in (None, 'a', ('a', 'b'), 'cnt>x'):
        for d in (None, 0, 1, 2, 3):
            for kp in (None, 1, 2, 3):
                for ev in (None, True):
                    for lz in (None, True):
                        if (ev or lz) and not d and not kp:
                            continue
                        if kp == 3 and d == 3 and tier() == 'quick' and cond != 'a':
                            continue
                        c = cond if cond is None or isinstance(cond, str) else list(cond)
                        P.append([[('kw', [('x', 'x+cnt'), ('y', 'cnt')],
                                    kw(cond=c, delay=d, keep=kp, eager_val=ev, lazy_cond=lz))]] + post)
                        ch = []
                        if cond is not None:
                            cs = [cond] if isinstance(cond, str) else list(cond)
                            form = (len(P) // 2) % 3
                            if form == 0:
                                ch += [('If',) + tuple(cs)]
                            elif form == 1:
                                ch += [('If', q) for q in cs]
                            else:
                                ch += [('IfList',) + tuple(cs)]
                        o = []
                        if d is not None:
                            o.append(('Delay', d))
                        if kp is not None:
                            o.append(('Keep', kp))
                        if ev:
                            o.append(('EagerVal',))
                        if lz:
                            o.append(('LazyCond',))
                        if len(P) % 4 < 2:
                            ch = ch + o
                        else:
                            ch = o + ch
                        P.append([ch + [('do', [('y', 'y+x'), ('x', 'mux')])]] + post)
    # F2: if / elif / else chains with options on every arm
    opts = [[], [('Delay', 1)], [('Delay', 2)], [('Keep', 2)], [('Delay', 1), ('EagerVal',)],
            [('Delay', 1), ('LazyCond',)]]
    small = [[], [('Delay', 1)], [('Delay', 2)]]
    for o1 in opts:
        for o2 in opts:
            P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')]), ('Else',)] + o2 + [('do', [('x', 'x+1'), ('y', 'cnt')])]])
            P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')]), ('Elif', 'b')] + o2 + [('do', [('x', 'x+1'), ('y', 'y+3')])],
                      [('do', [('z', 'y+x')])]])
            for o3 in small:
                P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')]), ('Elif', 'b')] + o2 +
                          [('do', [('x', 'x+1')]), ('Else',)] + o3 + [('do', [('x', 'k9'), ('y', 'cnt')])]])
    P.append([[('If', 'a'), ('do', [('x', 'cnt')]), ('Elif', 'b'), ('do', [('x', 'k5')]),
               ('Elif', 'cnt0'), ('do', [('x', 'k9')]), ('Elif', 'y<5'), ('do', [('y', 'y+3')]),
               ('Else',), ('do', [('x', 'x+1'), ('y', 'k0')])]])
    P.append([[('If', 'a'), ('do', [('x', 'cnt')])], [('Elif', 'b'), ('do', [('x', 'k5')])],
              [('Elif', 'cnt0'), ('do', [('x', 'k9')])], [('Else',), ('do', [('x', 'x+1')])]])
    P.append([[('If', 'a', 'b'), ('do', [('x', 'cnt')]), ('Elif', 'b', 'cnt0'), ('do', [('y', 'cnt')]),
               ('Else',), ('do', [('z', 'cnt')])]])
    P.append([[('If', 'a'), ('If', 'b'), ('do', [('x', 'cnt')]), ('Else',), ('do', [('y', 'cnt')])]])
    P.append([[('If', 'a'), ('do', [('x', 'cnt')]), ('Else',), ('If', 'b'), ('do', [('y', 'cnt')])]])
    P.append([[('If', 'a'), ('do', [('x', 'cnt')]), ('Else',), ('If', 'b'), ('do', [('y', 'cnt')]),
               ('Else',), ('do', [('z', 'cnt')])]])
    # F3: condition reuse
    for o1 in small:
        for o2 in small:
            P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')])], [('Then',)] + o2 + [('do', [('y', 'cnt')])]])
            P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')]), ('Else',)] + o1 + [('do', [('y', 'cnt')])],
                      [('Then',)] + o2 + [('do', [('z', 'y+x')])]])
            P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')]), ('Elif', 'b')] + o1 + [('do', [('y', 'cnt')])],
                      [('Then',)] + o2 + [('do', [('z', 'y+x')])]])
            P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')]), ('Elif', 'b')] + o1 + [('do', [('y', 'cnt')]),
                       ('Else',)] + o1 + [('do', [('y', 'k9')])], [('Then',), ('If', 'cnt0')] + o2 + [('do', [('z', 'y+x')])]])
            P.append([[('If', 'a')] + o1 + [('do', [('x', 'cnt')])], [('IfThen',), ('If', 'b')] + o2 + [('do', [('y', 'cnt')])],
                      [('IfLast',)] + [('do', [('z', 'x+cnt')])]])
            P.append([[('If', 'a', 'b')] + o1 + [('do', [('x', 'cnt')])], [('Then',)] + o2 + [('do', [('y', 'cnt')])],
                      [('Then',)] + o1 + [('do', [('z', 'cnt')])]])
    P.append([[('If', 'a'), ('Clear',), ('do', [('x', 'cnt')])]])
    P.append([[('If', 'a'), ('Delay', 2), ('Clear',), ('If', 'b'), ('do', [('x', 'cnt')])]])
    P.append([[('If', 'a'), ('do', [('x', 'cnt')])], [('If', 'b'), ('do', [('y', 'cnt')])],
              [('Else',), ('do', [('z', 'cnt')])], [('do', [('w', 'k5')])]])
    # F4: Prev
    for n in (1, 2, 3):
        for v in ('cnt', 'x+cnt', 'cat', 'k9'):
            if v == 'k9':
                continue
            P.append([[('prev', 'x', v, n, None)]])
            P.append([[('If', 'a'), ('prev', 'x', v, n, None)], [('prev', 'y', v, n, 'b')]])
            P.append([[('prev', 'x', v, n, 'a')], [('If', 'b'), ('prev', 'y', v, n, None)]])
            for n2 in (1, 2, 3):
                P.append([[('prev', 'x', v, n, None)], [('prev', 'y', v, n2, None)], [('prev', 'z', 'y+x', n2, None)]])
    P.append([[('prev', 'x', 'cnt', 2, 'a')], [('prev', 'y', 'cnt', 2, 'b')]])
    P.append([[('prev', 'x', 'cnt', 1, 'a')], [('prev', 'y', 'cnt', 3, 'a')]])
    # F5: several updates of one register
    o5 = [[], [('Delay', 1)], [('Delay', 2)], [('Delay', 1), ('EagerVal',)], [('Keep', 2)], [('Delay', 2), ('LazyCond',)]]
    for p, q in itertools.product(o5, o5):
        P.append([[('If', 'a')] + p + [('do', [('x', 'cnt')])], [('If', 'b')] + q + [('do', [('x', 'x+1')])]])
        P.append([q + [('do', [('x', 'x+cnt')])], [('If', 'a')] + p + [('do', [('x', 'k5')])],
                  [('If', 'b')] + q + [('do', [('x', 'k9'), ('y', 'y+x')])]])
    # F6: partial and concatenated targets, reset of parts, method statements
    for t in ('x[0]', 'x[3]', 'x[1:3]', 'y[2:4]', '{x,y}', '{w,z}'):
        for o in opts:
            P.append([[('If', 'a')] + o + [('do', [(t, 'cnt')])]])
            P.append([[('If', 'a')] + o + [('do', [(t, 'cat')]), ('Else',), ('do', [(t, 'k5')])]])
    P.append([[('If', 'a'), ('do', [('x[0]', 'cnt'), ('x[3]', 'cat'), ('x[1:3]', 'k5')])], [('If', 'b'), ('do', [('x', 'k9')])]])
    P.append([[('If', 'b'), ('do', [('x', 'k9')])], [('If', 'a'), ('do', [('x[0]', 'cnt'), ('x[1:3]', 'k5')])]])
    for t in ('inc x', 'dec y', 'x.add', 'y.sub'):
        for o in opts:
            P.append([[('If', 'a')] + o + [('do', [(t, None)])]])
    # values: parameter, array element, constants
    for v in ('P', 'mem', 'k9', 'cat', 'mux'):
        for o in opts:
            P.append([[('If', 'a')] + o + [('do', [('x', v)]), ('Else',)] + o + [('do', [('y', v)])]])
    seen, res = set(), []
    for p in P:
        r = repr(p)
        if r not in seen:
            seen.add(r)
            res.append(p)
    return res


def partial(prog):
    return any(t in ('x[0]', 'x[3]', 'x[1:3]', 'y[2:4]', '{x,y}', '{w,z}')
               for call in prog for el in call if el[0] in ('do', 'kw') for t, _ in el[1])


FORMS = ['inline', 'module', 'split', 'explicit', 'norst', 'tmp', 'dims2']


def cases():
    out = []
    for i, p in enumerate(programs()):
        out.append((p, 'inline'))
        if not partial(p):
            out.append((p, 'module'))
        if len(p) > 1 and not any(el[0] in ('Then', 'Elif', 'Else', 'IfThen', 'IfLast') for c in p[1:] for el in c[:1]) \
                and 'prev' not in repr(p) and 'Delay' not in repr(p) and 'Keep' not in repr(p):
            out.append((p, 'split'))
        if i % 7 == 0:
            out.append((p, 'explicit'))
        if i % 5 == 0:
            out.append((p, 'tmp'))
        if i % 4 == 0:
            out.append((p, 'norst'))
    return out


def special_batch(bi):
    res = dict(states=0, transitions=0, traces=0, violations=[], samples=[], counts={})
    compare_forms(bi, special.SPECIAL, ['inline', 'module'], res,
                  lambda idx, f, form: build(idx, f, form), 'Seq')
    return res


def compare_forms(bi, funcs, forms, res, build, what, nomod=tuple(f.__name__ for f in special.NOMOD)):
    '''every form of the same program must be observationally equal'''
    n, lo, regs = 0, 0, ('x', 'y', 'z', 'w')
    cols, texts, inst = {}, [], []
    for fi, f in enumerate(funcs):
        for form in forms:
            if form in ('module', 'modif') and f.__name__ in nomod:
                continue
            name = '%s:%s:%s' % (what, f.__name__ if callable(f) else repr(f), form)
            try:
                m = build(n, f, form)
                t = uniq(m.to_verilog(), n)
                vl.lint('l%d' % n, t, 'p%d' % n)
            except vl.VerilatorReject as e:
                res['violations'].append(('invalid:' + name, 'emitted text rejected: %s %s' % (name, str(e)[:600]), t))
                n += 1
                continue
            except Exception:
                res['violations'].append(('reject:' + name, 'legal program rejected: %s\n%s' % (name, exc_text()), None))
                n += 1
                continue
            con = []
            for r in regs:
                w = seqm.REGW[r]
                con.append('.%s_o(out[%d:%d])' % (r, lo + w - 1, lo))
                cols[fi, form, r] = lo
                lo += w
            texts.append(t)
            inst.append('p%d u%d(.CLK(CLK), .RST0(RST), .RST(RST|in[2]), .a(in[0]), .b(in[1]), %s);' % (n, n, ', '.join(con)))
            n += 1
    if not inst:
        return
    full = '\n'.join(texts) + '\nmodule top(input CLK, input RST, input [2:0] in, output [%d:0] out);\n' % (lo - 1) + '\n'.join(inst) + '\nendmodule\n'
    T = vl.Tree('ws%d' % bi, full, 'top', lo, timeout=400)
    arr = T.run(3, 5)
    for fi, f in enumerate(funcs):
        for form in forms[1:]:
            for r in regs:
                if (fi, form, r) not in cols or (fi, forms[0], r) not in cols:
                    continue
                A = vl.field(arr, cols[fi, forms[0], r], seqm.REGW[r])
                B = vl.field(arr, cols[fi, form, r], seqm.REGW[r])
                if not np.array_equal(A, B):
                    nm = f.__name__ if callable(f) else repr(f)
                    res['violations'].append(('forms:%s:%s:%s' % (what, nm, form),
                                              '%s %s: form %s and form %s differ in %s at tree node %d' %
                                              (what, nm, forms[0], form, r, int(np.nonzero(A != B)[0][0])), None))
                    break
            res['states'] += 1
            res['transitions'] += arr.shape[0]
            res['traces'] += 1


def uniq(text, i):
    '''make the names of sub-modules unique per program'''
    import re
    names = [x for x in re.findall(r'^module\s+(\w+)', text, re.M) if x != 'p%d' % i]
    for x in names:
        text = re.sub(r'^(\s*)(module\s+)?%s\b(?=\s*\n?\s*(#\s*\(|\(|inst))' % x,
                      lambda mm: '%s%sp%d__%s' % (mm.group(1), mm.group(2) or '', i, x), text, flags=re.M)
    return text


def build(idx, prog, form):
    m = vg.Module('p%d' % idx)
    clk, rst0, rst = m.Input('CLK'), m.Input('RST0'), m.Input('RST')
    E = dict(vt=vt, m=m)
    E['a'], E['b'] = m.Input('a'), m.Input('b')
    E['P'] = m.Parameter('P', 6)
    cnt = E['cnt'] = m.Reg('cnt', 4, initval=0)
    m.Always(vg.Posedge(clk))(vg.If(rst0)(cnt(0)).Else(cnt(cnt * 5 + 3)))
    for r, w in seqm.REGW.items():
        E[r] = m.Reg(r, w, initval=seqm.INIT[r])
        m.Output(r + '_o', w).assign(E[r])
    mem = E['mem'] = m.Wire('mem', 4, dims=(4,))
    for i in range(4):
        m.Assign(mem[i](E['a'] + 3 * i))
    R = None if form == 'norst' else rst
    if form == 'module':
        s = Seq(m, 'seq', clk, R, as_module=True)
    elif form == 'tmp':
        s = TmpSeq(m, clk, R)
    elif form == 'explicit':
        s = Seq(m, 'seq', clk, R, nohook=True)
    else:
        s = Seq(m, 'seq', clk, R)
    if form == 'split':
        seqm.apply_real(s, prog[:1], E)
        s2 = Seq(m, 'seq2', clk, R)
        seqm.apply_real(s2, prog[1:], E)
        s.update(s2)
    else:
        if callable(prog):
            prog(s, E)
        else:
            seqm.apply_real(s, prog, E)
    # registers the program never mentions keep their reset value
    rest = vg.Seq(m, 'rest', clk, R)
    for r in seqm.REGW:
        if str(E[r]) not in [str(v) if not hasattr(v, 'var') else str(v.var) for v in s.dst_var.values()] and \
                not any('{' in k and r in k for k in s.dst_var):
            rest(E[r](E[r]))
    if form == 'explicit':
        s.make_always()
    return m


def batch(arg):
    bi, cs = arg
    res = dict(states=0, transitions=0, traces=0, violations=[], samples=[], counts={})
    run_batch(bi, cs, res, build, False)
    return res


def run_batch(bi, cs, res, build, is_fsm, regs=('x', 'y', 'z', 'w'), alone=False):
    widths = dict(seqm.REGW, state=8)
    mods, ok = [], []
    for i, (prog, form) in cs:
        try:
            m = build(i, prog, form)
            text = m.to_verilog()
            mods.append((i, prog, form, text))
        except Exception:
            res['violations'].append(('reject:%s:%r' % (form, prog),
                                      'legal program rejected (%s): %r\n%s' % (form, prog, exc_text()), None))
    if not mods:
        return
    n = len(mods)
    per = sum(widths[r] for r in regs)
    top = ['module top(input CLK, input RST, input [2:0] in, output [%d:0] out);' % (n * per - 1)]
    fields = {}
    lo = 0
    for i, prog, form, text in mods:
        con = []
        for r in regs:
            con.append('.%s_o(out[%d:%d])' % (r, lo + widths[r] - 1, lo))
            fields[i, r] = lo
            lo += widths[r]
        top.append('p%d u%d(.CLK(CLK), .RST0(RST), .RST(RST|in[2]), .a(in[0]), .b(in[1]), %s);' % (i, i, ', '.join(con)))
    top.append('endmodule')
    texts = [uniq(text, i) for i, prog, form, text in mods]
    full = '\n'.join(texts) + '\n'.join(top)
    try:
        T = vl.Tree('w%d' % bi, full, 'top', n * per, timeout=400)
    except vl.VerilatorReject as e:
        if n == 1:
            i, prog, form, text = mods[0]
            res['violations'].append(('invalid:%s:%r' % (form, prog), 'emitted text rejected: %r %s' % (prog, str(e)[:500]), text))
        else:
            h = n // 2
            run_batch(bi, [(i, (p, f)) for i, p, f, t in mods[:h]], res, build, is_fsm, regs)
            run_batch(bi, [(i, (p, f)) for i, p, f, t in mods[h:]], res, build, is_fsm, regs)
        return
    done = set()
    for K, DEPTH in TREES:
        arr = T.run(K, DEPTH)
        pidx = seqm.preorder_index(K, DEPTH)
        specs = {}
        cols = {}
        for i, prog, form, text in mods:
            if i in done:
                continue
            norst = form == 'norst'
            if not is_fsm and norst and K == 3:
                continue
            key = (repr(prog), norst)
            if key not in specs:
                specs[key] = seqm.run_spec(seqm.Spec(prog, is_fsm), K, DEPTH, norst)
            outs = specs[key]
            bad = None
            for r in regs:
                col = vl.field(arr, fields[i, r], widths[r])
                for lev in range(DEPTH):
                    got = col[pidx[lev]]
                    want = outs[lev][r].astype(np.uint64)
                    if not np.array_equal(got, want):
                        d = np.nonzero(got != want)[0]
                        nd = int(d[0])
                        path = [(nd >> (K * (lev - j))) & ((1 << K) - 1) for j in range(lev + 1)]
                        bad = (r, path, int(got[nd]), int(want[nd]))
                        break
                if bad:
                    break
            res['states'] += 1
            res['transitions'] += arr.shape[0]
            res['traces'] += 1 << (K * DEPTH)
            if bad:
                done.add(i)
                r, path, g, w = bad
                res['violations'].append((
                    'beh:%s:%r' % (form, prog),
                    'form=%s program=%r: register %s is %d, expected %d after inputs (bit0=a bit1=b bit2=rst) %r'
                    % (form, prog, r, g, w, path), text))
            elif i % 97 == 0:
                res['samples'].append(dict(program=repr(prog), form=form, nodes=int(arr.shape[0])))


def main():
    c = Check('C05')
    cs = list(enumerate(cases()))
    c.count('programs', len(cs))
    for r in pmap(batch, list(enumerate(chunks(cs, 48))), 'c05'):
        c.absorb(r)
    for r in pmap(special_batch, [9999], 'c05s'):
        c.absorb(r)
    c.assumptions = ['states = (program, form) pairs; transitions = nodes of the exhaustive input tree (a, b, rst per cycle) to the (input bits, depth) bounds %r' % (TREES,),
                     'Verilator 2-state semantics of the emitted text']
    c.finish()


if __name__ == '__main__':
    main()
