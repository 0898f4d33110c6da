#!/usr/bin/env python3
"""C24: simulation helpers.  Every combination of clock half periods, reset
settings and step scripts of a grid is emitted, executed and its complete
timeline of value changes compared with the timeline the settings describe;
the Verilator driver on a grid of clocks and resets; the simulator front end
on all option forms."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import Check, pmap, tier, exc_text, chunks, run, HarnessError
import iv

Q = tier() == 'quick'
END = 260


# ------------------------------------------------------------------ timelines
SCRIPTS = [(), ('n',), ('n', 'n'), ('n', 'n', 'n'), (3, 'n'), ('n', 2), (1, 'n', 1, 'n'), ('n', 4, 'n', 'n'),
           (2, 'n', 'm'), ('m', 'n', 3, 'm')]


def configs():
    hps = [None, 1, 2, 3, 4, 5, 7, 10]
    pers = [None, 1, 2, 3, 5, 7, 10, 13, 30]
    pols = [None, 'high', 'low', 'HIGH', 'Low']
    out = []
    for hp in hps:
        for p in pers:
            for pol in pols:
                out.append((hp, hp, p, pol, p, pol, 'n', True))
    for hp, hp2 in itertools.product((1, 2, 3, 5), (1, 2, 3, 4, 6)):
        for p, p2 in itertools.product((3, 4, 11), (5, 20)):
            for pol, pol2 in itertools.product(('high', 'low'), repeat=2):
                if Q and (hp + hp2 + p + p2) % 2 and pol == pol2:
                    continue
                out.append((hp, hp2, p, pol, p2, pol2, 'm', False))
    res = []
    for i, c in enumerate(out):
        for j, s in enumerate(SCRIPTS):
            if Q and (i + j) % 3:
                continue
            res.append((c, s))
    return res


def expected(cfg, script):
    (hp, hp2, p, pol, p2, pol2, _, stm) = cfg
    hp = 5 if hp is None else hp
    hp2 = 5 if hp2 is None else hp2
    a = 'low' not in (pol or 'high').lower()
    a2 = 'low' not in (pol2 or 'high').lower()
    p = 100 if p is None else p
    p2 = 100 if p2 is None else p2
    ev = {}                       # time -> {signal: value}
    for h, s in ((hp, 'c'), (hp2, 'd')):
        for k in range(END // h + 1):
            ev.setdefault(k * h, {})[s] = k % 2
    for t, s, v in ((0, 'r', not a), (p, 'r', a), (2 * p, 'r', not a),
                    (0, 's', not a2), (p2, 's', a2), (2 * p2, 's', not a2)):
        ev.setdefault(t, {})[s] = int(v)
    x = None
    if stm:
        ev.setdefault(0, {})['x'] = 17
    t, n = 2 * p, 0
    for op in script:
        if isinstance(op, int):
            t += op
        else:
            h = hp if op == 'n' else hp2
            if t % h == 0 and (t // h) % 2:
                return None       # at an edge when the wait begins: a race
            k = t // h + 1
            if k % 2 == 0:
                k += 1
            t = k * h + 1
        n += 1
        ev.setdefault(t, {})['x'] = n
    cur, tl = {}, []
    for t in sorted(ev):
        if t >= END:
            break
        new = dict(cur)
        new.update(ev[t])
        if new != cur:
            tl.append((t, tuple(new.get(k, 'x') for k in 'cdrsx')))
        cur = new
    return tl


def build(i, cfg, script):
    import veriloggen as vg
    from veriloggen import simulation
    (hp, hp2, p, pol, p2, pol2, _, stm) = cfg
    m = vg.Module('t%d' % i)
    c, d, r, s = m.Reg('c'), m.Reg('d'), m.Reg('r'), m.Reg('s')
    x = m.Reg('x', 8)
    simulation.setup_clock(m, c, **({} if hp is None else dict(hperiod=hp)))
    simulation.setup_clock(m, d, **({} if hp2 is None else dict(hperiod=hp2)))
    kw = {}
    if p is not None:
        kw['period'] = p
    if pol is not None:
        kw['polarity'] = pol
    init = simulation.setup_reset(m, r, *((x(17),) if stm else ()), **kw)
    kw = {}
    if p2 is not None:
        kw['period'] = p2
    if pol2 is not None:
        kw['polarity'] = pol2
    simulation.setup_reset(m, s, **kw)
    n = 0
    for op in script:
        n += 1
        if isinstance(op, int):
            init.add(vg.Delay(op))
        else:
            init.add(*simulation.next_clock(c if op == 'n' else d))
        init.add(x(n))
    return m.to_verilog()


def timelines(batch):
    res = dict(states=0, transitions=0, traces=0, violations=[], counts={'timelines': 0, 'races excluded': 0})
    text, exp = '', {}
    for i, (cfg, script) in batch:
        e = expected(cfg, script)
        if e is None:
            res['counts']['races excluded'] += 1
            continue
        try:
            text += build(i, cfg, script)
        except Exception:
            res['violations'].append(('reject:timeline %r %r' % (cfg, script), exc_text(), None))
            continue
        exp[i] = (cfg, script, e)
        sig = ', '.join('t%d.%s' % (i, k) for k in 'cdrsx')
        text += ('\nmodule o%d; always @(%s) begin #0; #0; $strobe("L %d %%0d %%b %%b %%b %%b %%0d", $time, %s); end '
                 'endmodule\n' % (i, sig.replace(', ', ' or '), i, sig))
    text += '\nmodule fin; initial #%d $finish; endmodule\n' % END
    try:
        out = iv.simulate(text, tag='tl')
    except iv.Reject as e:
        res['violations'].append(('reject:timelines %d' % batch[0][0], str(e), text[:3000]))
        return res
    got = {}
    for l in out.split('\n'):
        f = l.split()
        if len(f) == 8 and f[0] == 'L':
            t = int(f[2])
            if t < END:
                tl = got.setdefault(int(f[1]), [])
                row = (t, tuple(f[3:]))
                if not tl or tl[-1] != row:
                    tl.append(row)
    for i, (cfg, script, e) in exp.items():
        e = [(t, tuple(str(v) for v in r)) for t, r in e]
        g = got.get(i, [])
        res['states'] += len(e)
        res['transitions'] += len(e)
        res['traces'] += 1
        res['counts']['timelines'] += 1
        if g != e:
            k = 0
            while k < min(len(g), len(e)) and g[k] == e[k]:
                k += 1
            res['violations'].append((
                'timeline:%r %r' % (cfg, script),
                'timeline differs at change %d: got %r, described %r (clk, clk2, rst, rst2, x)' % (k, g[k:k + 2], e[k:k + 2]),
                build(i, cfg, script)))
    return res


# ------------------------------------------------------------------ Verilator
def verilator(cfg):
    """clock and reset as seen in the Verilator driver"""
    import veriloggen as vg
    from veriloggen import simulation
    hp, hp2, p, pol, p2, pol2, end, fin = cfg
    res = dict(states=0, transitions=0, traces=0, violations=[], counts={'verilator': 1})
    key = 'verilator:%r' % (cfg,)
    try:
        m = vg.Module('t')
        c, d, r, s = m.Reg('c'), m.Reg('d'), m.Reg('r'), m.Reg('s')
        simulation.setup_clock(m, c, hperiod=hp)
        simulation.setup_clock(m, d, hperiod=hp2)
        simulation.setup_reset(m, r, period=p, polarity=pol)
        simulation.setup_reset(m, s, period=p2, polarity=pol2)
        for n, ck in (('c', c), ('d', d)):
            stm = [vg.Systask('display', 'L ' + n + ' %0d %b %b', vg.SystemTask('time'), r, s)]
            if fin and n == 'c':
                k = m.Reg('k', 32, initval=0)
                stm += [k(k + 1), vg.If(k == fin)(vg.Systask('finish'))]
                m.Initial(k(0))
            m.Always(vg.Posedge(ck))(*stm)
        out = simulation.run_verilator(m, sim_time=end, outputfile='./vout')
    except Exception:
        res['violations'].append(('reject:' + key, exc_text(), None))
        return res
    a, a2 = pol == 'high', pol2 == 'high'
    seen = {'c': [], 'd': []}
    for l in out.split('\n'):
        f = l.split()
        if len(f) == 5 and f[0] == 'L':
            t = int(f[2])
            seen[f[1]].append(t)
            res['states'] += 1
            res['transitions'] += 1
            for v, act, per in ((f[3], a, p), (f[4], a2, p2)):
                want = str(int(act if per <= t < 2 * per else not act))
                if v != want:
                    res['violations'].append((key, 'reset is %s at time %d, described %s' % (v, t, want), out[:3000]))
                    return res
    res['traces'] = 1
    for n, h in (('c', hp), ('d', hp2)):
        ts = seen[n]
        bad = [t for u, t in zip(ts, ts[1:]) if t - u != 2 * h]
        if bad or not ts or ts[0] > 2 * h or ts[0] % h:
            res['violations'].append((key, 'clock %s with half period %d has its edges at %r' % (n, h, ts[:8]), out[:3000]))
            return res
    if not fin and not (end - 2 * hp <= seen['c'][-1] <= end):
        res['violations'].append((key, 'the run ended at %r instead of %d' % (seen['c'][-1], end), out[-2000:]))
    return res


# ------------------------------------------------------------------ front end
def frontend(case):
    """run options of Simulator.run and run_iverilog, waveform selections"""
    import veriloggen as vg
    from veriloggen import simulation
    kind, i, arg = case
    res = dict(states=1, transitions=1, traces=1, violations=[], counts={'front end': 1})
    key = 'front:%s %r' % (kind, arg)

    def bad(msg):
        res['violations'].append((key, msg, None))
    try:
        if kind == 'options':
            defs, inc, lib, objs, how, outf = arg
            os.mkdir('i1'), os.mkdir('i2'), os.mkdir('lib')
            open('i1/one.vh', 'w').write('`define ONE 11\n')
            open('i2/two.vh', 'w').write('`define TWO 22\n')
            open('lib/sub.v', 'w').write('module sub; initial #1 $display("L sub"); endmodule\n')
            src = 'module ext;\n'
            if inc:
                src = ''.join('`include "%s"\n' % f for f in ('one.vh', 'two.vh')[:inc]) + src
                src += 'initial #2 $display("L inc%s");\n' % ''.join(' %0d' for _ in range(inc))
                src = src.replace('");\n', '", %s);\n' % ', '.join(('`ONE', '`TWO')[:inc]))
            src += '`ifdef AA\ninitial #3 $display("L AA");\n`endif\n`ifdef BB\ninitial #4 $display("L BB %0d", `BB);\n`endif\n'
            if lib:
                src += 'sub s();\n'
            src += 'endmodule\n'
            m = vg.Module('top')
            m.Initial(vg.Delay(5), vg.Systask('display', 'L top'), vg.Delay(5), vg.Systask('finish'))
            kw = {}
            if defs:
                kw['define'] = {1: ['AA'], 2: [('AA', None)], 3: [('BB', 7)], 4: ['AA', ('BB', 0)]}[defs]
            if inc:
                kw['include'] = ['i1', 'i2'][:inc]
            if lib:
                kw['libdir'] = ['lib']
            if outf:
                kw['outputfile'] = 'o.out'
            m2 = vg.Module('other')
            m2.Initial(vg.Delay(6), vg.Systask('display', 'L other'))
            n = vg.Module('unused')
            n.Initial(vg.Systask('display', 'L unused'))
            want = []
            objs_ = {'one': m, 'list': [m, m2], 'text': [m, src], 'both': [m, m2, src]}[objs]
            tops = {'one': ['top'], 'list': ['top'], 'text': ['top'], 'both': ['top']}[objs]
            # the simulated hierarchy is the one below 'top'; ext is instantiated there if given
            if objs in ('text', 'both'):
                m.EmbeddedCode('ext e();')
                if lib:
                    want.append('L sub')
                if inc:
                    want.append('L inc' + ' 11 22'[:3 * inc])
                if defs in (1, 2, 4):
                    want.append('L AA')
                if defs in (3, 4):
                    want.append('L BB %d' % (7 if defs == 3 else 0))
            want.append('L top')
            if how == 'Simulator':
                sim = simulation.Simulator(*(objs_ if isinstance(objs_, list) else [objs_]))
                out = sim.run(**kw)
            elif how == 'top name':
                out = simulation.run_iverilog(objs_, top='top', **kw)
            elif how == 'top':
                out = simulation.run_iverilog(objs_, top=m, **kw)
            else:
                out = simulation.run_iverilog(objs_, **kw)
            got = [l for l in out.split('\n') if l.startswith('L ')]
            if got != want:
                bad('printed %r, described %r (%r)' % (got, want, out[:400]))
            left = [f for f in os.listdir('.') if f.startswith('iverilog_')]
            if left:
                bad('left %r behind' % left)
        else:
            sel, name = arg
            m = vg.Module('top')
            sub = vg.Module('sub')
            a = sub.Input('a', 4)
            q = sub.OutputReg('q', 4)
            inner = sub.Reg('inner', 4)
            sub.Always(a)(q(a), inner(a))
            ports = m.copy_sim_ports(sub)
            p = m.Reg('p', 3)
            arr = m.Reg('arr', 3, dims=(4,))
            other = m.Reg('other', 3)
            u = m.Instance(sub, 'u', ports=m.connect_ports(sub)) if 'sub' not in sel else None
            su = vg.Submodule(m, sub, 'v_', arg_ports=(('a', p),)) if 'sub' in sel else None
            table = dict(u=(u, {'a', 'q', 'inner'}), p=(p, {'p'}), arr=(arr, set()), lst=([p, arr, other], {'p', 'other'}),
                         dct=({'x': other, 'y': arr}, {'other'}), sub=(su, {'a', 'q', 'inner'}), top=(m, None))
            simulation.setup_waveform(m, *[table[s][0] for s in sel], **({} if name is None else dict(dumpfile=name)))
            m.Initial(p(1), other(2), vg.Delay(3), p(3), other(5), vg.Delay(1), vg.Systask('finish'))
            simulation.Simulator(m).run()
            files = [f for f in os.listdir('.') if f.endswith('.vcd')]
            if len(files) != 1 or (name is not None and files[0] != name):
                bad('dump files %r' % files)
                return res
            t = open(files[0]).read()
            got = set(re.findall(r'\$var \w+ \d+ \S+ (\w+)', t))
            want = set().union(*[table[s][1] for s in sel])
            if got != want:
                bad('dumped %r, described %r' % (sorted(got), sorted(want)))
    except Exception:
        res['violations'].append(('reject:' + key, exc_text(), None))
    return res


def one(item):
    kind, arg = item
    if kind == 'tl':
        return timelines(arg)
    if kind == 'ver':
        return verilator(arg)
    return frontend(arg)


def items():
    ver = []
    for n, (hp, hp2) in enumerate(((5, 5), (4, 6), (3, 5), (10, 4), (1, 2), (6, 9), (7, 7), (2, 10))):
        for k, (p, p2) in enumerate(((100, 30), (12, 18), (7, 20))):
            for pol, pol2 in (('high', 'low'), ('low', 'high')):
                if Q and (n + k + (pol == 'low')) % 4:
                    continue
                ver.append((hp, hp2, p, pol, p2, pol2, 300 if k else 420, 0 if (n + k) % 3 else 20))
    fr = []
    for defs, inc, lib, objs, how, outf in itertools.product(range(5), range(3), (0, 1), ('one', 'list', 'text', 'both'),
                                                             ('Simulator', 'top name', 'top', 'plain'), (0, 1)):
        if (defs or inc or lib) and objs in ('one', 'list') and (defs + inc + lib) > 1:
            continue
        if Q and (defs * 3 + inc + lib + len(how) + outf) % 3:
            continue
        fr.append(('options', 0, (defs, inc, lib, objs, how, outf)))
    sels = [s for k in (1, 2, 3) for s in itertools.permutations(('u', 'p', 'lst', 'dct', 'arr'), k) if s != ('arr',)]
    for i, s in enumerate(sels):
        fr.append(('wave', i, (s, 'w.vcd' if i % 2 else None)))
    fr += [('wave', 0, (('sub',), 'w.vcd')), ('wave', 0, (('sub', 'p'), None)), ('wave', 0, (('lst', 'sub'), 'w.vcd'))]
    out = [('ver', v) for v in ver] + [('front', f) for f in fr]
    out += [('tl', b) for b in chunks(list(enumerate(configs())), 60)]
    return out


def main():
    c = Check('C24')
    its = items()
    f = sys.argv[2] if len(sys.argv) > 2 else None
    if f:
        its = [i for i in its if i[0] == f]
    c.count('items', len(its))
    for r in pmap(one, its, 'c24'):
        c.absorb(r)
    c.assumptions = ['Icarus Verilog and Verilator are correct; a script that waits for a clock edge in the time unit of an '
                     'edge is a race and excluded; waveforms need at least one object with a value']
    c.finish()


if __name__ == '__main__':
    main()
