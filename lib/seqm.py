"""Programs over the Seq/FSM API and their reference semantics.

A program is a list of calls; a call is a list of chain elements:
  ('If', c...) ('Elif', c...) ('Else',) ('Then',) ('Delay', d) ('Keep', k)
  ('EagerVal',) ('LazyCond',) ('When', idx) ('State', idx)
and ends with one of
  ('do', [(target, value)...])      statement(s), via __call__
  ('kw', [(target, value)...], {kwargs})
  ('goto', dst) ('gotokw', dst, cond, else_dst) ('goto_next',) ('goto_init',)
  ('goto_from', src, dst) ('inc',) ('set_index', i) ('always', [...chain...])
Conditions and values are names looked up in CONDS / VALS, which hold both the
veriloggen form and the numpy reference form.
"""
import numpy as np

U = np.uint16

CONDS = {
    'a': (lambda E: E['a'], lambda e: e['a'] != 0),
    'b': (lambda E: E['b'], lambda e: e['b'] != 0),
    '!a': (lambda E: E['vt'].Not(E['a']), lambda e: e['a'] == 0),
    'a|b': (lambda E: E['vt'].Lor(E['a'], E['b']), lambda e: (e['a'] != 0) | (e['b'] != 0)),
    'cnt0': (lambda E: E['cnt'][0], lambda e: (e['cnt'] & 1) != 0),
    'cnt>x': (lambda E: E['cnt'] > E['x'], lambda e: e['cnt'] > e['x']),
    'x0': (lambda E: E['x'][0] == 1, lambda e: (e['x'] & 1) != 0),
    'y<5': (lambda E: E['y'] < 5, lambda e: e['y'] < 5),
    'one': (lambda E: 1, lambda e: np.ones(e['a'].shape, bool)),
}
VALS = {
    'cnt': (lambda E: E['cnt'], lambda e: e['cnt']),
    'cnt+a': (lambda E: E['cnt'] + E['a'], lambda e: e['cnt'] + e['a']),
    'x+1': (lambda E: E['x'] + 1, lambda e: e['x'] + 1),
    'x+cnt': (lambda E: E['x'] + E['cnt'], lambda e: e['x'] + e['cnt']),
    'y+x': (lambda E: E['y'] + E['x'], lambda e: e['y'] + e['x']),
    'y+3': (lambda E: E['y'] + 3, lambda e: e['y'] + 3),
    'z-1': (lambda E: E['z'] - 1, lambda e: e['z'] - 1),
    'k9': (lambda E: 9, lambda e: np.full(e['a'].shape, 9, U)),
    'k5': (lambda E: 5, lambda e: np.full(e['a'].shape, 5, U)),
    'k0': (lambda E: 0, lambda e: np.full(e['a'].shape, 0, U)),
    'P': (lambda E: E['P'], lambda e: np.full(e['a'].shape, 6, U)),
    'mux': (lambda E: E['vt'].Mux(E['a'], E['cnt'], E['y']), lambda e: np.where(e['a'] != 0, e['cnt'], e['y'])),
    'cat': (lambda E: E['vt'].Cat(E['a'], E['cnt'][0:2], E['b']),
            lambda e: (e['a'] << U(3)) | ((e['cnt'] & 3) << U(1)) | e['b']),
    'mem': (lambda E: E['mem'][E['cnt'][0:2]], lambda e: (e['cnt'] & 3) * U(3) + e['a']),
}
REGW = {'x': 4, 'y': 4, 'z': 4, 'w': 1}
INIT = {'x': 1, 'y': 2, 'z': 0, 'w': 0}
# targets: name -> list of (reg, lo, width) from msb part to lsb part
TGT = {
    'x': [('x', 0, 4)], 'y': [('y', 0, 4)], 'z': [('z', 0, 4)], 'w': [('w', 0, 1)],
    'x[0]': [('x', 0, 1)], 'x[3]': [('x', 3, 1)], 'x[1:3]': [('x', 1, 2)],
    'y[2:4]': [('y', 2, 2)], '{x,y}': [('x', 0, 4), ('y', 0, 4)],
    '{w,z}': [('w', 0, 1), ('z', 0, 4)],
    'inc x': [('x', 0, 4)], 'dec y': [('y', 0, 4)], 'x.add': [('x', 0, 4)], 'y.sub': [('y', 0, 4)],
}
TVAL = {'inc x': lambda e: e['x'] + 1, 'dec y': lambda e: e['y'] - 1,
        'x.add': lambda e: e['x'] + e['cnt'], 'y.sub': lambda e: e['y'] - e['cnt']}


def mk_subst(t, v, E):
    vt = E['vt']
    if t == 'inc x':
        return E['x'].inc()
    if t == 'dec y':
        return E['y'].dec()
    if t == 'x.add':
        return E['x'].add(E['cnt'])
    if t == 'y.sub':
        return E['y'].sub(E['cnt'])
    val = VALS[v][0](E)
    if t in REGW:
        return E[t](val)
    if t == 'x[0]':
        return E['x'][0](val)
    if t == 'x[3]':
        return E['x'][3](val)
    if t == 'x[1:3]':
        return E['x'][1:3](val)
    if t == 'y[2:4]':
        return E['y'][2:4](val)
    if t == '{x,y}':
        return vt.Cat(E['x'], E['y'])(val)
    if t == '{w,z}':
        return vt.Cat(E['w'], E['z'])(val)
    raise KeyError(t)


def apply_real(o, prog, E):
    """o: Seq or FSM object"""
    vt = E['vt']
    c = lambda n: CONDS[n][0](E)
    for call in prog:
        cur = o
        for el in call:
            k = el[0]
            if k == 'If':
                cur = cur.If(*[c(n) for n in el[1:]])
            elif k == 'IfList':
                cur = cur.If([c(n) for n in el[1:]])
            elif k == 'Elif':
                cur = cur.Elif(*[c(n) for n in el[1:]])
            elif k == 'Else':
                cur = cur.Else
            elif k == 'Then':
                cur = cur.Then()
            elif k == 'IfThen':        # reuse of .then as a condition
                cur = cur.If(o.then)
            elif k == 'IfLast':
                cur = cur.If(o.last_condition)
            elif k == 'Delay':
                cur = cur.Delay(el[1])
            elif k == 'Keep':
                cur = cur.Keep(el[1])
            elif k == 'EagerVal':
                cur = cur.EagerVal()
            elif k == 'LazyCond':
                cur = cur.LazyCond()
            elif k == 'When':
                cur = cur.When(el[1])
            elif k == 'State':
                cur = o.State(el[1])
            elif k == 'Clear':
                cur = cur.Clear()
            elif k == 'do':
                cur = cur(*[mk_subst(t, v, E) for t, v in el[1]])
            elif k == 'kw':
                kw = dict(el[2])
                if 'cond' in kw:
                    cc = kw['cond']
                    kw['cond'] = [c(n) for n in cc] if isinstance(cc, (list, tuple)) else c(cc)
                cur = cur(*[mk_subst(t, v, E) for t, v in el[1]], **kw)
            elif k == 'goto':
                cur.goto(el[1])
            elif k == 'gotokw':
                kw = {}
                if el[2] is not None:
                    kw['cond'] = c(el[2])
                if el[3] is not None:
                    kw['else_dst'] = el[3]
                cur.goto(el[1], **kw)
            elif k == 'goto_next':
                cur.goto_next()
            elif k == 'goto_nextkw':
                cur.goto_next(cond=c(el[1]))
            elif k == 'goto_init':
                cur.goto_init()
            elif k == 'goto_from':
                cur.goto_from(el[1], el[2])
            elif k == 'goto_fromkw':
                cur.goto_from(el[1], el[2], cond=c(el[3]), else_dst=el[4])
            elif k == 'inc':
                o.inc()
            elif k == 'set_index':
                o.set_index(el[1])
            elif k == 'always':
                apply_real(o.Always, [el[1]], E)
                cur = o
            elif k == 'prev':          # ('prev', target, valname, n, cond or None)
                p = o.Prev(VALS[el[2]][0](E), el[3], **(dict(cond=c(el[4])) if el[4] else {}))
                cur = cur(E[el[1]](p))
            else:
                raise KeyError(k)


class Op(object):
    __slots__ = ('cond', 'delay', 'eager', 'lazy', 'target', 'val', 'state', 'order', 'kind',
                 'dst', 'edst')

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))


def conj(cs):
    cs = [c for c in cs if c is not None]
    if not cs:
        return None
    return lambda e: np.logical_and.reduce([c(e) for c in cs])


def neg(c):
    return lambda e: ~c(e)


class Spec(object):
    """abstract list of updates of a program"""

    def __init__(self, prog, is_fsm):
        self.ops, self.jumps, self.prevs = [], [], []
        self.is_fsm = is_fsm
        self.cur = 0
        self.states = {0}
        self.maxdelay = 0
        self.scan(prog, is_fsm)
        # only bits that are targets are reset by the Seq/FSM
        self.mask = {r: 0 for r in REGW}
        for op in self.ops:
            for r, lo, w in TGT[op.target]:
                self.mask[r] |= ((1 << w) - 1) << lo
        for r in REGW:
            if not self.mask[r]:
                self.mask[r] = (1 << REGW[r]) - 1

    def scan(self, prog, is_fsm, always=False):
        last, pend, opts, idx = [], None, {}, None
        r = lambda n: CONDS[n][1]
        for call in prog:
            for el in call:
                k = el[0]
                if k in ('If', 'IfList'):
                    pend = conj([pend] + [r(n) for n in el[1:]])
                    last = [pend]
                elif k in ('IfThen', 'IfLast'):
                    cc = conj(last)
                    if is_fsm and not always:
                        st = self.cur
                        cc = conj([cc, (lambda st: lambda e: e['state'] == st)(st)])
                    pend = conj([pend, cc])
                    last = [pend]
                elif k == 'Elif':
                    last = last[:-1] + [neg(last[-1]), conj([r(n) for n in el[1:]])]
                    pend = conj(last)
                elif k == 'Else':
                    last = last[:-1] + [neg(last[-1])]
                    pend = conj(last)
                elif k == 'Then':
                    pend = conj(last)
                    last = [pend]
                elif k == 'Delay':
                    opts['delay'] = el[1]
                elif k == 'Keep':
                    opts['keep'] = el[1]
                elif k == 'EagerVal':
                    opts['eager_val'] = True
                elif k == 'LazyCond':
                    opts['lazy_cond'] = True
                elif k in ('When', 'State'):
                    idx = el[1]
                elif k == 'Clear':
                    last, pend, opts, idx = [], None, {}, None
                elif k in ('do', 'kw'):
                    o = dict(opts)
                    p = pend
                    ix = idx
                    if k == 'kw':
                        kw = dict(el[2])
                        if 'cond' in kw and pend is None:
                            cc = kw['cond']
                            p = conj([r(n) for n in (cc if isinstance(cc, (list, tuple)) else [cc])])
                        for n in ('delay', 'keep', 'eager_val', 'lazy_cond'):
                            if n in kw and n not in o:
                                o[n] = kw[n]
                        if 'index' in kw and ix is None:
                            ix = kw['index']
                    self.emit(el[1], p, o, None if (always or not is_fsm) else (self.cur if ix is None else ix))
                    pend, opts, idx = None, {}, None
                elif k in ('goto', 'gotokw', 'goto_next', 'goto_nextkw', 'goto_init', 'goto_from', 'goto_fromkw'):
                    src = self.cur if idx is None else idx
                    cc, ed = pend, None
                    if k == 'goto':
                        dst = el[1]
                    elif k == 'gotokw':
                        dst = el[1]
                        if el[2] is not None:
                            cc = r(el[2])
                        ed = el[3]
                    elif k in ('goto_next', 'goto_nextkw'):
                        dst = src + 1
                        if k == 'goto_nextkw':
                            cc = r(el[1])
                    elif k == 'goto_init':
                        dst = 0
                    elif k == 'goto_from':
                        src, dst = el[1], el[2]
                    else:
                        src, dst, cc, ed = el[1], el[2], r(el[3]), el[4]
                    self.jumps.append((src, dst, cc, ed))
                    self.states.update([src, dst] + ([ed] if ed is not None else []))
                    pend, opts, idx = None, {}, None
                    if k in ('goto_next', 'goto_nextkw'):
                        self.cur += 1
                        last = []
                elif k == 'inc':
                    self.cur += 1
                    last, pend, opts, idx = [], None, {}, None
                elif k == 'set_index':
                    self.cur = el[1]
                    last, pend, opts, idx = [], None, {}, None
                elif k == 'always':
                    self.scan([el[1]], is_fsm, always=True)
                elif k == 'prev':
                    self.prevs.append((el[1], VALS[el[2]][1], el[3], r(el[4]) if el[4] else None,
                                       None if (always or not is_fsm) else self.cur, len(self.ops), el[2]))
                    self.ops.append(Op(kind='prev', target=el[1], val=len(self.prevs) - 1, cond=pend,
                                       delay=0, eager=False, lazy=False,
                                       state=None if (always or not is_fsm) else self.cur,
                                       order=len(self.ops)))
                    pend, opts, idx = None, {}, None
                else:
                    raise KeyError(k)

    def emit(self, stmts, cond, o, state):
        d0 = o.get('delay') or 0
        keep = o.get('keep')
        ds = [d0] if keep is None else [d0 + i for i in range(keep)]
        for d in ds:
            self.maxdelay = max(self.maxdelay, d)
            for t, v in stmts:
                val = TVAL[t] if t in TVAL else VALS[v][1]
                self.ops.append(Op(kind='upd', cond=cond, delay=d, eager=bool(o.get('eager_val')),
                                   lazy=bool(o.get('lazy_cond')), target=t, val=val, state=state,
                                   order=len(self.ops)))
        if state is not None:
            self.states.add(state)


def run_spec(spec, k, depth, warm):
    """level-wise exhaustive input tree; returns list of per-level output
    dicts (node arrays in path-lexicographic order)"""
    n_in = 1 << k
    N = 1
    z = lambda v: np.full(1, v, U)
    regs = {r: z(0 if warm else INIT[r] & spec.mask[r]) for r in REGW}
    regs['cnt'] = z(0)
    if spec.is_fsm:
        regs['state'] = z(0)
    pipes = {}
    for i, op in enumerate(spec.ops):
        if op.kind == 'upd':
            for d in range(op.delay):
                pipes[('c', i, d)] = np.zeros(1, bool)
                if op.eager:
                    pipes[('v', i, d)] = z(0)
    for i, p in enumerate(spec.prevs):
        for d in range(p[2]):
            pipes[('p', i, d)] = z(0)
    outs = []
    # among updates of one edge: always-section, larger delay first, then order
    order = sorted(range(len(spec.ops)),
                   key=lambda i: (-spec.ops[i].delay if not (spec.is_fsm and spec.ops[i].state is None) else -100 - spec.ops[i].delay,
                                  spec.ops[i].order))
    # without a reset port the registers start at 0 (2-state) and already run
    # during the three start-up cycles, with inputs and cnt held at 0
    for lev in range(-3 if warm else 0, depth):
        n_in = 1 if lev < 0 else (1 << k)
        rep = lambda a: np.repeat(a, n_in)
        regs = {r: rep(v) for r, v in regs.items()}
        pipes = {r: rep(v) for r, v in pipes.items()}
        inp = np.tile(np.arange(n_in, dtype=U), N)
        N *= n_in
        e = dict(regs)
        e['a'] = inp & 1
        e['b'] = (inp >> 1) & 1
        rst = ((inp >> 2) & 1) != 0
        if lev >= 0:
            outs.append({r: v for r, v in regs.items() if r != 'cnt'})
        new = {r: v.copy() for r, v in regs.items()}
        newp = dict(pipes)
        ones = np.ones(N, bool)

        def wr(t, en, val):
            parts = TGT[t]
            sh = 0
            for r, lo, w in reversed(parts):
                m = U(((1 << w) - 1) << lo)
                pv = ((val.astype(U) >> U(sh)) << U(lo)) & m
                new[r] = np.where(en, (new[r] & ~m) | pv, new[r])
                sh += w
        for i in order:
            op = spec.ops[i]
            st = ones if op.state is None else (e['state'] == op.state)
            c = ones if op.cond is None else op.cond(e)
            if op.kind == 'prev':
                tgt, vfn, n, pc, _, _, _ = spec.prevs[op.val]
                wr(op.target, st & c, pipes[('p', op.val, n - 1)])
                continue
            if op.delay == 0:
                wr(op.target, st & c, op.val(e))
                continue
            en = pipes[('c', i, op.delay - 1)]
            if op.lazy:
                en = en & c
                sched = st
            else:
                sched = st & c
            v = pipes[('v', i, op.delay - 1)] if op.eager else op.val(e)
            wr(op.target, en, v)
            for d in range(op.delay):
                newp[('c', i, d)] = sched if d == 0 else pipes[('c', i, d - 1)]
                if op.eager:
                    newp[('v', i, d)] = (op.val(e) & 0xffff).astype(U) if d == 0 else pipes[('v', i, d - 1)]
        for i, p in enumerate(spec.prevs):
            for d in range(p[2]):
                src = (p[1](e) & 15).astype(U) if d == 0 else pipes[('p', i, d - 1)]
                if p[3] is None:
                    newp[('p', i, d)] = src
                else:
                    newp[('p', i, d)] = np.where(p[3](e), src, pipes[('p', i, d)])
        if spec.is_fsm:
            for src, dst, cc, ed in spec.jumps:
                st = e['state'] == src
                c = ones if cc is None else cc(e)
                new['state'] = np.where(st & c, U(dst), new['state'])
                if ed is not None:
                    new['state'] = np.where(st & ~c, U(ed), new['state'])
        new['cnt'] = (regs['cnt'] * U(5) + U(3)) & U(15) if lev >= 0 else regs['cnt']
        for r in REGW:
            new[r] = np.where(rst, U(INIT[r] & spec.mask[r]) | (regs[r] & U(0xffff ^ spec.mask[r])), new[r] & U((1 << REGW[r]) - 1))
        if spec.is_fsm:
            new['state'] = np.where(rst, U(0), new['state'])
        for q in newp:
            newp[q] = np.where(rst, np.zeros(1, newp[q].dtype), newp[q])
        regs, pipes = new, newp
    return outs


def preorder_index(k, depth):
    """for each level, DFS-preorder row of every node in lexicographic order"""
    n = 1 << k
    size = [0] * (depth + 1)
    for i in range(depth - 1, -1, -1):
        size[i] = 1 + (n * size[i + 1] if i + 1 < depth else 0)
    res = []
    base = np.zeros(1, dtype=np.int64)
    for lev in range(depth):
        cur = (np.repeat(base, n) + np.tile(np.arange(n) * size[lev], len(base)))
        res.append(cur)
        base = cur + 1
    return res
