"""C16: every element of a stream pipeline is the graph function of the input elements of the same index."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import Check, pmap, chunks, tier  # noqa: E402
import rtl  # noqa: E402
import strmx  # noqa: E402
import veriloggen as vg  # noqa: E402
import veriloggen.stream as st  # noqa: E402

Q = tier() == 'quick'

U2 = dict(width=2, signed=False)


def lat(node, n):
    node.latency = n
    return node


# name: (arity, builder, C++ expression over a b c (2-bit unsigned) and the state s, state update)
OPS = {
    'sub': (2, lambda a, b: a - b, '(a-b)&3', None),
    'sub0': (2, lambda a, b: lat(a - b, 0), '(a-b)&3', None),
    'sub2': (2, lambda a, b: lat(a - b, 2), '(a-b)&3', None),
    'mul': (2, lambda a, b: a * b, '(a*b)&3', None),
    'mul5': (2, lambda a, b: lat(a * b, 5), '(a*b)&3', None),
    'shl': (1, lambda a: st.Slice(a << 1, 1, 0), '(a<<1)&3', None),
    'inv': (1, lambda a: st.Unot(a), '~a&3', None),
    'mux': (3, lambda a, b, c: st.Mux(a, b, c), 'a?b:c', None),
    'madd': (3, lambda a, b, c: st.Madd(a, b, c), '(a*b+c)&3', None),
    'racc': (1, lambda a: st.ReduceAdd(a, **U2), 's', 's=(s+a)&3;'),
    'raccE': (2, lambda a, b: st.ReduceAdd(a, enable=b, **U2), 's', 'if(b) s=(s+a)&3;'),
    'raccR': (2, lambda a, b: st.ReduceAdd(a, reset=b, **U2), 's', 's=((b?0:s)+a)&3;'),
    'raccI': (3, lambda a, b, c: st.ReduceAdd(a, reset=b, initval=c, reg_initval=0, **U2), 's', 's=((b?c:s)+a)&3;'),
    'raccER': (3, lambda a, b, c: st.ReduceAdd(a, enable=b, reset=c, **U2), 's', 'if(c) s=0; if(b) s=(s+a)&3;'),
    'cntR': (2, lambda a, b: st.Counter(step=b, reset=a, **U2), 'a', 'uint8_t o=a?0:s; s=(o+b)&3; a=o;'),
    'cntS': (1, lambda a: st.Counter(size=3, offset=a, **U2), 'a', 'uint8_t o=s; s=s>=2?a:(s+1)&3; a=o;'),
    'raccV': (1, lambda a: (lambda d, v: st.Mux(v, d, st.Int(0, signed=False)))(*st.ReduceAddValid(a, 2, **U2)), '(s&4)?0:(s&3)', 'uint8_t t=(((s>>2)?s&3:0)+a)&3; s=((s&4)?0:4)|t;'),
    'prev': (1, lambda a: a.prev(1), '', None),
    'cat': (2, lambda a, b: st.Slice(st.Cat(a, b), 2, 1), '((a<<2|b)>>1)&3', None),
    'tree': (3, lambda a, b, c: st.AddN(a, b, c), '(a+b+c)&3', None),
}
TUPLES = [(1, 2), (2, 1), (3, 0)]


def graph(name, ops, outs, ntup):
    """ops: list of (op, operand indexes); operands 0=x 1=y 2=constant 1 3=parameter port (held at 2), then the ops"""
    ins = [('x', 2, False, 0, [a for a, _ in TUPLES[:ntup]]), ('y', 2, False, 0, [b for _, b in TUPLES[:ntup]])]
    par = any(3 in o for _, o in ops)
    if par:
        ins.append(('p', 2, False, 0, [2] * ntup))

    def make(x, y, p=None):
        if p is not None:
            p = st.ParameterVariable('p', width=2, signed=False)
        vals = [x, y, st.Int(1, signed=False), p]
        for op, o in ops:
            vals.append(OPS[op][1](*[vals[k] for k in o]))
        return [vals[k] for k in outs]
    code, used = [], []
    for i, (op, o) in enumerate(ops):
        src = ['in[0]', 'in[1]', '1u', '2u'] + ['v%d' % k for k in range(i)]
        names = ' '.join('uint32_t %s=%s; (void)%s;' % (n, src[k], n) for n, k in zip('abc', o))
        if op == 'prev':
            code.append('{ %s v%d=r.s[%d]; r.s[%d]=a; }' % (names, i, i, i))
        else:
            code.append('{ %s uint8_t&s=r.s[%d]; (void)s; %s v%d=%s; }' % (names, i, OPS[op][3] or '', i, OPS[op][2]))
    src = ['in[0]', 'in[1]', '1u', '2u'] + ['v%d' % k for k in range(len(ops))]
    ref = 'struct REF { uint8_t s[%d]; };\nstatic uint64_t ref(REF&r,const uint32_t*in,uint64_t&care){ uint32_t %s; %s return %s; }\n' % (
        len(ops), ','.join('v%d=0' % i for i in range(len(ops))), ' '.join(code),
        '|'.join('(uint64_t)(%s)<<%d' % (src[k], 2 * n) for n, k in enumerate(outs)))
    return (name, make, ins, ref, '', 0, 1)


LAT = {'sub': 1, 'sub0': 0, 'sub2': 2, 'mul': 3, 'mul5': 5, 'shl': 0, 'inv': 1, 'mux': 1, 'madd': 4, 'racc': 1, 'raccE': 1, 'raccR': 1, 'raccI': 1, 'raccER': 1, 'cntR': 1, 'cntS': 1, 'raccV': 2,
       'prev': 1, 'cat': 0, 'tree': 2}


def depth(ops):
    d = [0, 0, 0, 0]
    for op, o in ops:
        d.append(max(d[k] for k in o) + LAT[op])
    return max(d)


def graphs(alpha, n, first_const):
    """every graph of n operators over the alphabet in which each operator is used (up to swapping x and y)"""
    def rec(ops):
        i = len(ops)
        if i == n:
            used = set(k for _, o in ops for k in o)
            if all(4 + k in used for k in range(n - 1)):
                yield list(ops)
            return
        leaves = [0, 1] + ([2] if first_const or i > 0 else [])
        nodes = leaves + [4 + k for k in range(i)]
        for op in alpha:
            ar = OPS[op][0]
            for o in itertools.product(nodes, repeat=ar):
                if all(k == 2 for k in o):
                    continue
                if i == n - 1 and 4 + i - 1 not in o and n > 1:
                    continue
                if i == 0 and 1 in o and (0 not in o or o.index(1) < o.index(0)):
                    continue        # the same graph with x and y swapped
                if ar == 3 and 2 in o and i == 0:
                    continue
                yield from rec(ops + [(op, o)])
    yield from rec([])


@rtl.guarded
def many(res, it):
    tag, gs = it
    cases = []
    for ops, outs in gs:
        d = depth(ops)
        cases.append(graph(name(ops, outs), ops, outs, 3 if d <= 4 else 2))
    strmx.explore_many(res, 'graphs %s' % tag, cases)
    res['counts']['graphs'] = len(gs)


def name(ops, outs):
    return ' '.join('%s(%s)' % (op, ','.join('xykp'[k] if k < 4 else 'n%d' % (k - 4) for k in o)) for op, o in ops) + \
        ' -> ' + ','.join('xykp'[k] if k < 4 else 'n%d' % (k - 4) for k in outs)


@rtl.guarded
def handshake(res, it):
    """one graph with a subset of the handshake signals"""
    hs, ops, outs = it
    nm, make, ins, ref, ini, _, _ = graph(name(ops, outs), ops, outs, 2)
    ins = [(n, w, s, p, v if n == 'p' else sorted(set(v))) for n, w, s, p, v in ins]
    if any(n == 'p' for n, *_ in ins):
        ins = [(n, w, s, p, [2] if n == 'p' else v) for n, w, s, p, v in ins]
    strmx.explore(res, 'handshake %s %s' % ('+'.join(hs) or 'none', nm), nm, make, ins, ref, hs=hs, init=ini)
    res['counts']['handshake configurations'] = 1


def one(it):
    return many(it[1:]) if it[0] == 'many' else handshake(it[1:])


def items():
    full = ['sub', 'sub0', 'sub2', 'mul', 'shl', 'inv', 'mux', 'madd', 'racc', 'raccE', 'raccR', 'prev', 'cat', 'tree']
    gs = []
    for ops in graphs(full + ([] if Q else ['mul5']), 1, True):
        gs.append((ops, [4]))
        gs.append((ops, [4, 0, 1]))
    two = list(graphs(['sub', 'mul', 'shl', 'mux', 'racc', 'raccE', 'prev'] if Q else full, 2, not Q))
    for ops in two:
        gs.append((ops, [5]))
        if not Q:
            gs.append((ops, [5, 4, 1]))
    for ops in graphs(['sub', 'mul', 'shl', 'racc'], 3, False) if Q else graphs(['sub', 'mul', 'shl', 'racc', 'prev'], 3, True):
        if Q and sum(o[0] == 'mul' for o in ops) > 1:
            continue
        gs.append((ops, [6]))
    # every operand of every operator arriving late
    for op in full + ['raccI', 'raccER', 'cntR', 'cntS', 'raccV']:
        for first in ('sub', 'mul', 'prev') if Q else ('sub', 'sub2', 'mul', 'mul5', 'prev', 'racc'):
            ar = OPS[op][0]
            for late in range(ar):
                o = [k % 2 for k in range(ar)]
                o[late] = 4
                g = ([(first, (0, 1)[:OPS[first][0]]), (op, tuple(o))], [5])
                if g not in gs:
                    gs.append(g)
    # parameters
    for op in ('sub', 'mul', 'racc', 'prev'):
        for o in ([(3,)] if OPS[op][0] == 1 else [(0, 3), (3, 0)]):
            gs.append(([(op, o), ('sub', (4, 1))], [5]))
            gs.append(([('mul', (0, 1)), (op, o), ('sub', (4, 5))], [6, 5]))
    gs.sort(key=lambda g: (depth(g[0]), len(g[0])))
    return gs


def main():
    gs = items()
    n = 60
    parts = [gs[i:i + n] for i in range(0, len(gs), n)]
    its = [('many', k, p) for k, p in enumerate(parts)]
    hcases = [([('mul', (0, 1)), ('sub', (4, 0))], [5, 4]), ([('racc', (0,)), ('sub', (4, 1)), ('prev', (5,))], [6, 4]), ([('shl', (0,))], [4])]
    allhs = ('ivalid', 'iready', 'ovalid', 'oready')
    for r in range(0, 5):
        for hs in itertools.combinations(allhs, r):
            for ops, outs in hcases[:1 if Q and r not in (0, 1, 4) else 3]:
                its.append(('hs', hs, ops, outs))
    return its


if __name__ == '__main__':
    c = Check('C16')
    its = main()
    if len(sys.argv) > 1:
        its = [i for i in its if i[0] == sys.argv[1]]
    its.reverse()
    for r in pmap(one, its, 'c16'):
        c.absorb(r)
    c.finish()
