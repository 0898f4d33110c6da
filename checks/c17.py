"""C17: thread-controlled stream runs read exactly their sources and fill exactly their sinks."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import Check, pmap, tier  # noqa: E402
import rtl  # noqa: E402
import tstrm  # noqa: E402
import veriloggen as vg  # noqa: E402
import veriloggen.thread as vthread  # noqa: E402

Q = tier() == 'quick'
M = 15

# ---------------------------------------------------------------------------
# access settings: (arguments, addresses in order)


def normal(off, n, st=1):
    args = '%d, %d' % (off, n) + (', %d' % st if st != 1 else '')
    return ('', args, [(off + i * st) & M for i in range(n)])


def pat_addrs(off, pats):
    n = 1
    for s, _ in pats:
        n *= s
    out = []
    for i in range(n):
        a, k = off, i
        for s, t in pats:           # the first entry is the innermost loop
            a += (k % s) * t
            k //= s
        out.append(a & M)
    return out


def pattern(off, *pats):
    return ('_pattern', '%d, %r' % (off, tuple(pats)), pat_addrs(off, pats))


def multidim(off, shape, order=None):
    o = order if order is not None else list(reversed(range(len(shape))))
    pats = []
    for p in o:
        st = 1
        for x in shape[p + 1:]:
            st *= x
        pats.append((shape[p], st))
    return ('_multidim', '%d, %r' % (off, shape) + (', order=%r' % (order,) if order is not None else ''), pat_addrs(off, pats))


def multipat(offs, *pats):
    ol = offs if isinstance(offs, tuple) else (offs,) * len(pats)
    return ('_multipattern', '%r, %r' % (offs, tuple(pats)), [a for o, p in zip(ol, pats) for a in pat_addrs(o, p)])


def generator(off, n, st):
    a = []
    x = off
    for i in range(n):
        a.append(x & M)
        x += st
    return ('_generator', 'func=gen_%d, initvals=(%d, 0), args=(%d,)' % (st, off, n), a)


GEN = '''def gen_1(addr, i, n):
    last = i == n - 1
    return last, addr + 1, i + 1
def gen_3(addr, i, n):
    last = i == n - 1
    return last, addr + 3, i + 1
'''


RUN = 'strm.run()\nstrm.join()'
RERUN = RUN + '\nfor i in range(3, 9):\n    ram_b.write(i, i + 50, port=1)\n' + RUN


def src(name, ram, s, port=None):
    return "strm.set_source%s('%s', %s, %s%s)" % (s[0], name, ram, s[1], '' if port is None else ', port=%d' % port)


def snk(name, ram, s, port=None):
    return "strm.set_sink%s('%s', %s, %s%s)" % (s[0], name, ram, s[1], '' if port is None else ', port=%d' % port)


SRC = [normal(0, 4), normal(1, 4, 2), normal(7, 4, -1), normal(9, 4, 0), normal(14, 4),
       pattern(0, (2, 1), (2, 4)), pattern(1, (2, 4), (2, 1)), pattern(5, (4, 0)), pattern(2, (1, 5), (4, 3)), pattern(3, (2, 1), (1, 9), (2, 2)),
       pattern(12, (2, -1), (2, -4)), multidim(0, (2, 2)), multidim(3, (2, 2), [0, 1]), multidim(1, (2, 1, 2), [1, 0, 2]),
       multidim(0, (4, 3), [0]), multipat((0, 8), ((2, 1),), ((2, 2),)), multipat(4, ((1, 1),), ((3, 3),)), multipat((1,), ((2, 3), (2, 1))),
       multipat((2, 11), ((2, 4), (1, 1)), ((1, 1), (2, -2))), generator(2, 4, 1), generator(1, 4, 3),
       # other sizes
       normal(4, 1), pattern(6, (1, 1)), multidim(8, (1, 1)), multipat((3,), ((1, 2),)), generator(5, 1, 1),
       normal(2, 6), pattern(0, (3, 1), (2, 8)), pattern(0, (2, 8), (3, 1)), multidim(0, (2, 3), [0, 1]), multidim(4, (3, 2)),
       multipat((0, 9), ((3, 1),), ((3, 2),)), normal(3, 2, 5), generator(0, 2, 3), pattern(1, (2, 2)), pattern(0, (2, 1), (3, 4), (1, 1))]


def tab(name, lists):
    w = max(len(a) for a in lists)
    return 'static const uint8_t %s[][%d]={%s};\n' % (name, w, ','.join('{%s}' % ','.join(map(str, a)) for a in lists))


def modes_cmds(diag):
    """(source setting, size index, sink setting)"""
    ns = [len(s[2]) for s in SRC]
    out = []
    for i, j in itertools.product(range(len(SRC)), repeat=2):
        if ns[i] != ns[j]:
            continue
        d = (i + 1) % len(SRC) == j or (i == 20 and j == 0)
        if diag is None or d or i == j or not Q:
            out.append((i, sorted(set(ns)).index(ns[i]), j))
    return out


@rtl.guarded
def modes(res, it):
    """every source setting with every sink setting; sequences of runs"""
    tag, runs, cmds, first, stall, opts = it[:6]
    rerun = len(it) > 6
    ns = sorted(set(len(s[2]) for s in SRC))

    def build(cx):
        for n in ('ram_a', 'ram_b', 'ram_c'):
            cx.ram(n, numports=2)
        s = cx.stream(**dict(opts))
        a, b = s.source('a'), s.source('b')
        s.sink(a - b, 'c')
        if stall:
            cx.stall(s)
    dims = [[src('a', 'ram_a', s) for s in SRC], [src('b', 'ram_b', normal(3, n)) for n in ns], [snk('c', 'ram_c', s) for s in SRC]]
    used = [sorted(set(c[d] for c in cmds)) for d in range(3)]
    dims = [[dims[d][i] for i in used[d]] for d in range(3)]
    cc = [tuple(used[d].index(c[d]) for d in range(3)) for c in cmds]
    sa = [SRC[i][2] for i in used[0]]
    sc = [SRC[i][2] for i in used[2]]
    ref = tab('SA', sa) + tab('SC', sc) + 'static const int NN[]={%s};\n' % ','.join(str(len(a)) for a in sa) + \
        '''static void ref(Env&e){ int a=ND>0?IX(e,0):0,c=IX(e,2); int n=NN[a]; int v[16]; for(int k=0;k<=RERUN;k++){ for(int i=0;i<n;i++) v[i]=(rd(e,0,SA[a][i])-rd(e,1,3+i))&255;
  for(int i=0;i<n;i++) wr(e,2,SC[c][i],v[i]); if(RERUN&&!k) for(int i=3;i<9;i++) wr(e,1,i,50+i); } }'''
    ref = '#define RERUN %d\nstatic int IX(Env&e,int d){ return e.c[d]; }\n' % int(rerun) + ref
    tstrm.explore(res, 'modes %s' % tag, 'stream run (%s)' % tag, build, dims, ref, runs=runs, cmds=cc, first=first, extra=GEN, tail=RERUN if rerun else RUN)
    res['counts']['settings combinations'] = len(cmds)


# ---------------------------------------------------------------------------
# conditional sinks


WSRC = [normal(o, n) for o in (0, 3, 5) for n in (1, 4, 6)]
WSRC2 = [pattern(1, (2, 1), (2, 4)), pattern(0, (1, 1)), multidim(0, (2, 3), [0, 1]), multipat((0, 9), ((3, 1),), ((3, 2),)),
         multipat((2,), ((2, 3),)), generator(2, 4, 1), generator(0, 1, 1), generator(5, 3, 3), normal(11, 2, -3), pattern(4, (3, 2))]


@rtl.guarded
def when(res, it):
    """sinks with a condition: exactly the enabled results, packed into the locations in order"""
    tag, idx, stall, runs = it[:4]
    other = len(it) > 4
    tail = tag.startswith('tail')
    sinks = [SRC[i] for i in idx] + [normal(2, 0), normal(9, 0, -1)]
    sources = WSRC2 if other else WSRC

    def build(cx):
        for n in ('ram_a', 'ram_c'):
            cx.ram(n)
        s = cx.stream()
        a = s.source('a')
        v = s.Ands((a & 3) != 1, a != 0)
        s.sink(a + 1, 'c', when=v, when_name='v')
        s.sink(s.ReduceAdd(v), 'n')
        if stall:
            cx.stall(s)
    dims = [[src('a', 'ram_a', k) for k in sources], [snk('c', 'ram_c', k) + "\nstrm.set_sink_immediate('n', 0)" for k in sinks]]
    sc = [k[2] for k in sinks[:-2]] + [[(2 + i) & M for i in range(6)], [(9 - i) & M for i in range(6)]]
    ref = tab('SA', [k[2] for k in sources]) + tab('SC', sc) + 'static const int NC[]={%s}, NA[]={%s};\n' % (
        ','.join(str(len(x)) for x in sc), ','.join(str(len(k[2])) for k in sources)) + \
        """static void ref(Env&e){ int n=NA[e.c[0]], k=0, t=0;
  for(int i=0;i<n;i++){ int a=rd(e,0,SA[e.c[0]][i]); if((a&3)!=1 && a){ t++; if(k<NC[e.c[1]]) wr(e,1,SC[e.c[1]][k++],(a+1)&255); } } e.res[0]=t; }"""
    # K-C17-1: after the last element the sink looks at the condition once more; only sinks that are complete by then
    # or whose last element is not enabled are outside of that finding
    A = tstrm.inits(0)
    en = [[(A[x] & 3) != 1 and A[x] != 0 for x in k[2]] for k in sources]
    cmds = [(i, j) for i in range(len(sources)) for j in range(len(sinks))
            if (not en[i][-1] or (j < len(sinks) - 2 and len(sc[j]) <= sum(en[i]))) != tail]
    if tail:
        cmds = cmds[:1]
    tstrm.explore(res, 'when %s' % tag, 'conditional sink (%s)' % tag, build, dims, ref, runs=runs, cmds=cmds, extra=GEN, nres=1,
                  tail=RUN + "\nres0.value = strm.read_sink('n')")


# ---------------------------------------------------------------------------
# state inside the stream, parameters, overlapped runs

TAILS = {
    'join': 'strm.run()\nstrm.join()',
    'poll': 'strm.run()\nwhile not strm.done():\n    pass',
    'srcsink': 'strm.run()\nstrm.source_join()\nstrm.sink_join()\nstrm.join()',
    'pollss': 'strm.run()\nwhile not strm.source_done():\n    pass\nwhile not strm.sink_done():\n    pass\nstrm.join()',
}


@rtl.guarded
def state(res, it):
    """accumulators, counters and parameters start afresh in every run"""
    tag, tail, stall, runs, opts = it

    def build(cx):
        for n in ('ram_a', 'ram_c', 'ram_d', 'ram_e'):
            cx.ram(n)
        s = cx.stream(**dict(opts))
        a = s.source('a')
        p = s.parameter('p')
        sz = s.parameter('sz')
        s.sink(s.ReduceAdd(a + p), 'c')
        y, v = s.ReduceAddValid(a * p, sz)
        s.sink(y, 'd', when=v, when_name='v')
        s.sink(s.Counter(initval=1) + s.Counter(sz), 'e')
        if stall:
            cx.stall(s)
    cfg = [(0, 1, 1, 1), (2, 4, 2, 3), (5, 6, 3, 2), (1, 4, 4, 7), (3, 2, 1, 250), (7, 6, 6, 0)][:5 if Q else 6]
    dims = [["strm.set_source('a', ram_a, %d, %d)\nstrm.set_parameter('p', %d)\nstrm.set_parameter('sz', %d)\n"
             "strm.set_sink('c', ram_c, %d, %d)\nstrm.set_sink('d', ram_d, %d, %d)\nstrm.set_sink('e', ram_e, %d, %d)" %
             (o, n, p, z, o, n, o, n // z, 2, n) for o, n, z, p in cfg]]
    ref = 'static const int F[][4]={%s};' % ','.join('{%d,%d,%d,%d}' % c for c in cfg) + """
static void ref(Env&e){ const int*f=F[e.c[0]]; int o=f[0],n=f[1],z=f[2],p=f[3],s=0,t=0,k=0;
  for(int i=0;i<n;i++){ int a=rd(e,0,o+i); s=(s+a+p)&255; wr(e,1,o+i,s); t=(t+a*p)&255; if((i+1)%z==0){ wr(e,2,o+k++,t); t=0; } wr(e,3,2+i,1+i+i%z); } }"""
    tstrm.explore(res, 'state %s' % tag, 'stream with accumulators and parameters (%s)' % tag, build, dims, ref, tail=TAILS[tail], runs=runs)


@rtl.guarded
def overlap(res, it):
    """source_join_and_run: the next run starts while the previous one drains"""
    tag, stall, kind = it

    def build(cx):
        for n in ('ram_a', 'ram_c', 'ram_d'):
            cx.ram(n)
        s = cx.stream()
        a = s.source('a')
        p = s.parameter('p')
        y, v = s.ReduceAddValid(a * p, p)
        s.sink(y, 'd', when=v, when_name='v')
        s.sink(a + p, 'c')
        if stall:
            cx.stall(s)
    cfg = [(0, 1, 1), (2, 4, 2), (5, 6, 3), (1, 4, 4), (9, 6, 6), (4, 3, 1), (3, 2, 2), (2, 3, 3), (6, 1, 1)]
    c0 = ["strm.set_source('a', ram_a, %d, %d)\nstrm.set_parameter('p', %d)\nstrm.set_sink('c', ram_c, %d, %d)\nstrm.set_sink('d', ram_d, %d, %d)" %
          (o, n, p, o, n, i, n // p) for i, (o, n, p) in enumerate(cfg)]
    cmds = None
    if stall and kind != 'loop':
        # K-C17-3: a parameter set for the next run reaches the last element of the previous run if the stream stalls there
        cmds = [(i, j) for i in range(len(cfg)) for j in range(len(cfg)) if (cfg[i][2] == cfg[j][2]) != tag.startswith('param')]
        if tag.startswith('param'):
            cmds = [(2, 0)]
    run = {'run': 'strm.source_join_and_run()'}.get(kind, 'strm.source_join()\nstrm.run()')
    dims = [[x + '\nstrm.run()' for x in c0]]
    dims += [[x.replace('ram_c, %d' % o, 'ram_c, %d' % (o + 1)).replace('ram_d, %d' % i, 'ram_d, %d' % (i + 8)) + '\n' + run
              for i, (x, (o, n, p)) in enumerate(zip(c0, cfg))]]
    if kind == 'loop':
        # K-C17-2: run() of a loop that only waits for the sources of the previous iteration
        dims = [["for k in range(2):\n    strm.set_source('a', ram_a, k * 3, 1)\n    strm.set_parameter('p', 1)\n    strm.set_sink('c', ram_c, k * 3, 1)\n    strm.set_sink('d', ram_d, k * 3, 1)\n"
                 "    strm.run()\n    strm.source_join()"]]
    elif not Q and not stall:
        dims += [[''] + dims[1][1:3]]
    ref = 'static const int F[][3]={%s};' % ','.join('{%d,%d,%d}' % c for c in cfg) + """
static void one(Env&e,int x,int dc,int dd){ const int*f=F[x]; int o=f[0],n=f[1],p=f[2],t=0,k=0;
  for(int i=0;i<n;i++){ int a=rd(e,0,o+i); wr(e,1,o+dc+i,(a+p)&255); t=(t+a*p)&255; if((i+1)%p==0){ wr(e,2,x+dd+k++,t); t=0; } } }
static void ref(Env&e){ one(e,e.c[0],0,0); one(e,e.c[1],1,8); if(ND>2&&e.c[2]) one(e,e.c[2],1,8); }"""
    if kind == 'loop':
        ref = 'static void ref(Env&e){ for(int i=0;i<4;i+=3){ wr(e,1,i,(rd(e,0,i)+1)&255); wr(e,2,i,rd(e,0,i)); } }'
    tstrm.explore(res, 'overlap %s' % tag, 'overlapped runs (%s)' % tag, build, dims, ref, tail='strm.join()', runs=1, cmds=cmds)


# ---------------------------------------------------------------------------
# FIFOs


@rtl.guarded
def fifos(res, it):
    """FIFO and RAM sources and sinks in every combination under every producer and consumer schedule"""
    tag, stall, cmds, runs = it

    def build(cx):
        for n in ('ram_a', 'ram_b', 'ram_c'):
            cx.ram(n)
        cx.fifo_in()
        cx.fifo_out()
        s = cx.stream()
        a, b = s.source('a'), s.source('b')
        s.sink(s.ReduceAdd(a) - b, 'c')
        s.sink(a + b, 'd')
        if stall:
            cx.stall(s)
    sizes = (1, 3, 4)
    dims = [[x for n in sizes for x in ("strm.set_source('a', ram_a, 2, %d)" % n, "strm.set_source_fifo('a', fin, %d)" % n)],
            [x for n in sizes for x in ("strm.set_source('b', ram_b, 1, %d)" % n, "strm.set_source_empty('b', %d)" % (n + 3))],
            [x for n in sizes for x in ("strm.set_sink('c', ram_c, 1, %d)\nstrm.set_sink_empty('d')" % n,
                                        "strm.set_sink('c', ram_c, 5, %d)\nstrm.set_sink_fifo('d', fout, %d)" % (n, n),
                                        "strm.set_sink_fifo('c', fout, %d)\nstrm.set_sink('d', ram_c, 9, %d)" % (n, n))]]
    ref = """static void ref(Env&e){ static const int N[]={1,3,4}; int n=N[e.c[0]/2], fi=e.c[0]&1, em=e.c[1]&1, sk=e.c[2]%3, s=0;
  for(int i=0;i<n;i++){ int a= fi? pop(e) : rd(e,0,2+i), b= em? n+3 : rd(e,1,1+i); s=(s+a)&255; int c=(s-b)&255, d=(a+b)&255;
    if(sk==2) push(e,c); else wr(e,2,(sk?5:1)+i,c); if(sk==1) push(e,d); if(sk==2) wr(e,2,9+i,d); } }"""
    tstrm.explore(res, 'fifos %s' % tag, 'FIFO sources and sinks (%s)' % tag, build, dims, ref, runs=runs, cmds=cmds)


# ---------------------------------------------------------------------------
# memories and FIFOs accessed from inside the stream


@rtl.guarded
def inner(res, it):
    """read_RAM, write_RAM and read_modify_write_RAM: every element sees the memory as the elements before left it (within the documented port use)"""
    tag, kind, stall, runs = it

    def build(cx):
        cx.ram('ram_a')
        cx.ram('ram_x', numports=3)
        cx.ram('ram_c')
        s = cx.stream()
        a = s.source('a')
        lo = a & 3 if kind.startswith('rmw') else a & 15
        if kind == 'read':
            s.sink(s.read_RAM('x', lo) + a, 'c')
        elif kind == 'readwhen':
            s.sink(s.Mux(a[0], s.read_RAM('x', lo, when=a[0]), a), 'c')
        elif kind == 'write':
            s.write_RAM('x', lo, a + 3)
            s.sink(a, 'c')
        elif kind == 'writewhen':
            s.write_RAM('x', lo, a + 3, when=(a & 3) != 2)
            s.sink(a, 'c')
        elif kind == 'rmw2':
            lo.latency = 0
            hi = (a >> 2) & 3
            s.read_modify_write_RAM('x', (lo + 5, hi + 6), lo + 5, s.Add, ())
            s.sink(a, 'c')
        elif kind in ('rmw', 'rmwwhen', 'rmwsum'):
            lo.latency = 0
            d = 1 if kind == 'rmw' else a
            kw = {}
            if kind == 'rmwwhen':
                kw = dict(when=s.Not(a[1]) if hasattr(s, 'Not') else (a[1] == 0))
            s.read_modify_write_RAM('x', (lo + 5,), lo + 5, s.Add, (d,), **kw)
            s.sink(a, 'c')
        if stall:
            cx.stall(s)
    sets = {'read': "strm.set_read_RAM('x', ram_x)", 'write': "strm.set_write_RAM('x', ram_x, port=1)",
            'rmw': "strm.set_read_modify_write_RAM('x', ram_x, read_ports=(0,), write_port=1)"}
    sets['rmw2'] = "strm.set_read_modify_write_RAM('x', ram_x, read_ports=(0, 1), write_port=2)"
    sets['rmwsum'] = "strm.set_read_modify_write_RAM('x', ram_x)"
    st = sets[kind if kind in sets else 'rmw' if kind.startswith('rmw') else 'read' if kind.startswith('read') else 'write']
    dims = [[src('a', 'ram_a', s) + '\n' + snk('c', 'ram_c', normal(s[2][0], len(s[2]))) for s in WSRC2 + WSRC[:3]], [st]]
    sa = [s[2] for s in WSRC2 + WSRC[:3]]
    body = {'read': 'wr(e,2,x0+i,(rd(e,1,a&15)+a)&255);', 'readwhen': 'wr(e,2,x0+i,a&1?rd(e,1,a&15):a);',
            'write': 'wr(e,1,a&15,(a+3)&255); wr(e,2,x0+i,a);', 'writewhen': 'if((a&3)!=2) wr(e,1,a&15,(a+3)&255); wr(e,2,x0+i,a);',
            'rmw': 'wr(e,1,(a&3)+5,(rd(e,1,(a&3)+5)+1)&255); wr(e,2,x0+i,a);', 'rmwsum': 'wr(e,1,(a&3)+5,(rd(e,1,(a&3)+5)+a)&255); wr(e,2,x0+i,a);',
            'rmw2': 'wr(e,1,(a&3)+5,(rd(e,1,(a&3)+5)+rd(e,1,((a>>2)&3)+6))&255); wr(e,2,x0+i,a);',
            'rmwwhen': 'if(!(a&2)) wr(e,1,(a&3)+5,(rd(e,1,(a&3)+5)+a)&255); wr(e,2,x0+i,a);'}[kind]
    ref = tab('SA', sa) + 'static const int NA[]={%s};\n' % ','.join(str(len(a)) for a in sa) + \
        'static void ref(Env&e){ int c=e.c[0],n=NA[c],x0=SA[c][0]; for(int i=0;i<n;i++){ int a=rd(e,0,SA[c][i]); %s } }' % body
    tstrm.explore(res, 'inner %s' % tag, 'memory used inside a stream (%s)' % tag, build, dims, ref, runs=runs, extra=GEN)


@rtl.guarded
def term(res, it):
    """terminate: everything up to the terminating element and nothing after it"""
    tag, kind, stall, runs, tail = it

    def build(cx):
        for n in ('ram_a', 'ram_c', 'ram_d'):
            cx.ram(n)
        s = cx.stream(infinite=kind == 'infinite')
        p = s.parameter('p')
        i = s.Counter()
        if kind == 'infinite':
            o = s.parameter('o')
            a = s.read_RAM('a', (o + i) & 15)
            t = i == p
        else:
            a = s.source('a')
            t = a == p if kind == 'data' else i >= p
        if kind == 'two':
            s.terminate(a[7])
        s.sink(s.ReduceAdd(a), 'c')
        s.sink(a + 1, 'd', when=a[0], when_name='v')
        s.sink(i, 'n')
        s.terminate(t)
        if stall:
            cx.stall(s)
    cfg = [(o, n, p) for o, n, p in ((0, 4, 1), (3, 6, 0), (2, 5, 4), (1, 3, 7), (5, 1, 0), (4, 6, 2), (8, 7, 3))]
    val = [x for x in tstrm.inits(0)]
    if kind == 'data':
        cfg = [(o, n, val[(o + k) & 15] if k < n else 251) for o, n, k in cfg]
    setp = "strm.set_parameter('p', %d)\n"
    if kind == 'infinite':
        dims = [[setp % p + "strm.set_parameter('o', %d)\nstrm.set_read_RAM('a', ram_a)\n" % o for o, n, p in cfg]]
    else:
        dims = [[setp % p + "strm.set_source('a', ram_a, %d, %d)\n" % (o, n) for o, n, p in cfg]]
    dims[0] = [d + "strm.set_sink('c', ram_c, %d, %d)\nstrm.set_sink('d', ram_d, %d, 0)\nstrm.set_sink_immediate('n', 0)" % (o, n if kind != 'infinite' else 8, o)
               for d, (o, n, p) in zip(dims[0], cfg)]
    stop = {'infinite': 'i==p', 'data': 'a==p', 'count': 'i>=p', 'two': 'i>=p||a>127'}[kind]
    ref = 'static const int F[][3]={%s};\n' % ','.join('{%d,%d,%d}' % c for c in cfg) + """
static void ref(Env&e){ const int*f=F[e.c[0]]; int o=f[0],n=f[1],p=f[2],s=0,k=0; (void)n;
  for(int i=0;i<%s;i++){ int a=rd(e,0,o+i); s=(s+a)&255; wr(e,1,o+i,s); if(a&1) wr(e,2,o+k++,(a+1)&255); e.res[0]=i; if(%s) break; } }""" % (
        '16' if kind == 'infinite' else 'n', stop)
    tstrm.explore(res, 'term %s' % tag, 'terminated stream (%s)' % tag, build, dims, ref, runs=runs, nres=1,
                  tail=TAILS[tail] + "\nres0.value = strm.read_sink('n')")


@rtl.guarded
def subs(res, it):
    """streams used as parts of other streams"""
    tag, kind, stall, runs = it

    def build(cx):
        for n in ('ram_a', 'ram_b', 'ram_c'):
            cx.ram(n)
        ch = cx.stream('child')
        x, y, k = ch.source('x'), ch.source('y'), ch.parameter('k')
        if kind == 'reduce':
            ch.sink(ch.ReduceAdd(x - y, k), 'z')
        else:
            ch.sink((x - y) * k, 'z')
        s = cx.stream('strm')
        a, b, p = s.source('a'), s.source('b'), s.parameter('p')
        mk = s.substream_multicycle if kind == 'multi' else s.substream

        def use(st, inner, a, b, p, mk):
            sub = mk(inner)
            sub.to_source('x', a)
            sub.to_source('y', b)
            sub.to_parameter('k', p)
            return sub.from_sink('z')
        if kind == 'nested':
            mid = cx.stream('mid')
            x, y, k = mid.source('x'), mid.source('y'), mid.parameter('k')
            z = use(mid, ch, x + 1, y, k, mid.substream)
            mid.sink(z + x, 'z')
            inner = mid
        else:
            inner = ch
        z = use(s, inner, a + 1, b, p, mk)
        s.sink(z + a, 'c')
        if stall:
            cx.stall(s)
    cfg = [(o, n, p) for o, n, p in ((0, 1, 3), (2, 4, 2), (5, 3, 1), (1, 6, 4))]
    both = kind in ('both', 'reduce')
    dims = [["strm.set_source('a', ram_a, %d, %d)\nstrm.set_source('b', ram_b, %d, %d)\nstrm.set_parameter('p', %d)\nstrm.set_sink('c', ram_c, %d, %d)\nstrm.run()\nstrm.join()" %
             (o, n, o + 1, n, p, o, n) for o, n, p in cfg] +
            (["child.set_source('x', ram_a, %d, %d)\nchild.set_source('y', ram_b, %d, %d)\nchild.set_parameter('k', %d)\nchild.set_sink('z', ram_c, %d, %d)\nchild.run()\nchild.join()" %
             (o, n, o, n, p, o, n) for o, n, p in cfg] if both else []), ['pass']]
    z = {'reduce': 'if(i%p==0) s=0; s+=x-y; int z=s;', 'nested': 'int z=(x+1-y)*p+x;'}.get(kind, 'int z=(x-y)*p;')
    ref = 'static const int F[][3]={%s};\n' % ','.join('{%d,%d,%d}' % c for c in cfg) + """
static void ref(Env&e){ const int*f=F[e.c[0]%%4]; int top=e.c[0]<4, o=f[0],n=f[1],p=f[2],s=0; (void)s;
  for(int i=0;i<n;i++){ int a=rd(e,0,o+i), b=rd(e,1,o+i+top), x=top?a+1:a, y=b; %s wr(e,2,o+i,top? (z+a)&255 : z&255); } }""" % z
    tstrm.explore(res, 'subs %s' % tag, 'substream (%s)' % tag, build, dims, ref, tail='pass', runs=runs)


@rtl.guarded
def innerfifo(res, it):
    """read_fifo and write_fifo inside a stream, unconditional and conditional"""
    tag, kind, stall, runs = it

    def build(cx):
        cx.ram('ram_a')
        cx.ram('ram_c')
        cx.fifo_in()
        cx.fifo_out()
        s = cx.stream()
        a = s.source('a')
        w = s.read_fifo('x', when=a[0]) if 'rw' in kind else s.read_fifo('x')
        if kind:
            s.write_fifo('y', w - a, when={'rw': a[0], 'ww': a[1], 'rwww': a[0] & a[1]}[kind])
        else:
            s.write_fifo('y', w - a)
        s.sink(a + 1 if 'rw' in kind else s.ReduceAdd(w), 'c')
        if stall:
            cx.stall(s)
    cfg = [(0, 1), (2, 3), (5, 4), (9, 2)]
    dims = [["strm.set_source('a', ram_a, %d, %d)\nstrm.set_sink('c', ram_c, %d, %d)" % (o, n, o, n) for o, n in cfg],
            ["strm.set_read_fifo('x', fin)\nstrm.set_write_fifo('y', fout)"]]
    ref = 'static const int F[][2]={%s};\n' % ','.join('{%d,%d}' % c for c in cfg) + """
static void ref(Env&e){ const int*f=F[e.c[0]]; int o=f[0],n=f[1],s=0; (void)s; for(int i=0;i<n;i++){ int a=rd(e,0,o+i); %s } }""" % {
        'rw': 'if(a&1){ int w=pop(e); push(e,(w-a)&255);} wr(e,1,o+i,(a+1)&255);',
        'ww': 'int w=pop(e); if(a&2) push(e,(w-a)&255); s=(s+w)&255; wr(e,1,o+i,s);',
        '': 'int w=pop(e); push(e,(w-a)&255); s=(s+w)&255; wr(e,1,o+i,s);',
        'rwww': 'int w=0; if(a&1) w=pop(e); if(a&1&&a&2) push(e,(w-a)&255); wr(e,1,o+i,(a+1)&255);'}[kind]
    tstrm.explore(res, 'innerfifo %s' % tag, 'FIFO used inside a stream (%s)' % tag, build, dims, ref, runs=runs)


@rtl.guarded
def places(res, it):
    """sources and sinks placed in different memories, ports and banks from run to run"""
    tag, stall, runs = it

    def build(cx):
        cx.ram('ram_a', numports=2)
        cx.ram('ram_b', numports=3)
        cx.bankram('ram_c', 2, numports=2)
        cx.bankram('ram_d', 4, numports=2)
        s = cx.stream()
        a, b = s.source('a'), s.source('b')
        s.sink(a + b, 'c')
        if stall:
            cx.stall(s)
    n4 = [normal(1, 4, 3), pattern(2, (2, 1), (2, 5)), multidim(3, (2, 2), [0, 1]), generator(0, 4, 3), multipat((2, 9), ((2, 3),), ((2, 1),))]
    sa = [("ram_%s" % r, k, p) for i, (r, p) in enumerate((('a', 0), ('b', 1), ('c', 0), ('d', 1))) for k in (n4[i], n4[(i + 2) % 5])]
    sb = [("ram_%s" % r, k, p) for i, (r, p) in enumerate((('b', 0), ('a', 1), ('d', 0))) for k in (n4[(i + 1) % 5],)]
    sc = [("ram_%s" % r, k, p) for i, (r, p) in enumerate((('c', 1), ('d', 1), ('b', 2))) for k in (n4[i], n4[(i + 3) % 5])]
    dims = [[src('a', r, k, p) for r, k, p in sa], [src('b', r, k, p) for r, k, p in sb], [snk('c', r, k, p) for r, k, p in sc]]
    cmds = [c for c in itertools.product(range(len(sa)), range(len(sb)), range(len(sc)))
            if len(set([(sa[c[0]][0], sa[c[0]][2]), (sb[c[1]][0], sb[c[1]][2]), (sc[c[2]][0], sc[c[2]][2])])) == 3
            and sc[c[2]][0] not in (sa[c[0]][0], sb[c[1]][0])]
    if runs > 1:
        cmds = cmds[::(7 if Q else 3)]
    idx = 'abcd'
    ref = ''.join(tab('S%d' % d, [k[2] for _, k, _ in ss]) + 'static const int R%d[]={%s};\n' % (d, ','.join(str(idx.index(r[-1])) for r, _, _ in ss))
                  for d, ss in enumerate((sa, sb, sc))) + """static void ref(Env&e){ int v[4],x=e.c[0],y=e.c[1],z=e.c[2];
  for(int i=0;i<4;i++) v[i]=(rd(e,R0[x],S0[x][i])+rd(e,R1[y],S1[y][i]))&255; for(int i=0;i<4;i++) wr(e,R2[z],S2[z][i],v[i]); }"""
    tstrm.explore(res, 'places %s' % tag, 'memories, ports and banks (%s)' % tag, build, dims, ref, runs=runs, cmds=cmds, extra=GEN)


def fifo_cmds():
    out = []
    for n in range(3):
        for f in range(2):
            for em in range(2):
                for k in range(3):
                    out.append((2 * n + f, 2 * n + em, 3 * n + k))
    return out


def main():
    its = []
    allc = modes_cmds(None)
    n = 60
    for k in range(0, len(allc), n):
        part = allc[k:k + n]
        its.append(('modes', 'single %d' % (k // n), 1, part, [1] * len(part), True, ()))
    # sequences of two runs: the residue of one setting must not reach the next
    diag = [c for c in modes_cmds(1) if c[0] == c[2] or (c[0] * 7 + c[2]) % (11 if Q else 2) == 0]
    n = 14 if Q else 20
    for k in range(0, len(diag), n):
        its.append(('modes', 'pairs %d' % (k // n), 2, diag[k:k + n], [3] * n, False, ()))
    for k in range(0, len(diag), 40):
        its.append(('modes', 'rerun %d' % (k // 40), 1, diag[k:k + 40], [1] * 40, False, (), 1))
    n = 7
    order = list(range(len(SRC)))
    for k in range(0, len(order), n):
        its.append(('when', 'single %d' % (k // n), order[k:k + n], True, 1))
    its.append(('when', 'tail', [0], False, 1))
    its.append(('when', 'sources', [0, 5, 18], False, 1, 1))
    its.append(('when', 'sources stall', [0], True, 1, 1))
    its.append(('when', 'source pairs', [0], False, 2, 1))
    its.append(('when', 'pairs', [0, 6, 18, 20, 21], False, 2))
    its.append(('when', 'pairs stall', [1, 5], True, 2))
    for t in TAILS:
        its.append(('state', t, t, False, 2, ()))
    its.append(('state', 'stall', 'join', True, 2, ()))
    its.append(('state', 'three', 'join', False, 3, ()))
    its.append(('state', 'fsm_as_module', 'join', True, 1, (('fsm_as_module', True),)))
    for k in ('run', 'join'):
        its.append(('overlap', k, False, k))
        its.append(('overlap', k + ' stall', True, k))
    its.append(('overlap', 'param stall', True, 'run'))
    its.append(('overlap', 'loop', False, 'loop'))
    its.append(('overlap', 'loop stall', True, 'loop'))
    fc = fifo_cmds()
    for k in range(0, len(fc), 6):
        its.append(('fifos', 'single %d' % (k // 6), True, fc[k:k + 6], 1))
    its.append(('fifos', 'pairs', False, [c for c in fc if c[0] // 2 != 2][1::3], 2))
    for k in ('read', 'readwhen', 'write', 'writewhen', 'rmw', 'rmwsum', 'rmwwhen', 'rmw2'):
        its.append(('inner', k, k, True, 1))
        its.append(('inner', k + ' pairs', k, False, 2))
    for k in ('count', 'data', 'two', 'infinite'):
        its.append(('term', k, k, False, 2, 'join'))
        its.append(('term', k + ' stall', k, True, 1, 'join'))
    for k in ('plain', 'both', 'reduce', 'nested', 'multi'):
        its.append(('subs', k, k, False, 2))
        its.append(('subs', k + ' stall', k, True, 1))
    for k in ('', 'rw', 'ww', 'rwww'):
        its.append(('innerfifo', 'when ' + k, k, True, 1))
        its.append(('innerfifo', 'pairs when ' + k, k, False, 2))
    its.append(('places', 'single', True, 1))
    its.append(('places', 'pairs', False, 2))
    its.append(('copies', 'single', 1, False))
    its.append(('copies', 'pairs', 2, False))
    its.append(('copies', 'after another module', 1, True))
    return its


COPIES = [("copy", 0, 1, '1, 3, 4', [1, 2, 3, 4], [3, 4, 5, 6]), ("copy", 1, 0, '0, 8, 5, src_stride=2', [0, 2, 4, 6, 8], [8, 9, 10, 11, 12]),
          ("copy", 0, 2, '6, 1, 3, dst_stride=3', [6, 7, 8], [1, 4, 7]), ("copy", 2, 1, '9, 15, 2, src_stride=-1, dst_stride=-2', [9, 8], [15, 13]),
          ("copy", 0, 1, '5, 5, 1, src_port=1, dst_port=1', [5], [5]),
          ("copy_pattern", 0, 1, '0, 4, ((2, 1), (2, 4)), ((4, 1),)', [0, 1, 4, 5], [4, 5, 6, 7]),
          ("copy_pattern", 1, 2, '3, 9, ((3, 2),), ((3, -1),)', [3, 5, 7], [9, 8, 7]),
          ("copy_pattern", 1, 0, '2, 0, ((2, 5), (2, 1)), ((2, 1), (2, 3)), src_port=1, dst_port=1', [2, 7, 3, 8], [0, 1, 3, 4])]


@rtl.guarded
def copies(res, it):
    """copy and copy_pattern between RAMs"""
    tag, runs, before = it
    names = ('ram_a', 'ram_b', 'ram_c')
    def build(cx):
        for n in names:
            cx.ram(n, numports=2)
        if before:      # another module with RAMs of the same names has been built
            o = vg.Module('other')
            clk, rst = o.Input('CLK'), o.Input('RST')
            other = [vthread.RAM(o, n, clk, rst, 8, 4) for n in names]

            def f():
                vthread.copy(other[0], other[1], 0, 0, 4)
                vthread.copy_pattern(other[1], other[0], 0, 0, ((4, 1),), ((4, 1),))
            vthread.Thread(o, 'th_o', clk, rst, f).start()
    dims = [['vthread.%s(%s, %s, %s)' % (c[0], names[c[1]], names[c[2]], c[3]) for c in COPIES]]
    ref = tab('SA', [c[4] for c in COPIES]) + tab('DA', [c[5] for c in COPIES]) + \
        'static const int NN[]={%s}, SR[]={%s}, DR[]={%s};\n' % tuple(','.join(map(str, x)) for x in ([len(c[4]) for c in COPIES], [c[1] for c in COPIES], [c[2] for c in COPIES])) + \
        'static void ref(Env&e){ int c=e.c[0]; int v[16]; for(int i=0;i<NN[c];i++) v[i]=rd(e,SR[c],SA[c][i]); for(int i=0;i<NN[c];i++) wr(e,DR[c],DA[c][i],v[i]); }'
    tstrm.explore(res, 'copies %s' % tag, 'copy (%s)' % tag, build, dims, ref, runs=runs, tail='pass')


FN = dict(modes=modes, when=when, state=state, overlap=overlap, fifos=fifos, inner=inner, term=term, subs=subs, innerfifo=innerfifo, places=places, copies=copies)


def one(it):
    return FN[it[0]](it[1:])


if __name__ == '__main__':
    c = Check('C17')
    its = main()
    if len(sys.argv) > 1:
        its = [i for i in its if sys.argv[1] in ' '.join(str(x) for x in i[:2])]
    for r in pmap(one, its, 'c17'):
        c.absorb(r)
    c.finish()
