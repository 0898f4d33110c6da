"""Exhaustive exploration of thread-controlled stream runs on the real RTL.

A design has one thread that waits for a command from the environment, configures the stream as the
command says, runs it and reports.  The environment chooses every command sequence up to a length, every
stall schedule and every FIFO producer/consumer schedule; after each run the contents of every RAM, the
FIFO traffic and the values read back are compared with a reference executed by the environment."""
import os
import re

import rtl
import veriloggen as vg
import veriloggen.thread as vthread
import veriloggen.types.util as util
import importlib.util

W = 8
AW = 4

ENV = r'''
enum { NR=%(nr)d, ND=%(nd)d, NCMD=%(ncmd)d, RUNS=%(runs)d, STALL=%(stall)d, FIN=%(fin)d, FOUT=%(fout)d, NRES=%(nres)d, RETRY=%(retry)d };
static const uint8_t CMD[NCMD][ND+1]={%(cmds)s};
static const uint8_t FIRST[NCMD]={%(first)s};
static const int INIT[NR+1][16]={%(init)s {0}};
struct Env { uint8_t mem[NR+1][16]; uint8_t c[ND+1]; uint8_t cmd, k, phase, idle, nv, iq[16], ni, oq[16], no, ox[16], nx, pend; uint8_t res[4], st[8]; };
static void env_init(Env&e){ for(int r=0;r<NR;r++) for(int i=0;i<16;i++) e.mem[r][i]=INIT[r][i]; %(envinit)s }
static void idle(){ T->go=0; %(idle)s }
static int ncmd(Env&e){ return e.phase==0 && e.k<RUNS ? NCMD+1 : 1; }
static int nchoices(Env&e){ return ncmd(e)*(e.phase&&STALL?2:1)*(1+FIN)*(1+FOUT); }
static int MEM(int r,int a){ switch(r){ %(mem)s } return 0; }
static const char*NAME[]={%(names)s 0};
struct D { int cmd,stall,enq,deq; };
static D dec(Env&e,int c){ D d; int n=ncmd(e); d.cmd=c%%n; c/=n; d.stall=0; if(e.phase&&STALL){ d.stall=c&1; c>>=1; } d.enq=0; if(FIN){ d.enq=c&1; c>>=1; } d.deq= FOUT? c&1 : 0; return d; }
static bool drive(Env&e,int c){ D d=dec(e,c);
  if(d.cmd && !e.k && !FIRST[d.cmd-1]) return false;
  if(d.cmd && e.k && RUNS>1 && !(FIRST[d.cmd-1]&2)) return false;
  if(d.cmd && e.k && !(FIRST[e.cmd]&2)) return false;
  int cm=d.cmd? d.cmd-1 : e.cmd; T->go= d.cmd||e.phase; (void)cm;
  %(drive)s
  return true; }
static inline int rd(Env&e,int r,int a){ return e.mem[r][a&15]; }
static inline void wr(Env&e,int r,int a,int v){ e.mem[r][a&15]=v; }
static bool UNDER;
static inline int pop(Env&e){ if(!e.ni){ UNDER=true; return 0; } int v=e.iq[0]; for(int i=1;i<e.ni;i++) e.iq[i-1]=e.iq[i]; e.ni--; e.iq[e.ni]=0; return v; }
static inline void push(Env&e,int v){ e.ox[e.nx++]=v; }
static inline int sx(int v,int w){ v&=(1<<w)-1; return v>>(w-1)? v-(1<<w) : v; }
%(ref)s
static bool match(Env&e){ while(e.no && e.nx){ if(e.oq[0]!=e.ox[0]) FAIL("the sink FIFO delivered %%d, expected %%d",e.oq[0],e.ox[0]);
    for(int i=1;i<e.no;i++) e.oq[i-1]=e.oq[i]; e.no--; e.oq[e.no]=0; for(int i=1;i<e.nx;i++) e.ox[i-1]=e.ox[i]; e.nx--; e.ox[e.nx]=0; } return true; }
static bool mems(Env&e){ for(int r=0;r<NR;r++) for(int i=0;i<16;i++) if(MEM(r,i)!=e.mem[r][i]) FAIL("%%s[%%d]=%%d after the run, expected %%d",NAME[r],i,MEM(r,i),e.mem[r][i]); return true; }
static bool check(Env&e,int c){ D d=dec(e,c);
  %(fifo)s
  if(e.phase==0 && d.cmd){ e.cmd=d.cmd-1; for(int i=0;i<ND;i++) e.c[i]=CMD[e.cmd][i]; e.phase=1; e.k++; return true; }
  if(e.phase==1 && T->done){ UNDER=false; ref(e); if(UNDER) FAIL("the run finished without the elements it should consume");
    if(!match(e)) return false;
    %(result)s
    e.phase=0; return mems(e); }
  if(e.phase==0){ if(!mems(e)) return false; if(e.no) FAIL("the sink FIFO delivered %%d, nothing is expected",e.oq[0]); }
  return true; }
static bool goal(Env&e){ return e.phase==0 && e.nx==0; }
static void show(Env&e,int c,int i){ D d=dec(e,c); printf("%%2d phase=%%d cmd=%%d(",i,e.phase,d.cmd-1); for(int k=0;k<ND;k++) printf("%%d ",e.phase?e.c[k]:d.cmd?CMD[d.cmd-1][k]:0); printf(") stall=%%d enq=%%d deq=%%d -> done=%%d %(showres)s",d.stall,d.enq,d.deq,T->done); for(int r=0;r<NR;r++){ printf(" | %%s:",NAME[r]); for(int a=0;a<16;a++) if(MEM(r,a)!=INIT[r][a]) printf(" [%%d]=%%d",a,MEM(r,a)); } printf("\n"); }
'''


def inits(r):
    """distinct contents for RAM number r"""
    return [(37 * (r + 1) + 11 * i + i * i) % 251 + 1 for i in range(1 << AW)]


class Ctx(object):
    """what a builder gets"""

    def __init__(self):
        vg.reset()
        self.m = vg.Module('top')
        self.clk, self.rst = self.m.Input('CLK'), self.m.Input('RST')
        self.rams = []
        self.ns = {}
        self.banks = {}
        self.fin = self.fout = False
        self.stalled = False

    def ram(self, name, numports=1, clear=False, datawidth=W):
        iv = [0] * (1 << AW) if clear else inits(len(self.rams))
        r = vthread.RAM(self.m, name, self.clk, self.rst, datawidth, AW, numports=numports, initvals=iv)
        self.rams.append((name, iv))
        self.ns[name] = r
        return r

    def bankram(self, name, numbanks, numports=1):
        iv = inits(len(self.rams))
        r = vthread.MultibankRAM(self.m, name, self.clk, self.rst, W, AW - (numbanks - 1).bit_length(), numports=numports, numbanks=numbanks)
        self.rams.append((name, iv))
        self.banks[name] = numbanks
        self.ns[name] = r
        return r

    def stream(self, name='strm', **kw):
        kw.setdefault('datawidth', W)
        kw.setdefault('addrwidth', AW)
        kw.setdefault('max_pattern_length', 3)
        s = vthread.Stream(self.m, name, self.clk, self.rst, **kw)
        self.ns[name] = s
        return s

    def stall(self, *strms):
        st = self.m.Input('stall')
        for s in strms:
            util.add_disable_cond(s.oready, 1, st)
        self.stalled = True

    def fifo_in(self, name='fin'):
        f = vthread.FIFO(self.m, name, self.clk, self.rst, W, 2)
        f.connect_enq_rtl(self.m.Input('i_enq'), self.m.Input('i_data', W), self.m.Output('i_full'), self.m.Output('i_afull'))
        self.ns[name] = f
        self.fin = True
        return f

    def fifo_out(self, name='fout'):
        f = vthread.FIFO(self.m, name, self.clk, self.rst, W, 2)
        f.connect_deq_rtl(self.m.Input('o_deq'), self.m.Output('o_data', W), self.m.Output('o_empty'), self.m.Output('o_aempty'))
        self.ns[name] = f
        self.fout = True
        return f


def thread_text(dims, tail, names, extra=''):
    out = ['def start_(vthread, m, clk, rst, ns):']
    for n in names:
        out.append('    %s = ns[%r]' % (n, n))
    for ln in extra.splitlines():
        out.append('    ' + ln)
    out += ['    def body():', '        while True:', '            while not go:', '                pass']
    for i, opts in enumerate(dims):
        if len(opts) == 1:
            out += ['            ' + ln for ln in opts[0].splitlines()]
            continue
        for j, code in enumerate(opts):
            out.append('            %s c%d == %d:' % ('if' if j == 0 else 'elif', i, j))
            out += ['                ' + ln for ln in (code or 'pass').splitlines()]
    out += ['            ' + ln for ln in tail.splitlines()]
    out += ['            done.value = 1', '            done.value = 0']
    out += ["    vthread.Thread(m, 'th', clk, rst, body).start()"]
    return '\n'.join(out) + '\n'


def explore(res, key, what, build, dims, ref, tail='strm.run()\nstrm.join()', runs=1, cmds=None, first=None, nres=0, extra='',
            envinit='', **kw):
    """dims: list of lists of thread code; ref: C++ 'static void ref(Env&e){..}'; cmds: list of choice tuples (default all);
    first: per command: 1 may be the only run, 3 may also be one of several runs"""
    cx = Ctx()
    build(cx)
    m, ns = cx.m, cx.ns
    ns['go'] = m.Input('go')
    ns['done'] = m.OutputReg('done', initval=0)
    for i, o in enumerate(dims):
        if len(o) > 1:
            ns['c%d' % i] = m.Input('c%d' % i, 8)
    for i in range(nres):
        ns['res%d' % i] = m.OutputReg('res%d' % i, W, initval=0)
    text = thread_text(dims, tail, sorted(ns), extra)
    fn = 'th_%s.py' % re.sub(r'\W+', '_', key)
    with open(fn, 'w') as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location('th_x', os.path.abspath(fn))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    mod.start_(vthread, m, cx.clk, cx.rst, ns)
    v = re.sub(r'(reg \[[^]]*\] mem \[[^]]*\]);', r'\1 /*verilator public_flat_rw*/;', m.to_verilog())
    for n, nb in cx.banks.items():
        iv = dict(cx.rams)[n]
        for b in range(nb):
            body = ''.join(' mem[%d] = %d;' % (i, x) for i, x in enumerate(iv[b::nb]))
            v, k = re.subn(r'(module %s_%d\n.*?mem \[[^;]*;)' % (n, b), lambda g: g.group(1) + '\n  initial begin%s end\n' % body, v, count=1, flags=re.S)
            assert k == 1
    if os.environ.get('TSTRM_DUMP'):
        open(os.environ['TSTRM_DUMP'], 'w').write(v)
    if cmds is None:
        import itertools
        cmds = list(itertools.product(*[range(len(o)) for o in dims]))
    if first is None:
        first = [3] * len(cmds)
    first = first[:len(cmds)]
    nd = len(dims)
    mem = []
    for i, (n, iv) in enumerate(cx.rams):
        if n in cx.banks:
            nb = cx.banks[n]
            mem.append('case %d: switch(a%%%d){ %s }' % (i, nb, ' '.join('case %d: return T->rootp->top__DOT__inst_%s_%d__DOT__mem[a/%d];' % (b, n, b, nb) for b in range(nb))))
            continue
        mem.append('case %d: return T->rootp->top__DOT__inst_%s__DOT__mem[a];' % (i, n))
    drv = ['T->c%d=CMD[cm][%d];' % (i, i) for i, o in enumerate(dims) if len(o) > 1]
    idle = ['T->c%d=0;' % i for i, o in enumerate(dims) if len(o) > 1]
    fifo = []
    if cx.stalled:
        drv.append('T->stall=d.stall;')
        idle.append('T->stall=0;')
    if cx.fin:
        drv.append('T->i_enq=d.enq; T->i_data=e.nv%7+1;')
        idle.append('T->i_enq=0; T->i_data=0;')
        fifo.append('if(T->i_enq && !T->i_full){ if(e.ni>=15) FAIL("the run does not end: it consumes more than it should"); e.iq[e.ni++]=e.nv%7+1; e.nv=(e.nv+1)%7; }')
    if cx.fout:
        drv.append('T->o_deq=d.deq;')
        idle.append('T->o_deq=0;')
        fifo.append('if(e.pend){ if(e.no>=15) FAIL("the run does not end: it produces more than it should"); e.oq[e.no++]=T->o_data; } e.pend=T->o_deq&&!T->o_empty; if(!match(e)) return false;')
    result = ''.join('if(T->res%d!=e.res[%d]) FAIL("the thread read back %%d, expected %%d",T->res%d,e.res[%d]); ' % (i, i, i, i) for i in range(nres))
    d = dict(nr=len(cx.rams), nd=nd, ncmd=len(cmds), runs=runs, stall=int(cx.stalled), fin=int(cx.fin), fout=int(cx.fout), nres=nres, retry=0,
             cmds=','.join('{%s,0}' % ','.join(map(str, c)) for c in cmds), first=','.join(map(str, first)),
             init=''.join('{%s},' % ','.join(map(str, iv)) for n, iv in cx.rams), idle=' '.join(idle), mem=' '.join(mem),
             names=''.join('"%s",' % n for n, _ in cx.rams), drive=' '.join(drv), ref=ref, fifo=' '.join(fifo), result=result,
             showres='', envinit=envinit)
    kw.setdefault('max_states', 4000000)
    return rtl.explore(res, key, what, v, ENV % d, **kw)
