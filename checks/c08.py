"""C08: mutexes, barriers, shared variables, run/join and thread pools under every relative timing."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import rtl

import veriloggen as vg
import veriloggen.thread as vthread

Q = tier() == 'quick'


def case(name, n, fmt):
    return ' '.join('case %d: %s' % (i, fmt.replace('#', str(i))) for i in range(n))


# ---------------------------------------------------------------------------
MUTEX = r'''
// ops: 0 lock, 1 unlock without holding, 2 try_lock (NOP==2: 0 and 2); per thread: st 0 idle, 1 running op
struct Env { uint8_t st[NT], op[NT], h[NT], con[NT], lastev[NT], cnt[NT]; uint8_t done, gl; };
static void env_init(Env&e){}
static void setp(int t,int g,int op,int h){ switch(t){ SETP } }
static int cs(int t){ switch(t){ CSP } return 0; }
static int ev(int t){ switch(t){ EVP } return 0; }
static int ok(int t){ switch(t){ OKP } return 0; }
static void idle(){ for(int t=0;t<NT;t++) setp(t,0,0,0); }
static int nchoices(Env&e){ int n=1; for(int t=0;t<NT;t++) n*= e.st[t]?(e.op[t]==1?1:2):1+NOP; return n; }
static bool drive(Env&e,int c){
  for(int t=0;t<NT;t++){ int x; if(e.st[t]){ if(e.op[t]==1) x=0; else { x=c%2; c/=2; } e.h[t]=x; setp(t,1,e.op[t],x); }
    else { x=c%(1+NOP); c/=1+NOP; e.h[t]=0; if(x){ int o=(NOP==2&&x==2)?2:x-1; e.st[t]=1; e.op[t]=o; e.con[t]=0; e.cnt[t]=0; setp(t,1,o,0);} } }
  for(int t=0;t<NT;t++) for(int u=0;u<NT;u++) if(u!=t&&e.st[t]&&e.st[u]&&e.op[u]!=1) e.con[t]=1;
  return true; }
static bool check(Env&e,int c){
  int in=0; for(int t=0;t<NT;t++) in+=cs(t); if(in>1) FAIL("%d threads hold the mutex",in);
  e.gl=0;
  for(int t=0;t<NT;t++){ int v=ev(t);
    if(cs(t)&&!e.st[t]) FAIL("thread %d in the critical section without a request",t);
    bool alone=e.st[t]&&!e.h[t]; for(int u=0;u<NT;u++) if(u!=t&&e.st[u]&&e.op[u]!=1) alone=false;
    if(alone){ if(++e.cnt[t]>20) FAIL("thread %d does not finish op %d although the mutex is free",t,e.op[t]); } else e.cnt[t]=0;
    if(v&&!e.lastev[t]){ if(!e.st[t]) FAIL("thread %d finished twice",t);
      if(e.op[t]!=1){ if(!e.con[t]&&!ok(t)) FAIL("thread %d was refused a free mutex",t); if(e.op[t]==0&&!ok(t)) FAIL("lock returned without the mutex"); }
      e.st[t]=e.op[t]=e.con[t]=e.cnt[t]=e.h[t]=0; e.done|=1<<t; }
    e.lastev[t]=v; }
  if(e.done==(1<<NT)-1){ e.done=0; e.gl=1; }
  return true; }
static bool goal(Env&e){ return e.gl; }
static void show(Env&e,int c,int i){ printf("%2d",i); for(int t=0;t<NT;t++) printf(" | t%d st=%d op=%d hold=%d cs=%d ok=%d ev=%d",t,e.st[t],e.op[t],e.h[t],cs(t),ok(t),ev(t)); printf("\n"); }
'''


def mutex_thread(m, clk, rst, mtx, i, style, mod):
    g, op, hold = m.Input('g%d' % i), m.Input('op%d' % i, 2), m.Input('h%d' % i)
    cs, ok, ev = m.OutputReg('cs%d' % i, initval=0), m.OutputReg('ok%d' % i, initval=0), m.OutputReg('ev%d' % i, initval=0)
    if style == 'lock':
        def f():
            while True:
                while not g:
                    pass
                ok.value = 0
                if op == 0:
                    mtx.lock()
                    cs.value = 1
                    while hold:
                        pass
                    cs.value = 0
                    ok.value = 1
                    mtx.unlock()
                elif op == 1:
                    mtx.unlock()
                else:
                    r = mtx.try_lock()
                    if r:
                        cs.value = 1
                        while hold:
                            pass
                        cs.value = 0
                        ok.value = 1
                        mtx.unlock()
                ev.value = 1
                ev.value = 0
    elif style == 'acquire':
        def f():
            while True:
                while not g:
                    pass
                ok.value = 0
                if op == 0:
                    mtx.acquire()
                    cs.value = 1
                    while hold:
                        pass
                    cs.value = 0
                    ok.value = 1
                    mtx.release()
                elif op == 1:
                    mtx.release()
                else:
                    if mtx.acquire(blocking=False):
                        cs.value = 1
                        while hold:
                            pass
                        cs.value = 0
                        ok.value = 1
                        mtx.release()
                ev.value = 1
                ev.value = 0
    vthread.Thread(m, 'th%d' % i, clk, rst, f, fsm_as_module=mod).start()


def mutex(res, it):
    _, kind, nt, style, nop, mod = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    if kind == 'Mutex':
        mtx = vthread.Mutex(m, 'mtx', clk, rst)
    elif kind == 'Mutex1':
        mtx = vthread.Mutex(m, 'mtx', clk, rst, width=1)
    elif kind == 'Mutex2':
        mtx = vthread.Mutex(m, 'mtx', clk, rst, width=2)
    elif kind == 'Lock':
        mtx = vthread.Lock(m, 'mtx', clk, rst)
    elif kind == 'RAM':
        mtx = vthread.RAM(m, 'ram', clk, rst, 2, 1)
    elif kind == 'FIFO':
        mtx = vthread.FIFO(m, 'fifo', clk, rst, 2, 2)
    elif kind == 'Shared':
        mtx = vthread.Shared(m.Reg('sh', 2, initval=0))
    try:
        for i in range(nt):
            mutex_thread(m, clk, rst, mtx, i, style, mod)
    except Exception as e:    # more threads than ids: the build has to be refused, or the lock has to work all the same
        if nt <= 2 ** getattr(mtx, 'width', 32) or 'lock IDs' not in str(e):
            raise
        res['counts']['refused: more threads than lock ids'] = 1
        return
    cpp = MUTEX.replace('SETP', case('', nt, 'T->g#=g; T->op#=op; T->h#=h; break;'))
    for n, s in (('CSP', 'cs'), ('EVP', 'ev'), ('OKP', 'ok')):
        cpp = cpp.replace(n, case('', nt, 'return T->%s#;' % s))
    rtl.explore(res, 'mutex %s nt=%d %s nop=%d mod=%d' % (kind, nt, style, nop, mod), '%s with %d threads (%s)' % (kind, nt, style),
                m.to_verilog(), cpp, defines=['NT=%d' % nt, 'NOP=%d' % nop], must_complete=False, max_states=1500000 if Q else 12000000)


# ---------------------------------------------------------------------------
BARRIER = r'''
struct Env { uint8_t st[NT], a[NT], r[NT], lastev[NT]; uint8_t t, gl; };
static void env_init(Env&e){}
static void setp(int t,int g){ switch(t){ SETP } }
static int ev(int t){ switch(t){ EVP } return 0; }
static void idle(){ for(int t=0;t<NT;t++) setp(t,0); }
static int nchoices(Env&e){ int n=1; for(int t=0;t<NT;t++) n*= e.st[t]?1:2; return n; }
static bool drive(Env&e,int c){ for(int t=0;t<NT;t++){ if(e.st[t]) setp(t,1); else { int x=c%2; c/=2; if(x){ e.st[t]=1; e.a[t]++; setp(t,1);} } } return true; }
static bool check(Env&e,int c){ e.gl=0;
  int mn=99; for(int t=0;t<NT;t++) if(e.a[t]<mn) mn=e.a[t];
  for(int t=0;t<NT;t++){ int v=ev(t); if(v&&!e.lastev[t]){ if(!e.st[t]) FAIL("thread %d released twice",t); e.st[t]=0; e.r[t]++; if(e.r[t]>mn) FAIL("thread %d released before all participants arrived",t); } e.lastev[t]=v; }
  int rn=99; for(int t=0;t<NT;t++) if(e.r[t]<rn) rn=e.r[t];
  bool pend=false; for(int t=0;t<NT;t++) if(e.r[t]<mn) pend=true;
  if(pend){ if(++e.t>12*NT+20) FAIL("not every participant was released after all arrived"); } else e.t=0;
  if(rn){ for(int t=0;t<NT;t++){ e.r[t]-=rn; e.a[t]-=rn; } e.gl=1; }
  return true; }
static bool goal(Env&e){ return e.gl; }
static void show(Env&e,int c,int i){ printf("%2d",i); for(int t=0;t<NT;t++) printf(" | t%d st=%d arrived=%d released=%d",t,e.st[t],e.a[t],e.r[t]); printf("\n"); }
'''


def barrier_thread(m, clk, rst, bar, i, mod):
    g, ev = m.Input('g%d' % i), m.OutputReg('ev%d' % i, initval=0)

    def f():
        while True:
            while not g:
                pass
            bar.wait()
            ev.value = 1
            ev.value = 0
    vthread.Thread(m, 'th%d' % i, clk, rst, f, fsm_as_module=mod).start()


def barrier(res, it):
    _, nt, mod = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    bar = vthread.Barrier(m, 'bar', clk, rst, nt)
    for i in range(nt):
        barrier_thread(m, clk, rst, bar, i, mod)
    cpp = BARRIER.replace('SETP', case('', nt, 'T->g#=g; break;')).replace('EVP', case('', nt, 'return T->ev#;'))
    rtl.explore(res, 'barrier %d mod=%d' % (nt, mod), 'barrier of %d threads' % nt, m.to_verilog(), cpp, defines=['NT=%d' % nt],
                must_complete=False, max_states=1500000 if Q else 12000000)


# ---------------------------------------------------------------------------
SHARED = r'''
// NT threads write (parts of) a shared register, every one reads it back
struct Env { uint8_t v; uint8_t st[NT], op[NT], d[NT], lastev[NT]; uint8_t done, gl; };
static void env_init(Env&e){}
static void setp(int t,int g,int op,int d){ switch(t){ SETP } }
static int ev(int t){ switch(t){ EVP } return 0; }
static int rd(int t){ switch(t){ RDP } return 0; }
static void idle(){ for(int t=0;t<NT;t++) setp(t,0,0,0); }
static const int OC=1+4+4;   // nothing, write d, write part d
static int nchoices(Env&e){ int n=1; for(int t=0;t<NT;t++) n*= e.st[t]?1:OC; return n; }
static bool drive(Env&e,int c){ for(int t=0;t<NT;t++){ if(e.st[t]) setp(t,1,e.op[t],e.d[t]); else { int x=c%OC; c/=OC; if(x){ x--; e.st[t]=1; e.op[t]=x/4; e.d[t]=x%4; setp(t,1,e.op[t],e.d[t]); } } } return true; }
static bool check(Env&e,int c){ e.gl=0;
  for(int t=0;t<NT;t++){ int v=ev(t); if(v&&!e.lastev[t]){ if(!e.st[t]) FAIL("thread %d finished twice",t);
    int w=e.op[t]?((e.v&~(PART))|PARTV(e.d[t])):e.d[t];
    if(rd(t)!=w) FAIL("thread %d wrote op %d value %d over %d, the shared variable is %d",t,e.op[t],e.d[t],e.v,rd(t));
    e.v=w; e.st[t]=e.op[t]=e.d[t]=0; e.done|=1<<t; } e.lastev[t]=v; }
  if(e.done==(1<<NT)-1){ e.done=0; e.gl=1; } return true; }
static bool goal(Env&e){ return e.gl; }
static void show(Env&e,int c,int i){ printf("%2d v=%d",i,e.v); for(int t=0;t<NT;t++) printf(" | t%d st=%d op=%d d=%d read=%d ev=%d",t,e.st[t],e.op[t],e.d[t],rd(t),ev(t)); printf("\n"); }
'''


def shared_thread(m, clk, rst, sh, i, part):
    g, op, d = m.Input('g%d' % i), m.Input('op%d' % i), m.Input('d%d' % i, 2)
    r, ev = m.OutputReg('r%d' % i, 2, initval=0), m.OutputReg('ev%d' % i, initval=0)
    if part == 'bit':
        def f():
            while True:
                while not g:
                    pass
                sh.lock()
                if op:
                    sh.write(d, 1)
                else:
                    sh.write(d)
                r.value = sh.read()
                sh.unlock()
                ev.value = 1
                ev.value = 0
    else:
        def f():
            while True:
                while not g:
                    pass
                sh.lock()
                if op:
                    sh.write(d, (1, 0))
                else:
                    sh.write(d)
                r.value = sh.value
                sh.unlock()
                ev.value = 1
                ev.value = 0
    vthread.Thread(m, 'th%d' % i, clk, rst, f).start()


def shared(res, it):
    _, nt, part = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    sh = vthread.Shared(m.Reg('shv', 2, initval=0))
    # Shared.write(value, *part): a single bit index or a (msb, lsb) pair
    for i in range(nt):
        shared_thread(m, clk, rst, sh, i, part)
    cpp = SHARED.replace('SETP', case('', nt, 'T->g#=g; T->op#=op; T->d#=d; break;')).replace('EVP', case('', nt, 'return T->ev#;')).replace('RDP', case('', nt, 'return T->r#;'))
    cpp = ('#define PART %s\n#define PARTV(d) %s\n' % (('2', '(((d)&1)<<1)') if part == 'bit' else ('3', '(d)'))) + cpp
    rtl.explore(res, 'shared %d %s' % (nt, part), 'shared variable written by %d threads (%s)' % (nt, part), m.to_verilog(), cpp, defines=['NT=%d' % nt], must_complete=False,
                max_states=1500000 if Q else 12000000)


# ---------------------------------------------------------------------------
RUNJOIN = r'''
// NP parents, each with its own input gate, run children NC; a child works while its hold input is up
struct Env { uint8_t st[NP], a[NP], lastev[NP]; uint8_t run[NC], h[NC], ca[NC], base[NC], fin[NC]; uint8_t done, gl; };
static void env_init(Env&e){}
static void setp(int t,int g,int a){ switch(t){ SETP } }
static void seth(int c,int h){ switch(c){ SETH } }
static int ev(int t){ switch(t){ EVP } return 0; }
static int val(int t){ switch(t){ VALP } return 0; }
static int scnt(int c){ switch(c){ SCNT } return 0; }   // child start count mod 4
static int ecnt(int c){ switch(c){ ECNT } return 0; }   // child end count mod 4
static int carg(int c){ switch(c){ CARG } return 0; }
static void idle(){ for(int t=0;t<NP;t++) setp(t,0,0); for(int c=0;c<NC;c++) seth(c,0); }
static int nchoices(Env&e){ int n=1; for(int t=0;t<NP;t++) n*= e.st[t]?1:1+NA; for(int c=0;c<NC;c++) n*=2; return n; }
static int expected(int a){ return EXPECT; }
static bool uses(int t,int c){ return USES; }
static int argof(int t,int c,int a){ return ARGOF; }
static bool drive(Env&e,int c){ for(int t=0;t<NP;t++){ if(e.st[t]) setp(t,1,e.a[t]); else { int x=c%(1+NA); c/=1+NA; if(x){ e.st[t]=1; e.a[t]=x-1; setp(t,1,x-1); for(int k=0;k<NC;k++) if(uses(t,k)){ e.run[k]=1; e.ca[k]=argof(t,k,x-1);} } } }
  for(int k=0;k<NC;k++){ e.h[k]=c%2; c/=2; seth(k,e.h[k]); } return true; }
static bool check(Env&e,int c){ e.gl=0;
  for(int k=0;k<NC;k++){ int s=(scnt(k)-e.base[k])&3, f=(ecnt(k)-e.base[k])&3;
    if(s>e.run[k]) FAIL("child %d started %s",k,e.run[k]?"twice":"without run");
    if(s && carg(k)!=e.ca[k]) FAIL("child %d started with argument %d, expected %d",k,carg(k),e.ca[k]);
    if(f>s) FAIL("child %d ended more often than it started",k); e.fin[k]=f; }
  for(int t=0;t<NP;t++){ int v=ev(t); if(v&&!e.lastev[t]){ if(!e.st[t]) FAIL("parent %d finished twice",t);
      for(int k=0;k<NC;k++) if(uses(t,k)){ if(!e.fin[k]) FAIL("join of child %d returned before it ended",k); e.base[k]=(e.base[k]+1)&3; e.run[k]=e.ca[k]=e.fin[k]=0; }
      int x=expected(e.a[t]); if(val(t)!=x) FAIL("parent %d got %d, expected %d",t,val(t),x);
      e.st[t]=e.a[t]=0; e.done|=1<<t; } e.lastev[t]=v; }
  if(e.done==(1<<NP)-1){ e.done=0; e.gl=1; } return true; }
static bool goal(Env&e){ return e.gl; }
static void show(Env&e,int c,int i){ printf("%2d",i); for(int t=0;t<NP;t++) printf(" | parent %d st=%d a=%d val=%d ev=%d",t,e.st[t],e.a[t],val(t),ev(t)); for(int k=0;k<NC;k++) printf(" | child %d run=%d hold=%d starts=%d ends=%d arg=%d",k,e.run[k],e.h[k],scnt(k),ecnt(k),carg(k)); printf("\n"); }
'''


def child_fn(m, k):
    h = m.Input('h%d' % k)
    sc, ec = m.OutputReg('sc%d' % k, 2, initval=0), m.OutputReg('ec%d' % k, 2, initval=0)
    ca = m.OutputReg('ca%d' % k, 4, initval=0)
    return h, sc, ec, ca


def runjoin(res, it):
    _, form, mod = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    np_, nc, na = 1, 1, 2
    expect, uses, argof = '2*a+1', 'true', 'a'
    g, a = m.Input('g0'), m.Input('a0', 2)
    ev, v = m.OutputReg('ev0', initval=0), m.OutputReg('v0', 8, initval=0)
    h, sc, ec, ca = child_fn(m, 0)

    def c0(x):
        ca.value = x
        sc.value += 1
        while h:
            pass
        ec.value += 1
        return x * 2 + 1
    th0 = vthread.Thread(m, 'c0', clk, rst, c0, fsm_as_module=mod)
    if form == 'basic':
        def f():
            while True:
                while not g:
                    pass
                th0.run(a)
                th0.join()
                v.value = th0.ret()
                th0.reset()
                ev.value = 1
                ev.value = 0
    elif form == 'keyword':
        def f():
            while True:
                while not g:
                    pass
                th0.run(x=a)
                th0.join()
                v.value = th0.ret()
                th0.reset()
                ev.value = 1
                ev.value = 0
    elif form == 'done':
        def f():
            while True:
                while not g:
                    pass
                th0.run(a)
                while not th0.done():
                    pass
                v.value = th0.ret()
                th0.reset()
                ev.value = 1
                ev.value = 0
    elif form == 'two sites':
        expect, argof = 'a?2*a+1:7', 'a?a:3'

        def f():
            while True:
                while not g:
                    pass
                if a:
                    th0.run(a)
                else:
                    th0.run(3)
                th0.join()
                v.value = th0.ret()
                th0.reset()
                ev.value = 1
                ev.value = 0
    elif form == 'expression':
        argof, expect = 'a+4', '(a+4)*2+1'

        def f():
            while True:
                while not g:
                    pass
                t = a
                t += 4
                th0.run(t)
                t = 0
                th0.join()
                v.value = th0.ret()
                th0.reset()
                ev.value = 1
                ev.value = 0
    elif form == 'two children':
        nc = 2
        expect, argof = '(2*a+1)*16/16+(a+1)*3', 'k==0?a:a+1'.replace('k', 'c')
        h1, sc1, ec1, ca1 = child_fn(m, 1)

        def c1(x, y=3):
            ca1.value = x
            sc1.value += 1
            while h1:
                pass
            ec1.value += 1
            return x * y
        th1 = vthread.Thread(m, 'c1', clk, rst, c1, fsm_as_module=mod)

        def f():
            while True:
                while not g:
                    pass
                th0.run(a)
                th1.run(a + 1)
                th1.join()
                th0.join()
                v.value = th0.ret() + th1.ret()
                th0.reset()
                th1.reset()
                ev.value = 1
                ev.value = 0
    elif form == 'two parents':
        np_, nc = 2, 2
        uses = 't==c'
        h1, sc1, ec1, ca1 = child_fn(m, 1)
        g1, a1 = m.Input('g1'), m.Input('a1', 2)
        ev1, v1 = m.OutputReg('ev1', initval=0), m.OutputReg('v1', 8, initval=0)

        def c1(x):
            ca1.value = x
            sc1.value += 1
            while h1:
                pass
            ec1.value += 1
            return x * 2 + 1
        th1 = vthread.Thread(m, 'c1', clk, rst, c1, fsm_as_module=mod)

        def f():
            while True:
                while not g:
                    pass
                th0.run(a)
                th0.join()
                v.value = th0.ret()
                th0.reset()
                ev.value = 1
                ev.value = 0

        def f1():
            while True:
                while not g1:
                    pass
                th1.run(a1)
                th1.join()
                v1.value = th1.ret()
                th1.reset()
                ev1.value = 1
                ev1.value = 0
        vthread.Thread(m, 'p1', clk, rst, f1, fsm_as_module=mod).start()
    elif form == 'shared child':
        # two parents use one child under a lock
        np_, nc, na = 2, 1, 2
        g1, a1 = m.Input('g1'), m.Input('a1', 2)
        ev1, v1 = m.OutputReg('ev1', initval=0), m.OutputReg('v1', 8, initval=0)
        mtx = vthread.Mutex(m, 'mtx', clk, rst)

        def f():
            while True:
                while not g:
                    pass
                mtx.lock()
                th0.run(a)
                th0.join()
                v.value = th0.ret()
                th0.reset()
                mtx.unlock()
                ev.value = 1
                ev.value = 0

        def f1():
            while True:
                while not g1:
                    pass
                mtx.lock()
                th0.run(a1)
                th0.join()
                v1.value = th0.ret()
                th0.reset()
                mtx.unlock()
                ev1.value = 1
                ev1.value = 0
        vthread.Thread(m, 'p1', clk, rst, f1, fsm_as_module=mod).start()
    elif form == 'grandchild':
        # the child itself runs and joins a thread
        nc = 2
        expect, argof = '(a+1)*3*2', 'c==0?a:a+1'
        h1, sc1, ec1, ca1 = child_fn(m, 1)

        def c1(x):
            ca1.value = x
            sc1.value += 1
            while h1:
                pass
            ec1.value += 1
            return x * 3
        th1 = vthread.Thread(m, 'c1', clk, rst, c1, fsm_as_module=mod)

        def c0g(x):
            ca.value = x
            sc.value += 1
            th1.run(x + 1)
            while h:
                pass
            th1.join()
            r = th1.ret()
            th1.reset()
            ec.value += 1
            return r * 2
        th0 = vthread.Thread(m, 'c0g', clk, rst, c0g, fsm_as_module=mod)

        def f():
            while True:
                while not g:
                    pass
                th0.run(a)
                th0.join()
                v.value = th0.ret()
                th0.reset()
                ev.value = 1
                ev.value = 0
    vthread.Thread(m, 'p0', clk, rst, f, fsm_as_module=mod).start()
    finish_runjoin(res, m, 'runjoin %s mod=%d' % (form, mod), 'run/join (%s)' % form, np_, nc, na, expect, uses, argof, form == 'shared child')


def finish_runjoin(res, m, key, what, np_, nc, na, expect, uses, argof, shared_child=False):
    cpp = RUNJOIN.replace('SETP', case('', np_, 'T->g#=g; T->a#=a; break;')).replace('SETH', case('', nc, 'T->h#=h; break;'))
    for n, s in (('EVP', 'ev'), ('VALP', 'v')):
        cpp = cpp.replace(n, case('', np_, 'return T->%s#;' % s))
    for n, s in (('SCNT', 'sc'), ('ECNT', 'ec'), ('CARG', 'ca')):
        cpp = cpp.replace(n, case('', nc, 'return T->%s#;' % s))
    cpp = cpp.replace('EXPECT', expect).replace('USES', uses).replace('ARGOF', argof)
    if shared_child:    # several parents request the one child: count the requests, arguments are judged by the results
        cpp = cpp.replace('e.run[k]=1; e.ca[k]=argof(t,k,x-1);', 'e.run[k]++;').replace('if(s && carg(k)!=e.ca[k])', 'if(0)')
        cpp = cpp.replace('e.run[k]=e.ca[k]=e.fin[k]=0;', 'e.run[k]--; e.fin[k]--;')
    rtl.explore(res, key, what, m.to_verilog(), cpp, defines=['NP=%d' % np_, 'NC=%d' % nc, 'NA=%d' % na], must_complete=False, max_states=1500000 if Q else 12000000)


def pool(res, it):
    _, form, n, mod = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    g, a = m.Input('g0'), m.Input('a0', 3)
    ev, v = m.OutputReg('ev0', initval=0), m.OutputReg('v0', 8, initval=0)
    sigs = [child_fn(m, k) for k in range(n)]
    if n == 2:
        (h0, sc0, ec0, ca0), (h1, sc1, ec1, ca1) = sigs
    else:
        (h0, sc0, ec0, ca0), (h1, sc1, ec1, ca1), (h2, sc2, ec2, ca2) = sigs

    def w0(x):
        ca0.value = x
        sc0.value += 1
        while h0:
            pass
        ec0.value += 1
        return x * 2 + 1

    def w1(x):
        ca1.value = x
        sc1.value += 1
        while h1:
            pass
        ec1.value += 1
        return x * 2 + 1

    def w2(x):
        ca2.value = x
        sc2.value += 1
        while h2:
            pass
        ec2.value += 1
        return x * 2 + 1
    ths = [vthread.Thread(m, 'w%d' % k, clk, rst, w, fsm_as_module=mod) for k, w in enumerate((w0, w1, w2)[:n])]
    pl = vthread.to_thread_pool(*ths)
    if form == 'all':
        na = 2
        expect = '+'.join('(2*(a+%d)+1)' % k for k in range(n))
        uses, argof = 'true', 'a+c'

        def f():
            while True:
                while not g:
                    pass
                for t in range(n):
                    pl.run(t, a + t)
                s = 0
                for t in range(n):
                    pl.join(t)
                    s += pl.ret(t)
                for t in range(n):
                    pl.reset(t)
                v.value = s
                ev.value = 1
                ev.value = 0
    else:        # one worker chosen by the input
        na = n
        expect, uses, argof = '2*(a+3)+1', '(T->a0==c)', 'a+3'

        def f():
            while True:
                while not g:
                    pass
                pl.run(a, a + 3)
                while not pl.done(a):
                    pass
                pl.join(a)
                v.value = pl.ret(a)
                pl.reset(a)
                ev.value = 1
                ev.value = 0
    vthread.Thread(m, 'p0', clk, rst, f).start()
    cppuses = uses
    if form != 'all':
        cppuses = '(T->a0==c)'
    finish_runjoin(res, m, 'pool %s %d mod=%d' % (form, n, mod), 'thread pool of %d (%s)' % (n, form), 1, n, na, expect, cppuses, argof)


# ---------------------------------------------------------------------------
STARTPOOL = r'''
struct Env { uint8_t seen; };
static void env_init(Env&e){}
static void idle(){ T->h=0; }
static int nchoices(Env&){ return 4; }
static bool drive(Env&e,int c){ T->h=c; return true; }
static bool check(Env&e,int c){ if(e.seen&~T->st) FAIL("a pool thread started twice"); e.seen|=T->st; if(T->en&~T->st) FAIL("end before start");
 if(T->en && ((T->arg^2)&T->en)) FAIL("arguments give %d, expected 2",T->arg);
 return true; }
static bool goal(Env&e){ return T->en==3; }
static void show(Env&e,int c,int i){ printf("%2d h=%d started %d ended %d arg %d\n",i,T->h,T->st,T->en,T->arg); }
'''


def startpool(res, it):
    """ThreadPool.start: independent threads of one function"""
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    h = m.Input('h', 2)
    started, ended = vthread.Shared(m.OutputReg('st', 2, initval=0)), vthread.Shared(m.OutputReg('en', 2, initval=0))
    arg = vthread.Shared(m.OutputReg('arg', 2, initval=0))

    def w(tid, x, y=3):
        started.write(1 - started.value[tid], tid)
        arg.write(x + y, tid)
        while h[tid]:
            pass
        ended.write(1, tid)
    pl = vthread.ThreadPool(m, 'pl', clk, rst, w, 2)
    pl.start(0, 0, 5)
    pl.start(1, 1, 6)
    rtl.explore(res, 'startpool', 'ThreadPool.start', m.to_verilog(), STARTPOOL, must_complete=False)


def items():
    out = []
    for kind, nt, style, nop in (('Mutex', 2, 'lock', 2), ('Mutex', 3, 'lock', 1), ('Lock', 2, 'acquire', 2), ('Mutex1', 2, 'lock', 2),
                                 ('Mutex2', 3, 'acquire', 1), ('Mutex1', 3, 'lock', 1), ('Mutex1', 3, 'acquire', 2), ('RAM', 2, 'lock', 2), ('FIFO', 2, 'lock', 2), ('Shared', 2, 'lock', 2), ('Mutex', 1, 'lock', 2)):
        out.append(('mutex', kind, nt, style, nop, False))
    out.append(('mutex', 'Mutex', 2, 'lock', 2, True))
    # a thread that does not hold the mutex also calls unlock
    out.append(('mutex', 'Mutex', 2, 'lock', 3, False))
    if not Q:
        out.append(('mutex', 'Mutex', 3, 'lock', 2, False))
        out.append(('mutex', 'Mutex', 4, 'lock', 1, False))
        out.append(('mutex', 'Mutex', 3, 'acquire', 2, True))
    for nt in (1, 2, 3, 4):
        out.append(('barrier', nt, False))
    out.append(('barrier', 2, True))
    if not Q:
        out += [('barrier', 3, True), ('barrier', 5, False)]
    out += [('shared', 2, 'bit'), ('shared', 2, 'range'), ('shared', 1, 'bit')]
    for f in ('basic', 'keyword', 'done', 'two sites', 'expression', 'two children', 'two parents', 'shared child', 'grandchild'):
        out.append(('runjoin', f, False))
    out += [('runjoin', 'basic', True), ('runjoin', 'two children', True)]
    for form in ('all', 'one'):
        out += [('pool', form, 2, False), ('pool', form, 3, False)]
    out.append(('pool', 'all', 2, True))
    out.append(('startpool',))
    return out


@rtl.guarded
def one(res, it):
    {'mutex': mutex, 'barrier': barrier, 'shared': shared, 'runjoin': runjoin, 'pool': pool, 'startpool': startpool}[it[0]](res, it)


def main():
    c = Check('C08')
    its = items()
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c08'):
        c.absorb(r)
    c.assumptions = ['every thread is gated by free inputs, so all relative timings of the operations are enumerated (states/transitions of the emitted RTL, Verilator); '
                     'a child thread is run again only after reset']
    c.finish()


if __name__ == '__main__':
    main()
