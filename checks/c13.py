"""C13: AXI slave registers, for every master schedule: linearizability against reference registers."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import Check, pmap, tier  # noqa
import rtl  # noqa
import veriloggen as vg  # noqa
import veriloggen.thread as vthread  # noqa
import veriloggen.types.axi as axi  # noqa

Q = tier() == 'quick'

# Abstract register file with the set of all states reachable by some order of
# the operations in progress (each takes effect between its first accepted beat
# and its completion).  A design is wrong when the set becomes empty.
CPP = r'''
#include <algorithm>
#define NS 48
struct S { uint8_t r[NR], f[NR], v[NR], ta[NT], tv[NT], na, nq, q[4]; };
static bool lt(const S&a,const S&b){ return memcmp(&a,&b,sizeof(S))<0; }
struct Txn { uint8_t a, n, aw, wp, o; uint8_t pad; };
struct Rd { uint8_t a, n, ar, o, id; };
struct Env { Txn w[2]; Rd rd[2]; uint8_t nw, nr, wh, bh; uint8_t rp, rh, rv, rl; uint8_t ts[NT], ev[NT], stuck[NT]; uint8_t n, aid; S s[NS]; };
struct TOp { int k, a, v, rv, pol; };   // k: 1 read 2 write 3 write_flag 4 wait 5 wait_flag
static const TOp TO[NT][NOP]={ TOPS };
struct WOp { int a, n, d, st; }; static const WOp WO[]={ WOPS };
struct ROp { int a, n; }; static const ROp RO[]={ ROPS };
#define DATA(o,b) ((WO[o].d+(b)*DINC)&3)
#define SP(v) ((v)*SPREAD)
static void env_init(Env&e){ e.n=1; }
static void setg(int t,int v){ switch(t){ GP } }
static int ev(int t){ switch(t){ EP } return 0; }
static uint32_t ov(int t){ switch(t){ OP } return 0; }
static void idle(){ for(int t=0;t<NT;t++) setg(t,0); T->P_awvalid=0; T->P_awaddr=0; T->P_wvalid=0; T->P_wdata=SP(2); T->P_wstrb=(1<<BB)-1; T->P_bready=0; T->P_arvalid=0; T->P_araddr=0; T->P_rready=0; FULLIDLE }
static int nchoices(Env&e){ int n=(NWO+1)*2*2*2*2*(NRO+1); for(int t=0;t<NT;t++) n*=NOP+1; return n; }
static bool drive(Env&e,int c){
  int wn=c%(NWO+1); c/=NWO+1; int pa=c&1; c>>=1; int pw=c&1; c>>=1; int br=c&1; c>>=1; int rr=c&1; c>>=1; int rn=c%(NRO+1); c/=NRO+1;
  if(wn){ if(e.nw==MAXW) return false; Txn&x=e.w[e.nw++]; x.o=wn-1; x.a=WO[wn-1].a; x.n=WO[wn-1].n; if(!pa&&!pw) return false; }
  // address
  int i=0; while(i<e.nw && e.w[i].aw==2) i++;
  if(i<e.nw){ if(e.w[i].aw==1){ if(!pa) return false; } else if(pa) e.w[i].aw=1; } else if(pa) return false;
  if(i<e.nw && e.w[i].aw==1){ T->P_awvalid=1; T->P_awaddr=e.w[i].a*BB; FULLAW } 
  int j=0; while(j<e.nw && e.w[j].wp==e.w[j].n) j++;
  if(j<e.nw){ if(e.wh){ if(!pw) return false; } } else if(pw) return false;
  if(WONLYAFTER && pw && e.w[j].aw!=2) return false;
  if(pw){ e.wh=1; Txn&x=e.w[j]; T->P_wvalid=1; T->P_wdata=SP(DATA(x.o,x.wp)); T->P_wstrb=WO[x.o].st; FULLW }
  if(br && !e.nw && !RFREE) return false; T->P_bready=br;
  if(e.nr && e.rd[e.nr-1].ar==1){ if(rn!=e.rd[e.nr-1].o+1) return false; } else if(rn){ if(e.nr==MAXR) return false; Rd&y=e.rd[e.nr++]; y.ar=1; y.o=rn-1; y.a=RO[rn-1].a; y.n=RO[rn-1].n; e.aid^=1; y.id=e.aid+1; }
  if(rn){ Rd&y=e.rd[e.nr-1]; T->P_arvalid=1; T->P_araddr=y.a*BB; FULLAR }
  if(rr && e.nr==0 && !RFREE) return false; T->P_rready=rr;
  for(int t=0;t<NT;t++){ int o=c%(NOP+1); c/=NOP+1; if(e.ts[t]){ if(o!=e.ts[t]) return false; } else { if(o && TO[t][o-1].k==0) return false; if(o && e.ev[t]) return false; e.ts[t]=o; } setg(t,o); }
  return true; }
static void put(S*a,int&n,S x){ for(int i=0;i<n;i++) if(!memcmp(&a[i],&x,sizeof(S))) return; if(n<4*NS) a[n++]=x; }
static bool check(Env&e,int c){
  static S a[4*NS]; int n=e.n; memcpy(a,e.s,sizeof(S)*n);
  // completions: decided before this cycle
  if(T->P_bvalid){ Txn&x=e.w[0]; if(!e.nw || x.aw!=2 || x.wp!=x.n) FAIL("write response without a completed write");
    if(!e.bh){ int m=0; for(int i=0;i<n;i++) if(a[i].na>=x.n){ S s=a[i]; s.na-=x.n; put(a,m,s); } n=m; e.bh=1; }
    if(T->P_bresp) FAIL("bresp is %d",T->P_bresp); }
  else if(e.bh) FAIL("bvalid dropped before bready");
  if(T->P_rvalid){ if(!e.nr || e.rd[0].ar!=2) FAIL("read data without a read request"); int v=T->P_rdata, l=RLAST;
    if(e.rh){ if(v!=e.rv*SPREAD||l!=e.rl) FAIL("read data changed before rready"); }
    else { if(v%SPREAD || v/SPREAD>3) FAIL("read data is %x",v); v/=SPREAD; if(T->P_rresp) FAIL("rresp is %d",T->P_rresp); if(l!=(e.rp+1==e.rd[0].n)) FAIL("rlast is %d on beat %d of %d",l,e.rp+1,e.rd[0].n);
      int m=0; for(int i=0;i<n;i++) if(a[i].nq && a[i].q[0]==v){ S s=a[i]; s.nq--; s.q[0]=s.q[1]; s.q[1]=s.q[2]; s.q[2]=s.q[3]; s.q[3]=0; put(a,m,s); } 
      if(!m) FAIL("beat %d of the read of register %d returned %d, not a value the register can have",e.rp+1,e.rd[0].a,v);
      n=m; e.rv=v; e.rl=l; e.rh=1; } RIDCHK }
  else if(e.rh) FAIL("rvalid dropped before rready");
  for(int t=0;t<NT;t++){ int v=ev(t); if(v && !e.ev[t]){ if(!e.ts[t]) FAIL("thread %d finished an operation it was not asked for",t);
      const TOp&o=TO[t][e.ts[t]-1]; int m=0; for(int i=0;i<n;i++) if(a[i].ta[t]){ S s=a[i]; if(o.k==1 && ov(t)!=(uint32_t)SP(s.tv[t])) continue; s.ta[t]=s.tv[t]=0; put(a,m,s); }
      if(!m) FAIL("thread %d: operation %d on register %d completed (value %x) but no order of the operations explains it",t,o.k,o.a,ov(t));
      n=m; e.ts[t]=0; e.stuck[t]=0; }
    e.ev[t]=v; }
  if(!n) FAIL("no order of the operations explains the write response");
  // this cycle's handshakes
  int raised_w=0; { int i=0; while(i<e.nw && e.w[i].aw==2) i++; if(T->P_awvalid && T->P_awready) e.w[i].aw=2; }
  { int j=0; while(j<e.nw && e.w[j].wp==e.w[j].n) j++; if(T->P_wvalid && T->P_wready){ e.w[j].wp++; e.wh=0; } }
  if(T->P_bvalid && T->P_bready){ e.w[0]=e.w[1]; memset(&e.w[1],0,sizeof(Txn)); e.nw--; e.bh=0; }
  if(T->P_arvalid && T->P_arready){ e.rd[e.nr-1].ar=2; }
  if(T->P_rvalid && T->P_rready){ e.rp++; e.rh=0; e.rv=0; e.rl=0; if(e.rp==e.rd[0].n){ e.rp=0; e.rd[0]=e.rd[1]; memset(&e.rd[1],0,sizeof(Rd)); e.nr--; } }
  // closure: apply any operation in progress
  int first=e.nw && e.bh ? e.w[0].n : 0;   // responded beats already removed
  int nacc=0; uint8_t ad[8], ao[8], ab[8], am[8];
  for(int x=0;x<e.nw;x++){ if(x==0 && e.bh) continue; for(int b=0;b<e.w[x].wp;b++){ ad[nacc]=(e.w[x].a+b); ao[nacc]=e.w[x].o; ab[nacc]=b; nacc++; } }
  (void)first;
  for(int i=0;i<n;i++){
    if(a[i].na<nacc){ S s=a[i]; int r=ad[s.na]&AM, d=DATA(ao[s.na],ab[s.na]); if(WO[ao[s.na]].st!=(1<<BB)-1){ STRB } if(r<NR) s.r[r]=d; s.na++; put(a,n,s); }
    { int k=e.rp+(e.rh?1:0)+a[i].nq, x=0; while(x<e.nr && e.rd[x].ar==2 && k>=e.rd[x].n) k-=e.rd[x++].n; if(x<e.nr && e.rd[x].ar==2 && a[i].nq<4){ S s=a[i]; int r=(e.rd[x].a+k)&AM; s.q[s.nq++]=s.r[r]; if(s.f[r]){ s.r[r]=s.v[r]; s.f[r]=0; s.v[r]=0; } put(a,n,s); } }
    for(int t=0;t<NT;t++) if(e.ts[t] && !a[i].ta[t]){ const TOp&o=TO[t][e.ts[t]-1]; S s=a[i]; int r=o.a;
      if(o.k>=4 && (s.r[r]==o.v)!=o.pol) continue;
      if(o.k==1) s.tv[t]=s.r[r]; else if(o.k==2){ s.r[r]=o.v; s.f[r]=0; s.v[r]=0; } else if(o.k==3){ s.r[r]=o.v; s.f[r]=1; s.v[r]=o.rv; } else if(o.k==5) s.r[r]=o.rv;
      s.ta[t]=1; put(a,n,s); }
    if(n>NS) FAIL("harness: state set too large"); }
  std::sort(a,a+n,lt); memset(e.s,0,sizeof e.s); memcpy(e.s,a,sizeof(S)*n); e.n=n;
  for(int t=0;t<NT;t++) if(e.ts[t]){ bool all=true; for(int i=0;i<n;i++) if(!a[i].ta[t]){ const TOp&o=TO[t][e.ts[t]-1]; if(o.k>=4 && (a[i].r[o.a]==o.v)!=o.pol) all=false; }
    if(all){ if(++e.stuck[t]>24) FAIL("thread %d does not finish operation %d on register %d although it can",t,TO[t][e.ts[t]-1].k,TO[t][e.ts[t]-1].a); } else e.stuck[t]=0; }
  return true; }
static bool goal(Env&e){ bool g=!e.nw && !e.nr; for(int t=0;t<NT;t++) if(e.ts[t]){ const TOp&o=TO[t][e.ts[t]-1]; if(o.k<4) g=false; else { bool w=false; for(int i=0;i<e.n;i++) if(!e.s[i].ta[t] && (e.s[i].r[o.a]==o.v)!=o.pol) w=true; if(!w) g=false; } } return g; }
static void show(Env&e,int c,int i){ printf("%2d AW%d/%d a=%d W%d/%d d=%x B%d/%d | AR%d/%d a=%d R%d/%d d=%x |",i,T->P_awvalid,T->P_awready,T->P_awaddr,T->P_wvalid,T->P_wready,T->P_wdata,T->P_bvalid,T->P_bready,T->P_arvalid,T->P_arready,T->P_araddr,T->P_rvalid,T->P_rready,T->P_rdata);
  for(int t=0;t<NT;t++) printf(" t%d op=%d ev=%d v=%x",t,e.ts[t],ev(t),ov(t)); printf(" | %d states, first r=",e.n); for(int k=0;k<NR;k++) printf(" %d%s",e.s[0].r[k],e.s[0].f[k]?"f":""); printf("\n"); }
'''

K = dict(r=1, w=2, wf=3, wait=4, waitf=5)


def expr(o, lite, dyn, pre=''):
    k, a = o[0], o[1]
    sp = SPREAD
    a = ('ad + %d' % a) if dyn else str(a)
    if k == 'r':
        return 'o.value = s.read(%s)' % a
    if k == 'w':
        return 's.write(%s, %d)' % (a, o[2] * sp)
    if k == 'wf':
        return 's.write_flag(%s, %d, %d)' % (a, o[2] * sp, o[3] * sp) if o[3] else 's.write_flag(%s, %d)' % (a, o[2] * sp)
    if k == 'wait':
        return 's.wait(%s, %d%s)' % (a, o[2] * sp, '' if o[3] else ', polarity=False')
    if k == 'waitf':
        return 's.wait_flag(%s, %d, %d%s)' % (a, o[2] * sp, o[3] * sp, '' if o[4] else ', polarity=False')
    raise ValueError(o)


SPREAD = 0x11


def mkthread(m, clk, rst, s, i, ops, dyn, mod):
    import importlib.util
    src = ['def f():', '    while True:', '        while g == 0:', '            pass']
    for j, o in enumerate(ops):
        src.append('        %s g == %d:' % ('elif' if j else 'if', j + 1))
        src.append('            ' + expr(o, 0, dyn))
    src += ['        e.value = 1', '        e.value = 0']
    fn = os.path.abspath('th_%d_%d.py' % (os.getpid(), i))
    open(fn, 'w').write('\n'.join(src) + '\n')
    sp = importlib.util.spec_from_file_location('th%d' % i, fn)
    mo = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mo)
    g, e, o = m.Input('g%d' % i, 3), m.OutputReg('e%d' % i, initval=0), m.OutputReg('o%d' % i, 32, initval=0)
    ad = m.Input('ad%d' % i, 3) if dyn else None
    th = vthread.Thread(m, 'th%d' % i, clk, rst, mo.f, fsm_as_module=mod)
    th.start()


def regs(res, name, c):
    lite, dw, nr, thr = c['lite'], c.get('dw', 8), c.get('nr', 2), c['thr']
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    mod = c.get('mod', False)
    kw = {}
    ids = c.get('ids', 0)
    if lite:
        s = vthread.AXISLiteRegister(m, 's', clk, rst, dw, 8, length=nr, fsm_as_module=mod)
    else:
        if ids:
            kw = dict(waddr_id_width=2, wresp_id_width=2, raddr_id_width=2, rdata_id_width=2)
        s = vthread.AXISRegister(m, 's', clk, rst, dw, 8, length=nr, fsm_as_module=mod, **kw)
    dyn = c.get('dyn', False)
    global SPREAD
    SPREAD = {8: 0x11, 16: 0x1011, 32: 0x10100011}[dw]
    for i, ops in enumerate(thr):
        # dynamic address: the port supplies 1, the program adds the offset
        mkthread(m, clk, rst, s, i, [(o[0], o[1] - (1 if dyn else 0)) + tuple(o[2:]) for o in ops], dyn, mod)
    nt, nop = max(1, len(thr)), max([1] + [len(o) for o in thr])
    bb = dw // 8

    def top(o):
        k = K[o[0]]
        v, rv, pol = 0, 0, 1
        if k in (2, 3):
            v = o[2]
        if k == 3:
            rv = o[3]
        if k == 4:
            v, pol = o[2], int(o[3])
        if k == 5:
            v, rv, pol = o[2], o[3], int(o[4])
        return '{%d,%d,%d,%d,%d}' % (k, o[1], v, rv, pol)
    tops = ', '.join('{' + ','.join(top(o) for o in (thr[t] if thr else [])) + '}' for t in range(nt)) if thr else '{{0,0,0,0,0}}'
    full = (1 << bb) - 1
    wops = ', '.join('{%d,%d,%d,%d}' % (w[0], w[1], w[2], w[3] if len(w) > 3 else full) for w in c['w']) or '{0,1,0,0}'
    rops = ', '.join('{%d,%d}' % tuple(r) for r in c['r']) or '{0,1}'
    sub = dict(
        GP=' '.join('case %d: T->g%d=v; %s break;' % (i, i, 'T->ad%d=1;' % i if dyn else '') for i in range(len(thr))) or 'default: break;',
        EP=' '.join('case %d: return T->e%d;' % (i, i) for i in range(len(thr))) or 'default: break;',
        OP=' '.join('case %d: return T->o%d&%s;' % (i, i, hex((1 << dw) - 1)) for i in range(len(thr))) or 'default: break;',
        TOPS=tops, WOPS=wops, ROPS=rops,
        FULLIDLE='' if lite else 'T->P_awlen=0; T->P_awsize=SZL; T->P_awburst=1; T->P_wlast=0; T->P_arlen=0; T->P_arsize=SZL; T->P_arburst=1;' + ('T->P_awid=0; T->P_arid=0;' if ids else ''),
        FULLAW='' if lite else 'T->P_awlen=e.w[i].n-1;' + ('T->P_awid=e.w[i].o+1;' if ids else ''),
        FULLW='' if lite else 'T->P_wlast=x.wp+1==x.n;',
        FULLAR='' if lite else 'T->P_arlen=y.n-1;' + ('T->P_arid=y.id;' if ids else ''),
        RLAST='e.rp+1==e.rd[0].n' if lite else 'T->P_rlast',
        RIDCHK='' if not ids else 'if(T->P_rid!=e.rd[0].id) FAIL("rid is %d, the request had %d",T->P_rid,e.rd[0].id);',
        STRB='uint32_t full=SP(s.r[r]), nw=SP(d), mk=0; for(int y=0;y<BB;y++) if(WO[ao[s.na]].st>>y&1) mk|=255u<<(8*y); full=(full&~mk)|(nw&mk); d=full%SPREAD==0&&full/SPREAD<4?full/SPREAD:9;')
    cpp = CPP
    if ids:
        cpp = cpp.replace('if(T->P_bresp)', 'if(T->P_bid!=x.o+1) FAIL("bid is %d, the request had %d",T->P_bid,x.o+1); if(T->P_bresp)')
    import re
    for k, v in sub.items():
        cpp = re.sub(r'\b%s\b' % k, lambda _: v, cpp)
    cpp = cpp.replace('T->P_', 'T->s_')
    mw = max(0, (nr - 1).bit_length())
    df = ['NR=%d' % nr, 'NT=%d' % nt, 'NOP=%d' % nop, 'NWO=%d' % len(c['w']), 'NRO=%d' % len(c['r']), 'BB=%d' % bb, 'SZL=%d' % (bb.bit_length() - 1),
          'SPREAD=%du' % SPREAD, 'AM=%d' % ((1 << mw) - 1), 'MAXW=%d' % c.get('maxw', 1), 'MAXR=%d' % c.get('maxr', 1), 'DINC=%d' % c.get('dinc', 1), 'RFREE=%d' % c.get('rfree', 0), 'WONLYAFTER=%d' % c.get('wafter', 0)]
    rtl.explore(res, name, '%s length=%d datawidth=%d threads=%s' % ('AXISLiteRegister' if lite else 'AXISRegister', nr, dw, thr), m.to_verilog(), cpp, defines=df, max_states=3000000)


def configs(t):
    C = {}
    W2, R2 = [(0, 1, 1), (1, 1, 2)], [(0, 1), (1, 1)]
    for lite in (1, 0):
        n = 'lite ' if lite else 'full '
        # the bus alone: concurrent reads and writes, all orders
        C[n + 'bus'] = dict(lite=lite, thr=[], w=W2, r=R2, maxw=2, maxr=2, rfree=1)
        C[n + 'bus mod'] = dict(lite=lite, thr=[], w=W2, r=R2, mod=True)
        C[n + 'bus dw32'] = dict(lite=lite, thr=[], w=[(0, 1, 3), (1, 1, 2)], r=R2, dw=32)
        C[n + 'bus nr4'] = dict(lite=lite, thr=[], w=[(3, 1, 3), (2, 1, 1)], r=[(3, 1), (2, 1)], nr=4, dw=16)
        C[n + 'bus nr3'] = dict(lite=lite, thr=[], w=[(2, 1, 3), (3, 1, 1)], r=[(2, 1), (0, 1)], nr=3)
        C[n + 'bus nr1'] = dict(lite=lite, thr=[], w=[(0, 1, 3)], r=[(0, 1)], nr=1)
        # thread against bus
        for dyn in (0, 1):
            d = ' dyn' if dyn else ''
            C[n + 'rw' + d] = dict(lite=lite, thr=[[('r', 0), ('w', 0, 2), ('w', 1, 3)]], w=[(0, 1, 1)], r=R2, dyn=dyn)
            C[n + 'flag' + d] = dict(lite=lite, thr=[[('wf', 0, 2, 1), ('wf', 1, 3, 0), ('r', 0)]], w=[], r=R2, dyn=dyn)
            C[n + 'flag w' + d] = dict(lite=lite, thr=[[('wf', 1, 2, 3), ('w', 1, 1)]], w=[(1, 1, 3)], r=[(1, 1)], dyn=dyn)
            C[n + 'wait' + d] = dict(lite=lite, thr=[[('wait', 1, 2, True), ('wait', 0, 0, False), ('r', 1)]], w=[(1, 1, 2), (0, 1, 1), (1, 1, 1)], r=[], dyn=dyn)
            C[n + 'waitflag' + d] = dict(lite=lite, thr=[[('waitf', 0, 1, 0, True), ('waitf', 1, 0, 0, False)]], w=[(0, 1, 1), (1, 1, 2)], r=R2, dyn=dyn)
            C[n + 'waitflag rv' + d] = dict(lite=lite, thr=[[('waitf', 1, 1, 3, True), ('r', 1)]], w=[(1, 1, 1)], r=[(1, 1)], dyn=dyn)
        C[n + 'waitflag other'] = dict(lite=lite, thr=[[('waitf', 0, 1, 0, True)]], w=[(0, 1, 1), (0, 1, 2)], r=[(0, 1)])
        C[n + 'two threads'] = dict(lite=lite, thr=[[('wf', 0, 1, 0), ('wait', 1, 1, True)], [('w', 1, 1), ('waitf', 0, 1, 2, True)]], w=[], r=[(1, 1)])
        C[n + 'waitflag race'] = dict(lite=lite, thr=[[('wf', 0, 1, 0)], [('waitf', 0, 1, 2, True)]], w=[], r=[(0, 1)])
        C[n + 'two threads bus'] = dict(lite=lite, thr=[[('wf', 0, 1, 2)], [('r', 0)]], w=[(0, 1, 3)], r=[(0, 1)])
        C[n + 'strobe'] = dict(lite=lite, thr=[], w=[(0, 1, 3), (0, 1, 1, 0)], r=[(0, 1)], dw=16)
    C['full burst'] = dict(lite=0, thr=[], w=[(0, 2, 1), (1, 1, 3)], r=[(0, 2), (1, 1)])
    C['full burst2'] = dict(lite=0, thr=[], w=[(0, 2, 2), (1, 2, 1)], r=[(0, 4)], nr=4, maxw=2, maxr=2)
    C['full burst nr4'] = dict(lite=0, thr=[], w=[(0, 4, 1), (1, 3, 2)], r=[(0, 4), (2, 2)], nr=4, dw=16)
    C['full burst flag'] = dict(lite=0, thr=[[('wf', 0, 2, 1), ('wf', 1, 3, 0)]], w=[(0, 2, 1)], r=[(0, 2)])
    C['full burst wait'] = dict(lite=0, thr=[[('wait', 1, 2, True), ('r', 0)]], w=[(0, 2, 1)], r=[(0, 2)])
    C['full ids'] = dict(lite=0, thr=[], w=W2, r=R2, ids=1, maxr=2, maxw=2)
    C['full ids burst'] = dict(lite=0, thr=[], w=[(0, 2, 1)], r=[(0, 2), (1, 1)], ids=1)
    if t == 'thorough':
        for n in list(C):
            if n.split(' ', 1)[1] in ('rw', 'flag', 'flag w', 'waitflag', 'waitflag rv', 'burst flag', 'burst wait'):
                C[n + ' deep'] = dict(C[n], maxw=2, maxr=2)
                C[n + ' mod'] = dict(C[n], mod=True)
                C[n + ' dw32'] = dict(C[n], dw=32, nr=4)
    return C


@rtl.guarded
def one(res, it):
    regs(res, it, configs(tier())[it])


def main():
    c = Check('C13')
    its = list(configs(tier()))
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c13'):
        c.absorb(r)
    c.assumptions = ['emitted RTL (Verilator) composed with a master making every choice of order and spacing, up to 2 writes and one read outstanding; INCR bursts of full-width beats']
    c.finish()


if __name__ == '__main__':
    if len(sys.argv) > 1:
        os.makedirs('/tmp/x/c13', exist_ok=True)
        os.chdir('/tmp/x/c13')
        for n in configs('quick'):
            if sys.argv[1] in n:
                import time
                t = time.time()
                r = one(n)
                print(n, r['states'], r['transitions'], '%.1f' % (time.time() - t), [v[:2] for v in r['violations']] if len(sys.argv) > 2 else [(v[0], v[1][:200] + v[1][-150:]) for v in r['violations']])
    else:
        main()
