"""C09: FIFOs lose, duplicate and reorder nothing, and their flags are truthful."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import rtl

import veriloggen as vg
import veriloggen.thread as vthread
from veriloggen.types.fixed import FixedReg
from veriloggen.types.fifo import mkFifoDefinition

Q = tier() == 'quick'

PRIM = r'''
#define CC_(a,b) a##b
#define CC(a,b) CC_(a,b)
#define WP(x) CC(WPRE,x)
#define RP(x) CC(RPRE,x)
struct Env { uint8_t n, pend, last, q[16]; };
static const int CAP=(1<<AW)-1;
static void env_init(Env&e){}
static void idle(){ T->WP(enq)=0; T->RP(deq)=0; T->WP(wdata)=DM; T->RST=0; }
static int nchoices(Env&){ return 4*(DM+1)+1; }
static bool drive(Env&,int c){ if(c==4*(DM+1)){ T->RST=1; return true; } T->WP(enq)=c&1; T->RP(deq)=(c>>1)&1; if(!(c&1) && (c>>2)) return false; T->WP(wdata)=(c&1)?(c>>2):DM; return true; }
static bool check(Env&e,int c){
  if(T->WP(full)!=(e.n==CAP)) FAIL("full=%d with %d of %d words", T->WP(full), e.n, CAP);
  if(T->RP(empty)!=(e.n==0)) FAIL("empty=%d with %d words", T->RP(empty), e.n);
  if(T->WP(almost_full)!=(e.n>=CAP-1)) FAIL("almost_full=%d with %d of %d words", T->WP(almost_full), e.n, CAP);
  if(T->RP(almost_empty)!=(e.n<=1)) FAIL("almost_empty=%d with %d words", T->RP(almost_empty), e.n);
  if(SYNC && e.pend && T->RP(rdata)!=e.last) FAIL("dequeued %d, expected %d", T->RP(rdata), e.last);
  if(!SYNC && e.n && T->RP(rdata)!=e.q[0]) FAIL("head word is %d, expected %d", T->RP(rdata), e.q[0]);
  e.pend=0; e.last=0;
  if(c==4*(DM+1)){ memset(&e,0,sizeof e); return true; }
  int full=e.n==CAP;
  if(T->RP(deq) && e.n){ e.last=SYNC?e.q[0]:0; e.pend=SYNC; memmove(e.q,e.q+1,15); e.n--; e.q[e.n]=0; }
  if(T->WP(enq) && !full) e.q[e.n++]=T->WP(wdata);
  return true; }
static bool goal(Env&e){ return e.n==CAP; }
static void show(Env&e,int c,int i){ printf("%2d %s enq=%d wdata=%d deq=%d | contents=%d full=%d empty=%d afull=%d aempty=%d rdata=%d\n",i,c==4*(DM+1)?"reset":"",T->WP(enq),T->WP(wdata),T->RP(deq),e.n,T->WP(full),T->RP(empty),T->WP(almost_full),T->RP(almost_empty),T->RP(rdata)); }
'''


def prim(res, it):
    _, dw, aw, sync = it
    m = mkFifoDefinition('f', dw, aw, sync)
    rtl.explore(res, 'prim dw=%d aw=%d sync=%d' % (dw, aw, sync), 'FIFO primitive (datawidth %d, addrwidth %d, %s read)' % (dw, aw, 'registered' if sync else 'direct'),
                m.to_verilog(), PRIM, top='f', track_edges=True,
                defines=['WPRE=f_', 'RPRE=f_', 'AW=%d' % aw, 'DM=%d' % ((1 << dw) - 1), 'SYNC=%d' % int(sync)])


def ext(res, it):
    _, cname, w, r, sync = it
    dw, aw = 2, 2
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    f = getattr(vthread, cname)(m, 'f', clk, rst, dw, aw, sync=sync, external_write=w, external_read=r)
    if not w:
        e, wd, fu, af = m.Input('p_enq'), m.Input('p_wdata', dw), m.Output('p_full'), m.Output('p_almost_full')
        f.connect_enq_rtl(e, wd, fu, af)
    if not r:
        d, rd, em, ae = m.Input('p_deq'), m.Output('p_rdata', dw), m.Output('p_empty'), m.Output('p_almost_empty')
        f.connect_deq_rtl(d, rd, em, ae)
    rtl.explore(res, 'ext %s w=%d r=%d sync=%d' % (cname, w, r, sync), '%s with external_write=%s external_read=%s sync=%s' % (cname, w, r, sync),
                m.to_verilog(), PRIM, defines=['WPRE=%s' % ('f_' if w else 'p_'), 'RPRE=%s' % ('f_' if r else 'p_'),
                                               'AW=%d' % aw, 'DM=%d' % ((1 << dw) - 1), 'SYNC=%d' % int(sync)])


# FIFO object used from RTL: enq_rtl / deq_rtl with conditions, several callers
RTL = r'''
struct Env { uint8_t n, pend, last, q[16], ackp, ack; };
static const int CAP=(1<<AW)-1;
static void env_init(Env&e){}
static void idle(){ T->e0=0; T->e1=0; T->d0=0; T->d1=0; T->wd=DM; }
static int nchoices(Env&){ return 9*(DM+1); }
static bool drive(Env&,int c){ int e=c%3,d=(c/3)%3,v=c/9; T->e0=e==1; T->e1=e==2; T->d0=d==1; T->d1=d==2; if(!e&&v) return false; T->wd=e?v:DM; return true; }
static bool check(Env&e,int c){
  int en=T->e0|T->e1, de=T->d0|T->d1;
  if(T->count!=e.n) FAIL("count=%d with %d words", T->count, e.n);
  if(T->space!=CAP-e.n) FAIL("space=%d with %d of %d words", T->space, e.n, CAP);
  if(T->has1 && e.n+1>CAP) FAIL("has_space(1) with %d of %d words", e.n, CAP);
  if(T->has2 && e.n+2>CAP) FAIL("has_space(2) with %d of %d words", e.n, CAP);
  if(T->ready && e.n>=CAP) FAIL("enqueue ready while full");
  if(!T->ready && e.n==0 && CAP>1) FAIL("enqueue not ready while empty");
  if(T->rready!=(e.n>0)) FAIL("dequeue ready=%d with %d words", T->rready, e.n);
  if(e.ackp && T->ack!=e.ack) FAIL("ack=%d after ready=%d", T->ack, e.ack);
  if(T->empty!=(e.n==0)||T->full!=(e.n==CAP)||T->aempty!=(e.n<=1)||T->afull!=(e.n>=CAP-1)) FAIL("flags empty=%d full=%d almost=%d,%d with %d of %d words",T->empty,T->full,T->aempty,T->afull,e.n,CAP);
  int v0=SYNC?(e.pend==1):(T->d0&&e.n), v1=SYNC?(e.pend==2):(T->d1&&e.n);
  if(T->valid0!=v0||T->valid1!=v1) FAIL("read valid=%d,%d expected %d,%d",T->valid0,T->valid1,v0,v1);
  int exp=SYNC?e.last:e.q[0];
  if((v0||v1) && T->rdata!=exp) FAIL("dequeued %d, expected %d", T->rdata, exp);
  e.pend=0; e.last=0; e.ackp=en; e.ack=en&&T->ready;
  int acc=en&&T->ready;
  if(de && e.n){ if(SYNC){ e.last=e.q[0]; e.pend=T->d0?1:2; } memmove(e.q,e.q+1,15); e.n--; e.q[e.n]=0; }
  if(acc) e.q[e.n++]=(T->e1? (T->wd^1)&DM : T->wd);
  return true; }
static bool goal(Env&e){ return e.n==(CAP>1?CAP-1:0); }
static void show(Env&e,int c,int i){ printf("%2d e0=%d e1=%d wd=%d d0=%d d1=%d | n=%d count=%d ready=%d rready=%d valid=%d,%d rdata=%d ack=%d\n",i,T->e0,T->e1,T->wd,T->d0,T->d1,e.n,T->count,T->ready,T->rready,T->valid0,T->valid1,T->rdata,T->ack); }
'''


def rtlapi(res, it):
    _, dw, aw, sync, form = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    e0, e1, d0, d1 = [m.Input(n) for n in ('e0', 'e1', 'd0', 'd1')]
    wd = m.Input('wd', dw)
    cls = vthread.FixedFIFO if form == 'fixed' else vthread.FIFO
    f = cls(m, 'f', clk, rst, dw, aw, sync=sync)
    if form == 'connect':
        rdy = m.Wire('rdy')
        rdy.assign(vg.Not(f.almost_full))
        f.connect_enq_rtl(vg.Land(vg.Lor(e0, e1), rdy), vg.Mux(e1, wd ^ 1, wd))
        rd, emp = m.Wire('rd_', dw), m.Wire('em_')
        f.connect_deq_rtl(vg.Lor(d0, d1), rd, emp)
        rr = m.Wire('rr_')
        rr.assign(vg.Not(emp))
        s = vg.Seq(m, 'obs', clk, rst)
        if sync:
            v0, v1 = s.Prev(vg.Land(d0, rr), 1), s.Prev(vg.Land(d1, rr), 1)
        else:
            v0, v1 = vg.Land(d0, rr), vg.Land(d1, rr)
        ack = s.Prev(rdy, 1)
        data = rd
    else:
        ack, rdy = f.enq_rtl(wd, cond=e0)
        f.enq_rtl(wd ^ 1, cond=e1)
        data, v0, rr = f.deq_rtl(cond=d0)
        _, v1, _ = f.deq_rtl(cond=d1)
    for n, w, v in (('ready', None, rdy), ('ack', None, ack), ('rdata', dw, data), ('valid0', None, v0), ('valid1', None, v1), ('rready', None, rr),
                    ('count', aw + 1, f.count), ('space', aw + 1, f.space), ('has1', None, f.has_space(1)), ('has2', None, f.has_space(2)),
                    ('empty', None, f.empty), ('full', None, f.full), ('aempty', None, f.almost_empty), ('afull', None, f.almost_full)):
        m.Output(n, w).assign(v)
    rtl.explore(res, 'rtl dw=%d aw=%d sync=%d %s' % (dw, aw, sync, form), 'FIFO used from RTL (%s, datawidth %d, addrwidth %d, sync=%s)' % (form, dw, aw, sync),
                m.to_verilog(), RTL, defines=['AW=%d' % aw, 'DM=%d' % ((1 << dw) - 1), 'SYNC=%d' % int(sync)])


# threads; every thread waits for its gate input before each operation, so that
# the explorer chooses all relative timings; ev* are pulses seen by the monitor
THREAD = r'''
struct Env { uint8_t n, q[16], din[2], off[2], early[2], nzero, nfree, prog, lastp[2], lastc, empz, wasn; };
static const int CAP=(1<<AW)-1;
static void env_init(Env&e){ e.nfree=1; e.empz=1; }
static void idle(){ T->gp=0; T->gp2=0; T->gc=0; T->din=0; T->din2=0; }
static int nchoices(Env&){ return 1<<(2+(NP>1)+2*1); }
static bool drive(Env&e,int c){ T->gc=c&1; T->gp=(c>>1)&1; T->gp2=NP>1?(c>>2)&1:0; 
  // new data for a producer may only be chosen while it is not offering
  int nd=c>>(2+(NP>1)); 
  if(!NEWDATA && nd) return false; if(NP>1){ if(nd&1) {} } else if(nd>1) return false;
  T->din=e.din[0]; T->din2=e.din[1]; return true; }
static bool pop(Env&e,int v){
  if(e.n){ if(e.q[0]==v){ memmove(e.q,e.q+1,15); e.n--; e.q[e.n]=0; return true; } }
  // not yet acknowledged to the producer but already stored
  if(!e.n || NP>1) for(int p=0;p<NP;p++) if(!e.early[p] && e.din[p]==v && !e.n){ e.early[p]=1; return true; }
  return false; }
static bool check(Env&e,int c){
  int ep[2]={T->evp,NP>1?T->evp2:0}; int nd=c>>(2+(NP>1));
  for(int p=0;p<NP;p++){
    if(ep[p] && !e.lastp[p]){       // event: 1 = refused, 2 = stored
      if(ep[p]==2){ if(e.early[p]) e.early[p]=0; else { if(e.n>=CAP) FAIL("accepted a word beyond capacity %d",CAP); e.q[e.n++]=e.din[p]; } e.prog|=1; }
      else { if(e.early[p]) FAIL("try_enq reported failure but the word was delivered"); if(e.nfree && CAP>2) FAIL("try_enq failed with free space"); }
      e.din[p]=(nd>>p)&1; e.nfree = e.n<=CAP-2; }
    e.lastp[p]=ep[p]!=0; }
  int ec=T->evc;
  if(ec && !e.lastc){
    if(ec==2){ if(!pop(e,T->got)) FAIL("delivered %d, oldest stored word is %d (of %d)",T->got,e.n?e.q[0]:-1,e.n); e.prog|=2; }
    else if(ec==1){ if(e.nzero) FAIL("reported empty/failure although a word was stored"); }
    else if(ec==3){ if(!e.nzero && e.empz) FAIL("reported not empty although empty all the time"); }
    e.nzero=e.n>0; e.empz=1; }
  e.lastc=ec!=0;
  if(e.n) e.empz=0; for(int p=0;p<NP;p++) e.empz=0;
  if(e.prog==3 && e.wasn){ e.prog=0; e.wasn=0; } else e.wasn=(e.prog==3);
  return true; }
static bool goal(Env&e){ return e.wasn; }
static void show(Env&e,int c,int i){ printf("%2d gp=%d gp2=%d gc=%d din=%d,%d | evp=%d evp2=%d evc=%d got=%d stored=%d\n",i,T->gp,T->gp2,T->gc,e.din[0],e.din[1],T->evp,NP>1?T->evp2:0,T->evc,T->got,e.n); }
'''


def threads(res, it):
    _, kind, aw, sync, mod = it
    dw = 2
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    gp, gp2, gc = m.Input('gp'), m.Input('gp2'), m.Input('gc')
    din, din2 = m.Input('din'), m.Input('din2')
    evp, evp2, evc = m.OutputReg('evp', 2, initval=0), m.OutputReg('evp2', 2, initval=0), m.OutputReg('evc', 2, initval=0)
    if kind.startswith('fixed'):
        f = vthread.FixedFIFO(m, 'f', clk, rst, 4, aw, point=1, sync=sync)
        got = FixedReg(m, 'got_', 4, point=1, initval=0)
        m.Output('got', dw).assign(got.int_part)
    else:
        f = vthread.FIFO(m, 'f', clk, rst, dw, aw, sync=sync)
        got = m.OutputReg('got', dw, initval=0)

    def prod():
        while True:
            while not gp:
                pass
            f.enq(din)
            evp.value = 2
            evp.value = 0

    def prod2():
        while True:
            while not gp2:
                pass
            f.enq(din2)
            evp2.value = 2
            evp2.value = 0

    def prod_lock():
        while True:
            while not gp:
                pass
            f.lock()
            f.enq(din)
            evp.value = 2
            f.unlock()
            evp.value = 0

    def prod2_lock():
        while True:
            while not gp2:
                pass
            f.lock()
            f.enq(din2)
            evp2.value = 2
            f.unlock()
            evp2.value = 0

    def prod_try():
        while True:
            while not gp:
                pass
            ok = f.try_enq(din)
            if ok:
                evp.value = 2
            else:
                evp.value = 1
            evp.value = 0

    def prod_chk():
        while True:
            while not gp:
                pass
            if f.is_almost_full():
                evp.value = 1
            else:
                f.enq(din)
                evp.value = 2
            evp.value = 0

    def cons():
        while True:
            while not gc:
                pass
            got.value = f.deq()
            evc.value = 2
            evc.value = 0

    def cons_try():
        while True:
            while not gc:
                pass
            v, ok = f.try_deq()
            got.value = v
            if ok:
                evc.value = 2
            else:
                evc.value = 1
            evc.value = 0

    def cons_chk():
        while True:
            while not gc:
                pass
            if f.is_empty():
                evc.value = 1
            else:
                got.value = f.deq()
                evc.value = 2
            evc.value = 0

    kinds = dict(block=(prod, None, cons), trydeq=(prod, None, cons_try), tryenq=(prod_try, None, cons),
                 tryboth=(prod_try, None, cons_try), flags=(prod_chk, None, cons_chk), lock=(prod_lock, prod2_lock, cons_try),
                 fixed=(prod, None, cons), fixedtry=(prod_try, None, cons_try), lockdeq=(prod_lock, prod2_lock, cons))
    p, p2, c = kinds[kind]
    for i, fn in enumerate((p, p2, c)):
        if fn is not None:
            t = vthread.Thread(m, 'th%d' % i, clk, rst, fn, datawidth=4, fsm_as_module=mod)
            t.start()
    rtl.explore(res, 'thread %s aw=%d sync=%d mod=%d' % (kind, aw, sync, mod), 'thread FIFO program %s (addrwidth %d, sync=%s, fsm_as_module=%s)' % (kind, aw, sync, mod),
                m.to_verilog(), THREAD, defines=['AW=%d' % aw, 'NP=%d' % (2 if p2 else 1), 'NEWDATA=1', 'SYNC=%d' % int(sync)],
                max_states=3000000)


def items():
    out = []
    for sync in (True, False):
        for dw, aw in [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3)] + ([] if Q else [(3, 2), (2, 3), (1, 4)]):
            out.append(('prim', dw, aw, sync))
        for form in ('cond', 'fixed', 'connect'):
            out.append(('rtl', 1, 2, sync, form))
            if form == 'cond' or not Q:
                out.append(('rtl', 2, 2, sync, form))
                if not Q:
                    out.append(('rtl', 1, 3, sync, form))
        out.append(('rtl', 2, 1, sync, 'cond'))
        for cname in ('FIFO', 'FixedFIFO'):
            for w, r in ((True, True), (True, False), (False, True)):
                out.append(('ext', cname, w, r, sync))
        for kind in ('block', 'trydeq', 'tryenq', 'tryboth', 'flags', 'lock', 'fixed', 'fixedtry', 'lockdeq'):
            out.append(('thread', kind, 2, sync, False))
            if not Q:
                out.append(('thread', kind, 3, sync, False))
        out.append(('thread', 'tryboth', 2, sync, True))
    return out


@rtl.guarded
def one(res, it):
    {'prim': prim, 'rtl': rtlapi, 'ext': ext, 'thread': threads}[it[0]](res, it)


def main():
    c = Check('C09')
    its = items()
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c09'):
        c.absorb(r)
    c.assumptions = ['states/transitions of the emitted RTL (Verilator semantics) composed with an all-choices environment; thread programs are explored under every gate timing']
    c.finish()


if __name__ == '__main__':
    main()
