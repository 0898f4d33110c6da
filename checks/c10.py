"""C10: RAMs and ROMs return the last value written, on every port and bank."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import rtl
import iv

import veriloggen as vg
import veriloggen.thread as vthread
from veriloggen.types import ram as tram, rom as trom
from veriloggen.types.fixed import FixedReg

Q = tier() == 'quick'

# ---------------------------------------------------------------------------
# port-level monitor: every port, every cycle: idle / read a / write a v
PORT = r'''
struct Env { uint8_t mem[AN]; uint8_t rv[NP], rd[NP], alt[NP], ack[NP]; };
static void env_init(Env&e){ static const int iv[]={INITS}; for(int i=0;i<AN;i++) e.mem[i]=iv[i]; }
static void setp(int p,int en,int we,int a,int d){ switch(p){ SETP } }
static int getp(int p){ switch(p){ GETP } return 0; }
static int vldp(int p){ switch(p){ VLDP } return 0; }
static void idle(){ for(int p=0;p<NP;p++) setp(p,0,0,AN-1,DN-1); }
static const int PC=HASEN+AN+AN*DN;
static int nchoices(Env&){ int n=1; for(int p=0;p<NP;p++) n*=PC; return n; }
static void dec(int c,int*en,int*we,int*a,int*d){ for(int p=0;p<NP;p++){ int x=c%PC; c/=PC; en[p]=1; we[p]=0; a[p]=AN-1; d[p]=DN-1;
  if(HASEN){ if(!x){ en[p]=0; we[p]=EN0WE; continue; } x--; }
  if(x<AN) a[p]=x; else { x-=AN; we[p]=1; a[p]=x%AN; d[p]=x/AN; } } }
static bool drive(Env&e,int c){ int en[NP],we[NP],a[NP],d[NP]; dec(c,en,we,a,d);
  for(int p=0;p<NP;p++) for(int q=p+1;q<NP;q++) if(en[p]&&en[q]&&we[p]&&we[q]&&a[p]==a[q]) return false;
  for(int p=0;p<NP;p++) setp(p,en[p],we[p],a[p],d[p]); return true; }
static bool check(Env&e,int c){ int en[NP],we[NP],a[NP],d[NP]; dec(c,en,we,a,d);
  for(int p=0;p<NP;p++){
    if(SYNC){ int g=getp(p); if(e.rv[p] && g!=e.rd[p] && g!=e.alt[p]) FAIL("port %d reads %d, memory holds %d",p,g,e.rd[p]);
      if(HASVLD && vldp(p)!=e.ack[p]) FAIL("port %d read valid=%d, expected %d",p,vldp(p),e.ack[p]);
      if(e.rv[p]) e.rd[p]=e.alt[p]=g; }
    else { if((!HASEN||en[p]) && getp(p)!=e.mem[a[p]]) FAIL("port %d reads %d at %d, memory holds %d",p,getp(p),a[p],e.mem[a[p]]); }
  }
  if(SYNC) for(int p=0;p<NP;p++){
    e.ack[p]=HASVLD? (en[p]&&!we[p]) :0;
    if(en[p]&&!we[p]){ e.rv[p]=1; e.rd[p]=e.alt[p]=e.mem[a[p]]; for(int q=0;q<NP;q++) if(en[q]&&we[q]&&a[q]==a[p]) e.alt[p]=d[q]; }
    else if(en[p]){ e.rv[p]=0; e.rd[p]=e.alt[p]=0; }
    else if(!HOLD){ e.rv[p]=0; e.rd[p]=e.alt[p]=0; } }
  for(int p=0;p<NP;p++) if(en[p]&&we[p]) e.mem[a[p]]=d[p];
  return true; }
static bool goal(Env&){ return true; }
static void show(Env&e,int c,int i){ int en[NP],we[NP],a[NP],d[NP]; dec(c,en,we,a,d); printf("%2d",i); for(int p=0;p<NP;p++) printf(" | p%d en=%d we=%d a=%d d=%d rdata=%d",p,en[p],we[p],a[p],d[p],getp(p)); printf(" | mem"); for(int k=0;k<AN;k++) printf(" %d",e.mem[k]); printf("\n"); }
'''


def port_cpp(np_, an, dn, inits, sync, hasen, hold, hasvld, en0we=1, name='p%d_%s'):
    s = ''.join('case %d: T->%s=a; T->%s=d; T->%s=we; %s break; ' %
                (p, name % (p, 'addr'), name % (p, 'wdata'), name % (p, 'wenable'),
                 'T->%s=en;' % (name % (p, 'enable')) if hasen else '') for p in range(np_))
    g = ''.join('case %d: return T->%s; ' % (p, name % (p, 'rdata')) for p in range(np_))
    v = ''.join('case %d: return T->%s; ' % (p, name % (p, 'rvalid')) for p in range(np_)) if hasvld else ''
    c = PORT
    for a, b in (('INITS', ','.join(map(str, inits))), ('SETP', s), ('GETP', g), ('VLDP', v)):
        c = c.replace(a, b)
    return c, ['NP=%d' % np_, 'AN=%d' % an, 'DN=%d' % dn, 'SYNC=%d' % int(sync), 'HASEN=%d' % int(hasen),
               'HOLD=%d' % int(hold), 'HASVLD=%d' % int(hasvld), 'EN0WE=%d' % en0we]


def inits_for(kind, n, dw):
    full = [(i * 3 + 1) & ((1 << dw) - 1) for i in range(n)]
    if kind == 'none':
        return None, [0] * n
    if kind == 'full':
        return list(full), full
    if kind == 'short':
        return list(full[:n - 1]), full[:n - 1] + [0]
    if kind == 'vint':
        return [vg.Int(x) for x in full], full
    if kind == 'bin':
        return [vg.Int(bin(x)[2:], base=2) for x in full[:n - 1]], full[:n - 1] + [0]


def prim(res, it):
    """types.ram: definition and SyncRAM/AsyncRAM wrappers"""
    _, form, dw, aw, np_, sync, en, ik = it
    iv_, model = inits_for(ik, 1 << aw, dw)
    what = '%s RAM (%s, datawidth %d, addrwidth %d, %d ports, enable=%s, initvals %s)' % ('sync' if sync else 'async', form, dw, aw, np_, en, ik)
    key = 'prim %s dw=%d aw=%d np=%d sync=%d en=%d %s' % (form, dw, aw, np_, sync, en, ik)
    if form == 'def':
        d = tram.mkRAMDefinition('r', dw, aw, np_, iv_, sync, en)
        m = vg.Module('top')
        clk, rst = m.Input('CLK'), m.Input('RST')
        ports = [('CLK', clk)]
        for i in range(np_):
            for n, w in (('addr', aw), ('wdata', dw), ('wenable', None)) + ((('enable', None),) if en else ()):
                ports.append(('r_%d_%s' % (i, n), m.Input('p%d_%s' % (i, n), w)))
            ports.append(('r_%d_rdata' % i, m.Output('p%d_rdata' % i, dw)))
        m.Instance(d, 'u', ports=ports)
    else:
        m = vg.Module('top')
        clk, rst = m.Input('CLK'), m.Input('RST')
        cls = tram.SyncRAM if sync else tram.AsyncRAM
        r = cls(m, 'r', clk, dw, aw, np_, iv_, en)
        for i in range(np_):
            a, d, w = m.Input('p%d_addr' % i, aw), m.Input('p%d_wdata' % i, dw), m.Input('p%d_wenable' % i)
            e = m.Input('p%d_enable' % i) if en else None
            r.connect(i, a, d, w, e)
            m.Output('p%d_rdata' % i, dw).assign(r.rdata(i))
    cpp, defs = port_cpp(np_, 1 << aw, 1 << dw, model, sync, en, True, False)
    rtl.explore(res, key, what, m.to_verilog(), cpp, defines=defs, track_edges=False)


def flat_ram(m, clk, rst, kind, dw, aw, np_, ik=None):
    """a RAM object with a flat address space of aw bits"""
    iv_, model = inits_for(ik or 'none', 1 << aw, dw)
    if kind == 'RAM':
        return vthread.RAM(m, 'r', clk, rst, dw, aw, np_, initvals=iv_), model
    if kind == 'Fixed':
        return vthread.FixedRAM(m, 'r', clk, rst, dw, aw, np_, point=0), model
    if kind.startswith('MB'):
        n = int(kind[2:])
        return vthread.MultibankRAM(m, 'r', clk, rst, dw, aw - (n - 1).bit_length(), np_, numbanks=n), model
    if kind.startswith('TO'):
        n = int(kind[2:])
        rams = [vthread.RAM(m, 'r%d' % i, clk, rst, dw, aw - (n - 1).bit_length(), np_) for i in range(n)]
        return vthread.to_multibank_ram(rams), model
    if kind in ('NEST', 'NESTK'):
        rams = [vthread.MultibankRAM(m, 'r%d' % i, clk, rst, dw, aw - 2, np_, numbanks=2) for i in range(2)]
        return vthread.to_multibank_ram(rams, keep_hierarchy=kind == 'NESTK'), model
    raise KeyError(kind)


def obj(res, it):
    """RAM objects through connect_rtl or read_rtl/write_rtl"""
    _, kind, how, dw, aw, np_, ik = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    r, model = flat_ram(m, clk, rst, kind, dw, aw, np_, ik)
    for i in range(np_):
        a, d, w = m.Input('p%d_addr' % i, aw), m.Input('p%d_wdata' % i, dw), m.Input('p%d_wenable' % i)
        e = m.Input('p%d_enable' % i)
        o = m.Output('p%d_rdata' % i, dw)
        if how == 'connect':
            rd = m.Wire('rd%d' % i, dw)
            r.connect_rtl(i, a, d, w, rd, e)
            o.assign(rd)
        else:
            rd, rv = r.read_rtl(a, port=i, cond=vg.Land(e, vg.Not(w)))
            if how == 'split':   # two writers on one port with exclusive conditions
                r.write_rtl(a, d, port=i, cond=vg.Ands(e, w, a[0]))
                r.write_rtl(a, d, port=i, cond=vg.Ands(e, w, vg.Not(a[0])))
            else:
                r.write_rtl(a, d, port=i, cond=vg.Land(e, w))
            o.assign(rd)
            m.Output('p%d_rvalid' % i).assign(rv)
    cpp, defs = port_cpp(np_, 1 << aw, 1 << dw, model, True, True, how == 'connect', how != 'connect')
    rtl.explore(res, 'obj %s %s dw=%d aw=%d np=%d %s' % (kind, how, dw, aw, np_, ik), '%s via %s (datawidth %d, addrwidth %d, %d ports, initvals %s)' % (kind, how, dw, aw, np_, ik),
                m.to_verilog(), cpp, defines=defs, track_edges=False)


def extp(res, it):
    """RAM with external ports: port 1 is a module port, port 0 internal"""
    _, kind = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    cls = vthread.RAM if kind == 'RAM' else vthread.FixedRAM
    r = cls(m, 'p', clk, rst, 2, 1, 2, external_ports=(1,))
    a, d, w, e = m.Input('q_addr', 1), m.Input('q_wdata', 2), m.Input('q_wenable'), m.Input('q_enable')
    rd = m.Wire('rd', 2)
    r.connect_rtl(0, a, d, w, rd, e)
    m.Output('q_rdata', 2).assign(rd)
    cpp, defs = port_cpp(2, 2, 4, [0, 0], True, True, True, False, name='XX%d_%s')
    cpp = cpp.replace('XX0_', 'q_').replace('XX1_', 'p_1_')
    rtl.explore(res, 'ext ' + kind, '%s with an external port' % kind, m.to_verilog(), cpp, defines=defs, track_edges=False)


# ---------------------------------------------------------------------------
# threads: one or two threads, each performing a chosen operation per gate
THREAD = r'''
struct Env { uint8_t mem[AN]; uint8_t st[NT], op[NT], a[NT], d[NT], lastev[NT]; uint16_t ok[NT]; uint8_t done, gl; };
// st: 0 idle (gate closed), 1 offered/running
static void env_init(Env&e){ static const int iv[]={INITS}; for(int i=0;i<AN;i++) e.mem[i]=iv[i]; }
static void setg(int t,int g,int op,int a,int d){ switch(t){ SETG } }
static int ev(int t){ switch(t){ EVT } return 0; }
static int val(int t){ switch(t){ VALT } return 0; }
static void idle(){ for(int t=0;t<NT;t++) setg(t,0,0,0,0); }
// choice per thread: 0 = nothing, 1.. = start operation
static const int OC=1+AN+AN*DN;
static int nchoices(Env&e){ int n=1; for(int t=0;t<NT;t++) n*= e.st[t]?1:OC; return n; }
static bool drive(Env&e,int c){
  int op[NT],a[NT],d[NT],go[NT];
  for(int t=0;t<NT;t++){ go[t]=0; if(e.st[t]){ setg(t,1,e.op[t],e.a[t],e.d[t]); continue; }
    int x=c%OC; c/=OC; if(!x){ continue; } x--; go[t]=1; if(x<AN){ op[t]=0;a[t]=x;d[t]=0; } else { x-=AN; op[t]=1;a[t]=x%AN;d[t]=x/AN; } }
  for(int t=0;t<NT;t++) if(go[t]&&op[t]) for(int u=0;u<NT;u++) if(u!=t){
    if(go[u]&&op[u]&&a[u]==a[t]) return false; if(e.st[u]&&e.op[u]&&e.a[u]==a[t]) return false; }
  for(int t=0;t<NT;t++) if(go[t]){ e.st[t]=1; e.op[t]=op[t]; e.a[t]=a[t]; e.d[t]=d[t]; e.ok[t]=0; setg(t,1,op[t],a[t],d[t]); }
  for(int t=0;t<NT;t++) if(e.st[t]&&!e.op[t]){ if(go[t]) e.ok[t]|=1<<e.mem[e.a[t]];
     for(int u=0;u<NT;u++) if(u!=t&&e.st[u]&&e.op[u]&&e.a[u]==e.a[t]) e.ok[t]|=1<<e.d[u]; }
  return true; }
static bool check(Env&e,int c){
  e.gl=0;
  for(int t=0;t<NT;t++){ int v=ev(t);
    if(v&&!e.lastev[t]){ if(!e.st[t]) FAIL("thread %d finished an operation it was not given",t);
      if(e.op[t]==0){ if(!(e.ok[t]>>val(t)&1)) FAIL("thread %d read %d at address %d, memory holds %d",t,val(t),e.a[t],e.mem[e.a[t]]); }
      else e.mem[e.a[t]]=e.d[t];
      e.st[t]=0; e.op[t]=e.a[t]=e.d[t]=0; e.ok[t]=0; e.done|=1<<t; }
    e.lastev[t]=v; }
  if(e.done==(1<<NT)-1){ e.done=0; e.gl=1; }
  return true; }
static bool goal(Env&e){ return e.gl; }
static void show(Env&e,int c,int i){ printf("%2d",i); for(int t=0;t<NT;t++) printf(" | t%d %s %s a=%d d=%d ev=%d val=%d",t,e.st[t]?"busy":"idle",e.op[t]?"write":"read",e.a[t],e.d[t],ev(t),val(t)); printf("\n"); }
'''


def threads(res, it):
    _, kind, mode, dw, aw, nt, ik, mod = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    nb = None
    if kind.startswith('BANK'):          # bank access, any bank count: address = {addr, bank} as bank + n*addr
        nb = int(kind[4:])
        r = vthread.MultibankRAM(m, 'r', clk, rst, dw, aw, 2, numbanks=nb)
        an = nb << aw
        model = [0] * an
    elif kind == 'FixedInit':
        model = [(i * 3 + 1) & ((1 << (dw - 1)) - 1) for i in range(1 << aw)]
        r = vthread.FixedRAM(m, 'r', clk, rst, dw + 2, aw, 2, point=2, initvals=[float(x) for x in model])
        an = 1 << aw
    elif kind == 'FixedPt':
        r = vthread.FixedRAM(m, 'r', clk, rst, dw + 2, aw, 2, point=1)
        an, model = 1 << aw, [0] * (1 << aw)
    else:
        r, model = flat_ram(m, clk, rst, kind, dw, aw, 2, ik)
        an = 1 << aw
    fixed = kind.startswith('Fixed')
    setg, evs, vals = [], [], []
    for t in range(nt):
        g, op = m.Input('g%d' % t), m.Input('op%d' % t)
        a = m.Input('a%d' % t, 5)
        bk = m.Input('bk%d' % t, 3)
        d = m.Input('d%d' % t, dw)
        ev = m.OutputReg('ev%d' % t, initval=0)
        if kind in ('FixedInit', 'FixedPt'):
            v = FixedReg(m, 'v_%d' % t, dw + 2, point=r.point, initval=0)
            m.Output('v%d' % t, dw).assign(v.int_part)
        elif fixed:
            v = FixedReg(m, 'v_%d' % t, dw, point=0, initval=0)
            m.Output('v%d' % t, dw).assign(v.int_part)
        else:
            v = m.OutputReg('v%d' % t, dw, initval=0)
        setg.append('case %d: T->g%d=g; T->op%d=op; T->d%d=d; %s break;' %
                    (t, t, t, t, 'T->a%d=a/%d; T->bk%d=a%%%d;' % (t, nb, t, nb) if nb else 'T->a%d=a; T->bk%d=0;' % (t, t)))
        evs.append('case %d: return T->ev%d;' % (t, t))
        vals.append('case %d: return T->v%d;' % (t, t))
        port = 0 if mode == 'lock' else t

        nbk = getattr(r, 'numbanks', 1)
        sh = nbk.bit_length() - 1

        lo, hi = a & (nbk - 1), a >> sh

        def mk(g, op, a, bk, d, ev, v, port):
            if mode == 'lock':
                def f():
                    while True:
                        while not g:
                            pass
                        r.lock()
                        if op:
                            r.write(a, d)
                        else:
                            v.value = r.read(a)
                        r.unlock()
                        ev.value = 1
                        ev.value = 0
            elif nb:
                def f():
                    while True:
                        while not g:
                            pass
                        if op:
                            r.write_bank(bk, a, d, port)
                        else:
                            v.value = r.read_bank(bk, a, port)
                        ev.value = 1
                        ev.value = 0
            elif mode == 'mixed':        # write flat, read by bank (power-of-two banks)
                def f():
                    while True:
                        while not g:
                            pass
                        if op:
                            r.write(a, d, port)
                        else:
                            v.value = r.read_bank(lo, hi, port)
                        ev.value = 1
                        ev.value = 0
            elif mode == 'mixed2':
                def f():
                    while True:
                        while not g:
                            pass
                        if op:
                            r.write_bank(lo, hi, d, port)
                        else:
                            v.value = r.read(a, port)
                        ev.value = 1
                        ev.value = 0
            else:
                def f():
                    while True:
                        while not g:
                            pass
                        if op:
                            r.write(a, d, port)
                        else:
                            v.value = r.read(a, port)
                        ev.value = 1
                        ev.value = 0
            return f
        vthread.Thread(m, 'th%d' % t, clk, rst, mk(g, op, a, bk, d, ev, v, port), fsm_as_module=mod).start()
    cpp = THREAD
    for x, y in (('INITS', ','.join(map(str, model))), ('SETG', ' '.join(setg)), ('EVT', ' '.join(evs)), ('VALT', ' '.join(vals))):
        cpp = cpp.replace(x, y)
    dn = 1 << (dw - 1 if fixed and kind != 'Fixed' else dw)
    rtl.explore(res, 'thread %s %s dw=%d aw=%d nt=%d %s mod=%d' % (kind, mode, dw, aw, nt, ik, mod),
                '%s used by %d threads (%s; datawidth %d, addrwidth %d, initvals %s)' % (kind, nt, mode, dw, aw, ik),
                m.to_verilog(), cpp, defines=['NT=%d' % nt, 'AN=%d' % an, 'DN=%d' % dn])


# ---------------------------------------------------------------------------
# burst engines under every ready/valid pattern
RBURST = r'''
struct Env { uint8_t busy, a, s, n, b, k, held, heldd, heldl, quiet, gl; };
static int expw(Env&e,int k){ EXPW }
static void env_init(Env&e){}
static void idle(){ T->start=0; T->rready=0; T->rquit=0; T->addr=AN-1; T->stride=0; T->len=LN; T->blk=1; }
static const int SC=AN*SN*(LN+1)*BN;
static int nchoices(Env&e){ return e.busy?(HASQ?4:2):1+SC; }
static bool drive(Env&e,int c){
  if(e.busy){ T->rready=c&1; T->rquit=c>>1; return true; }
  if(c){ c--; e.a=c%AN; c/=AN; e.s=c%SN; c/=SN; e.n=c%(LN+1); c/=(LN+1); e.b=c+1; 
     if(e.n>0 && !LEGAL) return false;
     T->start=1; T->addr=e.a; T->stride=e.s; T->len=e.n; T->blk=e.b; } 
  return true; }
static bool check(Env&e,int c){
  e.gl=0;
  if(!e.busy){ if(T->rvalid && !T->start) FAIL("valid while idle"); if(T->start){ if(e.n){ e.busy=1; e.k=0; } else { e.a=e.s=e.b=0; e.gl=1; } } else e.a=e.s=e.n=e.b=0; return true; }
  if(e.held){ if(!T->rvalid) FAIL("word dropped while stalled"); if((int)T->rdata!=expw(e,e.k)||T->rlast!=e.heldl) FAIL("word changed while stalled"); }
  if(T->rvalid){ int x=expw(e,e.k); if((int)T->rdata!=x) FAIL("word %d of burst addr=%d stride=%d len=%d blk=%d is %d, expected %d",e.k,e.a,e.s,e.n,e.b,(int)T->rdata,x);
    if(T->rlast!=(e.k==e.n-1)) FAIL("last=%d on word %d of %d",T->rlast,e.k,e.n); }
  e.held=T->rvalid && !T->rready; e.heldl=e.held?T->rlast:0;
  if(T->rvalid&&T->rready){ e.k++; if(e.k==e.n) { memset(&e,0,sizeof e); e.gl=1; return true; } }
  if(T->rquit){ memset(&e,0,sizeof e); e.gl=1; }
  return true; }
static bool goal(Env&e){ return e.gl; }
static void show(Env&e,int c,int i){ printf("%2d start=%d a=%d s=%d n=%d b=%d rready=%d rquit=%d | rvalid=%d rlast=%d rdata=%d (word %d)\n",i,T->start,e.a,e.s,e.n,e.b,T->rready,T->rquit,T->rvalid,T->rlast,(int)T->rdata,e.k); }
'''
WBURST = r'''
struct Env { uint8_t busy, a, s, n, b, k, v, gl, fin, scan; uint8_t mem[AN]; };
static int word(Env&e,int k){ return WORD; }
static void put(Env&e,int k,int w){ PUT }
static void env_init(Env&e){}
static void idle(){ T->start=0; T->wvalid=0; T->wquit=0; T->wlast=0; T->addr=AN-1; T->stride=0; T->len=LN; T->blk=1; T->wdata=WM; SCANIDLE }
static const int SC=AN*SN*(LN+1)*BN;
// scan phase: read every word of the memory back through another port
static int nchoices(Env&e){ return e.scan?1:e.busy?2+(HASQ?1:0):1+SC; }
static bool drive(Env&e,int c){
  if(e.scan){ T->saddr=e.scan-1; T->sen=1; return true; }
  if(e.busy){ if(c==2){ T->wquit=1; return true; } T->wvalid=c&1; T->wdata=c&1?word(e,e.k):WM; T->wlast=(c&1)&&e.k==e.n-1; return true; }
  if(c){ c--; e.a=c%AN; c/=AN; e.s=c%SN; c/=SN; e.n=c%(LN+1); c/=(LN+1); e.b=c+1; if(e.n>0 && !LEGAL) return false; T->start=1; T->addr=e.a; T->stride=e.s; T->len=e.n; T->blk=e.b; }
  return true; }
static bool check(Env&e,int c){
  e.gl=0;
  if(e.scan){ if(e.scan>1 && T->sdata!=e.mem[e.scan-2]) FAIL("after burst addr=%d stride=%d len=%d blk=%d word %d of the memory is %d, expected %d",e.a,e.s,e.n,e.b,e.scan-2,T->sdata,e.mem[e.scan-2]);
    if(++e.scan==AN+2){ memset(&e,0,sizeof(Env)-AN); e.gl=1; } return true; }
  if(!e.busy){ if(T->start){ if(e.n){ e.busy=1; e.k=0; } } if(!e.busy) e.a=e.s=e.n=e.b=0; return true; }
  if(T->wvalid && T->wready){ put(e,e.k,word(e,e.k)); e.k++; if(e.k==e.n){ e.busy=0; e.scan=1; return true; } }
  if(T->wquit){ e.busy=0; e.scan=1; }
  return true; }
static bool goal(Env&e){ return e.gl; }
static void show(Env&e,int c,int i){ printf("%2d start=%d a=%d s=%d n=%d b=%d wvalid=%d wdata=%d wlast=%d wquit=%d | wready=%d (word %d) scan=%d sdata=%d\n",i,T->start,e.a,e.s,e.n,e.b,T->wvalid,(int)T->wdata,T->wlast,T->wquit,T->wready,e.k,e.scan,T->sdata); }
'''


def burst(res, it):
    _, kind, form, direction, np_, quit_ = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    dw = 4
    nb = 1
    if kind == 'RAM':
        aw = 2
        banks = [vthread.RAM(m, 'r', clk, rst, dw, aw, 2, initvals=[(5 * i + 3) & 15 for i in range(4)] if direction == 'r' else None)]
        r = banks[0]
    else:
        nb, aw = int(kind[2:]), 1
        banks = [vthread.RAM(m, 'r%d' % b, clk, rst, dw, aw, 2,
                             initvals=[(5 * (i * nb + b) + 3) & 15 for i in range(1 << aw)] if direction == 'r' else None) for b in range(nb)]
        r = vthread.to_multibank_ram(banks)
    total = nb << aw
    pw = r.packed_datawidth if form == 'packed' else dw
    start = m.Input('start')
    addr = m.Input('addr', 4)
    stride = m.Input('stride', 3)
    ln = m.Input('len', 4)
    blk = m.Input('blk', 4)
    meth = '%s_burst%s' % ('read' if direction == 'r' else 'write', '' if form == 'plain' else '_' + form)
    # flat address mapping of word k of the burst
    if form == 'packed':
        AN, SN, LN, BN = total, 1, (1 << aw) if kind != 'RAM' else 4, 1
        # the address advances by stride (flat words); one packed word per bank row
        SN = 2 * nb
        legal = '((e.s%%%d)==0)&&(e.a%%%d==0)' % (nb, nb)
        idx = lambda b: '(((e.a/%d+k*(e.s/%d))%%%d)*%d+%d)' % (nb, nb, 1 << aw, nb, b)
        if kind == 'RAM':
            legal, SN = '1', 2
            idx = lambda b: '((e.a+k*e.s)%%%d)' % total
        expw = 'return ' + '|'.join('((5*%s+3)&15)<<%d' % (idx(b), 4 * b) for b in range(nb)) + ';'
        put = ''.join('e.mem[%s]=(w>>%d)&15;' % (idx(b), 4 * b) for b in range(nb))
    elif form == 'plain':
        AN, SN, LN, BN = total, 3, 4, 1
        legal = '1'
        expw = 'return (5*((e.a+k*e.s)%%%d)+3)&15;' % total
        put = 'e.mem[(e.a+k*e.s)%%%d]=w&15;' % total
    elif form == 'block':
        # blocks of blk words go to banks in turn; inside a bank addresses advance by stride
        AN, SN, LN, BN = 1 << aw, 2, 2 * nb, 2
        legal = '1'
        # word k: block = k/blk, bank = block%nb, position in that bank
        code = 'int blk=k/e.b, bank=blk%%%d, pos=(blk/%d)*e.b+k%%e.b, ad=(e.a+pos*e.s)%%%d, ix=ad*%d+bank; ' % (nb, nb, 1 << aw, nb)
        expw = code + 'return (5*ix+3)&15;'
        put = code + 'e.mem[ix]=w&15;'
        if kind == 'RAM':
            AN = total
            expw = 'return (5*((e.a+k*e.s)%%%d)+3)&15;' % total
            put = 'e.mem[(e.a+k*e.s)%%%d]=w&15;' % total
    elif form == 'bcast':
        AN, SN, LN, BN = 1 << aw, 2, 2, 1
        legal = '1'
        expw = ''
        put = 'for(int b=0;b<%d;b++) e.mem[((e.a+k*e.s)%%%d)*%d+b]=w&15;' % (nb, 1 << aw, nb)
    if direction == 'r':
        rready, rquit = m.Input('rready'), m.Input('rquit')
        rdata, rvalid, rlast = getattr(r, meth)(addr, stride, ln, blk, rready, rquit, port=np_, cond=start)
        m.Output('rdata', pw).assign(rdata)
        m.Output('rvalid').assign(rvalid)
        m.Output('rlast').assign(rlast)
        cpp = RBURST.replace('EXPW', expw)
    else:
        wd, wv, wl, wq = m.Input('wdata', pw), m.Input('wvalid'), m.Input('wlast'), m.Input('wquit')
        wready, done = getattr(r, meth)(addr, stride, ln, blk, wd, wv, wl, wq, port=np_, cond=start)
        m.Output('wready').assign(wready)
        m.Output('done').assign(done)
        sa, se = m.Input('saddr', 4), m.Input('sen')
        datas = [b.read_rtl(sa / nb if nb > 1 else sa, port=1 - np_, cond=se)[0] for b in banks]
        bk = vg.Seq(m, 'bk', clk, rst).Prev(sa % nb, 1) if nb > 1 else None
        sd = datas[0]
        for b in range(1, nb):
            sd = vg.Mux(bk == b, datas[b], sd)
        m.Output('sdata', dw).assign(sd)
        word = '((k*5+e.a+9*e.n+7)&%d)' % ((1 << min(pw, 16)) - 1) if pw <= 4 else '((k*0x35+e.a*3+9*e.n+7)&%d)' % ((1 << pw) - 1)
        cpp = WBURST.replace('WORD', word).replace('PUT', put).replace('SCANIDLE', 'T->saddr=0; T->sen=0;').replace('WM', '%d' % ((1 << pw) - 1))
        cpp = cpp.replace('AN', str(AN)).replace('mem[%d]' % AN, 'mem[%d]' % total).replace('e.scan==%d+2' % AN, 'e.scan==%d+2' % total).replace('sizeof(Env)-%d' % AN, 'sizeof(Env)-%d' % total)
    if form == 'block' and not (direction == 'r' and kind == 'RAM') and kind != 'RAM':
        legal = '(e.n%%(e.b*%d)==0 || e.b==1)' % nb if False else '1'
    cpp = cpp.replace('LEGAL', '(%s)' % legal)
    rtl.explore(res, 'burst %s %s %s port%d quit=%d' % (kind, form, direction, np_, quit_), '%s.%s on port %d under every %s pattern' % (kind, meth, np_, 'ready' if direction == 'r' else 'valid'),
                m.to_verilog(), cpp, defines=['SN=%d' % SN, 'LN=%d' % LN, 'BN=%d' % BN, 'HASQ=%d' % int(quit_)] + (['AN=%d' % AN] if direction == 'r' else []),
                max_states=400000 if Q else 4000000, must_complete=False)


# ---------------------------------------------------------------------------
def roms(res, it):
    """ROMs and pattern tables: every address, every enable history of length 3"""
    body, inst = [], []
    n = 0
    exp = []
    for cnt in (1, 2, 3, 4, 5, 7, 8, 11, 16):
        for dw in (None, 1, 3, 8):
            for kind in ('async', 'sync', 'syncen'):
                vals = [vg.Int((i * 37 + 5) & 255, width=8) if dw is None else (i * 37 + 5) & ((1 << dw) - 1) for i in range(cnt)]
                if dw is None and cnt == 5:
                    vals = [vg.Int(7, width=6)] + vals[1:]
                m = vg.Module('m%d' % n)
                clk = m.Input('CLK')
                addr, en = m.Input('addr', 4), m.Input('en')
                o = m.Output('q', 8)
                try:
                    if kind == 'async':
                        r = trom.AsyncROM(m, 'rom%d' % n, addr, vals, datawidth=dw)
                    elif kind == 'sync':
                        r = trom.SyncROM(m, 'rom%d' % n, clk, addr, vals, datawidth=dw)
                    else:
                        r = trom.SyncROM(m, 'rom%d' % n, clk, addr, vals, enable=en, datawidth=dw)
                    o.assign(r.rdata)
                    t = m.to_verilog()
                except Exception:
                    res['violations'].append(('reject:rom %d %s %s' % (cnt, dw, kind), 'legal ROM rejected: %d values datawidth %s %s\n%s' % (cnt, dw, kind, exc_text()), None))
                    continue
                body.append(t)
                vv = [7 if (dw is None and cnt == 5 and i == 0) else (i * 37 + 5) & 255 if dw is None else (i * 37 + 5) & ((1 << dw) - 1) for i in range(cnt)]
                exp.append((n, cnt, dw, kind, vv))
                inst.append('  wire [7:0] q%d; m%d u%d(.CLK(CLK), .addr(addr), .en(en), .q(q%d));' % (n, n, n, n))
                n += 1
    tb = ['module tb; reg CLK=0; reg [3:0] addr; reg en; integer i,j,k;'] + inst + ['  task show; begin $display("S %0d %0d", addr, en);']
    for e in exp:
        tb.append('    $display("%d %%0d", q%d);' % (e[0], e[0]))
    tb += ['  end endtask', '  initial begin',
           '   for(i=0;i<16;i=i+1) for(j=0;j<2;j=j+1) begin addr=i; en=j; #1 show; CLK=1; #1 CLK=0; #1 show; end',
           '   for(i=0;i<16;i=i+1) for(j=0;j<2;j=j+1) begin addr=15-i; en=1-j; #1 show; CLK=1; #1 CLK=0; #1 show; end',
           '   $finish; end', 'endmodule']
    out = iv.simulate('\n'.join(body) + '\n'.join(tb), tag='rom')
    steps = []
    for line in out.splitlines():
        f = line.split()
        if not f:
            continue
        if f[0] == 'S':
            steps.append((int(f[1]), int(f[2]), {}))
        elif len(f) == 2 and f[0].isdigit():
            steps[-1][2][int(f[0])] = f[1]
    for e in exp:
        i, cnt, dw, kind, vv = e
        prev = None
        bad = None
        for s in range(0, len(steps), 2):
            a, en, q = steps[s]
            if a < cnt:
                if kind == 'async':
                    if q.get(i) != str(vv[a]):
                        bad = (a, q.get(i), vv[a])
                else:
                    if prev is not None and q.get(i) != str(prev):
                        bad = (a, q.get(i), prev, 'before the clock edge')
                    if kind == 'sync' or en:
                        prev = vv[a]
                    if prev is not None and steps[s + 1][2].get(i) != str(prev):
                        bad = (a, steps[s + 1][2].get(i), prev, 'after the clock edge, enable %d' % en)
            elif kind == 'sync' or en:
                prev = None
            res['transitions'] += 1
            if bad:
                break
        res['states'] += 1
        res['traces'] += 1
        if bad:
            res['violations'].append(('rom:%d %s %s' % (cnt, dw, kind), '%s ROM of %d values (datawidth %s) at address %s reads %s, expected %s' % (kind, cnt, dw, bad[0], bad[1], bad[2:]), None))


def items():
    out = []
    for sync, en in ((True, False), (True, True), (False, False), (False, True)):
        for form in ('def', 'wrap'):
            out.append(('prim', form, 2, 1, 1, sync, en, 'full'))
            out.append(('prim', form, 1, 1, 2, sync, en, 'short'))
        out.append(('prim', 'def', 1, 2, 1, sync, en, 'vint'))
        out.append(('prim', 'def', 1, 1, 3, sync, en, 'none'))
        out.append(('prim', 'def', 2, 2, 1, sync, en, 'bin'))
        if not Q:
            out.append(('prim', 'def', 2, 1, 2, sync, en, 'full'))
            out.append(('prim', 'wrap', 1, 2, 2, sync, en, 'full'))
    for kind in ('RAM', 'MB2', 'TO2', 'Fixed'):
        for how in ('connect', 'rtl', 'split'):
            if kind == 'Fixed' and how == 'split':
                continue
            out.append(('obj', kind, how, 1, 2 if kind != 'RAM' else 1, 2, None))
    for kind in ('MB4', 'TO4', 'NEST', 'NESTK'):
        out.append(('obj', kind, 'connect', 1, 3, 1, None))
        out.append(('obj', kind, 'rtl', 1, 3, 1, None))
    out.append(('obj', 'RAM', 'rtl', 2, 1, 2, 'full'))
    out += [('ext', 'RAM'), ('ext', 'Fixed')]
    for nt in (1, 2):
        for kind, mode, dw, aw, ik in (('RAM', 'own', 1, 1, 'full'), ('RAM', 'lock', 1, 1, None), ('MB2', 'own', 1, 2, None),
                                       ('MB2', 'mixed', 1, 2, None), ('MB2', 'mixed2', 1, 2, None), ('TO2', 'own', 1, 2, None),
                                       ('BANK2', 'own', 1, 1, None), ('BANK3', 'own', 1, 1, None), ('FixedInit', 'own', 3, 1, None),
                                       ('FixedPt', 'own', 2, 1, None), ('MB4', 'own', 1, 3, None), ('MB4', 'mixed', 1, 3, None), ('NEST', 'own', 1, 3, None),
                                       ('TO2', 'lock', 1, 2, None)):
            if nt == 2 and (aw == 3 or kind in ('BANK3', 'TO2')):
                continue
            if nt == 2 and Q and kind in ('FixedInit',):
                continue
            out.append(('thread', kind, mode, dw, aw, nt, ik, False))
    out.append(('thread', 'MB2', 'own', 1, 2, 1, None, True))
    for kind in ('RAM', 'TO2', 'TO3', 'TO4'):
        for form in ('plain', 'packed', 'block', 'bcast'):
            if form == 'plain' and kind == 'TO3':
                continue
            if form == 'packed' and kind == 'TO3':
                continue
            for d in 'rw':
                if d == 'r' and form == 'bcast':
                    continue
                out.append(('burst', kind, form, d, (len(out) & 1), False))
                if kind in ('RAM', 'TO2') and not (kind == 'RAM' and form != 'plain'):
                    out.append(('burst', kind, form, d, 0, True))
    out.append(('roms',))
    return out


@rtl.guarded
def one(res, it):
    {'prim': prim, 'obj': obj, 'ext': extp, 'thread': threads, 'burst': burst, 'roms': roms}[it[0]](res, it)


def main():
    c = Check('C10')
    its = items()
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c10'):
        c.absorb(r)
    c.assumptions = ['states/transitions of the emitted RTL (Verilator; ROMs: Icarus) composed with an all-choices environment; '
                     'simultaneous writes of one address through two ports are excluded, a read at the edge of a write on another port may see either value']
    c.finish()


if __name__ == '__main__':
    main()
