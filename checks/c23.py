"""C23: the AXI memory models implement a memory behind legal AXI."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import rtl
import vl

import numpy as np
import veriloggen as vg
import veriloggen.thread as vthread
import veriloggen.types.axi as axi

Q = tier() == 'quick'

# A legal master on every port.  Bursts are decided (address, length, tag) and then
# AW, W and AR are raised at arbitrary later cycles (W may precede AW), held until
# accepted; bready and rready are free in every cycle.
ENV = r'''
struct WB { uint8_t o, tag; };                         // write burst: option, data tag
struct RB { uint8_t o; uint8_t ok[ML*NB]; };           // read burst: option, allowed value ids per byte
struct P { WB q[2]; uint8_t nq, awi, aw_on, wi, wb, w_on, cw, bst, bidv;
           RB r[2]; uint8_t nr, ari, ar_on, rb, cr, rst, rlv, ridv; uint8_t rdv[NB]; };
struct Env { P p[NP]; uint8_t v[MEM]; uint8_t brd[NP], rrd[NP]; };
static const uint8_t WA[]={WADDR}, WL[]={WLEN}, WS[]={WSTRB}, RA[]={RADDR}, RL[]={RLEN};
static const int MAYW[]={MAYWRITE}, MAYR[]={MAYREAD};
static const uint8_t VAL[]={VALUES};                    // value id -> byte
static bool okv(int ok,int x){ for(int i=0;i<NV;i++) if((ok>>i&1) && VAL[i]==x) return true; return false; }
static int wid(int tag,int beat,int byte){ return MEM + ((tag*ML*NB + beat*NB + byte) % (NV-MEM)); }
static void s_aw(int p,int v,int a,int l,int id){ switch(p){ SAW } }
static void s_w(int p,int v,unsigned d,int s,int l){ switch(p){ SW_ } }
static void s_ar(int p,int v,int a,int l,int id){ switch(p){ SAR } }
static void s_b(int p,int r){ switch(p){ SB } }
static void s_r(int p,int r){ switch(p){ SR } }
static int g(int p,int k){ switch(p*20+k){ GET } return 0; }
enum { AWREADY, WREADY, BVALID, BRESP, BID, ARREADY, RVALID, RRESP, RLAST, RID };
static unsigned rdata(int p){ switch(p){ GRD } return 0; }
static void env_init(Env&e){ for(int i=0;i<MEM;i++) e.v[i]=i; }
static void idle(){ for(int p=0;p<NP;p++){ s_aw(p,0,0,0,0); s_w(p,0,0,0,0); s_ar(p,0,0,0,0); s_b(p,0); s_r(p,0); } }
// an address range another port is writing is left alone
static bool overlap(int a,int l,int b,int m){ return a<b+m*NB && b<a+l*NB; }
static bool busy(Env&e,int p,int a,int l){ for(int q=0;q<NP;q++) if(q!=p) for(int i=0;i<e.p[q].nq;i++) if(overlap(a,l,WA[e.p[q].q[i].o],WL[e.p[q].q[i].o])) return true; return false; }
static int radix(Env&e,int p,int f){ P&x=e.p[p]; switch(f){
  case 0: return (MAYW[p] && x.nq<2 && x.cw<NW)? 1+NWO*NTAG : 1;
  case 1: return (!x.aw_on && x.awi<x.nq)? 2:1;
  case 2: return (!x.w_on && x.wi<x.nq && (WFIRST || x.awi>x.wi || (x.aw_on && x.awi==x.wi)))? 2:1;
  case 3: return (BFREE && x.nq)? 2:1;
  case 4: return (MAYR[p] && x.nr<2 && x.cr<NR)? 1+NRO : 1;
  case 5: return (!x.ar_on && x.ari<x.nr)? 2:1;
  default: return x.nr? 2:1; } }
static int nchoices(Env&e){ int n=1; for(int p=0;p<NP;p++) for(int f=0;f<7;f++) n*=radix(e,p,f); return n; }
static bool drive(Env&e,int c){
  int d[NP][7]; for(int p=0;p<NP;p++) for(int f=0;f<7;f++){ int r=radix(e,p,f); d[p][f]=c%r; c/=r; }
  for(int p=0;p<NP;p++){ P&x=e.p[p];
    if(d[p][1]) x.aw_on=1;
    if(d[p][2]) x.w_on=1;
    if(d[p][5]) x.ar_on=1;
    e.brd[p]=BFREE? d[p][3]:1; e.rrd[p]=d[p][6];
    if(d[p][0]){ int k=d[p][0]-1; int o=k/NTAG; if(busy(e,p,WA[o],WL[o])) return false; x.q[x.nq].o=o; x.q[x.nq].tag=k%NTAG; x.nq++; x.cw++; }
    if(d[p][4]){ int o=d[p][4]-1; RB&r=x.r[x.nr++]; r.o=o; for(int i=0;i<ML*NB;i++) r.ok[i]=0; x.cr++; }
  }
  for(int p=0;p<NP;p++){ P&x=e.p[p];
    if(x.aw_on){ WB&b=x.q[x.awi]; s_aw(p,1,WA[b.o],WL[b.o],1+b.tag); } else s_aw(p,0,IDLEA,3,0);
    if(x.w_on){ WB&b=x.q[x.wi]; unsigned dd=0; for(int i=0;i<NB;i++) dd|=(unsigned)VAL[wid(b.tag,x.wb,i)]<<(8*i); s_w(p,1,dd,WS[b.o*ML+x.wb],x.wb+1==WL[b.o]); } else s_w(p,0,0,NSTRB,IDLEL);
    if(x.ar_on){ RB&b=x.r[x.ari]; s_ar(p,1,RA[b.o],RL[b.o],1+(b.o&1)); } else s_ar(p,0,IDLEA,3,0);
    s_b(p,e.brd[p]); s_r(p,e.rrd[p]); }
  return true; }
static bool check(Env&e,int c){
  // values each byte may hold now
  uint8_t may[MEM]; for(int i=0;i<MEM;i++) may[i]=1<<e.v[i];
  for(int p=0;p<NP;p++){ P&x=e.p[p]; for(int k=0;k<x.nq;k++){ int nb = k<x.wi? WL[x.q[k].o] : k==x.wi? x.wb+x.w_on : 0; WB&b=x.q[k];
    for(int j=0;j<nb;j++) for(int i=0;i<NB;i++) if(WS[b.o*ML+j]>>i&1) may[WA[b.o]+j*NB+i]|=1<<wid(b.tag,j,i); } }
  for(int p=0;p<NP;p++){ P&x=e.p[p];
    for(int k=0;k<x.nr;k++){ RB&r=x.r[k]; for(int j=(k?0:x.rb);j<RL[r.o];j++) for(int i=0;i<NB;i++) r.ok[j*NB+i]|=may[RA[r.o]+j*NB+i]; }
    int bv=g(p,BVALID), rv=g(p,RVALID);
    if(x.bst && (!bv || (HASID && g(p,BID)!=x.bidv))) FAIL("port %d: write response withdrawn or changed before bready",p);
    if(x.rst){ if(!rv) FAIL("port %d: rvalid withdrawn before rready",p); unsigned dd=rdata(p); for(int i=0;i<NB;i++) if((dd>>(8*i)&255)!=x.rdv[i]) FAIL("port %d: rdata changed before rready",p);
      if(HASLAST && g(p,RLAST)!=x.rlv) FAIL("port %d: rlast changed before rready",p); if(HASID && g(p,RID)!=x.ridv) FAIL("port %d: rid changed before rready",p); }
    if(bv){ if(x.awi<1) FAIL("port %d: write response before the write address was accepted",p); if(x.wi<1) FAIL("port %d: write response before the last write beat was accepted",p);
      if(g(p,BRESP)) FAIL("port %d: bresp=%d",p,g(p,BRESP)); if(HASID && g(p,BID)!=1+x.q[0].tag) FAIL("port %d: bid=%d, awid was %d",p,g(p,BID),1+x.q[0].tag); }
    if(rv){ if(x.ari<1) FAIL("port %d: read data without an accepted read address",p); RB&r=x.r[0]; unsigned dd=rdata(p);
      if(x.rb>=RL[r.o]) FAIL("port %d: extra beat",p);
      for(int i=0;i<NB;i++)if(!okv(r.ok[x.rb*NB+i],dd>>(8*i)&255)) FAIL("port %d: read at %d beat %d byte %d returns 0x%02x, memory holds 0x%02x",p,RA[r.o],x.rb,i,dd>>(8*i)&255,VAL[e.v[RA[r.o]+x.rb*NB+i]]);
      if(g(p,RRESP)) FAIL("port %d: rresp=%d",p,g(p,RRESP));
      if(HASLAST && g(p,RLAST)!=(x.rb+1==RL[r.o])) FAIL("port %d: rlast=%d on beat %d of %d",p,g(p,RLAST),x.rb,RL[r.o]);
      if(HASID && g(p,RID)!=1+(r.o&1)) FAIL("port %d: rid=%d, arid was %d",p,g(p,RID),1+(r.o&1)); }
    // handshakes
    int aw=x.aw_on&&g(p,AWREADY), w=x.w_on&&g(p,WREADY), ar=x.ar_on&&g(p,ARREADY), b=bv&&e.brd[p], r=rv&&e.rrd[p];
    x.bst=bv&&!b; x.bidv=x.bst&&HASID?g(p,BID):0;
    x.rst=rv&&!r; x.rlv=x.rst&&HASLAST?g(p,RLAST):0; x.ridv=x.rst&&HASID?g(p,RID):0; for(int i=0;i<NB;i++) x.rdv[i]=x.rst? rdata(p)>>(8*i)&255 : 0;
    if(aw){ x.awi++; x.aw_on=0; }
    if(w){ x.w_on=0; x.wb++; if(x.wb==WL[x.q[x.wi].o]){ x.wb=0; x.wi++; } }
    if(ar){ x.ari++; x.ar_on=0; }
    if(b){ WB q=x.q[0]; for(int j=0;j<WL[q.o];j++) for(int i=0;i<NB;i++) if(WS[q.o*ML+j]>>i&1) e.v[WA[q.o]+j*NB+i]=wid(q.tag,j,i);
      x.q[0]=x.q[1]; x.q[1]=WB(); x.nq--; x.awi--; x.wi--; }
    if(r){ x.rb++; if(x.rb==RL[x.r[0].o]){ x.rb=0; x.r[0]=x.r[1]; x.r[1]=RB(); x.nr--; x.ari--; } else { for(int i=0;i<NB;i++) x.r[0].ok[(x.rb-1)*NB+i]=0; } }
    e.brd[p]=e.rrd[p]=0; }
  return true; }
static bool goal(Env&e){ for(int p=0;p<NP;p++) if(e.p[p].nq||e.p[p].nr) return false; return true; }
static void show(Env&e,int c,int i){ printf("%2d",i); for(int p=0;p<NP;p++){ P&x=e.p[p]; printf(" | p%d",p);
  if(x.aw_on) printf(" AW(a=%d,len=%d,rdy=%d)",WA[x.q[x.awi].o],WL[x.q[x.awi].o],g(p,AWREADY)); if(x.w_on) printf(" W(beat %d of %d,rdy=%d)",x.wb,WL[x.q[x.wi].o],g(p,WREADY));
  printf(" B(v=%d,rdy=%d)",g(p,BVALID),e.brd[p]); if(x.ar_on) printf(" AR(a=%d,len=%d,rdy=%d)",RA[x.r[x.ari].o],RL[x.r[x.ari].o],g(p,ARREADY)); printf(" R(v=%d,d=%x,l=%d,rdy=%d)",g(p,RVALID),rdata(p),g(p,RLAST),e.rrd[p]); } printf("\n"); }
'''

CLS = dict(one=axi.AxiMemoryModel, multi=axi.AxiMultiportMemoryModel, serial=axi.AxiSerialMemoryModel,
           smulti=axi.AxiSerialMultiportMemoryModel)


def cfg(key, kind='one', dw=8, np_=1, mem=4, lite=False, ids=0, w=(), r=(), nw=1, nr=1, mayw=None, mayr=None, ntag=1, wfirst=1, img=None, split=False, idlea=0, idlel=0, rids=None, bfree=None, **kw):
    return dict(bfree=int(kind != 'one') if bfree is None else bfree, key=key, kind=kind, dw=dw, np=np_, mem=mem, lite=lite, ids=ids, w=w, r=r, nw=nw, nr=nr,
                mayw=mayw, mayr=mayr, ntag=ntag, wfirst=wfirst, img=img, split=split, idlea=idlea, idlel=idlel, rids=rids, kw=kw)


def names(lite, ids):
    n = ['awaddr', 'awcache', 'awprot', 'awvalid', 'wdata', 'wstrb', 'wvalid', 'bready', 'araddr', 'arcache', 'arprot', 'arvalid', 'rready']
    o = ['awready', 'wready', 'bresp', 'bvalid', 'arready', 'rdata', 'rresp', 'rvalid']
    if not lite:
        n += ['awlen', 'awsize', 'awburst', 'awlock', 'awqos', 'awuser', 'wlast', 'arlen', 'arsize', 'arburst', 'arlock', 'arqos', 'aruser']
        o += ['rlast']
        if ids:
            n += ['awid', 'arid']
            o += ['bid', 'rid']
    return n, o


@rtl.guarded
def one(res, it):
    c = it
    dw, nb, n = c['dw'], c['dw'] // 8, c['np']
    aw = max(2, int(math.log(c['mem'], 2)))
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    kw = dict(datawidth=dw, addrwidth=aw, mem_datawidth=dw, mem_addrwidth=aw, write_delay=0, read_delay=0, sleep_interval=0,
              keep_sleep=0, memimg_name=os.path.abspath('img_%s.out' % ''.join(ch if ch.isalnum() else '_' for ch in c['key'])))
    if c['kind'] in ('one', 'multi'):
        kw.update(req_fifo_addrwidth=2, data_fifo_addrwidth=2)
    if c['ids']:
        kw.update(waddr_id_width=c['ids'], wresp_id_width=c['ids'], raddr_id_width=c['rids'] or c['ids'], rdata_id_width=c['rids'] or c['ids'], wdata_id_width=c['ids'])
    init = [0x10 + 0x11 * i for i in range(c['mem'])]
    if c['img'] == 'file':
        kw['memimg'] = kw.pop('memimg_name')
        with open(kw['memimg'], 'w') as f:
            f.write(''.join('%02x\n' % x for x in init))
    elif c['img'] == 'none':
        words = [i // nb for i in range(c['mem'])]
        init = [(i // nb) >> (8 * (i % nb)) & 255 for i in range(c['mem'])]
        kw['mem_datawidth'] = dw
    else:
        width = c['img'] or dw
        a = [sum(init[i * (width // 8) + j] << (8 * j) for j in range(width // 8)) for i in range(c['mem'] // (width // 8))]
        kw['memimg'] = np.array(a, dtype=np.int64)
        kw['memimg_datawidth'] = width
    kw.update(c['kw'])
    if n > 1 or c['kind'] in ('multi', 'smulti'):
        kw['numports'] = n + c['split']
    mod = CLS[c['kind']](m, 'memory', clk, rst, **kw)
    ins, outs = names(c['lite'], c['ids'])
    W = dict(awaddr=aw, araddr=aw, awlen=8, arlen=8, awsize=3, arsize=3, awburst=2, arburst=2, awlock=1, arlock=1, awcache=4, arcache=4,
             awprot=3, arprot=3, awqos=4, arqos=4, awuser=2, aruser=2, wdata=dw, rdata=dw, wstrb=nb, bresp=2, rresp=2,
             awid=c['ids'] or 1, arid=c['rids'] or c['ids'] or 1, bid=c['ids'] or 1, rid=c['rids'] or c['ids'] or 1)
    free = ('awaddr', 'awlen', 'awvalid', 'awid', 'wdata', 'wstrb', 'wlast', 'wvalid', 'bready', 'araddr', 'arlen', 'arid', 'arvalid', 'rready')
    const = dict(awsize=int(math.log(nb, 2)), arsize=int(math.log(nb, 2)), awburst=1, arburst=1, awcache=3, arcache=3)
    for p in range(n):
        ports = {}
        for nm in ins:
            x = m.Wire(('x%d_%s' % (p, nm) if not c['split'] else 'bus_' + nm), W.get(nm, 1))
            ports['bus_' + nm] = x
            if nm in free:
                x.assign(m.Input('p%d_%s' % (p, nm), W.get(nm, 1)))
            else:
                x.assign(const.get(nm, 0))
        for nm in outs:
            x = (m.Wire if c['lite'] else m.Reg)(('x%d_%s' % (p, nm) if not c['split'] else 'bus_' + nm), W.get(nm, 1))
            ports['bus_' + nm] = x
            m.Output('p%d_%s' % (p, nm), W.get(nm, 1)).assign(x)
        if c['split']:              # one bus split over two ports of the model
            rp, wp = axi.split_read_write(m, ports, 'bus')
            mod.connect(0, rp, 'r_bus')
            mod.connect(1, wp, 'w_bus')
        elif c['kind'] in ('multi', 'smulti'):
            mod.connect(p, ports, 'bus')
        else:
            mod.connect(ports, 'bus')
    L, I = not c['lite'], bool(c['ids'])
    ev = []
    ev.append(('SAW', ' '.join('case %d: T->p%d_awvalid=v; T->p%d_awaddr=a; %s %s break;' % (p, p, p, 'T->p%d_awlen=l-1;' % p if L else '', 'T->p%d_awid=id;' % p if I else '') for p in range(n))))
    ev.append(('SW_', ' '.join('case %d: T->p%d_wvalid=v; T->p%d_wdata=d; T->p%d_wstrb=s; %s break;' % (p, p, p, p, 'T->p%d_wlast=l;' % p if L else '') for p in range(n))))
    ev.append(('SAR', ' '.join('case %d: T->p%d_arvalid=v; T->p%d_araddr=a; %s %s break;' % (p, p, p, 'T->p%d_arlen=l-1;' % p if L else '', 'T->p%d_arid=id;' % p if I else '') for p in range(n))))
    ev.append(('SB', ' '.join('case %d: T->p%d_bready=r; break;' % (p, p) for p in range(n))))
    ev.append(('SR', ' '.join('case %d: T->p%d_rready=r; break;' % (p, p) for p in range(n))))
    k = ['awready', 'wready', 'bvalid', 'bresp', 'bid', 'arready', 'rvalid', 'rresp', 'rlast', 'rid']
    ev.append(('GET', ' '.join('case %d: return T->p%d_%s;' % (p * 20 + i, p, nm) for p in range(n) for i, nm in enumerate(k) if nm in outs)))
    ev.append(('GRD', ' '.join('case %d: return T->p%d_rdata;' % (p, p) for p in range(n))))
    ml = max([x[1] for x in c['w']] + [x[1] for x in c['r']] + [1])
    strb = []
    for x in c['w']:
        s = x[2] if len(x) > 2 else (1 << nb) - 1
        strb += [s[i] if isinstance(s, (list, tuple)) else s for i in range(x[1])] + [0] * (ml - x[1])
    lst = lambda xs: ','.join(map(str, xs)) or '0'
    ev += [('WADDR', lst([x[0] for x in c['w']])), ('WLEN', lst([x[1] for x in c['w']])), ('WSTRB', lst(strb)),
           ('RADDR', lst([x[0] for x in c['r']])), ('RLEN', lst([x[1] for x in c['r']])),
           ('MAYWRITE', lst(c['mayw'] or [1] * n)), ('MAYREAD', lst(c['mayr'] or [1] * n)),
           ('VALUES', lst(init + [0x91 + 0x0d * i for i in range(8 - c['mem'])]))]
    cpp = ENV
    for a, b in ev:
        cpp = cpp.replace(a, b)
    rtl.explore(res, c['key'], 'memory model %s' % c['key'], m.to_verilog(), cpp, max_states=c.get('max', 3000000),
                defines=['NP=%d' % n, 'NB=%d' % nb, 'ML=%d' % ml, 'MEM=%d' % c['mem'], 'NV=8', 'NW=%d' % (c['nw'] if c['w'] else 0), 'NR=%d' % (c['nr'] if c['r'] else 0),
                         'NWO=%d' % len(c['w']), 'NRO=%d' % len(c['r']), 'NTAG=%d' % c['ntag'], 'BFREE=%d' % c['bfree'], 'WFIRST=%d' % c['wfirst'],
                         'HASID=%d' % I, 'HASLAST=%d' % L, 'NSTRB=%d' % ((1 << nb) - 1), 'IDLEA=%d' % c['idlea'], 'IDLEL=%d' % c['idlel']])


def configs():
    C = []
    WO = ((0, 1), (1, 2))
    RO = ((0, 1), (1, 3))
    ST = ((0, 1, 1), (0, 2, (2, 1)), (2, 1, 3), (2, 1, 0))
    for kind in ('one', 'serial', 'multi', 'smulti'):
        k = kind
        full = kind in ('one', 'serial') or not Q
        for wd, rd, si, ks in ([(0, 0, 0, 0), (1, 0, 0, 0), (0, 2, 3, 2), (2, 1, 2, 0), (0, 0, 3, 1), (3, 3, 5, 3)] if full else [(0, 0, 0, 0), (1, 2, 3, 2)]):
            t = dict(write_delay=wd, read_delay=rd, sleep_interval=si, keep_sleep=ks)
            key = '%s delay %d/%d sleep %d/%d ' % (k, wd, rd, si, ks)
            deep = not Q and si == 0
            C.append(cfg(key + 'write2 read1', kind, w=WO, nw=2, r=((0, 3),), nr=1, **t))
            C.append(cfg(key + 'read3', kind, r=((0, 1), (1, 3), (2, 2)), nr=3 + deep, **t))
            C.append(cfg(key + 'write3', kind, w=WO, nw=3 + deep, r=(), **t))
            C.append(cfg(key + 'write1 read2', kind, w=((0, 3),), nw=1, r=((0, 2), (2, 2)), nr=2, **t))
        if kind == 'one':   # K-C23-1: this model gives its response for one cycle only, the others are explored with free bready
            C.append(cfg('one held response', kind, w=WO, nw=1, r=(), bfree=1))
        C.append(cfg(k + ' strobes', kind, dw=16, w=ST, nw=2, r=((0, 2),), nr=1, wfirst=0))
        C.append(cfg(k + ' strobes w-first', kind, dw=16, w=ST[:2], nw=2, r=((0, 1),), nr=1))
        C.append(cfg(k + ' 4 bytes', kind, dw=32, w=((0, 1, 5), (0, 1, 8)), nw=2, r=((0, 1),), nr=2))
        C.append(cfg(k + ' ids', kind, ids=2, w=((0, 1), (2, 1)), ntag=2, nw=2, r=((0, 2), (2, 1)), nr=1))
        C.append(cfg(k + ' ids read', kind, ids=2, r=((0, 1), (1, 2), (3, 1)), nr=3))
        C.append(cfg(k + ' ids read wider', kind, ids=1, rids=3, r=((0, 1), (1, 2), (3, 1)), nr=2))
        C.append(cfg(k + ' ids write wider', kind, ids=3, rids=1 if False else 2, w=((0, 1), (1, 2)), ntag=2, nw=2, r=((0, 1),), nr=1))
        C.append(cfg(k + ' lite', kind, lite=True, w=((0, 1), (2, 1)), nw=2, r=((0, 1), (2, 1)), nr=2))
        C.append(cfg(k + ' lite 16', kind, lite=True, dw=16, w=((0, 1, 1), (2, 1, 3)), nw=2, r=((0, 1), (2, 1)), nr=1))
        for img in ('file', 'none', 8, 16):
            C.append(cfg(k + ' image %s' % img, kind, dw=16, img=img, r=((0, 2), (2, 1)), nr=2))
        C.append(cfg(k + ' idle busy', kind, w=WO, nw=2, r=((0, 3),), nr=1, idlea=3, idlel=1))
        if kind in ('one', 'multi'):
            C.append(cfg(k + ' long burst', kind, mem=4, dw=8, w=((0, 4),), nw=3, r=((0, 4),), nr=0))
            C.append(cfg(k + ' long data fifo', kind, mem=4, dw=8, w=((0, 4),), nw=2, r=((0, 4),), nr=1, data_fifo_addrwidth=3, req_fifo_addrwidth=3))
    for kind in ('multi', 'smulti'):
        C.append(cfg(kind + ' 2 ports write/read', kind, np_=2, w=((0, 1), (0, 2)), nw=1, r=((0, 2),), nr=1, mayw=[1, 0], mayr=[0, 1]))
        C.append(cfg(kind + ' 2 ports write/write', kind, np_=2, w=((0, 2), (2, 1)), nw=1, wfirst=0))
        C.append(cfg(kind + ' 2 ports read/read', kind, np_=2, r=((0, 1), (1, 2)), nr=1))
        C.append(cfg(kind + ' 2 ports sleeping', kind, np_=2, w=((0, 1),), nw=1, r=((0, 2),), nr=1, mayw=[1, 0], mayr=[0, 1], sleep_interval=2, keep_sleep=1, read_delay=1))
        C.append(cfg(kind + ' split read/write', kind, split=True, w=((0, 1), (1, 2)), nw=2, r=((0, 3),), nr=1))
        C.append(cfg(kind + ' split read/write ids', kind, split=True, ids=2, w=((0, 1), (1, 2)), nw=1, r=((0, 3), (1, 1)), nr=2))
    if not Q:                        # longer histories of every configuration
        C += [dict(x, key=x['key'] + ' deep', nw=x['nw'] + 1, nr=x['nr'] + 1, max=12000000) for x in C]
    return C


# ---------------------------------------------------------------------------
# the thread view of the memory: read / write / read_word / write_word
@rtl.guarded
def view(res, it):
    import c10
    _, kind, how, bits, off = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    key = 'view %s %s bits=%d off=%d' % (kind, how, bits, off)
    name = os.path.abspath('img_%s.out' % key.replace(' ', '_'))
    an = 4
    mask = (1 << bits) - 1
    pats = [0, mask] if bits == 1 else [0, mask, 0x5a96b3c5 & mask, 0x2769d41f & mask]
    pats = sorted(set(pats)) if bits > 2 else list(range(1 << bits))
    inits = [(i + 1) % len(pats) for i in range(an)]
    nbytes = off + (an * bits + 7) // 8 + 1
    whole = 0xa5a5a5a5a5a5a5a5a5a5a5 & ((1 << (8 * nbytes)) - 1)
    for i, x in enumerate(inits):
        whole = whole & ~(mask << (8 * off + i * bits)) | pats[x] << (8 * off + i * bits)
    with open(name, 'w') as f:
        size = 1 << max(2, (nbytes - 1).bit_length())
        f.write(''.join('%02x\n' % (whole >> (8 * i) & 255) for i in range(size)))
    kw = dict(datawidth=8, addrwidth=8, mem_addrwidth=2, memimg=name, write_delay=0, read_delay=0, sleep_interval=0, keep_sleep=0)
    if how == 'rw':
        kw['mem_datawidth'] = bits
    mod = CLS[kind](m, 'memory', clk, rst, **kw)
    g, op, a, d, ev = m.Input('g0'), m.Input('op0'), m.Input('a0', 3), m.Input('d0', 2), m.OutputReg('ev0', initval=0)
    v = m.Reg('v', bits, initval=0)
    wd = m.Wire('wd', bits)
    wd.assign(vg.PatternMux([(d == i, vg.Int(p, width=bits)) for i, p in enumerate(pats)] + [(None, 0)]))
    m.Output('v0', 4).assign(vg.PatternMux([(v == vg.Int(p, width=bits), i) for i, p in enumerate(pats)] + [(None, 15)]))

    if how == 'rw':
        def f():
            while True:
                while not g:
                    pass
                if op:
                    mod.write(a * (bits // 8) + off, wd)
                else:
                    v.value = mod.read(a * (bits // 8) + off)
                ev.value = 1
                ev.value = 0
    else:
        def f():
            i = 0
            while True:
                while not g:
                    pass
                i = a
                if op:
                    mod.write_word(i, off, wd, bits)
                else:
                    v.value = mod.read_word(i, off, bits)
                ev.value = 1
                ev.value = 0
    vthread.Thread(m, 'th', clk, rst, f).start()
    cpp = c10.THREAD
    for x, y in (('INITS', ','.join(map(str, inits))), ('SETG', 'case 0: T->g0=g; T->op0=op; T->a0=a; T->d0=d; break;'),
                 ('EVT', 'case 0: return T->ev0;'), ('VALT', 'case 0: return T->v0;')):
        cpp = cpp.replace(x, y)
    rtl.explore(res, key, 'thread access to the %s memory model (%s, %d bits, byte offset %d)' % (kind, how, bits, off),
                m.to_verilog(), cpp, defines=['NT=1', 'AN=%d' % an, 'DN=%d' % len(pats)])


def views():
    V = []
    for kind in ('one', 'serial', 'multi', 'smulti'):
        for bits in (8, 16, 32):
            for off in (0, 1):
                V.append(('view', kind, 'rw', bits, off))
        for bits in range(1, 17):
            if kind in ('one', 'serial') or bits in (5, 8, 12) or not Q:
                V.append(('view', kind, 'word', bits, bits % 3))
    return V


# ---------------------------------------------------------------------------
# memory images: every shape / width / offset / alignment of a grid
def ref_image(shape, data, sdw, mdw, off, align, nwords):
    '''bit image of the memory: rows padded to `align` elements and to whole memory words'''
    img = 0
    per = max(1, mdw // sdw)
    pos = 8 * off
    row = shape[-1]
    rows = [data[i:i + row] for i in range(0, len(data), row)]
    for r in rows:
        n = row
        if align:
            n = -(-n // align) * align
        n = -(-n // per) * per
        for k, x in enumerate(r):
            img |= (x & ((1 << sdw) - 1)) << (pos + k * sdw)
        pos += n * sdw
    return img & ((1 << (mdw * nwords)) - 1)


def images(item):
    res = rtl.new()
    sdw, mdw = item
    n = 0
    for shape in [(k,) for k in range(1, 10)] + [(2, k) for k in range(1, 7)] + [(2, 2, k) for k in (1, 3, 4)]:
        cnt = int(np.prod(shape))
        for off in (0, mdw // 8, 3 * (mdw // 8)):
            per = max(1, mdw // sdw)
            for align in (None, 1, per, 2 * per, 3 * per):
                for base in (0, -3):
                    data = [base + i * (1 << max(0, sdw - 4)) + i for i in range(cnt)]
                    data = [((x + (1 << (sdw - 1))) & ((1 << sdw) - 1)) - (1 << (sdw - 1)) for x in data]
                    nwords = 80 * max(1, sdw // mdw)
                    n += 1
                    mem = np.zeros([nwords], dtype=np.int64)
                    key = 'image %d->%d shape=%s off=%d align=%s base=%d' % (sdw, mdw, shape, off, align, base)
                    try:
                        axi.set_memory(mem, np.array(data, dtype=np.int64).reshape(shape), mdw, sdw, off, align)
                        axi.to_memory_image('i.out', mem, datawidth=mdw)
                    except Exception as e:
                        res['violations'].append((key, '%s rejected: %s' % (key, exc_text()), None))
                        continue
                    by = open('i.out').read().split()
                    got = sum(int(x, 16) << (8 * i) for i, x in enumerate(by))
                    want = ref_image(shape, data, sdw, mdw, off, align, nwords)
                    if got != want or len(by) != nwords * (mdw // 8):
                        res['violations'].append((key, '%s: memory image %x, expected %x' % (key, got, want), None))
    # image files: length, endianness, packing of narrow elements
    for length in (None, 1, 3, 5, 9):
        for dw in (8, 16, 32, 4, 2):
            for word in (8, 16):
                for endian in ('little', 'big'):
                    if item != (8, 8):
                        continue
                    arr = [(i * 0x4d3b + 0x91) & ((1 << dw) - 1) for i in range(8)]
                    num = max(1, word // dw)
                    if length is not None and length % num:
                        continue
                    n += 1
                    key = 'to_memory_image length=%s datawidth=%d wordwidth=%d %s' % (length, dw, word, endian)
                    try:
                        r = axi.to_memory_image('j.out', arr, length=length, datawidth=dw, wordwidth=word, endian=endian)
                    except Exception as e:
                        res['violations'].append((key, '%s rejected: %s' % (key, exc_text()), None))
                        continue
                    a2 = (arr + [0] * 16)[:length] if length is not None else arr
                    if dw >= word:
                        w = [[x >> (word * k) & ((1 << word) - 1) for k in range(-(-dw // word))] for x in a2]
                        w = [y for x in w for y in (x[::-1] if endian == 'big' else x)]
                    else:
                        w = []
                        for i in range(0, len(a2), num):
                            ch = a2[i:i + num]
                            w.append(sum(x << (dw * (num - 1 - k if endian == 'big' else k)) for k, x in enumerate(ch)))
                    got = [int(x, 16) for x in open('j.out').read().split()]
                    if got != w or r != len(w):
                        res['violations'].append((key, '%s: file holds %s (returned %s), expected %s' % (key, got, r, w), None))
    res['states'] = res['transitions'] = res['traces'] = n
    return res


def main():
    c = Check('C23')
    if len(sys.argv) > 1:
        cs = [x for x in configs() + views() if sys.argv[1] in (x['key'] if isinstance(x, dict) else repr(x))]
        os.makedirs('/tmp/x/c23', exist_ok=True)
        os.chdir('/tmp/x/c23')
        for x in cs:
            r = (one if isinstance(x, dict) else view)(x)
            print(x['key'] if isinstance(x, dict) else x, r['states'], r['transitions'], [v[:2] for v in r['violations']])
        return
    cs = configs()
    for r in pmap(one, cs, 'c23'):
        c.absorb(r)
    c.count('configs', len(cs))
    for r in pmap(view, views(), 'c23v'):
        c.absorb(r)
    for r in pmap(images, [(s, d) for s in (4, 8, 16, 32) for d in (8, 16, 32)], 'c23i'):
        c.absorb(r)
    c.assumptions = ['the master keeps the AXI rules: valid is held until ready, full-width INCR bursts at aligned addresses inside the memory, wlast on the last beat only',
                     'ports do not write where another port has a write outstanding',
                     'Verilator 2-state semantics of the emitted text']
    c.finish()


if __name__ == '__main__':
    main()
