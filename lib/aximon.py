"""AXI-master designs under an all-choices AXI slave.

A configuration names the AXI master parameters, the memories and a thread
program (text).  The same text is (1) compiled by the library into RTL and (2)
executed by CPython on the reference objects below, which yields - per choice
of the program's input parameters - the exact stream of beat addresses, write
data, read data, final memory contents and, for every event of the program,
how much must have completed.  The explorer then runs the RTL against every
ready/valid/response schedule and compares.
"""
import importlib.util
import math
import os

import veriloggen as vg
import veriloggen.thread as vthread

import streamref

SRC = 'while not g%d:\n        pass\n    '


def mem0(a):
    return (a * 29 + (a >> 3) * 7 + 11) & 255


def ram0(r, a):
    return a * 0x2F1B + r * 0x51C3D7 + 0x9A35C1 + (a << 20)


class Gone(object):
    """streams collected while the reference program runs"""

    def __init__(self, aw, bw, bnd, maxb):
        self.aw, self.bw, self.bb = aw, bw, bw // 8
        self.mem = {}
        self.rd = []      # (addr, data, mask, need)
        self.wr = []      # (addr, data, mask)
        self.rwait = self.wwait = 0
        self.base = 0

    def byte(self, a):
        a &= (1 << self.aw) - 1
        return self.mem.get(a, mem0(a))


class RefRAM(object):
    def __init__(self, idx, dw, aw):
        self.idx, self.dw, self.aw = idx, dw, aw
        self.v = [ram0(idx, a) & ((1 << dw) - 1) for a in range(1 << aw)]
        self.order = []

    @property
    def prims(self):
        return [self]

    def slot(self, a):
        return [(self, a & ((1 << self.aw) - 1))]

    width = property(lambda s: s.dw)

    def read(self, addr, port=0):
        p, a = self.slot(addr)[0]
        return p.v[a]

    def write(self, addr, v, port=0):
        p, a = self.slot(addr)[0]
        p.v[a] = v & ((1 << p.dw) - 1)


class RefMB(RefRAM):
    """flat address: low digits select the bank (nested banks: outermost = lowest... see slot)"""

    def __init__(self, banks):
        self.banks = banks
        self.nb = len(banks)
        self.dw = max(b.dw for b in banks)
        self.sh = int(math.log(self.nb, 2))

    @property
    def prims(self):
        return [p for b in self.banks for p in b.prims]

    def slot(self, a):
        return self.banks[a % self.nb].slot(a // self.nb)

    def read_bank(self, bank, addr, port=0):
        return self.banks[bank].read(addr)

    def packed(self, row):
        """slots of one packed word, first = least significant"""
        return [self.banks[b].slot(row)[0] for b in range(self.nb)]


class RefAX(object):
    def __init__(self, g, wide_partial=True):
        self.g = g

    # --- single
    def _beat_r(self, a):
        g = self.g
        a &= (1 << g.aw) - 1
        v = m = 0
        for i in range(g.bb):
            b = g.byte(a + i)
            if b is not None:
                v |= b << (8 * i)
                m |= 255 << (8 * i)
        g.rd.append((a, v, m, g.wwait))
        return v

    def _beat_w(self, a, v, mask=None):
        g = self.g
        a &= (1 << g.aw) - 1
        mask = (1 << g.bw) - 1 if mask is None else mask
        g.wr.append((a, v & mask, mask))
        for i in range(g.bb):
            g.mem[a + i] = (v >> (8 * i)) & 255 if (mask >> (8 * i)) & 255 else None

    def read(self, ga):
        v = self._beat_r(ga + self.g.base)
        self.g.rwait = len(self.g.rd)
        return v

    def write(self, ga, v):
        self._beat_w(ga + self.g.base, v)

    def write_fence(self, ga, v):
        self._beat_w(ga + self.g.base, v)
        self.g.wwait = len(self.g.wr)

    def read_delayed(self, ga, delay):
        return self.read(ga)

    def write_delayed(self, ga, v, delay):
        self.write(ga, v)

    def lock(self):
        pass

    def unlock(self):
        pass

    def set_global_base_addr(self, v):
        self.g.base = v

    # --- dma: words = list of lists of slots (least significant first)
    def _r(self, words, ga, w):
        g = self.g
        base = (ga + g.base) & ~(g.bb - 1)
        if g.bw <= w:
            pk = w // g.bw
            for j, sl in enumerate(words):
                v = 0
                for k in range(pk):
                    v |= self._beat_r(base + (j * pk + k) * g.bb) << (k * g.bw)
                self._put(sl, v, w)
        else:
            pk = g.bw // w
            beat = 0
            for j, sl in enumerate(words):
                if j % pk == 0:
                    beat = self._beat_r(base + (j // pk) * g.bb)
                self._put(sl, beat >> ((j % pk) * w), w)

    def _put(self, sl, v, w):
        each = w // len(sl)
        for i, (p, a) in enumerate(sl):
            p.v[a] = (v >> (i * each)) & ((1 << each) - 1)
            p.order.append(a)
            self.g.order.append((p.idx, a))

    def _get(self, sl, w):
        each = w // len(sl)
        return sum(p.v[a] << (i * each) for i, (p, a) in enumerate(sl))

    def _w(self, words, ga, w):
        g = self.g
        base = (ga + g.base) & ~(g.bb - 1)
        if g.bw <= w:
            pk = w // g.bw
            for j, sl in enumerate(words):
                v = self._get(sl, w)
                for k in range(pk):
                    self._beat_w(base + (j * pk + k) * g.bb, (v >> (k * g.bw)) & ((1 << g.bw) - 1))
        else:
            pk = g.bw // w
            for j in range(0, len(words), pk):
                v = m = 0
                for k, sl in enumerate(words[j:j + pk]):
                    v |= self._get(sl, w) << (k * w)
                    m |= ((1 << w) - 1) << (k * w)
                self._beat_w(base + (j // pk) * g.bb, v, m)

    # address patterns
    @staticmethod
    def _plain(ram, la, n, st):
        return [ram.slot(la + j * st) for j in range(n)]

    @staticmethod
    def _ram(r):
        return RefMB(list(r)) if isinstance(r, tuple) else r

    def _do(self, dirn, words, ga, w, wait):
        if dirn == 'read':
            self._r(words, ga, w)
            if wait:
                self.g.rwait = len(self.g.rd)
        else:
            self._w(words, ga, w)
            if wait:
                self.g.wwait = len(self.g.wr)

    def dma_wait_read(self):
        self.g.rwait = len(self.g.rd)

    def dma_wait_write(self):
        self.g.wwait = len(self.g.wr)

    dma_wait_write_response = dma_wait_write

    def dma_wait_write_idle(self):
        pass

    def dma_wait(self):
        self.dma_wait_read()
        self.dma_wait_write()


def _mk(dirn, wait):
    sfx = '' if wait else '_async'

    def plain(self, ram, la, ga, n, local_stride=1, port=0):
        ram = self._ram(ram)
        self._do(dirn, self._plain(ram, la, n, local_stride), ga, ram.dw, wait)

    def bank(self, ram, bank, la, ga, n, local_bank_stride=1, port=0):
        b = self._ram(ram).banks[bank]
        self._do(dirn, self._plain(b, la, n, local_bank_stride), ga, b.dw, wait)

    def block(self, ram, la, ga, n, local_blocksize=1, local_stride=None, port=0):
        ram = self._ram(ram)
        st = 1 if local_stride is None else local_stride
        out = []
        for k in range(n):
            blk = k // local_blocksize
            pos = (blk // ram.nb) * local_blocksize + k % local_blocksize
            out.append(ram.banks[blk % ram.nb].slot(la + pos * st))
        self._do(dirn, out, ga, ram.banks[0].dw, wait)

    def packed(self, ram, la, ga, n, local_stride=None, port=0):
        ram = self._ram(ram)
        if not isinstance(ram, RefMB):
            return self._do(dirn, self._plain(ram, la, n, 1), ga, ram.dw, wait)
        st = ram.nb if local_stride is None else local_stride
        words = [ram.packed((la + k * st) // ram.nb) for k in range((n + ram.nb - 1) // ram.nb)]
        self._do(dirn, words, ga, ram.dw * ram.nb, wait)

    def bcast(self, ram, la, ga, n, local_bank_stride=1, port=0):
        ram = self._ram(ram)
        g = self.g
        # every bank receives the word
        base = (ga + g.base) & ~(g.bb - 1)
        w = ram.dw
        pk = max(1, w // g.bw)
        wk = max(1, g.bw // w)
        beat = 0
        for k in range(n):
            if g.bw <= w:
                v = sum(self._beat_r(base + (k * pk + i) * g.bb) << (i * g.bw) for i in range(pk))
            else:
                if k % wk == 0:
                    beat = self._beat_r(base + (k // wk) * g.bb)
                v = beat >> ((k % wk) * w)
            for b in ram.banks:
                self._put(b.slot(la + k * local_bank_stride), v & ((1 << w) - 1), w)
        if wait:
            g.rwait = len(g.rd)
    for nm, fn in (('', plain), ('_bank', bank), ('_block', block), ('_packed', packed), ('_bcast', bcast)):
        setattr(RefAX, 'dma_%s%s%s' % (dirn, nm, sfx), fn)


for _d in ('read', 'write'):
    for _w in (True, False):
        _mk(_d, _w)


class _Ev(object):
    def __init__(self, g, log):
        self.__dict__['g'], self.__dict__['log'] = g, log

    def __setattr__(self, k, v):
        self.log.append((v, self.g.rwait, self.g.wwait, self.res.value if self.res else None))


class _Res(object):
    value = None


def ram_spec(spec, m, clk, rst, name, start):
    """-> (library object, reference object, list of primitive library RAMs)"""
    k = spec[0]
    if k == 'R':
        dw, aw = spec[1:3]
        r = vthread.RAM(m, name, clk, rst, dw, aw, numports=2 if len(spec) == 3 else spec[3])
        return r, RefRAM(start, dw, aw), [r]
    if k == 'M':
        _, dw, aw, nb = spec
        r = vthread.MultibankRAM(m, name, clk, rst, dw, aw, numports=2, numbanks=nb)
        baw = r.rams[0].addrwidth
        return r, RefMB([RefRAM(start + i, dw, baw) for i in range(nb)]), list(r.rams)
    if k in ('T', 'P', 'H'):    # T: tuple of objects, P: to_multibank_ram, H: nested, hierarchy kept
        objs, refs, prims = [], [], []
        for i, s in enumerate(spec[1]):
            o, r, p = ram_spec(s, m, clk, rst, '%s_%d' % (name, i), start + len(prims))
            objs.append(o)
            refs.append(r)
            prims += p
        if k == 'T':
            return tuple(objs), tuple(refs), prims
        o = vthread.to_multibank_ram(objs, keep_hierarchy=(k == 'H'))
        return o, RefMB(refs), prims
    raise ValueError(k)


CPP = r'''
#define QD 3
#define QB 8
struct Env { uint8_t ph, p, fired; uint16_t cnt;
 uint16_t arb, rb; uint16_t ql[QD], rc; uint8_t qn, rv; uint64_t rdat;
 uint16_t awb, wb, bb; uint16_t al[QD], wl[QD], wc, bl[QB]; uint8_t an, wn, bn, bv;
 uint8_t sar, saw, sw; uint32_t sara, sawa; uint16_t sarl, sawl; uint64_t swd; uint32_t sws; uint8_t swl;
 uint8_t ev[NT]; };
TABLES
static void env_init(Env&e){}
static void idle(){ IDLE }
static int nchoices(Env&e){ if(e.ph==1) return P; if(e.ph!=2) return 1; return NCH; }
static bool drive(Env&e,int c){
  if(e.ph==0){ T->pa=INITA[e.cnt]; SETINIT return true; }
  if(e.ph==1){ e.p=c; return true; }
  if(e.ph==2){
    SETPARAM
    int b=c;
    for(int i=0;i<NT;i++){ if(i==0 || (e.fired>>i)&1) setg(i,1); else { setg(i,b&1); if(b&1) e.fired|=1<<i; b>>=1; } }
#if HASR
    bool fr = (b&1); b>>=1; bool vr=b&1; b>>=1;
    if(fr && e.qn>=QD) return false;
    if(MODE==3 && fr && !T->AX_arvalid) return false;
    T->AX_arready=fr;
    if(e.rv){ if(vr) return false; } else if(vr){ if(!e.qn) return false; e.rv=1; }
    T->AX_rvalid=e.rv; 
    if(e.rv){ T->AX_rdata = e.rb<NRB[e.p]?RDATA[ROFF[e.p]+e.rb]:0; T->AX_rlast = e.rc+1==e.ql[0]; }
#endif
#if HASW
    bool fa=b&1; b>>=1; bool fw=b&1; b>>=1; bool vb=b&1; b>>=1;
    if(fa && e.an>=QD) return false;
    if(fw && e.wn>=QD) return false;
    if((fw||fa) && e.bn+2>QB) return false;
    if(MODE==1 && fa && !(T->AX_wvalid || e.wb>e.awb || e.wn)) return false;
    if(MODE==2 && fw && !(e.awb>e.wb)) return false;
    if(MODE==3 && (fa && !T->AX_awvalid || fw && !T->AX_wvalid)) return false;
    T->AX_awready=fa; T->AX_wready=fw;
    if(e.bv){ if(vb) return false; } else if(vb){ if(!e.bn) return false; e.bv=1; }
    T->AX_bvalid=e.bv;
#endif
    if(b) return false;
    return true; }
  // scan / end
#if HASR
  T->AX_arready=1;
#endif
#if HASW
  T->AX_awready=1; T->AX_wready=1;
#endif
  SETPARAM
  for(int i=0;i<NT;i++) setg(i,1);
  if(e.ph==3){ T->pa=SCAN[SOFF[e.p]+(e.cnt<NSCAN?e.cnt:NSCAN-1)]&0xffff; T->pe=1; }
  return true; }
#define PF(...) do{ if(CHK_PROTO) FAIL(__VA_ARGS__); }while(0)
#define DF(...) do{ if(CHK_DATA) FAIL(__VA_ARGS__); }while(0)
static uint64_t wmask(int strb){ uint64_t m=0; for(int i=0;i<BB;i++) if(strb>>i&1) m|=255ull<<(8*i); return m; }
static bool addrchk(const char*ch,uint32_t a,int n){
  if(n>MAXB) PF("%s burst of %d beats (limit %d)",ch,n,MAXB);
  if(a%BB) PF("%s address %u is not aligned to the data size",ch,a);
  if(n>1 && (a/BND)!=((a/BB*BB+n*BB-1)/BND)) PF("%s burst of %d beats at %u crosses a %d-byte boundary",ch,n,a,BND);
  return true; }
static bool pair(Env&e){ // match AW bursts with completed W bursts
#if HASW
  while(e.an && (CHK_PROTO? e.wn>0 : e.wc>=e.al[0])){
    if(CHK_PROTO){ if(e.wl[0]!=e.al[0]) PF("write burst of awlen+1=%d beats carried %d data beats",e.al[0],e.wl[0]);
      for(int i=0;i+1<e.wn;i++) e.wl[i]=e.wl[i+1]; e.wn--; e.wl[e.wn]=0; } else e.wc-=e.al[0];
    e.bl[e.bn++]=e.al[0];
    for(int i=0;i+1<e.an;i++) e.al[i]=e.al[i+1]; e.an--; e.al[e.an]=0; }
#endif
  return true; }
static bool check(Env&e,int c){
  const int p=e.p;
  if(e.ph==0){ if(++e.cnt>=NINIT){ e.cnt=0; e.ph=1; }
    if(ANYVALID) FAIL("AXI request before the operation started"); return true; }
  if(e.ph==1){ e.ph=2; return true; }
  if(e.ph>=3){
    if(ANYVALID) FAIL("AXI transfer although every requested operation has completed");
    if(e.ph==3 && CHK_DATA && e.cnt>0){ int s=SCAN[SOFF[p]+e.cnt-1]; uint64_t v=ramv(s>>16); uint64_t x=FINAL[FOFF[p]+e.cnt-1];
      if(v!=x) FAIL("after the program (%s) word %d of memory %d is %llu, expected %llu",PNAME[p],s&0xffff,s>>16,(unsigned long long)v,(unsigned long long)x); }
    if(e.ph==3 && ++e.cnt==NSCAN+1){ uint8_t pp=e.p; EVSAVE memset(&e,0,sizeof e); e.p=pp; e.ph=4; EVREST }
    return true; }
#if HASR
  { bool v=T->AX_arvalid; uint32_t a=T->AX_araddr; int n=T->AX_arlen+1;
    if(CHK_PROTO && e.sar && (!v || a!=e.sara || T->AX_arlen!=e.sarl)) FAIL("arvalid/araddr/arlen changed before arready");
    if(v){ if(T->AX_arsize!=LOGBB) PF("arsize is %d for %d-byte data",T->AX_arsize,BB); if(T->AX_arburst!=1) PF("arburst is %d",T->AX_arburst);
      if(!addrchk("read",a,n)) return false; }
    if(v && T->AX_arready){
      for(int i=0;i<n;i++){ int k=e.arb+i; if(k>=NRB[p]) DF("reads %d words or more, %d requested (%s)",k+1,NRB[p],PNAME[p]);
        else { if(((a/BB*BB)+i*BB & AMASK)!=RADDR[ROFF[p]+k]) DF("read beat %d goes to address %u, expected %u (%s)",k,(unsigned)((a/BB*BB)+i*BB)&AMASK,(unsigned)RADDR[ROFF[p]+k],PNAME[p]);
        if(e.bb<RNEED[ROFF[p]+k]) DF("read of %u issued before the preceding write completed",a); } }
      if(e.arb+n>4*(NRB[p]+1)) return true; // runaway: bounded
      e.arb+=n; e.ql[e.qn++]=n; }
    e.sar=v&&!T->AX_arready; e.sara=e.sar?a:0; e.sarl=e.sar?n-1:0;
    if(e.rv && T->AX_rready){ e.rb++; e.rc++; e.rv=0; if(e.rc==e.ql[0]){ e.rc=0; for(int i=0;i+1<e.qn;i++) e.ql[i]=e.ql[i+1]; e.qn--; e.ql[e.qn]=0; } } }
#endif
#if HASW
  { bool v=T->AX_awvalid; uint32_t a=T->AX_awaddr; int n=T->AX_awlen+1;
    if(CHK_PROTO && e.saw && (!v || a!=e.sawa || T->AX_awlen!=e.sawl)) FAIL("awvalid/awaddr/awlen changed before awready");
    if(v){ if(T->AX_awsize!=LOGBB) PF("awsize is %d for %d-byte data",T->AX_awsize,BB); if(T->AX_awburst!=1) PF("awburst is %d",T->AX_awburst);
      if(!addrchk("write",a,n)) return false; }
    if(v && T->AX_awready){
      for(int i=0;i<n;i++){ int k=e.awb+i; if(k>=NWB[p]) DF("writes %d words or more, %d requested (%s)",k+1,NWB[p],PNAME[p]);
        else if(((a/BB*BB)+i*BB & AMASK)!=WADDR[WOFF[p]+k]) DF("write beat %d goes to address %u, expected %u (%s)",k,(unsigned)((a/BB*BB)+i*BB)&AMASK,(unsigned)WADDR[WOFF[p]+k],PNAME[p]); }
      e.awb+=n; e.al[e.an++]=n; }
    e.saw=v&&!T->AX_awready; e.sawa=e.saw?a:0; e.sawl=e.saw?n-1:0;
    v=T->AX_wvalid; uint64_t d=T->AX_wdata; int st=T->AX_wstrb; bool l=T->AX_wlast;
    if(CHK_PROTO && e.sw && (!v || d!=e.swd || st!=(int)e.sws || l!=e.swl)) FAIL("wvalid/wdata/wstrb/wlast changed before wready");
    if(v && T->AX_wready){
      if(e.wb>=NWB[p]) DF("write data beat %d, but only %d requested (%s)",e.wb+1,NWB[p],PNAME[p]);
      else { uint64_t m=WMASK[WOFF[p]+e.wb];
        if((d&m)!=(WDATA[WOFF[p]+e.wb]&m)) DF("write beat %d to address %u carries %llu, expected %llu (%s)",e.wb,(unsigned)WADDR[WOFF[p]+e.wb],(unsigned long long)d,(unsigned long long)WDATA[WOFF[p]+e.wb],PNAME[p]);
        if((wmask(st)&m)!=m) DF("write beat %d has strobe %x",e.wb,st); }
      e.wb++; e.wc++;
      if(CHK_PROTO){
        if(e.wc>MAXB) PF("write data burst longer than %d beats without wlast",MAXB);
        if(l){ e.wl[e.wn++]=e.wc; e.wc=0; }
        else if(e.wn==0 && e.an && e.wc>=e.al[0]) PF("data beat %d of a burst of %d beats without wlast",e.wc,e.al[0]); } }
    e.sw=v&&!T->AX_wready; e.swd=e.sw?d:0; e.sws=e.sw?st:0; e.swl=e.sw?l:0;
    if(e.bv && T->AX_bready){ e.bb+=e.bl[0]; for(int i=0;i+1<e.bn;i++) e.bl[i]=e.bl[i+1]; e.bn--; e.bl[e.bn]=0; e.bv=0; }
    if(!pair(e)) return false; }
#endif
  bool alldone=true;
  for(int i=0;i<NT;i++){ int x=getev(i); if(x!=e.ev[i]){
      if(x!=e.ev[i]+1) DF("event order");
      int o=EOFF[p][i]+x-1;
      if(e.rb<ERD[o]) DF("operation %d of thread %d (%s) finished after %d of %d words were read",x,i,PNAME[p],e.rb,ERD[o]);
      if(e.bb<EWR[o]) DF("operation %d of thread %d (%s) finished after %d of %d words were written and acknowledged",x,i,PNAME[p],e.bb,EWR[o]);
      if(CHK_DATA && ERESV[o] && (getres(i)&RESMASK)!=ERES[o]) FAIL("operation %d of thread %d (%s) returned %llu, expected %llu",x,i,PNAME[p],(unsigned long long)(getres(i)&RESMASK),(unsigned long long)ERES[o]);
      e.ev[i]=x; }
    if(e.ev[i]<NEV[p][i]) alldone=false; }
  if(alldone){
    if(CHK_DATA){ if(HASR && (e.rb!=NRB[p]||e.arb!=NRB[p])) FAIL("program finished (%s) but %d/%d of %d words read",PNAME[p],e.rb,e.arb,NRB[p]);
      if(HASW && (e.bb!=NWB[p]||e.wb!=NWB[p]||e.awb!=NWB[p])) FAIL("program finished (%s) but %d/%d/%d of %d words written",PNAME[p],e.awb,e.wb,e.bb,NWB[p]); }
    bool quiet = !e.qn && !e.an && !e.wn && !e.bn && !e.wc && !e.rv && !e.bv && !(ANYVALID);
    if(!quiet && CHK_DATA) FAIL("program finished with a transfer outstanding");
    if(quiet){ uint8_t pp=e.p; EVSAVE memset(&e,0,sizeof e); e.p=pp; e.ph=3; EVREST }
  }
  return true; }
static bool goal(Env&e){ return e.ph==4; }
static void show(Env&e,int c,int i){ printf("%3d ph=%d %s ev=%d",i,e.ph,e.ph>=2?PNAME[e.p]:"",getev(0));
#if HASR
  printf(" | AR v=%d r=%d a=%u l=%d R v=%d r=%d d=%llu last=%d",T->AX_arvalid,T->AX_arready,(unsigned)T->AX_araddr,T->AX_arlen,T->AX_rvalid,T->AX_rready,(unsigned long long)T->AX_rdata,T->AX_rlast);
#endif
#if HASW
  printf(" | AW v=%d r=%d a=%u l=%d W v=%d r=%d d=%llu last=%d B v=%d r=%d",T->AX_awvalid,T->AX_awready,(unsigned)T->AX_awaddr,T->AX_awlen,T->AX_wvalid,T->AX_wready,(unsigned long long)T->AX_wdata,T->AX_wlast,T->AX_bvalid,T->AX_bready);
#endif
  printf("\n"); }
'''


def arr(ty, nm, xs):
    xs = list(xs) or [0]
    return 'static const %s %s[]={%s};' % (ty, nm, ','.join('%dull' % x if ty == 'uint64_t' else str(x) for x in xs))


def load(name, text):
    p = os.path.abspath(name + '.py')
    open(p, 'w').write(text)
    spec = importlib.util.spec_from_file_location(name, p)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def make(cfg, chk):
    """-> (verilog, cpp, defines).  cfg keys: cls, ax(dict), bsw, bnd, rams{name:spec},
    progs[list of bodies], params[list of dicts], widths{param:width}, mode, hasr, hasw"""
    axp = dict(datawidth=8, addrwidth=8)
    axp.update(cfg.get('ax', {}))
    xs = cfg.get('xs')
    cls = getattr(vthread, cfg.get('cls', 'AXIM') if not xs else 'AXIM_for_AXIStream' + xs)
    lite = 'Lite' in cfg.get('cls', 'AXIM')
    bsw, bnd = cfg.get('bsw', 2), cfg.get('bnd', 16)
    cls = type('AX', (cls,), dict(burst_size_width=bsw, boundary_size=bnd)) if (bsw != 8 or bnd != 4096) and not lite else cls
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    if xs:
        st = getattr(vthread, cfg.get('xcls', 'AXIStream' + xs))(m, 'st', clk, rst, noio=True, datawidth=axp['datawidth'], addrwidth=axp['addrwidth'], **cfg.get('xkw', {}))
        ax = cls(st, 'ax', **{k: v for k, v in axp.items() if k not in ('datawidth', 'addrwidth')})
    else:
        ax = cls(m, 'ax', clk, rst, **axp)
    hasr, hasw = cfg.get('hasr', True), cfg.get('hasw', True)
    if xs:
        hasr, hasw = xs == 'In', xs == 'Out'
    ns, ref, prims = {'ax': ax}, {}, []
    if xs:
        ns['st'] = st
    for n, (dw, aw) in sorted(cfg.get('fifos', {}).items()):
        ns[n] = vthread.FIFO(m, n, clk, rst, dw, aw)
    pa, pe = m.Input('pa', 12), m.Input('pe')
    for n, spec in sorted(cfg.get('rams', {}).items()):
        o, r, ps = ram_spec(spec, m, clk, rst, n, len(prims))
        ns[n], ref[n] = o, r
        prims += ps
    idlec, seti, ramv = [], [], []
    for i, r in enumerate(prims):
        pd, pw, pr = m.Input('pd%d' % i, r.datawidth), m.Input('pw%d' % i), m.Output('pr%d' % i, r.datawidth)
        r.connect_rtl(1, pa, pd, pw, pr, enable=pe)
        idlec.append('T->pd%d=0; T->pw%d=0;' % (i, i))
        ramv.append('if(i==%d) return T->pr%d;' % (i, i))
    params = cfg['params']
    names = sorted(params[0])
    wid = dict(la=4, ga=axp['addrwidth'], sz=5, st=3, bs=3, bk=3, ba=axp['addrwidth'], x=axp['datawidth'], gb=axp['addrwidth'], ta=axp['addrwidth'], dl=3)
    wid.update(cfg.get('widths', {}))
    nt = len(cfg['progs'])
    ids = []
    for n in names:
        ns[n] = m.Input('i_' + n, wid[n])
        ids.append('T->i_%s=0;' % n)
    gates = [m.Input('g%d' % i) for i in range(nt)]
    evs = [m.OutputReg('ev%d' % i, 8, initval=0) for i in range(nt)]
    ress = [m.OutputReg('res%d' % i, 64, initval=0) for i in range(nt)]
    body = ''
    for i, pr in enumerate(cfg['progs']):
        lines = [s for s in pr.strip('\n').split('\n')]
        ind = len(lines[0]) - len(lines[0].lstrip())
        lines = [s[ind:] for s in lines]
        body += 'def th%d():\n    while not g%d:\n        pass\n' % (i, i) + ''.join('    %s\n' % s for s in lines) + '\n'
    body += 'def start(T):\n    T.start()\n'
    mod = load('prog', body)
    mod.__dict__.update(ns)
    for i in range(nt):
        mod.__dict__['g%d' % i] = gates[i]
        mod.__dict__['ev%d' % i] = evs[i]
        mod.__dict__['res%d' % i] = ress[i]
        mod.start(vthread.Thread(m, 'th%d' % i, clk, rst, getattr(mod, 'th%d' % i), fsm_as_module=cfg.get('thmod', False)))
    # reference
    T = dict(RADDR=[], RDATA=[], RNEED=[], WADDR=[], WDATA=[], WMASK=[], ERD=[], EWR=[], ERES=[], ERESV=[], SCAN=[], FINAL=[])
    ROFF, WOFF, SOFF, NRB, NWB, EOFF, NEV, PN = [], [], [], [], [], [], [], []
    bw = axp['datawidth']
    inits = None
    for cb in params:
        gn = Gone(axp['addrwidth'], bw, bnd, 2 ** bsw)
        gn.order = []
        ax_ = RefAX(gn)
        refs, rp = {}, []
        for n, spec in sorted(cfg.get('rams', {}).items()):
            _r = refbuild(spec, len(rp))
            refs[n] = _r
            rp += [p for x in (_r if isinstance(_r, tuple) else (_r,)) for p in x.prims]
        inits = [list(p.v) for p in rp]
        ROFF.append(len(T['RADDR']))
        WOFF.append(len(T['WADDR']))
        SOFF.append(len(T['SCAN']))
        eo, ne = [], []
        for i, pr in enumerate(cfg['progs']):
            log = []
            gn.rwait = gn.wwait = 0
            rs = _Res()
            ev = _Ev(gn, log)
            ev.__dict__['res'] = rs
            src = '\n'.join(pr.strip('\n').split('\n'))
            lines = src.split('\n')
            ind = len(lines[0]) - len(lines[0].lstrip())
            env = dict(refs, ax=ax_, **cb)
            if xs:
                if i == 0:
                    xenv = streamref.refs(gn, ax_, bw, cfg.get('fifos', {}))
                env.update(xenv)
            env['ev%d' % i], env['res%d' % i] = ev, rs
            exec('\n'.join(s[ind:] for s in lines), env)
            eo.append(len(T['ERD']))
            ne.append(len(log))
            for k, (v, rw, ww, rv) in enumerate(log):
                assert v == k + 1
                T['ERD'].append(rw)
                T['EWR'].append(ww)
                T['ERES'].append((rv or 0) & ((1 << min(64, cfg.get('resw', bw))) - 1))
                T['ERESV'].append(int(rv is not None))
        for a, v, mk, need in gn.rd:
            T['RADDR'].append(a)
            T['RDATA'].append(v)
            T['RNEED'].append(need)
        for a, v, mk in gn.wr:
            T['WADDR'].append(a)
            T['WDATA'].append(v)
            T['WMASK'].append(mk)
        NRB.append(len(gn.rd))
        NWB.append(len(gn.wr))
        EOFF.append(eo)
        NEV.append(ne)
        allw = [(p.idx, a) for p in rp for a in range(len(p.v))]
        seen, order = set(), []
        for x in reversed(gn.order):
            if x not in seen:
                seen.add(x)
                order.append(x)
        order += [x for x in allw if x not in seen]
        for ix, a in order:
            T['SCAN'].append(ix << 16 | a)
            T['FINAL'].append(rp[ix].v[a])
        PN.append(' '.join('%s=%d' % kv for kv in sorted(cb.items())))
    nscan = len(order)
    inita, seti = [], []
    ini = [(i, a) for i, p in enumerate(inits) for a in range(len(p))]
    tabs = [arr('uint16_t', 'INITA', [a for i, a in ini]), arr('uint8_t', 'INITR', [i for i, a in ini]), arr('uint64_t', 'INITD', [inits[i][a] for i, a in ini])]
    for i in range(len(prims)):
        seti.append('if(INITR[e.cnt]==%d){ T->pd%d=INITD[e.cnt]; T->pw%d=1; }' % (i, i, i))
    for k in ('RADDR', 'WADDR'):
        tabs.append(arr('uint32_t', k, T[k]))
    for k in ('RDATA', 'WDATA', 'WMASK', 'ERES', 'FINAL'):
        tabs.append(arr('uint64_t', k, T[k]))
    for k in ('RNEED', 'ERD', 'EWR', 'ERESV', 'SCAN'):
        tabs.append(arr('int', k, T[k]))
    tabs += [arr('int', 'ROFF', ROFF), arr('int', 'WOFF', WOFF), arr('int', 'SOFF', SOFF), arr('int', 'NRB', NRB), arr('int', 'NWB', NWB)]
    tabs.append('static const int EOFF[][NT]={%s}; static const int NEV[][NT]={%s};' % (
        ','.join('{%s}' % ','.join(map(str, x)) for x in EOFF), ','.join('{%s}' % ','.join(map(str, x)) for x in NEV)))
    tabs.append('#define FOFF SOFF\nstatic const char*PNAME[]={%s};' % ','.join('"%s"' % s for s in PN))
    for n in names:
        tabs.append(arr('uint32_t', 'PP_' + n, [cb[n] for cb in params]))
    tabs.append('static void setg(int i,int v){ %s }' % ' '.join('if(i==%d) T->g%d=v;' % (i, i) for i in range(nt)))
    tabs.append('static int getev(int i){ %s return 0; }' % ' '.join('if(i==%d) return T->ev%d;' % (i, i) for i in range(nt)))
    tabs.append('static uint64_t getres(int i){ %s return 0; }' % ' '.join('if(i==%d) return T->res%d;' % (i, i) for i in range(nt)))
    tabs.append('static uint64_t ramv(int i){ %s return 0; }' % ' '.join(ramv))
    anyv = []
    idl = 'T->pa=0; T->pe=0; ' + ''.join(idlec) + ''.join(ids) + ''.join('T->g%d=0;' % i for i in range(nt))
    if hasr:
        idl += 'T->AX_arready=0; T->AX_rvalid=0; T->AX_rdata=0; T->AX_rlast=0;'
        anyv.append('T->AX_arvalid')
    if hasw:
        idl += 'T->AX_awready=0; T->AX_wready=0; T->AX_bvalid=0;'
        anyv += ['T->AX_awvalid', 'T->AX_wvalid']
    if not hasr and not xs:
        ax.disable_read()
    if not hasw and not xs:
        ax.disable_write()
    cpp = CPP.replace('TABLES', '\n'.join(tabs)).replace('IDLE', idl).replace('SETINIT', ' '.join(seti) + ' T->pe=1;')
    cpp = cpp.replace('SETPARAM', ' '.join('T->i_%s=PP_%s[e.p];' % (n, n) for n in names))
    cpp = cpp.replace('ANYVALID', '(' + '||'.join(anyv) + ')')
    cpp = cpp.replace('EVSAVE', 'uint8_t _ev[NT]; memcpy(_ev,e.ev,NT);').replace('EVREST', 'memcpy(e.ev,_ev,NT);')
    cpp = cpp.replace('AX_', 'ax_')
    if lite:
        cpp = cpp.replace('T->ax_rlast = e.rc+1==e.ql[0];', '').replace('T->ax_rlast=0;', '')
        for a, b in (('arlen', '0'), ('awlen', '0'), ('arsize', 'LOGBB'), ('awsize', 'LOGBB'), ('arburst', '1'), ('awburst', '1'), ('wlast', '1'), ('rlast', '1')):
            cpp = cpp.replace('T->ax_' + a, b)
    if not ini:
        cpp = cpp.replace('T->pa=INITA[e.cnt];', '')
    nch = (1 << (nt - 1)) * (4 if hasr else 1) * (8 if hasw else 1)
    bb = bw // 8
    df = ['NT=%d' % nt, 'P=%d' % len(params), 'HASR=%d' % int(hasr), 'HASW=%d' % int(hasw), 'MODE=%d' % cfg.get('mode', 0), 'NCH=%d' % nch,
          'BB=%d' % bb, 'LOGBB=%d' % int(math.log(bb, 2)), 'MAXB=%d' % 2 ** bsw, 'BND=%d' % bnd, 'AMASK=%du' % ((1 << axp['addrwidth']) - 1),
          'NINIT=%d' % len(ini), 'NSCAN=%d' % nscan, 'CHK_DATA=%d' % int(chk == 'data'), 'CHK_PROTO=%d' % int(chk == 'proto'),
          'RESMASK=%dull' % ((1 << min(64, cfg.get('resw', bw))) - 1)]
    return m.to_verilog(), cpp, df


def refbuild(spec, start):
    k = spec[0]
    if k == 'R':
        return RefRAM(start, spec[1], spec[2])
    if k == 'M':
        _, dw, aw, nb = spec
        return RefMB([RefRAM(start + i, dw, aw - int(math.log(nb, 2)) if False else aw) for i in range(nb)])
    subs = []
    n = start
    for s in spec[1]:
        r = refbuild(s, n)
        n += len(r.prims)
        subs.append(r)
    return tuple(subs) if k == 'T' else RefMB(subs)
