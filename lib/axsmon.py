"""AXI-stream designs under an all-choices stream environment.

Same idea as aximon: a program text is compiled by the library and executed by
CPython on the reference objects below; the run of the reference yields, per
choice of the program's parameters, the k-th word the input stream must take
(with its tlast), the k-th word the output stream must produce (with its
tlast), the final memory contents, and for every event how many words must
have been moved.  The explorer then runs the RTL under every tvalid/tready
schedule.
"""
import collections

import veriloggen as vg
import veriloggen.thread as vthread

import aximon
from aximon import arr, load, ram_spec, refbuild, RefRAM, RefMB


def word(k, w):
    return (k * 0x9D + (k + 3) * (k + 5) * 0x10203 + 0xA5) * 0x01000193 & ((1 << w) - 1)


class G(object):
    def __init__(self, iw, ow, lastp):
        self.iw, self.ow, self.lastp = iw, ow, lastp
        self.rd = []    # (data, last)
        self.wr = []    # (data or (fifo, pack), mask, last)
        self.order = []
        self.res = []

    def take(self):
        k = len(self.rd)
        x = (word(k, self.iw), (self.lastp >> (k % 16)) & 1)
        self.rd.append(x)
        return x


class RefFifo(object):
    def __init__(self, dw):
        self.dw = dw
        self.q = collections.deque()
        self.all = []

    def enq(self, v):
        v &= (1 << self.dw) - 1
        self.q.append(v)

    def deq(self):
        return self.q.popleft()


def _ram(r):
    return RefMB(list(r)) if isinstance(r, tuple) else r


class RefIn(object):
    def __init__(self, g):
        self.g = g

    def read(self):
        return self.g.take()

    def dma_read(self, mem, *a, **kw):
        g = self.g
        mem = _ram(mem)
        if isinstance(mem, RefFifo):
            n, = a
            put = mem.enq
        else:
            la, n = a[:2]
            st = kw.get('local_stride', a[2] if len(a) > 2 else 1)
            it = iter(range(n))

            def put(v):
                p, ad = mem.slot(la + next(it) * st)[0]
                p.v[ad] = v & ((1 << p.dw) - 1)
                g.order.append((p.idx, ad))
        w = mem.dw
        if w >= g.iw:
            for _ in range(n):
                put(sum(g.take()[0] << (i * g.iw) for i in range(w // g.iw)))
        else:
            pk = g.iw // w
            for j in range(n):
                if j % pk == 0:
                    v = g.take()[0]
                put((v >> (j % pk * w)) & ((1 << w) - 1))

    dma_read_async = dma_read

    def dma_wait_read(self):
        pass


class RefOut(object):
    def __init__(self, g):
        self.g = g

    def write(self, v, last=False):
        g = self.g
        m = (1 << g.ow) - 1
        g.wr.append((v & m, m, int(bool(last))))

    write_fence = write

    def dma_write(self, mem, *a, **kw):
        g = self.g
        mem = _ram(mem)
        w = mem.dw
        if isinstance(mem, RefFifo):
            n, = a
            vs = [lambda: mem.q.popleft()] * n
        else:
            la, n = a[:2]
            st = kw.get('local_stride', a[2] if len(a) > 2 else 1)
            vs = []
            for j in range(n):
                p, ad = mem.slot(la + j * st)[0]
                vs.append(lambda v=p.v[ad]: v)
        full = (1 << g.ow) - 1
        if w >= g.ow:
            pk = w // g.ow
            for j, v in enumerate(vs):
                box = []
                for k in range(pk):
                    def th(k=k, box=box, v=v):
                        if not box:
                            box.append(v())
                        return (box[0] >> (k * g.ow)) & full
                    g.wr.append((th, full, int(j == n - 1 and k == pk - 1)))
        else:
            pk = g.ow // w
            for j in range(0, n, pk):
                grp = vs[j:j + pk]
                m = (1 << (w * len(grp))) - 1
                g.wr.append((lambda grp=grp: sum(v() << (k * w) for k, v in enumerate(grp)), m, int(j + pk >= n)))

    dma_write_async = dma_write

    def dma_wait_write(self):
        pass


class _Ev(object):
    def __init__(self, g, log, res):
        self.__dict__.update(g=g, log=log, res=res)

    def __setattr__(self, k, v):
        self.log.append((v, len(self.g.rd) if self.g.sync else 0, len(self.g.wr) if self.g.sync else 0, self.res.value))


class _Res(object):
    value = None


CPP = r'''
struct Env { uint8_t ph, p, fired; uint16_t cnt; uint16_t rb, wb; uint8_t iv; uint8_t so; uint64_t sd; uint8_t sl, ss; uint8_t ev[NT]; };
TABLES
static void env_init(Env&e){}
static void idle(){ IDLE }
static int nchoices(Env&e){ if(e.ph==1) return P; if(e.ph!=2) return 1; return NCH; }
static bool drive(Env&e,int c){
  if(e.ph==0){ T->pa=INITA[e.cnt]; SETINIT return true; }
  if(e.ph==1){ e.p=c; return true; }
  SETPARAM
  if(e.ph==2){
    int b=c;
    for(int i=0;i<NT;i++){ if(i==0 || (e.fired>>i)&1){ setg(i,1); } else { setg(i,b&1); if(b&1) e.fired|=1<<i; b>>=1; } }
#if HASI
    bool v=b&1; b>>=1;
    if(e.iv){ if(v) return false; } else if(v) e.iv=1;
    T->si_tvalid=e.iv;
    if(e.iv){ bool in=e.rb<NRB[e.p]; T->si_tdata=in?RDATA[ROFF[e.p]+e.rb]:0; SILAST(in?RLAST[ROFF[e.p]+e.rb]:0); }
#endif
#if HASO
    T->so_tready=b&1; b>>=1;
#endif
    if(b) return false;
    return true; }
  for(int i=0;i<NT;i++) setg(i,1);
#if HASI
  T->si_tvalid=1; T->si_tdata=0; SILAST(0);
#endif
#if HASO
  T->so_tready=1;
#endif
  if(e.ph==3 && NSCAN){ T->pa=SCAN[SOFF[e.p]+(e.cnt<NSCAN?e.cnt:NSCAN-1)]&0xffff; T->pe=1; }
  return true; }
static bool check(Env&e,int c){
  const int p=e.p;
  if(e.ph==0){ if(e.cnt+1>=NINIT) e.ph=1; if(e.ph) e.cnt=0; else e.cnt++;
#if HASO
    if(T->so_tvalid) FAIL("stream output before the operation started");
#endif
#if HASI
    if(T->si_tready) FAIL("input stream accepted before the operation started");
#endif
    return true; }
  if(e.ph==1){ e.ph=2; return true; }
  if(e.ph>=3){
#if HASO
    if(T->so_tvalid) FAIL("output stream word although every requested word has been sent (%s)",PNAME[p]);
#endif
#if HASI
    if(T->si_tready) FAIL("input stream word accepted although every requested word has been taken (%s)",PNAME[p]);
#endif
    if(e.ph==3 && e.cnt>0){ int s=SCAN[SOFF[p]+e.cnt-1]; uint64_t v=ramv(s>>16); uint64_t x=FINAL[SOFF[p]+e.cnt-1];
      if(v!=x) FAIL("after the program (%s) word %d of memory %d is %llu, expected %llu",PNAME[p],s&0xffff,s>>16,(unsigned long long)v,(unsigned long long)x); }
    if(e.ph==3 && ++e.cnt==NSCAN+SETTLE){ uint8_t pp=e.p; EVSAVE memset(&e,0,sizeof e); e.p=pp; e.ph=4; EVREST }
    else if(e.ph==3 && e.cnt>NSCAN) e.cnt=e.cnt;
    return true; }
#if HASI
  if(T->si_tready && e.iv){ if(e.rb>=NRB[p]) FAIL("input stream word %d accepted, only %d requested (%s)",e.rb+1,NRB[p],PNAME[p]); e.rb++; e.iv=0; }
#endif
#if HASO
  { bool v=T->so_tvalid; uint64_t d=T->so_tdata; int l=SOLAST; int st=SOSTRB;
    if(e.so && (!v || d!=e.sd || l!=e.sl || st!=e.ss)) FAIL("tvalid/tdata/tlast/tstrb changed before tready");
    if(v && T->so_tready){
      if(e.wb>=NWB[p]) FAIL("output word %d, but only %d requested (%s)",e.wb+1,NWB[p],PNAME[p]);
      uint64_t m=WMASK[WOFF[p]+e.wb];
      if((d&m)!=(WDATA[WOFF[p]+e.wb]&m)) FAIL("output word %d is %llu, expected %llu (%s)",e.wb,(unsigned long long)d,(unsigned long long)WDATA[WOFF[p]+e.wb],PNAME[p]);
      if(l!=2 && l!=WLAST[WOFF[p]+e.wb]) FAIL("output word %d of %d has tlast=%d, expected %d (%s)",e.wb,NWB[p],l,WLAST[WOFF[p]+e.wb],PNAME[p]);
      for(int i=0;i<OB;i++) if((m>>(8*i)&255)==255 && !(st>>i&1)) FAIL("output word %d (%s): tstrb is %x, byte %d carries requested data",e.wb,PNAME[p],st,i);
      e.wb++; }
    e.so=v&&!T->so_tready; e.sd=e.so?d:0; e.sl=e.so?l:0; e.ss=e.so?st:0; }
#endif
  bool alldone=true;
  for(int i=0;i<NT;i++){ int x=getev(i); if(x!=e.ev[i]){
      if(x!=e.ev[i]+1) FAIL("event order");
      int o=EOFF[p][i]+x-1;
      if(e.rb<ERD[o]) FAIL("operation %d of thread %d (%s) finished after %d of %d words were taken",x,i,PNAME[p],e.rb,ERD[o]);
      if(e.wb+e.so<EWR[o]) FAIL("operation %d of thread %d (%s) finished after %d of %d words were sent",x,i,PNAME[p],e.wb,EWR[o]);
      if(ERESV[o] && (getres(i)&RESMASK)!=ERES[o]) FAIL("operation %d of thread %d (%s) returned %llu, expected %llu",x,i,PNAME[p],(unsigned long long)(getres(i)&RESMASK),(unsigned long long)ERES[o]);
      e.ev[i]=x; }
    if(e.ev[i]<NEV[p][i]) alldone=false; }
  if(alldone){
    bool quiet = e.wb==NWB[p] && e.rb==NRB[p];
    if(quiet){ uint8_t pp=e.p; EVSAVE memset(&e,0,sizeof e); e.p=pp; e.ph=3; EVREST }
  }
  return true; }
static bool goal(Env&e){ return e.ph==4; }
static void show(Env&e,int c,int i){ printf("%3d ph=%d %s ev=%d",i,e.ph,e.ph>=2?PNAME[e.p]:"",getev(0));
#if HASI
  printf(" | I v=%d r=%d d=%llu",T->si_tvalid,T->si_tready,(unsigned long long)T->si_tdata);
#endif
#if HASO
  printf(" | O v=%d r=%d d=%llu l=%d",T->so_tvalid,T->so_tready,(unsigned long long)T->so_tdata,SOLAST);
#endif
  printf("\n"); }
'''


def make(cfg):
    """cfg keys: si(dict)|None, so(dict)|None, cls ('' or 'Fifo') for each via 'icls','ocls', rams{}, fifos{name:(dw,aw)},
    progs, params, widths, lastp, sync (events wait for all words)"""
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    ns = {}
    hasi, haso = cfg.get('si') is not None, cfg.get('so') is not None
    ikw = dict(datawidth=8, addrwidth=6)
    okw = dict(datawidth=8, addrwidth=6)
    if hasi:
        ikw.update(cfg['si'])
        ns['si'] = getattr(vthread, cfg.get('icls', 'AXIStreamIn'))(m, 'si', clk, rst, **ikw)
    if haso:
        okw.update(cfg['so'])
        ns['so'] = getattr(vthread, cfg.get('ocls', 'AXIStreamOut'))(m, 'so', clk, rst, **okw)
    prims, refs0 = [], {}
    pa, pe = m.Input('pa', 12), m.Input('pe')
    for n, spec in sorted(cfg.get('rams', {}).items()):
        o, r, ps = ram_spec(spec, m, clk, rst, n, len(prims))
        ns[n] = o
        prims += ps
    for n, (dw, aw) in sorted(cfg.get('fifos', {}).items()):
        ns[n] = vthread.FIFO(m, n, clk, rst, dw, aw)
    idl = 'T->pa=0; T->pe=0;'
    ramv, seti = [], []
    for i, r in enumerate(prims):
        pd, pw, pr = m.Input('pd%d' % i, r.datawidth), m.Input('pw%d' % i), m.Output('pr%d' % i, r.datawidth)
        r.connect_rtl(1, pa, pd, pw, pr, enable=pe)
        idl += 'T->pd%d=0; T->pw%d=0;' % (i, i)
        ramv.append('if(i==%d) return T->pr%d;' % (i, i))
    params = cfg['params']
    names = sorted(params[0])
    wid = dict(la=4, sz=5, st=3, x=okw['datawidth'])
    wid.update(cfg.get('widths', {}))
    nt = len(cfg['progs'])
    for n in names:
        ns[n] = m.Input('i_' + n, wid[n])
        idl += 'T->i_%s=0;' % n
    gates = [m.Input('g%d' % i) for i in range(nt)]
    evs = [m.OutputReg('ev%d' % i, 8, initval=0) for i in range(nt)]
    ress = [m.OutputReg('res%d' % i, 64, initval=0) for i in range(nt)]
    bodies = []
    body = ''
    for i, pr in enumerate(cfg['progs']):
        lines = pr.strip('\n').split('\n')
        ind = len(lines[0]) - len(lines[0].lstrip())
        lines = [s[ind:] for s in lines]
        bodies.append('\n'.join(lines))
        body += 'def th%d():\n    while not g%d:\n        pass\n' % (i, i) + ''.join('    %s\n' % s for s in lines) + '\n'
    body += 'def start(T):\n    T.start()\n'
    mod = load('prog', body)
    mod.__dict__.update(ns)
    for i in range(nt):
        mod.__dict__['g%d' % i] = gates[i]
        mod.__dict__['ev%d' % i] = evs[i]
        mod.__dict__['res%d' % i] = ress[i]
        mod.start(vthread.Thread(m, 'th%d' % i, clk, rst, getattr(mod, 'th%d' % i), fsm_as_module=cfg.get('thmod', False)))
    T = dict(RDATA=[], RLAST=[], WDATA=[], WMASK=[], WLAST=[], ERD=[], EWR=[], ERES=[], ERESV=[], SCAN=[], FINAL=[])
    ROFF, WOFF, SOFF, NRB, NWB, EOFF, NEV, PN = [], [], [], [], [], [], [], []
    inits, order = [], []
    resw = cfg.get('resw', 64)
    for cb in params:
        g = G(ikw['datawidth'], okw['datawidth'], cfg.get('lastp', 0x5a94))
        g.sync = cfg.get('sync', nt == 1)
        refs, rp = {}, []
        for n, spec in sorted(cfg.get('rams', {}).items()):
            r = refbuild(spec, len(rp))
            refs[n] = r
            rp += [p for x in (r if isinstance(r, tuple) else (r,)) for p in x.prims]
        for n, (dw, aw) in sorted(cfg.get('fifos', {}).items()):
            refs[n] = RefFifo(dw)
        inits = [list(p.v) for p in rp]
        ROFF.append(len(T['RDATA']))
        WOFF.append(len(T['WDATA']))
        SOFF.append(len(T['SCAN']))
        eo, ne = [], []
        for i, b in enumerate(bodies):
            log, rs = [], _Res()
            env = dict(refs, si=RefIn(g), so=RefOut(g), **cb)
            env['ev%d' % i], env['res%d' % i] = _Ev(g, log, rs), rs
            exec(b, env)
            eo.append(len(T['ERD']))
            ne.append(len(log))
            for k, (v, nr, nw, rv) in enumerate(log):
                assert v == k + 1
                T['ERD'].append(nr if cfg.get('evr', True) else 0)
                T['EWR'].append(nw if cfg.get('evw', True) else 0)
                T['ERES'].append((rv or 0) & ((1 << resw) - 1))
                T['ERESV'].append(int(rv is not None))
        T['RDATA'] += [d for d, l in g.rd]
        T['RLAST'] += [l for d, l in g.rd]
        for d, mk, l in g.wr:
            T['WDATA'].append((d() if callable(d) else d) & mk)
            T['WMASK'].append(mk)
            T['WLAST'].append(l)
        NRB.append(len(g.rd))
        NWB.append(len(g.wr))
        EOFF.append(eo)
        NEV.append(ne)
        seen, order = set(), []
        for x in list(reversed(g.order)) + [(p.idx, a) for p in rp for a in range(len(p.v))]:
            if x not in seen:
                seen.add(x)
                order.append(x)
        for ix, a in order:
            T['SCAN'].append(ix << 16 | a)
            T['FINAL'].append(rp[ix].v[a])
        PN.append(' '.join('%s=%d' % kv for kv in sorted(cb.items())))
    ini = [(i, a) for i, p in enumerate(inits) for a in range(len(p))]
    tabs = [arr('uint16_t', 'INITA', [a for i, a in ini]), arr('uint8_t', 'INITR', [i for i, a in ini]), arr('uint64_t', 'INITD', [inits[i][a] for i, a in ini])]
    for i in range(len(prims)):
        seti.append('if(INITR[e.cnt]==%d){ T->pd%d=INITD[e.cnt]; T->pw%d=1; }' % (i, i, i))
    for k in ('RDATA', 'WDATA', 'WMASK', 'ERES', 'FINAL'):
        tabs.append(arr('uint64_t', k, T[k]))
    for k in ('RLAST', 'WLAST', 'ERD', 'EWR', 'ERESV', 'SCAN'):
        tabs.append(arr('int', k, T[k]))
    tabs += [arr('int', 'ROFF', ROFF), arr('int', 'WOFF', WOFF), arr('int', 'SOFF', SOFF), arr('int', 'NRB', NRB), arr('int', 'NWB', NWB)]
    tabs.append('static const int EOFF[][NT]={%s}; static const int NEV[][NT]={%s};' % (
        ','.join('{%s}' % ','.join(map(str, x)) for x in EOFF), ','.join('{%s}' % ','.join(map(str, x)) for x in NEV)))
    tabs.append('static const char*PNAME[]={%s};' % ','.join('"%s"' % s for s in PN))
    for n in names:
        tabs.append(arr('uint32_t', 'PP_' + n, [cb[n] for cb in params]))
    tabs.append('static void setg(int i,int v){ %s }' % ' '.join('if(i==%d) T->g%d=v;' % (i, i) for i in range(nt)))
    tabs.append('static int getev(int i){ %s return 0; }' % ' '.join('if(i==%d) return T->ev%d;' % (i, i) for i in range(nt)))
    tabs.append('static uint64_t getres(int i){ %s return 0; }' % ' '.join('if(i==%d) return T->res%d;' % (i, i) for i in range(nt)))
    tabs.append('static uint64_t ramv(int i){ %s return 0; }' % ' '.join(ramv))
    v = m.to_verilog()
    import re
    ports = set(re.findall(r'(?:input|output)\s+(?:reg\s+)?(?:signed\s+)?(?:\[[^]]*\]\s*)?(\w+)', v[v.index('module top'):]))
    idl += ''.join('T->g%d=0;' % i for i in range(nt))
    extra = ''
    if hasi:
        idl += 'T->si_tvalid=0; T->si_tdata=0;' + ('T->si_tlast=0;' if 'si_tlast' in ports else '')
        for x in ('tstrb', 'tuser', 'tid', 'tdest'):
            if 'si_' + x in ports:
                idl += 'T->si_%s=0;' % x
    if haso:
        idl += 'T->so_tready=0;'
    cpp = CPP.replace('TABLES', '\n'.join(tabs)).replace('IDLE', idl).replace('SETINIT', ' '.join(seti) + (' T->pe=1;' if ini else ''))
    if not ini:
        cpp = cpp.replace('T->pa=INITA[e.cnt];', '')
    cpp = cpp.replace('SETPARAM', ' '.join('T->i_%s=PP_%s[e.p];' % (n, n) for n in names))
    cpp = re.sub(r'SILAST\(([^;]*)\);', r'T->si_tlast=(\1);' if 'si_tlast' in ports else '', cpp)
    cpp = cpp.replace('SOLAST', 'T->so_tlast' if 'so_tlast' in ports else '2').replace('SOSTRB', 'T->so_tstrb' if 'so_tstrb' in ports else '255')
    cpp = cpp.replace('EVSAVE', 'uint8_t _ev[NT]; memcpy(_ev,e.ev,NT);').replace('EVREST', 'memcpy(e.ev,_ev,NT);')
    nch = (1 << (nt - 1)) * (2 if hasi else 1) * (2 if haso else 1)
    df = ['NT=%d' % nt, 'P=%d' % len(params), 'HASI=%d' % hasi, 'HASO=%d' % haso, 'NCH=%d' % nch, 'OB=%d' % (okw['datawidth'] // 8),
          'NINIT=%d' % len(ini), 'NSCAN=%d' % len(order), 'SETTLE=%d' % (6 if not order else 1), 'RESMASK=%dull' % ((1 << resw) - 1)]
    return v, cpp, df
