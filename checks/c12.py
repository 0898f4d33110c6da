"""C12: AXI master ports obey the handshake and burst rules, for every slave schedule."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import Check, pmap, tier  # noqa
import rtl  # noqa
import aximon  # noqa
import axicfgs  # noqa
import veriloggen as vg  # noqa
import veriloggen.types.axi as axi  # noqa

Q = tier() == 'quick'

# request channel used through the RTL-level API: every acknowledged request
# appears exactly once, in order, unchanged, and valid/payload hold until ready
REQ = r'''
struct Env { uint8_t n, qa[4], ql[4]; uint8_t held, ha, hl; uint8_t wn, wb, acked; };
static void env_init(Env&e){}
static void idle(){ T->req=0; T->addr=0; T->len=1; T->ax_awready=0; T->ax_bvalid=0; T->ax_arready=0; }
static int nchoices(Env&e){ return 5*2*(HASB?2:1); }
static bool drive(Env&e,int c){
  int r=c%5; c/=5; T->CH_ready=c&1; c>>=1;
  if(r){ T->req=1; T->addr=AD[(r-1)&1]; T->len=LITE?1:LN[(r-1)>>1]; if(LITE && r>2) return false; } else { T->req=0; T->addr=AD[1]; T->len=LN[1]; }
  if(HASB){ if(c){ if(!e.wb) return false; T->ax_bvalid=1; } }
  return true; }
static bool check(Env&e,int c){
  if(HASB){ if((e.acked>0)==(bool)T->done) FAIL("write_completed is %d with %d unanswered writes",T->done,e.acked); }
  bool v=T->CH_valid; int a=T->CH_addr, l=LITE?1:T->CH_len+1;
  if(e.held && (!v||a!=e.ha||l!=e.hl)) FAIL("valid/payload changed before ready");
  if(v){ if(!LITE && T->CH_burst!=1) FAIL("burst type %d",T->CH_burst); if(!LITE && T->CH_size!=LOGBB) FAIL("size %d",T->CH_size); }
  if(v && T->CH_ready){ if(!e.n) FAIL("request (addr=%d) that was never acknowledged to the user",a); if(a!=e.qa[0]||l!=e.ql[0]) FAIL("request addr=%d len=%d on the bus, expected addr=%d len=%d",a,l,e.qa[0],e.ql[0]);
     for(int i=0;i+1<e.n;i++){ e.qa[i]=e.qa[i+1]; e.ql[i]=e.ql[i+1]; } e.n--; e.qa[e.n]=e.ql[e.n]=0; if(HASB) e.wb++; }
  e.held=v&&!T->CH_ready; e.ha=e.held?a:0; e.hl=e.held?l:0;
  if(HASB && T->ax_bvalid && T->ax_bready){ e.wb--; e.acked--; }
  if(T->req && T->ack){ if(e.n==2) FAIL("more than one request buffered"); e.qa[e.n]=T->addr; e.ql[e.n]=T->len; e.n++; if(HASB) e.acked++; }
  if(e.acked>7) FAIL("more outstanding writes than can be counted");
  return true; }
static bool goal(Env&e){ return !e.n && !e.acked; }
static void show(Env&e,int c,int i){ printf("%d req=%d addr=%d len=%d ack=%d | v=%d r=%d addr=%d | b=%d outstanding=%d\n",i,T->req,T->addr,T->len,T->ack,T->CH_valid,T->CH_ready,(int)T->CH_addr,T->ax_bvalid,e.acked); }
'''

WDATA = r'''
struct Env { uint8_t n, qd[8], ql[8]; uint8_t held, hd, hl; uint8_t k; };
static void env_init(Env&e){}
static void idle(){ T->req=0; T->data=0; T->last=0; T->ax_wready=0; }
static int nchoices(Env&e){ return 6; }
static bool drive(Env&e,int c){ int r=c%3; T->ax_wready=c/3; T->req=r>0; T->data=r?e.k+1:9; T->last=r==2; if(LITE&&r==2) return false; return true; }
static bool check(Env&e,int c){
  bool v=T->ax_wvalid; int d=T->ax_wdata, l=LITE?0:WLAST;
  if(e.held && (!v||d!=e.hd||l!=e.hl)) FAIL("wvalid/wdata/wlast changed before wready");
  if(v && T->ax_wstrb!=STRB) FAIL("wstrb is %x",T->ax_wstrb);
  if(v && T->ax_wready){ if(!e.n) FAIL("data beat that was never acknowledged to the user"); if(d!=e.qd[0]||l!=e.ql[0]) FAIL("data beat %d last=%d, expected %d last=%d",d,l,e.qd[0],e.ql[0]);
     for(int i=0;i+1<e.n;i++){ e.qd[i]=e.qd[i+1]; e.ql[i]=e.ql[i+1]; } e.n--; e.qd[e.n]=e.ql[e.n]=0; }
  e.held=v&&!T->ax_wready; e.hd=e.held?d:0; e.hl=e.held?l:0;
  if(T->req && T->ack){ if(e.n>=8) FAIL("more beats buffered than the buffers hold"); e.qd[e.n]=T->data; e.ql[e.n]=T->last; e.n++; e.k=(e.k+1)%7; }
  return true; }
static bool goal(Env&e){ return !e.n; }
static void show(Env&e,int c,int i){ printf("%d req=%d data=%d last=%d ack=%d | wvalid=%d wready=%d wdata=%d\n",i,T->req,T->data,T->last,T->ack,T->ax_wvalid,T->ax_wready,(int)T->ax_wdata); }
'''

RDATA = r'''
struct Env { uint8_t n, qd[8], ql[8]; uint8_t held, hl, k; };
static void env_init(Env&e){}
static void idle(){ T->take=0; T->ax_rvalid=0; T->ax_rdata=0; RL(0) }
static int nchoices(Env&e){ return 6; }
static bool drive(Env&e,int c){ int r=c%3; T->take=c/3; if(LITE&&r==2) return false; if(e.held){ if(r!=1+e.hl) return false; } T->ax_rvalid=r>0; T->ax_rdata=r?e.k+1:9; RL(r==2) return true; }
static bool check(Env&e,int c){
  bool l=LITE?0:LASTIN;
  if(T->ax_rvalid && T->ax_rready){ if(e.n>=8) FAIL("more beats accepted than the buffers hold"); e.qd[e.n]=T->ax_rdata; e.ql[e.n]=l; e.n++; e.k=(e.k+1)%7; e.held=0; e.hl=0; }
  else { e.held=T->ax_rvalid; e.hl=e.held?l:0; }
  if(T->valid){ if(!e.n) FAIL("data word delivered that the bus did not supply"); if(T->data!=e.qd[0] || (!LITE && T->last!=e.ql[0])) FAIL("word %d last=%d delivered, expected %d last=%d",T->data,T->last,e.qd[0],e.ql[0]);
    if(T->take){ for(int i=0;i+1<e.n;i++){ e.qd[i]=e.qd[i+1]; e.ql[i]=e.ql[i+1]; } e.n--; e.qd[e.n]=e.ql[e.n]=0; } }
  return true; }
static bool goal(Env&e){ return !e.n; }
static void show(Env&e,int c,int i){ printf("%d rvalid=%d rready=%d rdata=%d | take=%d valid=%d data=%d last=%d\n",i,T->ax_rvalid,T->ax_rready,(int)T->ax_rdata,T->take,T->valid,(int)T->data,T->last); }
'''


def api(res, it):
    _, ch, lite, dw, sb = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    cls = axi.AxiLiteMaster if lite else axi.AxiMaster
    ax = cls(m, 'ax', clk, rst, dw, 8, **(dict(sb_depth=sb) if lite else dict(sb_depth=sb, outstanding_wcount_width=2 if sb == 1 else 3)))
    df = ['LITE=%d' % lite, 'SB=%d' % sb, 'LOGBB=%d' % {8: 0, 16: 1, 32: 2}[dw], 'STRB=%d' % ((1 << (dw // 8)) - 1)]
    if ch in ('ar', 'aw'):
        req, addr, ln = m.Input('req'), m.Input('addr', 8), m.Input('len', 9)
        ack, done = m.Output('ack'), m.Output('done')
        f = ax.read_request if ch == 'ar' else ax.write_request
        ack.assign(f(addr, 1 if lite else ln, cond=req))
        done.assign(ax.write_completed())
        cpp = REQ
        for s in ('addr', 'len', 'ready', 'valid', 'burst', 'size'):
            cpp = cpp.replace('CH_' + s, 'ax_%s%s' % (ch, s))
        if lite:
            for s in ('len', 'burst', 'size'):
                cpp = cpp.replace('T->ax_%s%s' % (ch, s), '0')
        df.append('HASB=%d' % (ch == 'aw'))
        cpp = 'static const int AD[]={0x24,0xf8}, LN[]={1,256};\n' + cpp.replace('ql[4]', 'ql_[4]').replace('e.ql', 'e.ql_').replace('uint8_t n, qa[4], ql_[4]; uint8_t held, ha, hl;', 'uint8_t n, qa[4]; uint16_t ql_[4]; uint8_t held, ha; uint16_t hl;')
    elif ch == 'w':
        req, data, last, ack = m.Input('req'), m.Input('data', dw), m.Input('last'), m.Output('ack')
        ack.assign(ax.write_data(data, cond=req) if lite else ax.write_data(data, last, cond=req))
        cpp = WDATA.replace('WLAST', '0' if lite else 'T->ax_wlast')
    else:
        take, data, valid, last = m.Input('take'), m.Output('data', dw), m.Output('valid'), m.Output('last')
        r = ax.read_data(cond=take)
        data.assign(r[0])
        valid.assign(r[1])
        last.assign(0 if lite else r[2])
        cpp = RDATA.replace('LASTIN', '0' if lite else 'T->ax_rlast')
        import re
        cpp = re.sub(r'RL\(([^()]*)\)', (lambda mo: '') if lite else (lambda mo: 'T->ax_rlast=(%s);' % mo.group(1)), cpp)
    rtl.explore(res, '%s' % ' '.join(map(str, it)), '%s channel of %s(datawidth=%d, sb_depth=%d) used through %s' % (
        ch, cls.__name__, dw, sb, {'ar': 'read_request', 'aw': 'write_request', 'w': 'write_data', 'r': 'read_data'}[ch]), m.to_verilog(), cpp, defines=df)


@rtl.guarded
def one(res, it):
    if it[0] == 'api':
        return api(res, it)
    name, chk = it
    cfg = (axicfgs.xconfigs if name.startswith("xs ") else axicfgs.configs)(tier())[name]
    v, cpp, df = aximon.make(cfg, chk)
    rtl.explore(res, name, '%s' % ' | '.join(p.replace('\n', '; ') for p in cfg['progs']), v, cpp, defines=df, max_states=3000000, track_edges=False)


def main():
    c = Check('C12')
    its = [(n, 'proto') for n in axicfgs.configs(tier()) if 'size0' not in n]
    its += [(n, 'proto') for n in axicfgs.xconfigs(tier())]
    its += [('api', ch, lite, dw, sb) for ch in ('ar', 'aw', 'w', 'r') for lite in (0, 1) for dw, sb in ((8, 1), (32, 1), (16, 2), (8, 3))]
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c12'):
        c.absorb(r)
    c.assumptions = ['emitted RTL (Verilator) composed with a slave making every ready/valid/response choice; '
                     'burst limit and boundary are scaled down through the class attributes burst_size_width/boundary_size in most configurations',
                     'requests of size 0 are excluded (see C11)']
    c.finish()


if __name__ == '__main__':
    main()
