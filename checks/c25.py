"""C25: the UART sends and receives every byte correctly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import rtl

import veriloggen as vg
import veriloggen.thread as vthread
from veriloggen.thread.uart import mkUartTx, mkUartRx, UartTx, UartRx

Q = tier() == 'quick'

# ---------------------------------------------------------------------------
TX = r'''
struct Env { uint16_t left, wait; uint8_t byte, bit, act, pend, nbyte; };
static void env_init(Env&e){}
static void idle(){ T->enable=0; T->din=0x55; }
static int nchoices(Env&e){ return T->ready && !e.pend? 258 : 2; }
static bool drive(Env&e,int c){ T->enable=c>=2; T->din= c>=2? c-2 : c? 255:0; return true; }
static bool check(Env&e,int c){
  if(!e.act && !T->txd){ if(!e.pend) FAIL("line low without a byte to send"); e.act=1; e.bit=0; e.left=W; e.byte=e.nbyte; e.pend=0; e.nbyte=0; e.wait=0; }
  if(e.act){
    int want= e.bit==0?0 : e.bit==9?1 : e.byte>>(e.bit-1)&1;
    if(T->txd!=want) FAIL("byte 0x%02x: bit %d of the frame (cycle %d of %d) is %d",e.byte,e.bit,W-e.left,W,T->txd);
    if(T->ready && e.bit<9) FAIL("ready during bit %d of the frame",e.bit);
    if(!--e.left){ if(e.bit==9){ e.act=0; e.bit=0; e.byte=0; } else { e.bit++; e.left=W; if(e.bit==9) e.byte=0; } }
  } else if(e.pend){ if(++e.wait>2*W+4) FAIL("start bit of 0x%02x is missing",e.nbyte); }
  if(c>=2){ e.pend=1; e.nbyte=c-2; }
  return true; }
static bool goal(Env&e){ return T->ready && !e.pend && !e.act; }
static void show(Env&e,int c,int i){ printf("%2d enable=%d din=%02x ready=%d txd=%d\n",i,T->enable,T->din,T->ready,T->txd); }
'''

# an external transmitter with exactly the configured bit time, any gap >= 0 after the stop bit
RX = r'''
struct Env { uint16_t left, quiet; uint8_t byte, bit, act, due, got, dl; };
static void env_init(Env&e){ e.quiet=W; }
static void idle(){ T->rxd=1; }
static int nchoices(Env&e){ return e.act? 1 : 1+(e.quiet>=QUIETMIN? NBYTE:0)+(GLITCH&&e.quiet>=W); }
static bool drive(Env&e,int c){
  if(!e.act){ if(!c){ T->rxd=1; if(e.quiet<W) e.quiet++; }
    else if(c<=NBYTE){ e.act=1; e.byte=BYTES[c-1]; e.bit=0; e.left=W; e.quiet=0; }
    else { T->rxd=0; e.quiet=0; e.got|=2; } }
  if(e.act) T->rxd= e.bit==0?0 : e.bit==9?1 : e.byte>>(e.bit-1)&1;
  return true; }
static bool check(Env&e,int c){
  if(T->valid){ if(!e.act && !e.dl) FAIL("byte 0x%02x received, none was sent",T->dout);
    if(e.act && e.bit<8) { if(!e.dl) FAIL("byte received during bit %d of the frame",e.bit); }
    if(e.got&1) FAIL("byte received twice");
    int cur=e.act&&e.bit>=8, want= cur? e.byte : e.due; if(T->dout!=want) FAIL("received 0x%02x, sent 0x%02x",T->dout,want);
    if(cur) e.got|=1; e.dl=0; e.due=0; }
  else if(e.dl){ if(!--e.dl) FAIL("byte 0x%02x was never received",e.due); }
  if(e.act && !--e.left){ if(e.bit<9){ e.bit++; e.left=W; }
    else { if(!(e.got&1)){ if(e.dl) FAIL("byte 0x%02x was never received",e.due); e.dl=W/2+4; e.due=e.byte; } e.act=0; e.byte=0; e.bit=0; e.got=0; e.quiet=QRESET; } }
  if(!e.act) e.got=0;
  return true; }
static bool goal(Env&e){ return true; }
static void show(Env&e,int c,int i){ printf("%2d rxd=%d valid=%d dout=%02x (bit %d of 0x%02x)\n",i,T->rxd,T->valid,T->dout,e.bit,e.byte); }
'''
RX = RX.replace('static void env_init', 'static const uint8_t BYTES[]={BYTELIST};\nstatic void env_init', 1)

# thread level: one thread sends, another receives over a wire
LOOP = r'''
struct Env { uint8_t q[3], n, st, d, lt, lr; uint16_t age; };
static const uint8_t BYTES[]={BYTELIST};
static void env_init(Env&e){}
static void idle(){ T->go=0; T->d=0; }
static int nchoices(Env&e){ return e.st? 1 : 1+NBYTE; }
static bool drive(Env&e,int c){ if(!e.st && c){ e.st=1; e.d=BYTES[c-1]; if(e.n==3) return false; e.q[e.n++]=e.d; } T->go=e.st; T->d=e.d; return true; }
static bool check(Env&e,int c){
  if(T->rev && !e.lr){ if(!e.n) FAIL("thread received 0x%02x, nothing was sent",T->rv); if(T->rv!=e.q[0]) FAIL("thread received 0x%02x, sent 0x%02x",T->rv,e.q[0]); e.q[0]=e.q[1]; e.q[1]=e.q[2]; e.q[2]=0; e.n--; e.age=0; }
  else if(e.n){ if(++e.age>14*W+40) FAIL("byte 0x%02x was never received",e.q[0]); }
  if(T->tev && !e.lt){ if(!e.st) FAIL("harness"); e.st=0; e.d=0; }
  e.lt=T->tev; e.lr=T->rev;
  return true; }
static bool goal(Env&e){ return !e.st && !e.n; }
static void show(Env&e,int c,int i){ printf("%2d go=%d d=%02x sent=%d received=%d value=%02x outstanding=%d\n",i,T->go,T->d,T->tev,T->rev,T->rv,e.n); }
'''


def bytelist(k):
    if k == 256:
        return list(range(256))
    base = [0x00, 0xff, 0x55, 0xaa, 0x01, 0x80, 0xfe, 0x7f, 0x0f, 0xf0, 0x33, 0xc3, 0x96, 0x5a, 0x10, 0xef]
    return base[:k]


@rtl.guarded
def one(res, it):
    kind, baud, clock = it[:3]
    w = int(clock / baud)
    key = ' '.join(str(x) for x in it)
    if kind == 'tx':
        v = mkUartTx(baud, clock).to_verilog()
        top = 'UartTx'
        m = vg.Module('top')
        clk, rst, din, en = m.Input('CLK'), m.Input('RST'), m.Input('din', 8), m.Input('enable')
        ready, txd = m.Output('ready'), m.Output('txd')
        m.Instance(mkUartTx(baud, clock), 'u', ports=[('CLK', clk), ('RST', rst), ('din', din), ('enable', en), ('ready', ready), ('txd', txd)])
        rtl.explore(res, key, 'transmitter, %d clocks per bit' % w, m.to_verilog(), TX, defines=['W=%d' % w], max_states=20000000)
    elif kind == 'rx':
        nb, glitch = it[3], it[4]
        m = vg.Module('top')
        clk, rst, rxd = m.Input('CLK'), m.Input('RST'), m.Input('rxd')
        dout, valid = m.Output('dout', 8), m.Output('valid')
        m.Instance(mkUartRx(baud, clock), 'u', ports=[('CLK', clk), ('RST', rst), ('rxd', rxd), ('dout', dout), ('valid', valid)])
        bl = bytelist(nb)
        rtl.explore(res, key, 'receiver, %d clocks per bit' % w, m.to_verilog(), RX.replace('BYTELIST', ','.join(map(str, bl))),
                    defines=['W=%d' % w, 'NBYTE=%d' % len(bl), 'GLITCH=%d' % glitch, 'QUIETMIN=%d' % (w if glitch else w == 2), 'QRESET=%d' % (w if glitch else 0)], track_edges=False, max_states=20000000)
    else:
        nb = it[3]
        m = vg.Module('top')
        clk, rst, go, d = m.Input('CLK'), m.Input('RST'), m.Input('go'), m.Input('d', 8)
        tev, rev, rv = m.OutputReg('tev', initval=0), m.OutputReg('rev', initval=0), m.OutputReg('rv', 8, initval=0)
        line = m.Wire('line')
        tx = UartTx(m, 'tx', 'tx_', clk, rst, txd=line, baudrate=baud, clockfreq=clock)
        rx = UartRx(m, 'rx', 'rx_', clk, rst, rxd=line, baudrate=baud, clockfreq=clock)
        locked = kind == 'loop-lock'

        def snd():
            while True:
                while not go:
                    pass
                if locked:
                    tx.lock()
                tx.send(d)
                if locked:
                    tx.unlock()
                tev.value = 1
                tev.value = 0

        def rcv():
            while True:
                x = rx.recv()
                rv.value = x
                rev.value = 1
                rev.value = 0
        vthread.Thread(m, 'snd', clk, rst, snd).start()
        vthread.Thread(m, 'rcv', clk, rst, rcv).start()
        bl = bytelist(nb)
        rtl.explore(res, key, 'threads over a UART line, %d clocks per bit' % w, m.to_verilog(), LOOP.replace('BYTELIST', ','.join(map(str, bl))),
                    defines=['W=%d' % w, 'NBYTE=%d' % len(bl)], max_states=20000000)


def configs():
    R = [(1, 2), (10, 30), (9600, 9600 * 4), (1, 5), (115200, 1000000), (1, 7), (3, 50)]
    C = []
    for b, k in R:
        C.append(('tx', b, k))
        C.append(('rx', b, k, 16 if Q and k // b > 5 else 64 if False else 16, 0))
        if k // b >= 6:
            C.append(('rx', b, k, 4, 1))
        C.append(('loop', b, k, 4 if Q else 8))
    C += [('rx', 1, 2, 256, 0), ('rx', 1, 4, 256, 0), ('loop-lock', 1, 4, 3), ('loop', 1, 4, 12)]
    C += [('tx', 1, 33), ('rx', 1, 33, 4, 1), ('loop', 1, 33, 2), ('rx', 1, 64, 3, 1)]
    if not Q:
        for k in range(2, 41):
            C += [('tx', 1, k), ('rx', 1, k, 16, 0), ('loop', 1, k, 4)]
        C += [('tx', 19200, 19200 * 64), ('rx', 1, 5, 256, 0), ('rx', 1, 8, 256, 0), ('loop', 1, 8, 16)]
    return list(dict.fromkeys(C))


def main():
    c = Check('C25')
    if len(sys.argv) > 1:
        os.makedirs('/tmp/x/c25', exist_ok=True)
        os.chdir('/tmp/x/c25')
        for x in configs():
            if sys.argv[1] in ' '.join(map(str, x)):
                r = one(x)
                print(x, r['states'], r['transitions'], [v[:2] for v in r['violations']])
        return
    cs = configs()
    for r in pmap(one, cs, 'c25'):
        c.absorb(r)
    c.count('configs', len(cs))
    c.assumptions = ['bit time = int(clockfreq / baudrate) clock cycles, at least 2 (with 2 the line idles for a cycle between frames, as the bundled transmitter leaves it); the far end uses the same bit time',
                     'enable only while ready; the receiving thread is back in recv before the next frame ends (the UART has no flow control)',
                     'Verilator 2-state semantics of the emitted text']
    c.finish()


if __name__ == '__main__':
    main()
