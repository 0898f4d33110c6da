"""C20: valid/ready elastic buffers preserve the data stream."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import rtl

import veriloggen as vg
from veriloggen.types.skidbuffer import SkidBuffer

Q = tier() == 'quick'

CPP = r'''
struct Env { uint8_t n, held, lastready, q[12]; int held_d; };
static void env_init(Env&e){ e.lastready=1; }
static void idle(){ T->s_valid=0; T->m_ready=0; T->d=NV-1; T->RST=0; }
static int nchoices(Env&){ return 2*(NV+1)+1; }
static bool drive(Env&e,int c){ if(c==2*(NV+1)){ T->RST=1; return true; } T->m_ready=c&1; int v=c>>1; T->s_valid=v>0; T->d=v?v-1:NV-1; return true; }
static bool check(Env&e,int c){
  if(e.held && !T->m_valid) FAIL("valid dropped before the item was accepted");
  if(e.held && (int)T->q!=e.held_d) FAIL("held data changed from %d to %d",e.held_d,T->q);
  if(e.n==0 && T->m_valid) FAIL("an item appeared that was never accepted");
  if(T->m_valid && T->q!=e.q[0]) FAIL("delivers %d, oldest accepted item is %d",T->q,e.q[0]);
  if(e.n && !T->m_valid && STAGES==1) FAIL("a stored item is not offered");
  if(e.n>2*STAGES) FAIL("holds %d items",e.n);
  if(STAGES==1 && e.lastready && !T->s_ready) FAIL("ready dropped although the output was not stalled");
  if(c==2*(NV+1)){ memset(&e,0,sizeof e); e.lastready=1; return true; }
  e.held=T->m_valid && !T->m_ready; e.held_d=e.held?T->q:0; e.lastready=T->m_ready||!T->m_valid;
  int acc=T->s_valid&&T->s_ready;
  if(T->m_valid&&T->m_ready){ memmove(e.q,e.q+1,11); e.n--; e.q[e.n]=0; }
  if(acc){ if(e.n>=10) FAIL("accepts without delivering"); e.q[e.n++]=T->d; }
  return true; }
static bool goal(Env&e){ return e.n==0; }
static void show(Env&e,int c,int i){ printf("%2d %s s_valid=%d d=%d s_ready=%d | m_valid=%d m_ready=%d q=%d stored=%d\n",i,c==2*(NV+1)?"reset":"",T->s_valid,T->d,T->s_ready,T->m_valid,T->m_ready,T->q,e.n); }
'''


@rtl.guarded
def one(res, it):
    widths, stages, prefix, values, param = it
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    total = sum(1 if w is None else abs(w) for w in widths)
    d = m.Input('d', total)
    sv, mr = m.Input('s_valid'), m.Input('m_ready')
    srdy, mv = m.Output('s_ready'), m.Output('m_valid')
    q = m.Output('q', total)
    vals, hi = [], total
    for i, w in enumerate(widths):
        n = 1 if w is None else abs(w)
        if param and w is not None:
            p = m.Parameter('W%d' % i, n)
            v = m.Wire('v%d' % i, p, signed=w < 0)
        else:
            v = m.Wire('v%d' % i, w if w is None else n, signed=w is not None and w < 0)
        v.assign(d[hi - n:hi] if total > 1 else d)
        hi -= n
        vals.append(v)
    sbs = []
    valid = sv
    readies = []
    for s in range(stages):
        rdy = m.Wire('rdy%d' % s)
        readies.append(rdy)
        sb = SkidBuffer(m, clk, rst, valid, rdy, *vals, **(dict(prefix=prefix) if prefix else {}))
        sbs.append(sb)
        vals = list(sb.values) if s % 2 == 0 else [sb[i] for i in range(len(widths))]
        valid = sb.valid
    for s in range(stages - 1):
        readies[s].assign(sbs[s + 1].ready)
    readies[-1].assign(mr)
    srdy.assign(sbs[0].ready)
    mv.assign(valid)
    q.assign(vg.Cat(*vals) if len(vals) > 1 else vals[0])
    nv = min(1 << total, values)
    rtl.explore(res, 'skid %r stages=%d param=%d' % (widths, stages, param), 'skid buffer of values %r (negative = signed), %d in series' % (widths, stages),
                m.to_verilog(), CPP, defines=['NV=%d' % nv, 'STAGES=%d' % stages])


def items():
    out = []
    for ws in ([None], [1], [2], [-2], [None, None], [1, 2], [2, 1], [-2, None, 1], [3, -1], [4], [None, 2, 1]):
        out.append((tuple(ws), 1, None, 16, False))
    for ws in ([2], [1, 2]):
        out.append((tuple(ws), 1, 'pre', 16, True))
    for ws in ([None], [1, 1]) if Q else ([None], [2], [1, 1], [-2]):
        for st in (2, 3) if Q else (2, 3, 4):
            if st == 4 and ws != [None]:
                continue
            out.append((tuple(ws), st, 'pre', 16, False))
    return out


def main():
    c = Check('C20')
    its = items()
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c20'):
        c.absorb(r)
    c.assumptions = ['complete state space of the emitted RTL (Verilator semantics) with every valid/ready/data/reset choice per cycle']
    c.finish()


if __name__ == '__main__':
    main()
