"""Exhaustive exploration of the RTL of a stream (to_module) under every input and stall schedule.

The reference is C++: struct REF (zero-initialised state) and
  static uint64_t ref(REF&r, const uint32_t*in, uint64_t&care)
called once per accepted element in order; it returns the packed outputs (first output lowest) and may
clear bits of care where the result is not defined."""
import re

import rtl
import veriloggen as vg
import veriloggen.stream as st

TEMPLATE = r'''
%(ref)s
enum { QN=%(qn)d, NIN=%(nin)d, DEPTH=%(depth)d };
static const uint32_t NV[NIN+1]={%(nv)s 0};
%(tables)s
struct Env { REF r; uint64_t q[QN], m[QN]; uint64_t vs; uint8_t n, junk; };
static void env_init(Env&e){ %(init)s }
static uint32_t IN[NIN+1];
static void put(){ %(put)s }
static void idle(){ %(idle)s for(int i=0;i<NIN;i++) IN[i]=0; put(); }
static int total(){ int t=1; for(int i=0;i<NIN;i++) t*=NV[i]; return t; }
static int nchoices(Env&e){ return (total()+%(iv)d)*(1+%(ordy)d); }
static bool drive(Env&e,int c){
  int ordy=1, iv=1;
  if(%(ordy)d){ ordy=c&1; c>>=1; }
  if(%(iv)d){ iv=c>0; c--; if(!iv) c=total()-1; }
  for(int i=0;i<NIN;i++){ IN[i]=VAL(i,c%%NV[i]); c/=NV[i]; }
  put(); %(drive)s
  return true; }
static uint64_t out(){ uint64_t v=0; %(out)s return v; }
static bool push(Env&e){ uint64_t care=~0ull; if(e.n>=QN) FAIL("an accepted element never came out");
  uint64_t v=ref(e.r,IN,care); e.q[e.n]=v&care; e.m[e.n]=care&OUTMASK; e.n++; return true; }
static bool check(Env&e,int c){
  bool iv=%(ivx)s, ir=%(irx)s, ov=%(ovx)s, orr=%(orx)s;
  if(%(one)d && !T->%(ovn)s) FAIL("ovalid is low although every element is valid");
  if(DEPTH==0){ if(iv){ Env t=e; if(!push(t)) return false;
      if(%(ovp)d && !ov) FAIL("a valid element has no output");
      uint64_t v=out(); if((v^t.q[0])&t.m[0]) FAIL("output is 0x%%llx, expected 0x%%llx (mask 0x%%llx)",(unsigned long long)v,(unsigned long long)t.q[0],(unsigned long long)t.m[0]);
      if(ir&&orr) e.r=t.r; } else if(%(ovp)d && ov) FAIL("an output element that was never put in");
    return true; }
  if(!%(ovp)d){ ov= e.vs>>(DEPTH-1)&1; if(orr) e.vs=((e.vs<<1)|(iv&&ir))&((1ull<<DEPTH)-1); }
  if(ov){ if(!e.n) FAIL("an output element that was never put in");
    uint64_t v=out(); if((v^e.q[0])&e.m[0]) FAIL("output is 0x%%llx, expected 0x%%llx (mask 0x%%llx)",(unsigned long long)v,(unsigned long long)e.q[0],(unsigned long long)e.m[0]);
    if(orr){ for(int i=1;i<e.n;i++){ e.q[i-1]=e.q[i]; e.m[i-1]=e.m[i]; } e.n--; e.q[e.n]=0; e.m[e.n]=0; } }
  if(iv && ir && !push(e)) return false;
  return true; }
static bool goal(Env&e){ return !%(iv)d || e.n==0; }
static void show(Env&e,int c,int i){ printf("%%2d in=",i); for(int k=0;k<NIN;k++) printf("%%x ",IN[k]); printf("valid=%%d ready=%%d -> valid=%%d ready=%%d out=%%llx (in flight %%d)\n",%(ivx)s,%(orx)s,%(ovx)s,%(irx)s,(unsigned long long)out(),e.n); }
'''


def stream_module(make, ins, hs, name='top'):
    """build the stream; returns (module, depth, outs [(name, width)], input names)"""
    vg.reset()
    strm = None
    if getattr(make, 'managed', False):     # the stream object is given to the builder
        m = vg.Module(name)
        kw = {k: k for k in ('ivalid', 'iready', 'ovalid', 'oready') if k in hs}
        strm = st.Stream(module=m, clock=m.Input('CLK'), reset=m.Input('RST'), aswire=False, **kw)
        vars_ = [strm.Variable(n, width=w, signed=s, point=p) for n, w, s, p, _ in ins]
        nodes = make(strm, *vars_)
    else:
        vars_ = [st.Variable(n, width=w, signed=s, point=p) for n, w, s, p, _ in ins]
        nodes = make(*vars_)
    if not isinstance(nodes, (list, tuple)):
        nodes = [nodes]
    outs = []
    fixed = []
    for i, z in enumerate(nodes):
        if any(z is v for v in vars_) or z.output_data is not None or not hasattr(z, 'sink'):
            z = st.Cast(z)
        z.output('z%d' % i)
        fixed.append(z)
        outs.append(('z%d' % i, z.get_width()))
    kw = {k: k for k in ('ivalid', 'iready', 'ovalid', 'oready') if k in hs}
    if strm is not None:
        strm.implement()
        return m, strm.pipeline_depth(), outs
    s = st.Stream(*fixed, **kw)
    m = s.to_module(name)
    return m, s.pipeline_depth(), outs


def explore(res, key, what, make, ins, ref, hs=('ivalid', 'iready', 'ovalid', 'oready'), init='', **kw):
    """ins: (name, width, signed, point, values or None)"""
    m, depth, outs = stream_module(make, ins, hs)
    text = m.to_verilog()
    head = text.split('module top')[1].split(');')[0]
    have = [n for n, w, s, p, v in ins if re.search(r'\b%s\b' % n, head)]
    tables, val = [], []
    nv = []
    for i, (n, w, s, p, v) in enumerate(ins):
        if v is None:
            v = list(range(1 << w))
        nv.append(len(v))
        tables.append('static const uint32_t TAB%d[]={%s};' % (i, ','.join('%uu' % (x & ((1 << w) - 1)) for x in v)) if False else
                      'static const uint32_t TAB%d[]={%s};' % (i, ','.join(str(x & ((1 << w) - 1)) + 'u' for x in v)))
        val.append('case %d: return TAB%d[k];' % (i, i))
    tables.append('static uint32_t VAL(int i,int k){ switch(i){ %s } return 0; }' % ' '.join(val))
    sh, out, tot = 0, [], 0
    for n, w in outs:
        out.append('v|=(uint64_t)(T->%s)<<%d;' % (n, tot))
        tot += w
    if tot > 64:
        raise ValueError('outputs too wide')
    tables.append('static const uint64_t OUTMASK=%s;' % ('~0ull' if tot == 64 else '((1ull<<%d)-1)' % tot))
    iv, ir, ov, orr = [('T->' + x) if x in hs else '1' for x in ('ivalid', 'iready', 'ovalid', 'oready')]
    if 'oready' in hs and 'iready' not in hs:
        ir = 'T->oready'
    d = dict(ref=ref, qn=max(depth, 1) + 1, nin=len(ins), depth=depth, nv=''.join('%d,' % x for x in nv), tables='\n'.join(tables),
             init=init, put=' '.join('T->%s=IN[%d];' % (n, i) for i, (n, _, _, _, _) in enumerate(ins) if n in have),
             idle=('T->ivalid=0;' if 'ivalid' in hs else '') + ('T->oready=0;' if 'oready' in hs else ''),
             drive=('T->ivalid=iv;' if 'ivalid' in hs else '') + ('T->oready=ordy;' if 'oready' in hs else ''),
             iv=int('ivalid' in hs), ordy=int('oready' in hs), out=' '.join(out), ivx=iv, irx=ir, ovx=ov, orx=orr,
             ovp=int('ovalid' in hs and 'ivalid' in hs),
             one=int('ovalid' in hs and 'ivalid' not in hs), ovn='ovalid' if 'ovalid' in hs else 'CLK')
    kw.setdefault('max_states', 3000000)
    return rtl.explore(res, key, what, text, TEMPLATE % d, **kw)


# ---------------------------------------------------------------------------
# many small streams in one compiled model: the first step selects one, the others stay in reset

MANY = r'''
#include <stdint.h>
%(refs)s
enum { NCASE=%(ncase)d, MAXIN=%(maxin)d, QMAX=%(qmax)d };
static const uint8_t DEPTHS[]={%(depths)s}; static const uint8_t NINS[]={%(nins)s}; static const uint64_t OUTM[]={%(outm)s};
static const uint8_t SOLID[]={%(solid)s}; static const uint8_t JOINT[]={%(joint)s};
static const uint32_t NV[][MAXIN+1]={%(nv)s};
%(tables)s
struct Env { union { uint64_t align; %(union)s } u; uint64_t q[QMAX], m[QMAX]; uint8_t n, sel; };
static void env_init(Env&e){ e.sel=255; }
static uint32_t IN[MAXIN+1]; static int SEL=255;
static void put(){ %(put)s }
static void idle(){ T->sel=255; T->ivalid=0; T->oready=0; for(int i=0;i<MAXIN;i++) IN[i]=0; put(); }
static int total(int s){ if(JOINT[s]) return JOINT[s]; int t=1; for(int i=0;i<NINS[s];i++) t*=NV[s][i]; return t; }
static int nchoices(Env&e){ if(e.sel==255) return NCASE; return (total(e.sel)+!SOLID[e.sel])*2; }
static void init(Env&e){ switch(e.sel){ %(init)s } }
static uint64_t ref(Env&e,uint64_t&care){ switch(e.sel){ %(call)s } return 0; }
static bool drive(Env&e,int c){
  if(e.sel==255){ T->sel=c; T->ivalid=0; T->oready=0; return true; }
  int s=e.sel; T->sel=s; T->oready=c&1; c>>=1; if(SOLID[s]) T->ivalid=1; else { T->ivalid=c>0; c= c? c-1 : total(s)-1; }
  for(int i=0;i<MAXIN;i++) IN[i]=0;
  for(int i=0;i<NINS[s];i++){ if(JOINT[s]){ IN[i]=VAL(s,i,c); continue; } IN[i]=VAL(s,i,c%%NV[s][i]); c/=NV[s][i]; }
  put(); return true; }
static bool push(Env&e){ uint64_t care=~0ull; int d=DEPTHS[e.sel]; if(e.n>=(d?d:1)+1||e.n>=QMAX) FAIL("case %%d: an accepted element never came out",e.sel);
  uint64_t v=ref(e,care); e.q[e.n]=v&care; e.m[e.n]=care&OUTM[e.sel]; e.n++; return true; }
static bool check(Env&e,int c){
  if(e.sel==255){ e.sel=c; init(e); return true; }
  bool in=T->ivalid&&T->iready;
  if(!DEPTHS[e.sel]){ if(T->ovalid!=T->ivalid) FAIL("case %%d: valid in %%d, valid out %%d",e.sel,T->ivalid,T->ovalid);
    if(T->ivalid){ Env t=e; if(!push(t)) return false; uint64_t v=T->out;
      if((v^t.q[0])&t.m[0]) FAIL("case %%d: output is 0x%%llx, expected 0x%%llx (mask 0x%%llx)",e.sel,(unsigned long long)v,(unsigned long long)t.q[0],(unsigned long long)t.m[0]);
      if(in&&T->oready){ t.q[0]=t.m[0]=0; t.n=0; e=t; } }
    return true; }
  if(T->ovalid){ if(!e.n) FAIL("case %%d: an output element that was never put in",e.sel);
    uint64_t v=T->out; if((v^e.q[0])&e.m[0]) FAIL("case %%d: output is 0x%%llx, expected 0x%%llx (mask 0x%%llx)",e.sel,(unsigned long long)v,(unsigned long long)e.q[0],(unsigned long long)e.m[0]);
    if(T->oready){ for(int i=1;i<e.n;i++){ e.q[i-1]=e.q[i]; e.m[i-1]=e.m[i]; } e.n--; e.q[e.n]=0; e.m[e.n]=0; } }
  if(in && !push(e)) return false;
  return true; }
static bool goal(Env&e){ return e.n==0 || (e.sel!=255 && SOLID[e.sel]); }
static void show(Env&e,int c,int i){ printf("%%2d case %%d in=",i,T->sel); for(int k=0;k<MAXIN;k++) printf("%%x ",IN[k]); printf("valid=%%d ready=%%d -> valid=%%d ready=%%d out=%%llx (in flight %%d)\n",T->ivalid,T->oready,T->ovalid,T->iready,(unsigned long long)T->out,e.n); }
'''


def explore_many(res, key, cases, **kw):
    """cases: (name, make, ins, ref C++ (REF, ref), init statement on r[, every cycle is an element
    [, input values are chosen jointly (the value lists have one length)]])"""
    texts, refs, union, init, call, tabs, vals, insts = [], [], [], [], [], [], [], []
    depths, nins, outm, nvs, names = [], [], [], [], []
    maxin = max(len(c[2]) for c in cases)
    ovs, irs, outsel, solid, joint = [], [], [], [], []
    for case in cases:
        name, make, ins, ref, ini = case[:5]
        solid.append(int(len(case) > 5 and bool(case[5])))
        joint.append(len(ins[0][4]) if len(case) > 6 and case[6] else 0)
        k = len(names)
        m, depth, outs = stream_module(make, ins, ('ivalid', 'iready', 'ovalid', 'oready'), 'd%d' % k)
        t = m.to_verilog()
        for sub in set(re.findall(r'^module (\w+)', t, re.M)) - {'d%d' % k}:
            t = re.sub(r'\b%s\b' % sub, 'd%d_%s' % (k, sub), t)
        texts.append(t)
        names.append(name)
        head = t.split('module d%d' % k)[1].split(');')[0]
        conn = ['.CLK(CLK)', '.RST(RST | (sel != %d))' % k, '.ivalid(ivalid)', '.oready(oready)', '.ovalid(ov%d)' % k, '.iready(ir%d)' % k]
        for i, (n, w, s, p, v) in enumerate(ins):
            if re.search(r'\b%s\b' % n, head):
                conn.append('.%s(in%d[%d:0])' % (n, i, w - 1))
            v = list(range(1 << w)) if v is None else v
            tabs.append('static const uint32_t TAB%d_%d[]={%s};' % (k, i, ','.join(str(x & ((1 << w) - 1)) + 'u' for x in v)))
            vals.append('case %d: return TAB%d_%d[k];' % (k * 16 + i, k, i))
        nv = [len(v) if v is not None else 1 << w for n, w, s, p, v in ins]
        nvs.append('{%s}' % ','.join(str(x) for x in nv + [1] * (maxin + 1 - len(nv))))
        pos = []
        tot = 0
        decl = ''
        for n, w in outs:
            decl += '  wire [%d:0] %s_%d;\n' % (w - 1, n, k)
            conn.append('.%s(%s_%d)' % (n, n, k))
            pos.append('%s_%d' % (n, k))
            tot += w
        insts.append('%s  wire ov%d, ir%d;\n  d%d u%d(%s);' % (decl, k, k, k, k, ', '.join(conn)))
        ovs.append('sel == %d ? ov%d :' % (k, k))
        irs.append('sel == %d ? ir%d :' % (k, k))
        outsel.append('sel == %d ? {%s} :' % (k, ', '.join(reversed(pos))))
        refs.append('namespace c%d {\n%s\n}' % (k, ref) + ''.join('\n#undef ' + x for x in re.findall(r'#define (\w+)', ref)))
        union.append('c%d::REF r%d;' % (k, k))
        init.append('case %d: { auto&r=e.u.r%d; (void)r; %s } break;' % (k, k, ini))
        call.append('case %d: return c%d::ref(e.u.r%d,IN,care);' % (k, k, k))
        depths.append(depth)
        nins.append(len(ins))
        outm.append('~0ull' if tot == 64 else '%dull' % ((1 << tot) - 1))
    top = 'module top(input CLK, input RST, input [7:0] sel, input ivalid, output iready, output ovalid, input oready, %s, output [63:0] out);\n%s\n' % (
        ', '.join('input [31:0] in%d' % i for i in range(maxin)), '\n'.join(insts))
    top += '  assign ovalid = %s 1\'b0;\n  assign iready = %s 1\'b0;\n  assign out = %s 64\'d0;\nendmodule\n' % (
        ' '.join(ovs), ' '.join(irs), ' '.join(outsel))
    tabs.append('static uint32_t VAL(int s,int i,int k){ switch(s*16+i){ %s } return 0; }' % ' '.join(vals))
    d = dict(refs='\n'.join(refs), ncase=len(names), maxin=maxin, qmax=max(depths) + 2, depths=','.join(map(str, depths)),
             nins=','.join(map(str, nins)), solid=','.join(map(str, solid)), joint=','.join(map(str, joint)), outm=','.join(outm), nv=','.join(nvs), tables='\n'.join(tabs), union=' '.join(union),
             put=' '.join('T->in%d=IN[%d];' % (i, i) for i in range(maxin)), init=' '.join(init), call=' '.join(call))
    kw.setdefault('max_states', 6000000)
    n0 = len(res['violations'])
    r = rtl.explore(res, key, key, '\n'.join(texts) + top, MANY % d, **kw)
    for i in range(n0, len(res['violations'])):
        kk, msg, det = res['violations'][i]
        mm = re.search(r'case (\d+):', msg)
        if mm:
            n = names[int(mm.group(1))]
            res['violations'][i] = ('bfs:' + n, n + ': ' + msg, det)
    return r
