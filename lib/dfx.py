"""Exhaustive exploration of the RTL of dataflow graphs under every schedule of each input and each output.

The reference is C++: struct REF (zero-initialised) and
  static void ref(REF&r,const uint32_t*in,uint64_t*out)
called once per element, that is when the element of that index of every input was accepted."""
import re

import rtl
import veriloggen as vg

MANY = r'''
#include <stdint.h>
%(refs)s
enum { NCASE=%(ncase)d, MAXIN=%(maxin)d, MAXO=%(maxo)d, QI=%(qi)d };
static const uint8_t DEPTHS[]={%(depths)s}; static const uint8_t NINS[]={%(nins)s}, NOUTS[]={%(nouts)s};
static const uint8_t IV[]={%(iv)s}, IR[]={%(ir)s}, OV[]={%(ov)s}, OR[]={%(or)s}, OE[]={%(oe)s};
static const uint32_t NV[][MAXIN+1]={%(nv)s};
%(tables)s
struct Env { union { uint64_t align; %(union)s } u; uint16_t iq[MAXIN][QI], oq[MAXO][QI]; uint8_t in_n[MAXIN], on[MAXO], sel, age; };
static void env_init(Env&e){ e.sel=255; }
static uint32_t IN[MAXIN+1];
static void put(){ %(put)s }
static void idle(){ T->sel=255; T->ivalid=0; T->oready=0; for(int i=0;i<MAXIN;i++) IN[i]=0; put(); }
static int nchoices(Env&e){ int s=e.sel; if(s==255) return NCASE; int t=1;
  if(IR[s]) for(int i=0;i<NINS[s];i++) t*=NV[s][i]+1;
  else { for(int i=0;i<NINS[s];i++) t*=NV[s][i]; if(IV[s]) t++; }
  return OR[s]? t<<(OE[s]?1:NOUTS[s]) : t; }
static void ref(Env&e,const uint32_t*in,uint64_t*out){ switch(e.sel){ %(call)s } }
static uint64_t out(int j){ switch(j){ %(outs)s } return 0; }
static bool drive(Env&e,int c){
  if(e.sel==255){ T->sel=c; T->ivalid=IV[c]?0:(1<<NINS[c])-1; T->oready=(1<<MAXO)-1; if(IV[c]) T->oready=0; return true; }
  int s=e.sel; T->sel=s; T->oready=(1<<MAXO)-1; T->ivalid=0; for(int i=0;i<MAXIN;i++) IN[i]=0;
  if(OR[s]){ int n=OE[s]?1:NOUTS[s]; T->oready=c&((1<<n)-1); c>>=n; if(OE[s]) T->oready=T->oready?(1<<MAXO)-1:0; }
  if(IR[s]) for(int i=0;i<NINS[s];i++){ int k=c%%(NV[s][i]+1); c/=NV[s][i]+1; if(k) T->ivalid|=1<<i; IN[i]=VAL(s,i,k?k-1:NV[s][i]-1); }
  else { bool v=true; if(IV[s]){ v=c>0; c=v?c-1:0; }
    if(v) T->ivalid=(1<<NINS[s])-1;
    for(int i=0;i<NINS[s];i++){ IN[i]=VAL(s,i,v?c%%NV[s][i]:NV[s][i]-1); c/=NV[s][i]; } }
  put(); return true; }
static bool check(Env&e,int c){
  if(e.sel==255){ e.sel=c; if(IV[c]) return true; }
  int s=e.sel;
  for(int j=0;j<NOUTS[s];j++){
    bool ov= OV[s]? T->ovalid>>j&1 : e.age>=DEPTHS[s];
    if(ov){ if(!e.on[j]) FAIL("case %%d output %%d: an element that was never put in",s,j);
      if(out(j)!=e.oq[j][0]) FAIL("case %%d output %%d: is 0x%%llx, expected 0x%%x",s,j,(unsigned long long)out(j),e.oq[j][0]);
      if(T->oready>>j&1){ for(int i=1;i<e.on[j];i++) e.oq[j][i-1]=e.oq[j][i]; e.on[j]--; e.oq[j][e.on[j]]=0; } } }
  if(!IV[s] && e.age<DEPTHS[s]) e.age++;
  for(int i=0;i<NINS[s];i++) if((T->ivalid>>i&1) && (!IR[s] || (T->iready>>i&1))){
    if(e.in_n[i]>=QI) FAIL("case %%d: input %%d runs ahead without bound",s,i);
    e.iq[i][e.in_n[i]++]=IN[i]; }
  for(;;){ bool all=true; for(int i=0;i<NINS[s];i++) all&= e.in_n[i]>0; if(!all) break;
    uint32_t in[MAXIN]; uint64_t o[MAXO]={0};
    for(int i=0;i<NINS[s];i++){ in[i]=e.iq[i][0]; for(int k=1;k<e.in_n[i];k++) e.iq[i][k-1]=e.iq[i][k]; e.in_n[i]--; e.iq[i][e.in_n[i]]=0; }
    ref(e,in,o);
    for(int j=0;j<NOUTS[s];j++){ if(e.on[j]>DEPTHS[s]+1 || e.on[j]>=QI) FAIL("case %%d output %%d: an accepted element never came out",s,j); e.oq[j][e.on[j]++]=o[j]; } }
  return true; }
static bool goal(Env&e){ if(e.sel!=255 && !IV[e.sel]) return true; for(int i=0;i<MAXIN;i++) if(e.in_n[i]) return false; for(int j=0;j<MAXO;j++) if(e.on[j]) return false; return true; }
static void show(Env&e,int c,int i){ printf("%%2d case %%d in=",i,T->sel); for(int k=0;k<MAXIN;k++) printf("%%x ",IN[k]); printf("ivalid=%%x iready=%%x ovalid=%%x oready=%%x out=",T->ivalid,T->iready,T->ovalid,T->oready); for(int j=0;j<MAXO;j++) printf("%%llx ",(unsigned long long)out(j)); printf("\n"); }
'''


def explore_many(res, key, cases, **kw):
    """cases: (name, build(module name, ins, mode) -> (module, depth, [(output, width)]), ins [(name, width, values)], ref, mode)
    mode: (inputs, outputs), each of them '', 'v', 'vr' or, for outputs whose readies are equal, 'vre'; ports of input x are x, x_v, x_r"""
    texts, refs, union, call, tabs, vals, insts, names = [], [], [], [], [], [], [], []
    depths, nins, nouts, nvs, modes = [], [], [], [], []
    maxin = max(len(c[2]) for c in cases)
    built = []
    for k, (name, build, ins, ref, mode) in enumerate(cases):
        vg.reset()
        built.append(build('d%d' % k, ins, mode))
    maxo = max(len(b[2]) for b in built)
    ovs, irs, osel = [], [], [[] for _ in range(maxo)]
    for k, (name, build, ins, ref, mode) in enumerate(cases):
        m, depth, outs = built[k]
        if depth < 1:
            raise ValueError('no latency: ' + name)
        t = m.to_verilog()
        for sub in set(re.findall(r'^module (\w+)', t, re.M)) - {'d%d' % k}:
            t = re.sub(r'\b%s\b' % sub, 'd%d_%s' % (k, sub), t)
        texts.append(t)
        names.append('%s (%s)' % (name, '/'.join(x or 'none' for x in mode)))
        conn = ['.CLK(CLK)', '.RST(RST | (sel != %d))' % k]
        decl = '  wire [%d:0] ov%d, ir%d;\n' % (max(maxin, maxo) - 1, k, k)
        for i, (n, w, v) in enumerate(ins):
            conn.append('.%s(in%d[%d:0])' % (n, i, w - 1))
            if mode[0]:
                conn.append('.%s_v(ivalid[%d])' % (n, i))
            if 'r' in mode[0]:
                conn.append('.%s_r(ir%d[%d])' % (n, k, i))
            tabs.append('static const uint32_t TAB%d_%d[]={%s};' % (k, i, ','.join(str(x & ((1 << w) - 1)) + 'u' for x in v)))
            vals.append('case %d: return TAB%d_%d[k];' % (k * 16 + i, k, i))
        for j, (n, w) in enumerate(outs):
            decl += '  wire [%d:0] %s_%d;\n' % (w - 1, n, k)
            conn.append('.%s(%s_%d)' % (n, n, k))
            if mode[1]:
                conn.append('.%s_v(ov%d[%d])' % (n, k, j))
            if 'r' in mode[1]:
                conn.append('.%s_r(oready[%d])' % (n, j))
            osel[j].append('sel == %d ? %s_%d :' % (k, n, k))
        insts.append('%s  d%d u%d(%s);' % (decl, k, k, ', '.join(conn)))
        ovs.append('sel == %d ? ov%d :' % (k, k))
        irs.append('sel == %d ? ir%d :' % (k, k))
        refs.append('namespace c%d {\n%s\n}' % (k, ref))
        union.append('c%d::REF r%d;' % (k, k))
        call.append('case %d: c%d::ref(e.u.r%d,in,out); break;' % (k, k, k))
        depths.append(depth)
        nins.append(len(ins))
        nouts.append(len(outs))
        nv = [len(v) for n, w, v in ins]
        nvs.append('{%s}' % ','.join(str(x) for x in nv + [1] * (maxin + 1 - len(nv))))
        modes.append(mode)
    nw = max(maxin, maxo)
    top = 'module top(input CLK, input RST, input [7:0] sel, input [7:0] ivalid, input [7:0] oready, output [7:0] iready, output [7:0] ovalid, %s, %s);\n%s\n  assign ovalid = %s 0;\n  assign iready = %s 0;\n%s\nendmodule\n' % (
        ', '.join('input [15:0] in%d' % i for i in range(maxin)), ', '.join('output [15:0] out%d' % j for j in range(maxo)), '\n'.join(insts), ' '.join(ovs), ' '.join(irs),
        '\n'.join('  assign out%d = %s 0;' % (j, ' '.join(o)) for j, o in enumerate(osel)))
    tabs.append('static uint32_t VAL(int s,int i,int k){ switch(s*16+i){ %s } return 0; }' % ' '.join(vals))
    ii = lambda f: ','.join(str(int(f(m))) for m in modes)
    cpp = MANY % dict(refs='\n'.join(refs), ncase=len(cases), maxin=maxin, maxo=maxo, qi=max(depths) + 3, depths=','.join(map(str, depths)), nins=','.join(map(str, nins)), nouts=','.join(map(str, nouts)),
                      iv=ii(lambda m: 'v' in m[0]), ir=ii(lambda m: 'r' in m[0]), ov=ii(lambda m: 'v' in m[1]), oe=ii(lambda m: 'e' in m[1]), nv=','.join(nvs), tables='\n'.join(tabs), union=' '.join(union),
                      put=' '.join('T->in%d=IN[%d];' % (i, i) for i in range(maxin)), call=' '.join(call), outs=' '.join('case %d: return T->out%d;' % (j, j) for j in range(maxo)), **{'or': ii(lambda m: 'r' in m[1])})
    kw.setdefault('max_states', 6000000)
    n0 = len(res['violations'])
    r = rtl.explore(res, key, key, '\n'.join(texts) + top, cpp, **kw)
    for i in range(n0, len(res['violations'])):
        kk, msg, det = res['violations'][i]
        mm = re.search(r'case (\d+)', msg)
        if mm:
            n = names[int(mm.group(1))]
            res['violations'][i] = ('bfs:' + n, n + ': ' + msg, det)
    return r
