"""Verilator-based explicit-state exploration of generated RTL.

bfs():  breadth-first search over (RTL state x environment state); the RTL is
        the real text produced by veriloggen, compiled by Verilator; the
        environment/monitor is C++ supplied by the check.
tree(): depth-bounded exhaustive input tree of a batch of designs that share
        their inputs; outputs of every node are returned as a numpy array.
"""
import glob
import json
import os

from common import HarnessError, run

VINC = '/usr/share/verilator/include'


def _runtime(workdir):
    """verilated runtime object; compiled once per sandbox in a cache dir,
    atomically, and rebuilt whenever it is not there."""
    cache = os.environ.get('VERIF_CACHE', '/verif/.cache')
    try:
        os.makedirs(cache, exist_ok=True)
        tgt = os.path.join(cache, 'verilated.o')
        if os.path.exists(tgt) and os.path.getsize(tgt) > 1000:
            return tgt
    except OSError:
        tgt = None
    tmp = os.path.join(cache if tgt else workdir, 'verilated.%d.o' % os.getpid())
    rc, out, err = run(['g++', '-O1', '-std=c++17', '-c',
                        '-I' + VINC, '-I' + VINC + '/vltstd',
                        '-x', 'c++', '-', '-o', tmp],
                       input=b'#include "verilated.cpp"\n#include "verilated_threads.cpp"\n')
    if rc:
        raise HarnessError('verilated runtime: ' + err[-2000:])
    if tgt:
        os.replace(tmp, tgt)
        return tgt
    return tmp


class VerilatorReject(Exception):
    """Verilator refuses the generated text (a finding about the text)."""


def build(workdir, verilog, top, cpp, opt='-O1', timeout=600, defines=(), flatten=True):
    """verilate + compile; returns path of the executable"""
    d = workdir
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'dut.v'), 'w') as f:
        f.write(verilog)
    rc, out, err = run(['verilator', '--cc', 'dut.v', '--top-module', top,
                        '--prefix', 'Vtop', '--no-timing',
                        '-Wno-fatal', '-Wno-lint', '-Wno-style',
                        '--x-assign', '0', '--x-initial', '0', '-O3',
                        '--Mdir', 'obj'] + (['--flatten'] if flatten else []),
                       timeout=timeout, cwd=d)
    if rc:
        raise VerilatorReject(err[-3000:])
    srcs = sorted(os.path.basename(p) for p in glob.glob(os.path.join(d, 'obj', '*.cpp')))
    with open(os.path.join(d, 'main.cpp'), 'w') as f:
        for s in srcs:
            f.write('#include "%s"\n' % s)
        f.write('#include "Vtop___024root.h"\n')
        f.write(cpp)
    exe = os.path.join(d, 'sim')
    rc, out, err = run(['g++', opt, '-w', '-std=c++17', '-Iobj', '-I' + VINC,
                        '-I' + VINC + '/vltstd'] + ['-D' + x for x in defines] +
                       ['main.cpp', _runtime(d), '-o', 'sim', '-lpthread'],
                       timeout=timeout, cwd=d)
    if rc:
        raise HarnessError('g++ failed: ' + err[:3000])
    return exe


TREE_CPP = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <vector>
double sc_time_stamp(){return 0;}
static Vtop* T; static size_t SZ; static char* BASE;
static FILE* F; static int D; static unsigned K; static size_t OB;
static const unsigned* SEQ; 
static void clk(){ T->CLK=1; T->eval(); T->CLK=0; T->eval(); }
static void rec(int d){
  std::vector<char> save(BASE, BASE+SZ);
  for(unsigned c=0;c<(1u<<K);c++){
    if(c) memcpy(BASE, save.data(), SZ);
    T->in = c; T->eval();
    fwrite(&T->out, 1, OB, F);
    if(d+1<D){ clk(); rec(d+1); }
  }
}
int main(int argc,char**argv){
  T = new Vtop; BASE=(char*)T->rootp; SZ=sizeof(*T->rootp);
  D=atoi(argv[1]); K=atoi(argv[2]); OB=sizeof(T->out);
  F=fopen(argv[3],"wb");
  T->CLK=0; T->in=0; T->RST=1; T->eval(); for(int i=0;i<3;i++) clk(); T->RST=0; T->eval();
  if(argc>4){ // fixed sequences: file of u32 inputs, 0xffffffff = reset to start state
    std::vector<char> save(BASE, BASE+SZ);
    FILE*s=fopen(argv[4],"rb"); unsigned v;
    while(fread(&v,4,1,s)==1){ if(v==0xffffffffu){ memcpy(BASE,save.data(),SZ); continue; }
      T->in=v; T->eval(); fwrite(&T->out,1,OB,F); clk(); }
  } else rec(0);
  fclose(F); return 0; }
'''


def tree_nodes(k, depth):
    return sum((1 << k) ** i for i in range(1, depth + 1))


def lint(workdir, verilog, top):
    os.makedirs(workdir, exist_ok=True)
    with open(os.path.join(workdir, 'l.v'), 'w') as f:
        f.write(verilog)
    rc, out, err = run(['verilator', '--lint-only', 'l.v', '--top-module', top, '--no-timing',
                        '-Wno-fatal', '-Wno-lint', '-Wno-style'], timeout=120, cwd=workdir)
    if rc:
        raise VerilatorReject(err[-3000:])


class Tree(object):
    """a compiled batch; top has ports CLK, RST, in[], out[outw-1:0]"""

    def __init__(self, workdir, verilog, top, outw, timeout=600, opt='-O1'):
        self.d, self.outw, self.timeout = workdir, outw, timeout
        self.exe = build(workdir, verilog, top, TREE_CPP, opt=opt, timeout=timeout)

    def run(self, k, depth, seqs=None):
        """numpy uint8 array [nodes, bytes] in DFS preorder (or order of seqs)"""
        import numpy as np
        of = os.path.join(self.d, 'out.bin')
        args = [self.exe, str(depth), str(k), of]
        if seqs is not None:
            sf = os.path.join(self.d, 'seq.bin')
            arr = []
            for s in seqs:
                arr.append(0xffffffff)
                arr.extend(s)
            np.array(arr, dtype=np.uint32).tofile(sf)
            args.append(sf)
        rc, out, err = run(args, timeout=self.timeout)
        if rc == 124:
            raise TimeoutError(err)
        if rc:
            raise HarnessError('tree sim failed rc=%d %s %s' % (rc, out[-500:], err[-500:]))
        raw = np.fromfile(of, dtype=np.uint8)
        w = self.outw
        ob = 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 4 * ((w + 31) // 32)
        os.remove(of)
        return raw.reshape(-1, ob)


def field(arr, lo, width):
    """extract bits [lo, lo+width) of every row as Python-int numpy array"""
    import numpy as np
    b0, b1 = lo // 8, (lo + width + 7) // 8
    acc = np.zeros(arr.shape[0], dtype=object if width > 48 else np.uint64)
    for i in range(b0, b1):
        acc = acc + (arr[:, i].astype(acc.dtype) * (1 << (8 * (i - b0))))
    sh = lo - 8 * b0
    if acc.dtype == object:
        return np.array([(int(x) >> sh) & ((1 << width) - 1) for x in acc], dtype=object)
    return (acc >> np.uint64(sh)) & np.uint64((1 << width) - 1)


BFS_HPP = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <deque>
double sc_time_stamp(){return 0;}
static Vtop* T;
static char ERR[512];
#define FAIL(...) do{ snprintf(ERR,sizeof ERR,__VA_ARGS__); return false; }while(0)
'''

BFS_MAIN = r'''
static size_t SZ; static char* BASE;
static void clk_(){ T->CLK=1; T->eval(); T->CLK=0; T->eval(); }
struct H128{ uint64_t a,b; bool operator==(const H128&o)const{return a==o.a&&b==o.b;} };
struct HH{ size_t operator()(const H128&h)const{return h.a;} };
static inline uint64_t rotl(uint64_t x,int r){return (x<<r)|(x>>(64-r));}
static H128 hashbuf(const char*p,size_t n){
  uint64_t a=0x9E3779B97F4A7C15ull^n,b=0xC2B2AE3D27D4EB4Full+n;
  while(n>=8){ uint64_t v; memcpy(&v,p,8); a=rotl(a^v*0x87c37b91114253d5ull,31)*0x4cf5ad432745937full+b;
    b=rotl(b^rotl(v,17)*0x52dce729da3ed7a5ull,33)*0x38495ab5+a; p+=8;n-=8; }
  uint64_t v=0; memcpy(&v,p,n); a=rotl(a^v*0x87c37b91114253d5ull,31)*0x4cf5ad432745937full+b; b^=a>>29; b*=0xff51afd7ed558ccdull;
  a^=b>>32; a*=0xc4ceb9fe1a85ec53ull; b^=a>>33; return {a,b};
}
int main(int argc,char**argv){
  // args: maxstates maxdepth outjson [replay choices...]
  size_t MAXS=strtoull(argv[1],0,10); int MAXD=atoi(argv[2]); const char* OUT=argv[3];
  T=new Vtop; BASE=(char*)T->rootp;
  // hash/save only the design state, not the base class / syms pointer
  SZ=sizeof(*T->rootp);
  size_t OFF=(char*)&T->rootp->vlSymsp-BASE; (void)OFF;
  static Env E; memset(&E,0,sizeof E); env_init(E);
  T->CLK=0; idle(); T->RST=1; T->eval(); for(int i=0;i<RESET_CYCLES;i++) clk_(); T->RST=0; T->eval();
  size_t REC=SZ+sizeof(Env);
  auto snap=[&](char*o){ memcpy(o,BASE,SZ); memcpy(o+SZ,&E,sizeof E); };
  auto load=[&](const char*o){ memcpy(BASE,o,SZ); memcpy((void*)&E,o+SZ,sizeof E); };
  std::vector<char> init(REC); snap(init.data());
  auto dostep=[&](int c)->int{ // 0 pruned 1 ok 2 error
    ERR[0]=0;
    if(!drive(E,c)) return 0;
    T->eval();
    if(!check(E,c)) return 2;
    clk_(); idle(); T->eval();
    return 1; };
  if(argc>4){ // replay
    load(init.data());
    for(int i=4;i<argc;i++){ int c=atoi(argv[i]); ERR[0]=0; if(!drive(E,c)){printf("pruned\n");break;} T->eval();
      show(E,c,i-4); if(!check(E,c)){ printf("ERROR %s\n",ERR); break; } clk_(); idle(); T->eval(); }
    return 0; }
  std::unordered_map<H128,uint32_t,HH> seen; seen.reserve(1<<20);
  std::vector<uint32_t> parent; std::vector<uint16_t> pch; std::vector<uint8_t> isgoal;
  std::vector<std::pair<uint32_t,uint32_t>> edges;
  std::deque<std::pair<uint32_t,char*>> q;
  auto add=[&](uint32_t p,int c,bool&isnew)->uint32_t{
    char* s=(char*)malloc(REC); snap(s); H128 h=hashbuf(s+sizeof(VerilatedModule),REC-sizeof(VerilatedModule));
    auto it=seen.find(h); if(it!=seen.end()){ free(s); isnew=false; return it->second; }
    uint32_t id=parent.size(); seen.emplace(h,id); parent.push_back(p); pch.push_back(c); isgoal.push_back(goal(E)?1:0);
    q.emplace_back(id,s); isnew=true; return id; };
  bool nw; load(init.data()); add(0xffffffffu,0,nw);
  uint64_t trans=0; int depth=0; bool trunc=false; std::string verr; std::vector<int> tr;
  size_t levelend=1; uint64_t ngoal=0;
  while(!q.empty()){
    if(q.front().first>=levelend){ depth++; levelend=parent.size(); }
    if(depth>=MAXD){ trunc=true; break; }
    auto cur=q.front(); q.pop_front();
    load(cur.second); int n=nchoices(E);
    for(int c=0;c<n;c++){
      load(cur.second);
      int r=dostep(c);
      if(r==0) continue;
      trans++;
      if(r==2){ verr=ERR; tr.push_back(c); uint32_t s=cur.first; while(parent[s]!=0xffffffffu){ tr.push_back(pch[s]); s=parent[s]; } 
        break; }
      uint32_t id=add(cur.first,c,nw);
      if(TRACK_EDGES) edges.emplace_back(cur.first,id);
    }
    free(cur.second);
    if(!verr.empty()) break;
    if(parent.size()>MAXS){ trunc=true; break; }
  }
  uint64_t stuck=0; 
  if(verr.empty() && !trunc && TRACK_EDGES){
    size_t N=parent.size(); std::vector<uint32_t> head(N+1,0);
    for(auto&e:edges) head[e.second+1]++;
    for(size_t i=0;i<N;i++) head[i+1]+=head[i];
    std::vector<uint32_t> pr(edges.size()); std::vector<uint32_t> pos(head.begin(),head.end()-1);
    for(auto&e:edges) pr[pos[e.second]++]=e.first;
    std::vector<uint32_t> st; std::vector<uint8_t> ok(N,0);
    for(size_t i=0;i<N;i++) if(isgoal[i]){ok[i]=1;st.push_back(i);}
    while(!st.empty()){ uint32_t s=st.back(); st.pop_back(); for(uint32_t k=head[s];k<head[s+1];k++) if(!ok[pr[k]]){ok[pr[k]]=1;st.push_back(pr[k]);} }
    size_t firststuck=N; for(size_t i=0;i<N;i++) if(!ok[i]){ stuck++; if(firststuck==N) firststuck=i; }
    if(stuck){ verr="a reachable state from which the required outcome can no longer be reached (deadlock or lost work)"; uint32_t s=firststuck; while(parent[s]!=0xffffffffu){ tr.push_back(pch[s]); s=parent[s]; } }
  }
  for(auto g:isgoal) ngoal+=g;
  FILE*f=fopen(OUT,"w");
  fprintf(f,"{\"states\":%zu,\"transitions\":%llu,\"depth\":%d,\"truncated\":%s,\"goal_states\":%llu,\"stuck\":%llu,\"error\":",
    parent.size(),(unsigned long long)trans,depth,trunc?"true":"false",(unsigned long long)ngoal,(unsigned long long)stuck);
  if(verr.empty()) fprintf(f,"null"); else { fprintf(f,"\""); for(char ch:verr){ if(ch=='"'||ch=='\\') fputc('\\',f); fputc(ch,f);} fprintf(f,"\""); }
  fprintf(f,",\"trace\":["); for(size_t i=tr.size();i>0;i--) fprintf(f,"%s%d",i==tr.size()?"":",",tr[i-1]); fprintf(f,"]}\n"); fclose(f);
  return 0; }
'''


def bfs(workdir, verilog, top, cpp, max_states=2000000, max_depth=100000,
        track_edges=True, reset_cycles=3, timeout=800, opt='-O1', defines=()):
    """cpp supplies: struct Env; env_init(Env&); idle(); int nchoices(Env&);
    bool drive(Env&,int); bool check(Env&,int); bool goal(Env&);
    void show(Env&,int,int)."""
    src = BFS_HPP + cpp + BFS_MAIN
    exe = build(workdir, verilog, top, src, opt=opt, timeout=timeout,
                defines=['TRACK_EDGES=%d' % int(track_edges),
                         'RESET_CYCLES=%d' % reset_cycles] + list(defines))
    return bfs_run(exe, workdir, max_states, max_depth, timeout)


def bfs_run(exe, workdir, max_states=2000000, max_depth=100000, timeout=800):
    of = os.path.join(workdir, 'res.json')
    if os.path.exists(of):
        os.remove(of)
    rc, out, err = run([exe, str(max_states), str(max_depth), of], timeout=timeout)
    if rc == 124:
        raise TimeoutError(err)
    if rc or not os.path.exists(of):
        raise HarnessError('bfs failed rc=%s %s %s' % (rc, out[-1000:], err[-1000:]))
    r = json.load(open(of))
    if r['error']:
        rc, out, err = run([exe, '0', '0', of] + [str(c) for c in r['trace']], timeout=60)
        r['replay'] = out.splitlines()[-120:]
    return r
