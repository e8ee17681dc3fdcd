// symx runtime: expressions, path condition, solver, exhaustive path search.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <string>
#include <array>
#include <algorithm>
#include <atomic>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <ucontext.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <pthread.h>
#include <z3.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128;

static const u64 LIMIT = 1ULL<<36, SHB = 0x10000000000ULL;
static const u64 ARENA = 0x800000000ULL, ARENA_SZ = 1ULL<<30;
static const u64 STK = 0xC00000000ULL, STK_SZ = 64ULL<<20;
static const u32 POISON = 0xffffffffu;
static inline u32 *SH(u64 a){ return (u32*)(SHB + ((a & (LIMIT-1))<<2)); }

extern "C" { u32 __sx_args[64]; u32 __sx_ret[8]; u32 __sx_nargs; u64 __sx_byval[64];
  extern char __start_sxdata[] __attribute__((weak)), __stop_sxdata[] __attribute__((weak));
  struct fnrec { const char *name; u64 hit; };
  extern fnrec __start_sxfn[] __attribute__((weak)), __stop_sxfn[] __attribute__((weak)); }

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, EQ, ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT, ITE };
struct Node { u8 op, w; u32 a,b,c; u64 k; u32 vs; u64 h; };
static std::vector<Node> N;
struct NKey { u8 op,w; u32 a,b,c; u64 k; bool operator==(const NKey&o)const{return op==o.op&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&k==o.k;} };
struct NH { size_t operator()(const NKey&x)const{ u64 h=x.op*0x9E3779B97F4A7C15ULL^x.w; h=(h^x.a)*0xff51afd7ed558ccdULL; h^=h>>29; h=(h^x.b)*0xc4ceb9fe1a85ec53ULL; h^=h>>31; h=(h^x.c)*0x9E3779B97F4A7C15ULL; h^=h>>30; h=(h^x.k)*0xff51afd7ed558ccdULL; return h^(h>>32);} };
static std::unordered_map<NKey,u32,NH> HC;
static std::vector<std::vector<u32>> VS; static std::map<std::vector<u32>,u32> VSI; 
static std::unordered_map<u64,u32> VSU;
static u32 vsIntern(const std::vector<u32>&v){ auto it=VSI.find(v); if (it!=VSI.end()) return it->second; u32 id=VS.size(); VS.push_back(v); VSI[v]=id; return id; }
static u32 vsUnion(u32 a,u32 b){ if (a==b||b==0) return a; if (a==0) return b; if (a>b) std::swap(a,b); u64 k=((u64)a<<32)|b; auto it=VSU.find(k); if (it!=VSU.end()) return it->second;
  std::vector<u32> r; std::set_union(VS[a].begin(),VS[a].end(),VS[b].begin(),VS[b].end(),std::back_inserter(r)); u32 id=vsIntern(r); VSU[k]=id; return id; }
static inline u64 mask(unsigned w){ return w>=64? ~0ULL : (1ULL<<w)-1; }
static inline i64 sx(u64 v,unsigned w){ if (w>=64) return (i64)v; u64 m=1ULL<<(w-1); return (i64)((v^m)-m); }

static u32 raw(u8 op,u8 w,u32 a=0,u32 b=0,u32 c=0,u64 k=0){
  NKey key{op,w,a,b,c,k}; auto it=HC.find(key); if (it!=HC.end()) return it->second;
  Node n; n.op=op;n.w=w;n.a=a;n.b=b;n.c=c;n.k=k; u32 vs=0;
  if (op==VAR) { vs=vsIntern({(u32)k}); } else { if (a) vs=vsUnion(vs,N[a].vs); if (b) vs=vsUnion(vs,N[b].vs); if (c) vs=vsUnion(vs,N[c].vs); }
  n.vs=vs; u64 h=op*1000003ULL+w; h=(h^(a?N[a].h:7))*0x9E3779B97F4A7C15ULL; h^=h>>32; h=(h^(b?N[b].h:11))*0xff51afd7ed558ccdULL; h^=h>>33; h=(h^(c?N[c].h:13))*0xc4ceb9fe1a85ec53ULL; h^=h>>29; h=(h^k)*0x9E3779B97F4A7C15ULL; h^=h>>31; n.h=h;
  u32 id=N.size(); N.push_back(n); HC[key]=id; return id; }
static inline bool isC(u32 a){ return N[a].op==CONST; }
static u32 mkC(u64 v,unsigned w){ return raw(CONST,w,0,0,0,v&mask(w)); }
static u64 evalop(u8 op,unsigned w,u64 a,u64 b,unsigned wa){ // wa: operand width
  switch(op){ case ADD:return (a+b)&mask(w); case SUB:return (a-b)&mask(w); case MUL:return (a*b)&mask(w);
  case UDIV:return b? a/b : mask(w); case UREM:return b? a%b : a;
  case SDIV:{ i64 x=sx(a,w),y=sx(b,w); if(!y) return x>=0? mask(w):1; if (y==-1) return (0-a)&mask(w); return (u64)(x/y)&mask(w);} 
  case SREM:{ i64 x=sx(a,w),y=sx(b,w); if(!y) return a; if (y==-1) return 0; return (u64)(x%y)&mask(w);} 
  case SHL:return b>=w?0:(a<<b)&mask(w); case LSHR:return b>=w?0:a>>b; case ASHR:{ i64 x=sx(a,w); return (u64)(x>>(b>=w?w-1:b))&mask(w);} 
  case AND:return a&b; case OR:return a|b; case XOR:return a^b;
  case EQ:return a==b; case ULT:return a<b; case ULE:return a<=b; case SLT:return sx(a,wa)<sx(b,wa); case SLE:return sx(a,wa)<=sx(b,wa); }
  abort(); }
static u32 mkB(u8 op,u32 a,u32 b); static u32 mkExtract(u32 a,unsigned lo,unsigned w); static u32 mkZext(u32 a,unsigned w); static u32 mkITE(u32 c,u32 a,u32 b);
static u32 mkNot(u32 a){ return mkB(XOR,a,mkC(1,1)); }
static bool isNot(u32 a){ return N[a].op==XOR && N[a].w==1 && isC(N[a].b); }
static bool commut(u8 op){ return op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ; }
static u32 mkZext(u32 a,unsigned w){ if (N[a].w==w) return a; Node n=N[a]; if (n.op==CONST) return mkC(n.k,w); if (n.op==ZEXT) return mkZext(n.a,w); return raw(ZEXT,w,a); }
static u32 mkSext(u32 a,unsigned w){ if (N[a].w==w) return a; Node n=N[a]; if (n.op==CONST) return mkC((u64)sx(n.k,n.w),w); if (n.op==SEXT) return mkSext(n.a,w); if (n.op==ZEXT) return mkZext(n.a,w); 
  if (n.op==ITE && isC(n.b) && isC(n.c)) return mkITE(n.a,mkSext(n.b,w),mkSext(n.c,w)); return raw(SEXT,w,a); }
static u32 mkExtract(u32 a,unsigned lo,unsigned w){ Node n=N[a]; if (lo==0&&w==n.w) return a;
  switch(n.op){
  case CONST: return mkC(n.k>>lo,w);
  case EXTRACT: return mkExtract(n.a,lo+n.k,w);
  case ZEXT: { unsigned iw=N[n.a].w; if (lo>=iw) return mkC(0,w); if (lo+w<=iw) return mkExtract(n.a,lo,w); return mkZext(mkExtract(n.a,lo,iw-lo),w); }
  case SEXT: { unsigned iw=N[n.a].w; if (lo+w<=iw) return mkExtract(n.a,lo,w); if (lo==0) return mkSext(n.a,w); break; }
  case CONCAT: { unsigned lw=N[n.b].w; if (lo>=lw) return mkExtract(n.a,lo-lw,w); if (lo+w<=lw) return mkExtract(n.b,lo,w); break; }
  case AND: case OR: case XOR: return mkB(n.op,mkExtract(n.a,lo,w),mkExtract(n.b,lo,w));
  case ADD: case SUB: case MUL: if (lo==0) return mkB(n.op,mkExtract(n.a,0,w),mkExtract(n.b,0,w)); break;
  case SHL: if (isC(n.b)) { u64 s=N[n.b].k; if (lo>=s && s<n.w) return mkExtract(n.a,lo-s,w); if (lo+w<=s) return mkC(0,w); } break;
  case LSHR: if (isC(n.b)) { u64 s=N[n.b].k; if (lo+s+w<=n.w) return mkExtract(n.a,lo+s,w); if (lo+s>=n.w) return mkC(0,w);} break;
  case ITE: return mkITE(n.a,mkExtract(n.b,lo,w),mkExtract(n.c,lo,w));
  }
  return raw(EXTRACT,w,a,0,0,lo); }
static u32 mkConcat(u32 hi,u32 lo){ Node h=N[hi],l=N[lo]; unsigned w=h.w+l.w;
  if (h.op==CONST&&l.op==CONST) return mkC((h.k<<l.w)|l.k,w);
  if (h.op==CONST&&h.k==0) return mkZext(lo,w);
  if (h.op==EXTRACT&&l.op==EXTRACT&&h.a==l.a&&h.k==l.k+l.w) return mkExtract(h.a,l.k,w);
  if (h.op==EXTRACT&&h.a==lo&&h.k==l.w) return mkExtract(lo,0,w);
  if (h.op==ZEXT) return mkZext(mkConcat(h.a,lo),w);
  if (h.op==EXTRACT && N[h.a].op!=CONST && h.k==l.w && N[h.a].w>=w && mkExtract(h.a,0,l.w)==lo) return mkExtract(h.a,0,w);
  if (h.op==ITE&&l.op==ITE&&h.a==l.a) return mkITE(h.a,mkConcat(h.b,l.b),mkConcat(h.c,l.c));
  if (h.op==CONST&&l.op==ITE) return mkITE(l.a,mkConcat(hi,l.b),mkConcat(hi,l.c));
  if (l.op==CONST&&h.op==ITE) return mkITE(h.a,mkConcat(h.b,lo),mkConcat(h.c,lo));
  return raw(CONCAT,w,hi,lo); }
static u32 mkITE(u32 c,u32 a,u32 b){ if (isC(c)) return N[c].k?a:b; if (a==b) return a; if (isNot(c)) return mkITE(N[c].a,b,a);
  if (N[a].w==1) { if (isC(a)) return N[a].k? mkB(OR,c,b) : mkB(AND,mkNot(c),b); if (isC(b)) return N[b].k? mkB(OR,mkNot(c),a) : mkB(AND,c,a); }
  if (N[a].op==ITE && N[a].a==c) a=N[a].b; if (N[b].op==ITE && N[b].a==c) b=N[b].c; if (a==b) return a;
  return raw(ITE,N[a].w,c,a,b); }
static u32 mkCmp(u8 op,u32 a,u32 b){
  Node x=N[a],y=N[b]; unsigned w=x.w;
  if (x.op==CONST&&y.op==CONST) return mkC(evalop(op,1,x.k,y.k,w),1);
  if (a==b) return mkC(op==EQ||op==ULE||op==SLE,1);
  if (op==EQ) {
    if (x.op==CONST) { std::swap(a,b); std::swap(x,y); }
    if (y.op==CONST) {
      if (w==1) return y.k? a: mkNot(a);
      if (x.op==ZEXT) { unsigned iw=N[x.a].w; if (y.k>mask(iw)) return mkC(0,1); return mkCmp(EQ,x.a,mkC(y.k,iw)); }
      if (x.op==SEXT) { unsigned iw=N[x.a].w; u32 t=mkC(y.k,iw); if ((u64)(sx(N[t].k,iw)&mask(w))!=y.k && ((u64)sx(N[t].k,iw)&mask(w))!=y.k) return mkC(0,1); return mkCmp(EQ,x.a,t); }
      if (x.op==ITE && (isC(x.b)||isC(x.c))) return mkITE(x.a,mkCmp(EQ,x.b,b),mkCmp(EQ,x.c,b));
      if (x.op==ADD && isC(x.b)) return mkCmp(EQ,x.a,mkC(y.k-N[x.b].k,w));
      if (x.op==XOR && isC(x.b)) return mkCmp(EQ,x.a,mkC(y.k^N[x.b].k,w));
      if (x.op==CONCAT) { unsigned lw=N[x.b].w; return mkB(AND,mkCmp(EQ,x.a,mkC(y.k>>lw,w-lw)),mkCmp(EQ,x.b,mkC(y.k,lw))); }
      if (x.op==MUL && isC(x.b) && 0) {}
    }
    if (x.op==ZEXT&&y.op==ZEXT&&N[x.a].w==N[y.a].w) return mkCmp(EQ,x.a,y.a);
    if (N[a].h>N[b].h) std::swap(a,b);
    return raw(EQ,1,a,b);
  }
  if (op==ULT && y.op==CONST && y.k==0) return mkC(0,1);
  if (op==ULE && x.op==CONST && x.k==0) return mkC(1,1);
  if (op==ULE && y.op==CONST && y.k==mask(w)) return mkC(1,1);
  if (op==ULT && y.op==CONST && y.k==1) return mkCmp(EQ,a,mkC(0,w));
  if (op==ULT && x.op==CONST && x.k==mask(w)) return mkC(0,1);
  if (w>1 && x.op==ZEXT && y.op==CONST) { unsigned iw=N[x.a].w; 
    if (op==SLT||op==SLE) { if (sx(y.k,w)<0) return mkC(0,1); op = op==SLT?ULT:ULE; }
    if (y.k>mask(iw)) return mkC(1,1); return mkCmp(op,x.a,mkC(y.k,iw)); }
  if (w>1 && y.op==ZEXT && x.op==CONST) { unsigned iw=N[y.a].w;
    if (op==SLT||op==SLE) { if (sx(x.k,w)<0) return mkC(1,1); op = op==SLT?ULT:ULE; }
    if (x.k>mask(iw)) return mkC(0,1); return mkCmp(op,mkC(x.k,iw),y.a); }
  if (x.op==ZEXT&&y.op==ZEXT&&N[x.a].w==N[y.a].w) return mkCmp(op==SLT?ULT:op==SLE?ULE:op,x.a,y.a);
  if (w==1) { // unsigned bools
    if (op==ULT) return mkB(AND,mkNot(a),b); if (op==ULE) return mkB(OR,mkNot(a),b); }
  if (x.op==ITE && y.op==CONST && (isC(x.b)||isC(x.c))) return mkITE(x.a,mkCmp(op,x.b,b),mkCmp(op,x.c,b));
  if (y.op==ITE && x.op==CONST && (isC(y.b)||isC(y.c))) return mkITE(y.a,mkCmp(op,a,y.b),mkCmp(op,a,y.c));
  return raw(op,1,a,b); }
static u32 mkB(u8 op,u32 a,u32 b){
  if (op>=EQ&&op<=SLE) return mkCmp(op,a,b);
  unsigned w=N[a].w; if (N[b].w!=w) { fprintf(stderr,"symx: width mismatch op %d %d %d\n",op,w,N[b].w); abort(); }
  if (isC(a)&&isC(b)) return mkC(evalop(op,w,N[a].k,N[b].k,w),w);
  if (commut(op)) { if (isC(a)) std::swap(a,b); else if (!isC(b) && N[a].h>N[b].h) std::swap(a,b); }
  if (isC(b)) { u64 k=N[b].k; Node x=N[a];
    switch(op){
    case ADD: if (!k) return a; if (x.op==ADD&&isC(x.b)) return mkB(ADD,x.a,mkC(N[x.b].k+k,w)); if (x.op==ITE&&isC(x.b)&&isC(x.c)) return mkITE(x.a,mkB(op,x.b,b),mkB(op,x.c,b)); break;
    case SUB: if (!k) return a; return mkB(ADD,a,mkC(0-k,w));
    case MUL: if (!k) return b; if (k==1) return a; if (x.op==ITE&&isC(x.b)&&isC(x.c)) return mkITE(x.a,mkB(op,x.b,b),mkB(op,x.c,b)); break;
    case AND: if (!k) return b; if (k==mask(w)) return a; if (x.op==AND&&isC(x.b)) return mkB(AND,x.a,mkC(N[x.b].k&k,w));
      if (x.op==ZEXT) { unsigned iw=N[x.a].w; return mkZext(mkB(AND,x.a,mkC(k,iw)),w); } if (x.op==ITE&&isC(x.b)&&isC(x.c)) return mkITE(x.a,mkB(op,x.b,b),mkB(op,x.c,b));
      if (w>1 && (k&(k+1))==0) { unsigned n=__builtin_popcountll(k); return mkZext(mkExtract(a,0,n),w); } break;
    case OR: if (!k) return a; if (k==mask(w)) return b; if (x.op==ITE&&isC(x.b)&&isC(x.c)) return mkITE(x.a,mkB(op,x.b,b),mkB(op,x.c,b)); break;
    case XOR: if (!k) return a; if (x.op==XOR&&isC(x.b)) return mkB(XOR,x.a,mkC(N[x.b].k^k,w)); if (x.op==ITE&&isC(x.b)&&isC(x.c)) return mkITE(x.a,mkB(op,x.b,b),mkB(op,x.c,b)); break;
    case SHL: if (!k) return a; if (k>=w) return mkC(0,w); if (x.op==ITE&&isC(x.b)&&isC(x.c)) return mkITE(x.a,mkB(op,x.b,b),mkB(op,x.c,b)); break;
    case LSHR: if (!k) return a; if (k>=w) return mkC(0,w); if (x.op==ITE&&isC(x.b)&&isC(x.c)) return mkITE(x.a,mkB(op,x.b,b),mkB(op,x.c,b)); return mkZext(mkExtract(a,k,w-k),w);
    case ASHR: if (!k) return a; if (x.op==ZEXT&&k<w) return mkB(LSHR,a,b); break;
    case UDIV: if (k==1) return a; if (k && !(k&(k-1))) return mkB(LSHR,a,mkC(__builtin_ctzll(k),w)); break;
    case UREM: if (k && !(k&(k-1))) return mkB(AND,a,mkC(k-1,w)); break;
    case SDIV: if (k==1) return a; break;
    } }
  if (isC(a) && N[a].k==0 && (op==SHL||op==LSHR||op==ASHR||op==UDIV&&0)) return a;
  if (a==b) { if (op==AND||op==OR) return a; if (op==XOR||op==SUB) return mkC(0,w); }
  if (w==1 && (op==AND||op==OR)) { if (mkNot(a)==b) return mkC(op==OR,1); }
  if ((op==AND||op==OR||op==XOR) && N[a].op==ZEXT && N[b].op==ZEXT && N[N[a].a].w==N[N[b].a].w) return mkZext(mkB(op,N[a].a,N[b].a),w);
  if ((op==SHL) && isC(a) && N[b].op==ITE && isC(N[N[b].a].a) && 0) {}
  return raw(op,w,a,b); }

// ---- evaluation over the 256 values of one variable -----------------------
struct TT { u64 v[256]; };
static std::unordered_map<u32,TT*> TTC; static std::unordered_map<u32,std::array<u64,4>> BTC;
static const TT *tt(u32 id){ auto it=TTC.find(id); if (it!=TTC.end()) return it->second; Node n=N[id]; 
  const TT*a=nullptr,*b=nullptr,*c=nullptr;
  if (n.op!=CONST&&n.op!=VAR) { a=tt(n.a); if (n.b) b=tt(n.b); if (n.c) c=tt(n.c); }
  TT*r=new TT; unsigned wa=n.a?N[n.a].w:0;
  for (int i=0;i<256;i++) { u64 v;
    switch(n.op){ case CONST:v=n.k;break; case VAR:v=i;break; case ZEXT:v=a->v[i];break; case SEXT:v=(u64)sx(a->v[i],wa)&mask(n.w);break; case EXTRACT:v=(a->v[i]>>n.k)&mask(n.w);break;
    case CONCAT:v=(a->v[i]<<N[n.b].w)|b->v[i];break; case ITE:v=a->v[i]?b->v[i]:c->v[i];break; default:v=evalop(n.op,n.w,a->v[i],b->v[i],wa); }
    r->v[i]=v; }
  TTC[id]=r; return r; }
static void ttTrim(){ if (TTC.size()>30000) { for (auto&p:TTC) delete p.second; TTC.clear(); } }
typedef std::array<u64,4> M256;
static const M256 &btab(u32 id){ auto it=BTC.find(id); if (it!=BTC.end()) return it->second; ttTrim(); const TT*t=tt(id); M256 m{0,0,0,0}; for (int i=0;i<256;i++) if (t->v[i]) m[i>>6]|=1ULL<<(i&63); return BTC[id]=m; }

// ---- shared state ----------------------------------------------------------
static const int MAXW=16, RINGN=4096, SLOT=4096, MAXV=64, MAXREACH=256, MAXFN=16384;
struct Viol { char kind[32]; char msg[400]; int n; u8 in[2048]; int ngarb; };
struct Shared {
  pthread_mutex_t mu; int nworkers; std::atomic<int> idle; std::atomic<int> stop; std::atomic<int> ringn;
  std::atomic<u64> runs,paths,assume_killed,br,br_sym,z3q,z3sat,z3unsat,z3unk,tabq,tabsat,cacheq,asserts,asserts_sym,z3ns,conc,divergence,maxdepth,jobs,symload,symstore,assert_z3, maxinputs, dropped, incomplete, nodes;
  int nviol; Viol viol[MAXV]; u64 nviol_total; int nreach; char reach[MAXREACH][64]; u8 fnhit[MAXFN];
  u64 maxq_ns;
  int nsamp; int sampn[8]; u8 samp[8][256];
  int slen[RINGN]; u8 slot[RINGN][SLOT];
};
static Shared *G;
static std::vector<std::pair<std::string,long>> params;
static int wid=0; static double tlimit=600; static int maxviol=8; static u64 rlimit=20000000; static int run_cpu_limit=60;
static timespec t0;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9; }
static u64 nowns(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000000ULL+t.tv_nsec; }

struct Cnt { u64 br_sym,tabq,tabsat,cacheq,asserts,asserts_sym,conc,symload,symstore,jobs,z3q,z3sat,z3unsat,z3unk,z3ns; }; static Cnt L;
static void flushCnt(){ G->br_sym+=L.br_sym; G->tabq+=L.tabq; G->tabsat+=L.tabsat; G->cacheq+=L.cacheq; G->asserts+=L.asserts; G->asserts_sym+=L.asserts_sym; G->conc+=L.conc; G->symload+=L.symload; G->symstore+=L.symstore; G->jobs+=L.jobs; G->z3q+=L.z3q; G->z3sat+=L.z3sat; G->z3unsat+=L.z3unsat; G->z3unk+=L.z3unk; G->z3ns+=L.z3ns; L=Cnt{}; }
// ---- per-run state ----------------------------------------------------------
struct Job { std::vector<u8> in; u32 start=0; u64 phash=0; std::vector<u64> excl; u32 confirm=0; };
static std::vector<Job> local;
static Job J; static std::vector<u8> cur; static u32 nvars; static u32 pos; static u64 phash;
static std::vector<std::string> vname;
struct Dom { M256 m; };
static std::vector<M256> dom; static std::vector<u32> multi; static std::unordered_set<u32> pcset; static std::vector<u8> linked;
static u64 bump; static long live; static std::vector<u64> dirty;
static jmp_buf runjb; static bool running=false; static volatile bool insolver=false;
static u64 allocidx; static bool failarmed; static u32 failvar; static bool failinjected; static u64 failmax;
static bool garb=false, nouninit=false, allowexit=false; 
static const u32 GV=1u<<24; static u32 ngarb; // garbage variables
struct GDom; static std::unordered_map<u32,u32> gidx;
enum End { END_OK, END_ASSUME, END_VIOL };
[[noreturn]] static void endrun(End e){ longjmp(runjb, 1+(int)e); }

static u32 varIndex(u32 k){ return k; }

// ---- z3 ------------------------------------------------------------------
static std::unordered_map<u32,std::vector<Z3_ast>> ZBITS; static Z3_ast zT,zF;
static Z3_context Z; static Z3_solver ZS; static std::unordered_map<u32,Z3_ast> ZA; static std::unordered_map<u32,Z3_ast> ZV;
static void zerr(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); }
static void zinit(){ Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); Z=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z,zerr);
  ZS=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,ZS); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)rlimit); Z3_solver_set_params(Z,ZS,p); Z3_params_dec_ref(Z,p); ZA.clear(); ZV.clear(); ZBITS.clear(); zT=Z3_mk_true(Z); zF=Z3_mk_false(Z); }
static Z3_ast zvar(u32 k){ auto it=ZV.find(k); if (it!=ZV.end()) return it->second; Z3_ast a=Z3_mk_const(Z,Z3_mk_int_symbol(Z,k),Z3_mk_bv_sort(Z,8)); ZV[k]=a; return a; }
static Z3_ast zt(u32 id); 
static Z3_ast zbc(u32 id); static Z3_ast zt(u32 id);
static Z3_ast bAnd(Z3_ast a,Z3_ast b){ if (a==zF||b==zF) return zF; if (a==zT) return b; if (b==zT||a==b) return a; Z3_ast x[2]={a,b}; return Z3_mk_and(Z,2,x); }
static Z3_ast bOr(Z3_ast a,Z3_ast b){ if (a==zT||b==zT) return zT; if (a==zF) return b; if (b==zF||a==b) return a; Z3_ast x[2]={a,b}; return Z3_mk_or(Z,2,x); }
static Z3_ast bNot(Z3_ast a){ return a==zT?zF:a==zF?zT:Z3_mk_not(Z,a); }
static Z3_ast bIff(Z3_ast a,Z3_ast b){ if (a==b) return zT; if (a==zT) return b; if (b==zT) return a; if (a==zF) return bNot(b); if (b==zF) return bNot(a); return Z3_mk_iff(Z,a,b); }
static Z3_ast bIte(Z3_ast c,Z3_ast a,Z3_ast b){ if (a==b||c==zT) return a; if (c==zF) return b; if (a==zT) return bOr(c,b); if (a==zF) return bAnd(bNot(c),b); if (b==zF) return bAnd(c,a); if (b==zT) return bOr(bNot(c),a); return Z3_mk_ite(Z,c,a,b); }
// Words assembled from 1-bit facts (sets of states) are handed to the solver bit by bit.  Empty: not of that form.
static const std::vector<Z3_ast>& zbits(u32 id){ auto it=ZBITS.find(id); if (it!=ZBITS.end()) return it->second; Node n=N[id]; std::vector<Z3_ast> r; unsigned w=n.w;
  auto get=[&](u32 x,std::vector<Z3_ast>&o){ o=zbits(x); return !o.empty(); }; std::vector<Z3_ast> a,b,c;
  if (n.op==CONST) { for (unsigned i=0;i<w;i++) r.push_back((n.k>>i)&1?zT:zF); }
  else if (w==1 && n.op!=VAR && n.op!=EXTRACT) r.push_back(zbc(id));
  else switch(n.op) {
    case ZEXT: if (get(n.a,a)) { r=a; r.resize(w,zF); } break;
    case SEXT: if (get(n.a,a)) { r=a; r.resize(w,a.back()); } break;
    case AND: case OR: case XOR: if (get(n.a,a)&&get(n.b,b)) for (unsigned i=0;i<w;i++) r.push_back(n.op==AND?bAnd(a[i],b[i]):n.op==OR?bOr(a[i],b[i]):bNot(bIff(a[i],b[i]))); break;
    case SHL: case LSHR: if (isC(n.b)&&get(n.a,a)) { u64 k=N[n.b].k; for (unsigned i=0;i<w;i++) { long j=n.op==SHL?(long)i-(long)k:(long)i+(long)k; r.push_back(k>=w||j<0||j>=(long)w?zF:a[j]); } } break;
    case EXTRACT: if (get(n.a,a)) for (unsigned i=0;i<w;i++) r.push_back(a[n.k+i]); break;
    case CONCAT: if (get(n.a,a)&&get(n.b,b)) { r=b; r.insert(r.end(),a.begin(),a.end()); } break;
    case ITE: if (get(n.b,a)&&get(n.c,b)) { Z3_ast q=zbc(n.a); for (unsigned i=0;i<w;i++) r.push_back(bIte(q,a[i],b[i])); } break;
    case MUL: if (isC(n.b)&&N[n.a].op==ZEXT&&N[N[n.a].a].w==1) { Z3_ast q=zbc(N[n.a].a); for (unsigned i=0;i<w;i++) r.push_back((N[n.b].k>>i)&1?q:zF); } break;
    default: break; }
  return ZBITS[id]=r; }
static Z3_ast zb(u32 id){ // boolean view of a 1-bit node
  Node n=N[id]; 
  if (n.op==EQ && N[n.a].w>1) { std::vector<Z3_ast> a=zbits(n.a); if (!a.empty()) { std::vector<Z3_ast> b=zbits(n.b); if (!b.empty()) { Z3_ast r=zT; for (unsigned i=0;i<a.size();i++) r=bAnd(r,bIff(a[i],b[i])); return r; } } }
  switch(n.op){ case CONST: return n.k?Z3_mk_true(Z):Z3_mk_false(Z);
  case EQ: if (N[n.a].w==1) return Z3_mk_iff(Z,zb(n.a),zb(n.b)); return Z3_mk_eq(Z,zt(n.a),zt(n.b)); case ULT:return Z3_mk_bvult(Z,zt(n.a),zt(n.b)); case ULE:return Z3_mk_bvule(Z,zt(n.a),zt(n.b)); case SLT:return Z3_mk_bvslt(Z,zt(n.a),zt(n.b)); case SLE:return Z3_mk_bvsle(Z,zt(n.a),zt(n.b));
  case AND: { Z3_ast x[2]={zb(n.a),zb(n.b)}; return Z3_mk_and(Z,2,x);} case OR: { Z3_ast x[2]={zb(n.a),zb(n.b)}; return Z3_mk_or(Z,2,x);} case XOR: if (isC(n.b)) return N[n.b].k? Z3_mk_not(Z,zb(n.a)) : zb(n.a); return Z3_mk_xor(Z,zb(n.a),zb(n.b));
  case ITE: return Z3_mk_ite(Z,zb(n.a),zb(n.b),zb(n.c)); }
  return Z3_mk_eq(Z,zt(id),Z3_mk_unsigned_int64(Z,1,Z3_mk_bv_sort(Z,1))); }
static std::unordered_map<u32,Z3_ast> ZB;
static Z3_ast zt(u32 id){ auto it=ZA.find(id); if (it!=ZA.end()) return it->second; Node n=N[id]; Z3_ast r; Z3_sort s=Z3_mk_bv_sort(Z,n.w);
  auto A=[&]{return zt(n.a);}; auto B=[&]{return zt(n.b);};
  switch(n.op){ case CONST:r=Z3_mk_unsigned_int64(Z,n.k,s);break; case VAR:r=zvar(n.k);break;
  case ADD:r=Z3_mk_bvadd(Z,A(),B());break; case SUB:r=Z3_mk_bvsub(Z,A(),B());break; case MUL:r=Z3_mk_bvmul(Z,A(),B());break; case UDIV:r=Z3_mk_bvudiv(Z,A(),B());break; case SDIV:r=Z3_mk_bvsdiv(Z,A(),B());break; case UREM:r=Z3_mk_bvurem(Z,A(),B());break; case SREM:r=Z3_mk_bvsrem(Z,A(),B());break;
  case SHL:r=Z3_mk_bvshl(Z,A(),B());break; case LSHR:r=Z3_mk_bvlshr(Z,A(),B());break; case ASHR:r=Z3_mk_bvashr(Z,A(),B());break;
  case AND: case OR: case XOR: if (n.w>1) { r = n.op==AND?Z3_mk_bvand(Z,A(),B()):n.op==OR?Z3_mk_bvor(Z,A(),B()):Z3_mk_bvxor(Z,A(),B()); break; } /* fallthrough */
  case EQ: case ULT: case ULE: case SLT: case SLE: r=Z3_mk_ite(Z,zbc(id),Z3_mk_unsigned_int64(Z,1,s),Z3_mk_unsigned_int64(Z,0,s)); break;
  case ZEXT: if (N[n.a].w==1) r=Z3_mk_ite(Z,zbc(n.a),Z3_mk_unsigned_int64(Z,1,s),Z3_mk_unsigned_int64(Z,0,s)); else r=Z3_mk_zero_ext(Z,n.w-N[n.a].w,A());break; case SEXT:r=Z3_mk_sign_ext(Z,n.w-N[n.a].w,A());break; case EXTRACT:r=Z3_mk_extract(Z,n.k+n.w-1,n.k,A());break; case CONCAT:r=Z3_mk_concat(Z,A(),B());break;
  case ITE:r=Z3_mk_ite(Z,zbc(n.a),zt(n.b),zt(n.c));break; default:abort(); }
  return ZA[id]=r; }
static Z3_ast zbc(u32 id){ auto it=ZB.find(id); if (it!=ZB.end()) return it->second; Z3_ast r=zb(id); return ZB[id]=r; }
static Z3_ast zdom(u32 k,const M256&m){ Z3_ast v=zvar(k); Z3_sort s=Z3_mk_bv_sort(Z,8); std::vector<Z3_ast> ors; int i=0; auto bit=[&](int x){return (m[x>>6]>>(x&63))&1;};
  while (i<256) { if (!bit(i)) { i++; continue; } int j=i; while (j+1<256&&bit(j+1)) j++; if (i==j) ors.push_back(Z3_mk_eq(Z,v,Z3_mk_unsigned_int64(Z,i,s))); else { Z3_ast x[2]; int n=0; if (i>0) x[n++]=Z3_mk_bvuge(Z,v,Z3_mk_unsigned_int64(Z,i,s)); if (j<255) x[n++]=Z3_mk_bvule(Z,v,Z3_mk_unsigned_int64(Z,j,s)); ors.push_back(n==0?Z3_mk_true(Z):n==1?x[0]:Z3_mk_and(Z,2,x)); } i=j+1; }
  if (ors.empty()) return Z3_mk_false(Z); return ors.size()==1?ors[0]:Z3_mk_or(Z,ors.size(),ors.data()); }
static const M256 FULL{~0ULL,~0ULL,~0ULL,~0ULL};
static bool m0(const M256&m){ return !(m[0]|m[1]|m[2]|m[3]); }
static M256 mand(const M256&a,const M256&b){ return M256{a[0]&b[0],a[1]&b[1],a[2]&b[2],a[3]&b[3]}; }
static int mfirst(const M256&m,int pref){ if (pref>=0&&((m[pref>>6]>>(pref&63))&1)) return pref; for (int i=0;i<256;i++) if ((m[i>>6]>>(i&63))&1) return i; return -1; }
static std::unordered_map<u32,M256> gdom;
static M256 domOf(u32 k){ if (k>=GV) { auto it=gdom.find(k); return it==gdom.end()?FULL:it->second; } return k<dom.size()?dom[k]:FULL; }
typedef std::vector<std::pair<u32,u8>> Model;
struct QR { int r; Model m; };
static std::unordered_map<std::string,QR> qcache;
static std::unordered_set<u32> linkedg;
static bool isLinked(u32 k){ return k>=GV? linkedg.count(k)>0 : (k<linked.size() && linked[k]); }

// Is PC && extra satisfiable?  1 sat (model), 0 unsat, -1 unknown.
// Properties (asserted=true) are always decided by z3; where the table applies too, the two must agree.
static int query(const std::vector<u32>&extra, Model &mod, bool asserted=false){
  mod.clear(); int tabres=-2;
  // constant / single variable fast path: a complete decision by 256-row truth table
  std::set<u32> vs; bool single=true; u32 v0=~0u; std::vector<u32> ex;
  for (u32 e: extra) { if (isC(e)) { if (!N[e].k) return 0; continue; } ex.push_back(e); auto &s=VS[N[e].vs]; if (s.size()!=1) single=false; for (u32 k: s) { if (v0==~0u) v0=k; else if (k!=v0) single=false; vs.insert(k);} }
  if (ex.empty()) return 1;
  if (single) { M256 m=domOf(v0); for (u32 e: ex) m=mand(m,btab(e)); if (asserted) { if (m0(m)) tabres=0; else if (!isLinked(v0)) tabres=1; } else if (m0(m)) { L.tabq++; return 0; } else if (!isLinked(v0)) { L.tabq++; L.tabsat++; mod.push_back({v0,(u8)mfirst(m,-1)}); return 1; } }
  // slice
  std::vector<u32> sl; std::vector<char> used(multi.size(),0); bool ch=true;
  while (ch) { ch=false; for (size_t i=0;i<multi.size();i++) if (!used[i]) { bool hit=false; for (u32 k: VS[N[multi[i]].vs]) if (vs.count(k)) { hit=true; break; } if (hit) { used[i]=1; sl.push_back(multi[i]); for (u32 k: VS[N[multi[i]].vs]) vs.insert(k); ch=true; } } }
  std::sort(sl.begin(),sl.end()); std::sort(ex.begin(),ex.end());
  std::string key; auto put=[&](const void*p,size_t n){ key.append((const char*)p,n); };
  put(ex.data(),ex.size()*4); u32 sep=~0u; put(&sep,4); put(sl.data(),sl.size()*4); put(&sep,4);
  for (u32 k: vs) { M256 m=domOf(k); put(&k,4); put(m.data(),32); }
  auto it=qcache.find(key); if (it!=qcache.end()) { L.cacheq++; mod=it->second.m; return it->second.r; }
  u64 s0=nowns(); insolver=true;
  Z3_solver_push(Z,ZS);
  for (u32 k: vs) { M256 m=domOf(k); if (m!=FULL) Z3_solver_assert(Z,ZS,zdom(k,m)); }
  for (u32 c: sl) Z3_solver_assert(Z,ZS,zbc(c));
  for (u32 c: ex) Z3_solver_assert(Z,ZS,zbc(c));
  Z3_lbool r=Z3_solver_check(Z,ZS); QR q; q.r = r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  if (q.r==1) { Z3_model zm=Z3_solver_get_model(Z,ZS); Z3_model_inc_ref(Z,zm); for (u32 k: vs) { Z3_ast o; u64 val=0; if (Z3_model_eval(Z,zm,zvar(k),true,&o)) Z3_get_numeral_uint64(Z,o,(uint64_t*)&val); q.m.push_back({k,(u8)val}); } Z3_model_dec_ref(Z,zm); }
  Z3_solver_pop(Z,ZS,1); insolver=false;
  u64 dt=nowns()-s0; L.z3ns+=dt; L.z3q++; if (dt>G->maxq_ns) G->maxq_ns=dt; if (q.r==1) L.z3sat++; else if (q.r==0) L.z3unsat++; else { L.z3unk++; G->incomplete=1; }
  if (tabres!=-2 && q.r>=0 && tabres!=q.r) { fprintf(stderr,"z3 and table disagree\n"); G->divergence++; }
  if (qcache.size()>400000) qcache.clear();
  qcache[key]=q; mod=q.m; return q.r; }

// ---- path condition ----------------------------------------------------------
static void pcAdd(u32 c){ // c concretely true
  pos++; phash=(phash^N[c].h)*0x9E3779B97F4A7C15ULL; phash^=phash>>31;
  if (pcset.insert(c).second==false) return;
  auto &s=VS[N[c].vs];
  if (s.size()==1) { u32 k=s[0]; M256 m=mand(domOf(k),btab(c)); if (k>=GV) gdom[k]=m; else { if (k>=dom.size()) dom.resize(k+1,FULL); dom[k]=m; } }
  else { // conjunctions of single-variable facts tighten domains too
    Node n=N[c]; if (n.op==AND && n.w==1) { pos--; u64 h=phash; pcAdd(n.a); pos--; pcAdd(n.b); phash=h; return; }
    multi.push_back(c); for (u32 k: s) { if (k>=GV) linkedg.insert(k); else { if (k>=linked.size()) linked.resize(k+1,0); linked[k]=1; } } }
}
static void applyModel(std::vector<u8>&in,const Model&m){ for (auto&p:m) if (p.first<GV) { if (p.first>=in.size()) in.resize(p.first+1,0); in[p.first]=p.second; } }
static void pushJob(Job &&j){ L.jobs++; local.push_back(std::move(j)); }
static u64 hashNext(u32 c){ u64 h=(phash^N[c].h)*0x9E3779B97F4A7C15ULL; return h^(h>>31); }
static void checkDiv(){ if (pos==J.start && J.start && phash!=J.phash) { G->divergence++; } }

static void violation(const char *kind,const char*msg,const std::vector<u8>&in){
  pthread_mutex_lock(&G->mu); G->nviol_total++; 
  int dup=0; for (int i=0;i<G->nviol;i++) if (!strcmp(G->viol[i].msg,msg)&&!strcmp(G->viol[i].kind,kind)) dup++;
  if (G->nviol<MAXV && dup<3) { Viol&v=G->viol[G->nviol++]; snprintf(v.kind,sizeof v.kind,"%s",kind); snprintf(v.msg,sizeof v.msg,"%s",msg); v.n=std::min<int>(in.size(),sizeof v.in); memcpy(v.in,in.data(),v.n); }
  if (G->nviol_total>=(u64)maxviol) G->stop=1;
  pthread_mutex_unlock(&G->mu); }
static void guardUninit(u32 c,const char*what){ if (!nouninit) return; bool g=false; for (u32 k: VS[N[c].vs]) if (k>=GV) g=true; if (!g) return;
  Model m; if (query({mkNot(c)},m)==1) { std::vector<u8> in=cur; char b[200]; snprintf(b,sizeof b,"%s depends on uninitialised heap memory",what); violation("uninit",b,in); endrun(END_VIOL); } }

static void branchOn(u32 c){ // c: 1-bit expr, concretely true; alternatives: not c
  if (isC(c)) return; if (pcset.count(c)) return; guardUninit(c,"branch");
  checkDiv();
  if (pos>=J.start) { u32 nc=mkNot(c); Model m; int r=query({nc},m); if (r==1) { Job j; j.in=cur; applyModel(j.in,m); j.start=pos+1; j.phash=hashNext(nc); pushJob(std::move(j)); } }
  pcAdd(c);
}
static void concretise(u32 id,u64 val,unsigned w){
  if (!id || isC(id)) return; 
  u32 c=mkCmp(EQ,id,mkC(val,w)); if (isC(c)||pcset.count(c)) return; guardUninit(c,"concretised value");
  L.conc++; checkDiv();
  if (pos>=J.start) {
    auto &s=VS[N[id].vs];
    if (s.size()==1) { // all feasible values at once
      if (!(pos==J.start && !J.excl.empty())) {
      u32 k=s[0]; M256 d=domOf(k); ttTrim(); const TT*t=tt(id); std::set<u64> vals; for (int i=0;i<256;i++) if ((d[i>>6]>>(i&63))&1) vals.insert(t->v[i]); vals.erase(val);
      for (u64 v: vals) { u32 e=mkCmp(EQ,id,mkC(v,w)); Model m; int r=query({e},m); if (r==1) { Job j; j.in=cur; applyModel(j.in,m); j.start=pos+1; j.phash=hashNext(e); pushJob(std::move(j)); } }
      }
    } else {
      std::vector<u64> excl; if (pos==J.start) excl=J.excl; excl.push_back(val);
      std::vector<u32> ex; for (u64 v: excl) ex.push_back(mkNot(mkCmp(EQ,id,mkC(v,w)))); Model m;
      if (query(ex,m)==1) { Job j; j.in=cur; applyModel(j.in,m); j.start=pos; j.phash=phash; j.excl=excl; pushJob(std::move(j)); }
    }
  }
  pcAdd(c);
}

// ---- hooks --------------------------------------------------------------------
static u32 opd(u32 s,u64 v,unsigned w){ return s? s: mkC(v,w); }
static u32 fin(u32 e){ return isC(e)?0:e; }
static const u8 BINMAP[]={0,ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,SHL,LSHR,ASHR,AND,OR,XOR};
[[noreturn]] static void viol_now(const char*k,const char*m){ violation(k,m,cur); endrun(END_VIOL); }
extern "C" {
u32 sxrt_bin(u32 opw,u32 sa,u64 a,u32 sb,u64 b){ u8 op=BINMAP[opw>>8]; unsigned w=opw&255; 
  if (sb && (op==UDIV||op==SDIV||op==UREM||op==SREM)) { u32 nz=mkNot(mkCmp(EQ,sb,mkC(0,w))); if (!isC(nz)) { Model m; if (!(b&mask(w))) viol_now("divzero","division by zero"); if (pos>=J.start && query({mkNot(nz)},m)==1) { std::vector<u8> in=cur; applyModel(in,m); violation("divzero","division by zero",in); } pcAdd(nz); } }
  return fin(mkB(op,opd(sa,a,w),opd(sb,b,w))); }
u32 sxrt_icmp(u32 pw,u32 sa,u64 a,u32 sb,u64 b){ unsigned p=pw>>8,w=pw&255; u32 x=opd(sa,a,w),y=opd(sb,b,w); 
  switch(p){ case 32:return fin(mkCmp(EQ,x,y)); case 33:return fin(mkNot(mkCmp(EQ,x,y))); case 34:return fin(mkCmp(ULT,y,x)); case 35:return fin(mkCmp(ULE,y,x)); case 36:return fin(mkCmp(ULT,x,y)); case 37:return fin(mkCmp(ULE,x,y)); case 38:return fin(mkCmp(SLT,y,x)); case 39:return fin(mkCmp(SLE,y,x)); case 40:return fin(mkCmp(SLT,x,y)); case 41:return fin(mkCmp(SLE,x,y)); } abort(); }
u32 sxrt_cast(u32 op,u32 wf,u32 wt,u32 s){ if (!s) return 0; if (N[s].w!=wf) { fprintf(stderr,"symx: cast width %u vs %u\n",N[s].w,wf); abort(); } return fin(op==1?mkZext(s,wt):op==2?mkSext(s,wt):mkExtract(s,0,wt)); }
u32 sxrt_sel(u32 w,u32 sc,u32 c,u32 sa,u64 a,u32 sb,u64 b){ if (!sc) return c?sa:sb; return fin(mkITE(sc,opd(sa,a,w),opd(sb,b,w))); }
u32 sxrt_gep(u32 r,u64 rc,u32 ix,u64 ic,u32 w,u64 scale){ u32 base=opd(r,rc,64); if (!ix) return fin(mkB(ADD,base,mkC((u64)sx(ic&mask(w),w)*scale,64))); return fin(mkB(ADD,base,mkB(MUL,mkSext(ix,64),mkC(scale,64)))); }
u32 sxrt_fsh(u32 L,u32 w,u32 sa,u64 a,u32 sb,u64 b,u64 s){ u32 x=opd(sa,a,w),y=opd(sb,b,w); s%=w; if (!s) return fin(L?x:y); u64 r=w-s; return L? fin(mkB(OR,mkB(SHL,x,mkC(s,w)),mkB(LSHR,y,mkC(r,w)))) : fin(mkB(OR,mkB(SHL,x,mkC(r,w)),mkB(LSHR,y,mkC(s,w)))); }
u32 sxrt_intr(u32 op,u32 w,u32 sa,u64 a,u32 sb,u64 b){ u32 x=opd(sa,a,w); 
  auto bit=[&](unsigned i){return mkExtract(x,i,1);};
  switch(op){
  case 1: { u32 r=mkC(0,w); for (unsigned i=0;i<w;i++) r=mkB(ADD,r,mkZext(bit(i),w)); return fin(r); }
  case 2: { u32 r=mkC(w,w); for (unsigned i=0;i<w;i++) r=mkITE(bit(i),mkC(w-1-i,w),r); return fin(r); }
  case 3: { u32 r=mkC(w,w); for (unsigned i=w;i-->0;) r=mkITE(bit(i),mkC(i,w),r); return fin(r); }
  case 4: { u32 r=mkExtract(x,0,8); for (unsigned i=8;i<w;i+=8) r=mkConcat(r,mkExtract(x,i,8)); return fin(r); }
  case 9: { u32 z=mkC(0,w); return fin(mkITE(mkCmp(SLT,x,z),mkB(SUB,z,x),x)); } }
  u32 y=opd(sb,b,w);
  switch(op){ case 5:return fin(mkITE(mkCmp(ULT,x,y),x,y)); case 6:return fin(mkITE(mkCmp(ULT,x,y),y,x)); case 7:return fin(mkITE(mkCmp(SLT,x,y),x,y)); case 8:return fin(mkITE(mkCmp(SLT,x,y),y,x));
  case 12:return fin(mkITE(mkCmp(ULT,x,y),mkC(0,w),mkB(SUB,x,y))); case 13:{ u32 s=mkB(ADD,x,y); return fin(mkITE(mkCmp(ULT,s,x),mkC(~0ULL,w),s)); } }
  abort(); }
u32 sxrt_ovf(u32 ov,u32 w,u32 sa,u64 a,u32 sb,u64 b){ u32 x=opd(sa,a,w),y=opd(sb,b,w);
  if (ov==1) return fin(mkCmp(ULT,mkB(ADD,x,y),x)); if (ov==2) return fin(mkCmp(ULT,x,y));
  if (w<=32) { unsigned W=w*2; u32 X,Y; if (ov==3) { X=mkZext(x,W);Y=mkZext(y,W);} else { X=mkSext(x,W);Y=mkSext(y,W);} u32 r= ov==4?mkB(ADD,X,Y):ov==5?mkB(SUB,X,Y):mkB(MUL,X,Y); u32 t=mkExtract(r,0,w); return fin(mkNot(mkCmp(EQ,r, ov==3?mkZext(t,W):mkSext(t,W)))); }
  if (ov==3) { if (isC(x)) std::swap(x,y); if (isC(y)) { u64 k=N[y].k; if (!k) return 0; return fin(mkCmp(ULT,mkC(mask(w)/k,w),x)); } }
  if (ov==4) { u32 s=mkB(ADD,x,y),z=mkC(0,w); u32 sx_=mkCmp(SLT,x,z),sy=mkCmp(SLT,y,z),ss=mkCmp(SLT,s,z); return fin(mkB(AND,mkCmp(EQ,sx_,sy),mkNot(mkCmp(EQ,ss,sx_)))); }
  if (ov==5) { u32 s=mkB(SUB,x,y),z=mkC(0,w); u32 sx_=mkCmp(SLT,x,z),sy=mkCmp(SLT,y,z),ss=mkCmp(SLT,s,z); return fin(mkB(AND,mkNot(mkCmp(EQ,sx_,sy)),mkNot(mkCmp(EQ,ss,sx_)))); }
  concretise(sa,a,w); concretise(sb,b,w); return 0; }
void sxrt_conc(u32 s,u64 v,u32 w){ concretise(s,v&mask(w),w); }
void sxrt_branch(u32 id,u32 taken,u32 site){ L.br_sym++; branchOn(taken? id: mkNot(id)); }
void sxrt_switch(u32 id,u64 val,u32 w,const u64*tab,u32 n){
  L.br_sym++; val&=mask(w);
  std::map<u64,std::vector<u64>> g; u64 tg=0; for (u32 i=0;i<n;i++) { g[tab[2*i+1]].push_back(tab[2*i]&mask(w)); if ((tab[2*i]&mask(w))==val) tg=tab[2*i+1]; }
  std::map<u64,u32> cond; u32 any=mkC(0,1);
  for (auto&kv:g) { auto v=kv.second; std::sort(v.begin(),v.end()); u32 c=mkC(0,1); for (size_t i=0;i<v.size();) { size_t j=i; while (j+1<v.size()&&v[j+1]==v[j]+1) j++; u32 r= i==j? mkCmp(EQ,id,mkC(v[i],w)) : mkCmp(ULE,mkB(SUB,id,mkC(v[i],w)),mkC(v[j]-v[i],w)); c=mkB(OR,c,r); i=j+1; } cond[kv.first]=c; any=mkB(OR,any,c); }
  if (g.count(0)) cond[0]=mkB(OR,cond[0],mkNot(any)); else cond[0]=mkNot(any);
  u32 c=cond[tg]; if (isC(c)||pcset.count(c)) return; guardUninit(c,"switch"); checkDiv();
  if (pos>=J.start) for (auto&kv:cond) if (kv.first!=tg) { Model m; if (query({kv.second},m)==1) { Job j; j.in=cur; applyModel(j.in,m); j.start=pos+1; j.phash=hashNext(kv.second); pushJob(std::move(j)); } }
  pcAdd(c); }
static u64 exeLo,exeHi;
static bool mapped(u64 a,unsigned n){ if (a>=ARENA&&a+n<=bump) return true; if (a>=STK&&a+n<=STK+STK_SZ) return true; if (a>=exeLo&&a+n<=exeHi) return true; return a>=LIMIT; }
static bool poisoned(u64 a,unsigned n){ if (a>=LIMIT) return false; u32*s=SH(a); for (unsigned i=0;i<n;i++) if (s[i]==POISON) return true; return false; }
static u32 loadAt(u64 a,unsigned n){ u32*s=SH(a); bool any=false; if (a<LIMIT) for (unsigned i=0;i<n;i++) any|=s[i]!=0; if (!any) { u64 v=0; memcpy(&v,(void*)a,n); return mkC(v,n*8);} 
  u32 r=0; for (int i=n-1;i>=0;i--) { u32 b=s[i]? s[i]: mkC(*(u8*)(a+i),8); r = r? mkConcat(r,b): b; } return r; }
// feasible values of an address expression; empty = too many
static bool cands(u32 as,u64 addr,std::vector<u64>&out,size_t lim){ auto&s=VS[N[as].vs]; if (s.size()!=1||s[0]>=GV) {
    // few values with several variables: enumerate with the solver
    return false; }
  M256 d=domOf(s[0]); ttTrim(); const TT*t=tt(as); std::set<u64> v; for (int i=0;i<256;i++) if ((d[i>>6]>>(i&63))&1) v.insert(t->v[i]); if (v.size()>lim) return false; out.assign(v.begin(),v.end()); return true; }
static void checkCands(u32 as,std::vector<u64>&c,u64 addr,unsigned n,const char*what){
  std::vector<u64> ok; for (u64 a: c) { if (mapped(a,n)&&!poisoned(a,n)) { ok.push_back(a); continue; }
    char b[100]; snprintf(b,sizeof b,"invalid %s of %u bytes (out of bounds or freed)",what,n);
    if (a==addr) viol_now("memory",b);
    u32 e=mkCmp(EQ,as,mkC(a,64)); if (pos>=J.start) { Model m; int r=query({e},m); if (r==1) { std::vector<u8> in=cur; applyModel(in,m); violation("memory",b,in); } }
    pcAdd(mkNot(e)); }
  c=ok; }
u32 sxrt_load(u64 addr,u32 as,u32 n){
  if (as && isC(as)) as=0;
  if (as) { L.symload++; std::vector<u64> c; guardUninit(mkCmp(EQ,as,mkC(addr,64)),"address"); if (!cands(as,addr,c,300)) { concretise(as,addr,64); as=0; } else {
      checkCands(as,c,addr,n,"read"); if (c.size()==1) { as=0; } else {
      std::vector<std::pair<u32,std::vector<u64>>> byv; { std::unordered_map<u32,size_t> ix; for (u64 a: c) { u32 v=loadAt(a,n); auto it=ix.find(v); if (it==ix.end()) { ix[v]=byv.size(); byv.push_back({v,{a}}); } else byv[it->second].second.push_back(a); } }
      u32 best=0; size_t bn=0; for (auto&kv:byv) if (kv.second.size()>bn) { bn=kv.second.size(); best=kv.first; }
      u32 r=best; for (auto&kv:byv) { if (kv.first==best) continue; u32 cd=mkC(0,1); for (u64 a: kv.second) cd=mkB(OR,cd,mkCmp(EQ,as,mkC(a,64))); r=mkITE(cd,kv.first,r); }
      return fin(r); } } }
  if (addr>=LIMIT) return 0;
  if (poisoned(addr,n)) { char b[100]; snprintf(b,sizeof b,"invalid read of %u bytes (out of bounds or freed)",n); viol_now("memory",b); }
  return fin(loadAt(addr,n)); }
static void setsh(u64 a,u32 e){ u32*s=SH(a); if (e && isC(e)) e=0; if (*s==e) return; if (e && (a<ARENA||a>=STK)) dirty.push_back(a); *s=e; }
void sxrt_store(u64 addr,u32 as,u32 n,u32 vs,u64 v){
  if (as && isC(as)) as=0;
  u32 ve=opd(vs,v,n*8);
  if (N[ve].w!=n*8) { fprintf(stderr,"symx: store width %u %u\n",N[ve].w,n*8); abort(); }
  if (as) { L.symstore++; std::vector<u64> c; guardUninit(mkCmp(EQ,as,mkC(addr,64)),"address"); if (!cands(as,addr,c,20)) { concretise(as,addr,64); as=0; } else {
      checkCands(as,c,addr,n,"write"); if (c.size()==1) as=0; else {
        std::map<u64,u32> nb; // byte-wise
        for (u64 a: c) { u32 e=mkCmp(EQ,as,mkC(a,64)); for (u32 i=0;i<n;i++) { u64 x=a+i; u32 old; auto it=nb.find(x); if (it!=nb.end()) old=it->second; else { u32 s=*SH(x); old=s?s:mkC(*(u8*)x,8); } nb[x]=mkITE(e,mkExtract(ve,i*8,8),old); } }
        for (auto&kv:nb) { // shadows hold expressions; a constant equal to memory is 0
          setsh(kv.first, isC(kv.second)?0:kv.second); }
        return; } } }
  if (addr>=LIMIT) return;
  if (poisoned(addr,n)) { char b[100]; snprintf(b,sizeof b,"invalid write of %u bytes (out of bounds or freed)",n); viol_now("memory",b); }
  for (u32 i=0;i<n;i++) setsh(addr+i, vs? mkExtract(ve,i*8,8):0); }
void sxrt_concmem(u64 a,u64 n){ if (a>=LIMIT) return; for (u64 i=0;i<n;i++) { u32 s=*SH(a+i); if (s==POISON) viol_now("memory","invalid access (out of bounds or freed)"); if (s) concretise(s,*(u8*)(a+i),8); if (s) setsh(a+i,0);} }
static bool anyPoison(u64 a,u64 n){ if (a>=LIMIT) return false; u32*s=SH(a); for (u64 i=0;i<n;i++) if (s[i]==POISON) return true; return false; }
static void copymem(u64 d,u64 s,u64 n){ if (!n) return; if (anyPoison(s,n)) viol_now("memory","memcpy/memmove reads out of bounds or freed memory"); if (anyPoison(d,n)) viol_now("memory","memcpy/memmove writes out of bounds or freed memory");
  if (d<LIMIT) { if (s<LIMIT) { u32*ds=SH(d),*ss=SH(s); bool heap=d>=ARENA&&d<STK; if (!heap) for (u64 i=0;i<n;i++) if (ss[i]) dirty.push_back(d+i); memmove(ds,ss,n*4);} else memset(SH(d),0,n*4); }
  memmove((void*)d,(void*)s,n); }
void sxrt_memmove(u64 d,u32 ds,u64 s,u32 ss,u64 n,u32 ns){ concretise(ns,n,64); concretise(ds,d,64); concretise(ss,s,64); copymem(d,s,n); }
void sxrt_memcpy(u64 d,u32 ds,u64 s,u32 ss,u64 n,u32 ns){ concretise(ns,n,64); concretise(ds,d,64); concretise(ss,s,64); if (n && d!=s && d<s+n && s<d+n) viol_now("memory","memcpy with overlapping areas"); copymem(d,s,n); }
void sxrt_memset(u64 d,u32 ds,u32 v,u32 vs,u64 n,u32 ns){ if (ns&&N[ns].w!=64) ns=mkZext(ns,64); concretise(ns,n,64); concretise(ds,d,64); if (!n) return; if (anyPoison(d,n)) viol_now("memory","memset writes out of bounds or freed memory");
  if (vs&&N[vs].w!=8) vs=mkExtract(vs,0,8); if (d<LIMIT) { if (vs&&!isC(vs)) for (u64 i=0;i<n;i++) setsh(d+i,vs); else memset(SH(d),0,n*4); } memset((void*)d,v&255,n); }
void sxrt_vastart(u64 va){ u64 reg=*(u64*)(va+16),ov=*(u64*)(va+8); memset(SH(va),0,24*4); memset(SH(reg),0,176*4); long n=(long)__sx_nargs; if (n>0) memset(SH(ov),0,n*8*4); }
void sxrt_byval(u64 d,u64 s,u64 n){ if (d>=LIMIT) return; if (s>=LIMIT||!s) { memset(SH(d),0,n*4); return; } u32*ds=SH(d),*ss=SH(s); for (u64 i=0;i<n;i++) { if (ss[i]&&ss[i]!=POISON) dirty.push_back(d+i); ds[i]=ss[i]==POISON?0:ss[i]; } }
void sxrt_trap(){ viol_now("trap","undefined behaviour trap"); }

// ---- heap -----------------------------------------------------------------------
static bool failHere(){ if (!failarmed) return false; u64 i=allocidx++; if (i>=failmax) return false; if (failinjected) return false;
  u32 v=failvar; // two bytes: lo, hi
  u32 k=mkConcat(raw(VAR,8,0,0,0,v+1),raw(VAR,8,0,0,0,v)); u64 cv=cur[v]|(cur[v+1]<<8);
  u32 e=mkCmp(EQ,k,mkC(i,16)); branchOn(cv==i? e: mkNot(e)); if (cv==i) { failinjected=true; return true; } return false; }
static u64 rawalloc(u64 n){ u64 p=(bump+16+15)&~15ULL; if (p+n+64>ARENA+ARENA_SZ) viol_now("memory","heap arena exhausted (unbounded allocation)"); 
  u32*s=SH(bump); for (u64 a=bump;a<p;a++) *s++=POISON; memset(SH(p),0,n*4); u64 e=p+n, ne=((e+15)&~15ULL)+16; s=SH(e); for (u64 a=e;a<ne;a++) *s++=POISON; *(u64*)(p-8)=n; *(u64*)(p-16)=0x53584d414c4c4f43ULL; bump=ne; return p; }
void *sx_raw_alloc(size_t n){ u64 p=rawalloc(n); *(u64*)(p-16)=0x5358524157ULL; memset((void*)p,0,n); __sx_ret[0]=0; return (void*)p; }
static void fillgarb(u64 p,u64 n){ memset((void*)p,0xBE,n); if (garb && n<=65536) { u32*s=SH(p); for (u64 i=0;i<n;i++) { u32 k=GV+ngarb++; s[i]=raw(VAR,8,0,0,0,k); } 
   // concrete garbage byte is 0xBE: values of garbage variables are never solved for in inputs
 } }
static bool okblk(u64 p,u64*n){ if (p<ARENA+16||p>=bump) return false; if (*(u64*)(p-16)!=0x53584d414c4c4f43ULL) return false; *n=*(u64*)(p-8); return true; }
void *sxl_malloc(size_t n){ concretise(__sx_args[0],n,64); __sx_ret[0]=0; if (failHere()) { __sx_ret[0]=0; return nullptr; } if (n>ARENA_SZ/2) return nullptr; u64 p=rawalloc(n); fillgarb(p,n); live++; __sx_ret[0]=0; return (void*)p; }
void *sxl_calloc(size_t a,size_t b){ concretise(__sx_args[0],a,64); concretise(__sx_args[1],b,64); if (failHere()) { __sx_ret[0]=0; return nullptr; } if ((u128)a*b>ARENA_SZ/2) { __sx_ret[0]=0; return nullptr; } u64 p=rawalloc(a*b); memset((void*)p,0,a*b); live++; __sx_ret[0]=0; return (void*)p; }
static void dofree(u64 p){ u64 n; if (!p) return; if (p>=ARENA&&p<bump&&*(u64*)(p-16)==0x5358524157ULL) return; if (!okblk(p,&n)) { if (p>=ARENA+16&&p<bump&&*(u64*)(p-16)==0x5358465245454421ULL) viol_now("memory","double free"); viol_now("memory","free of a pointer not from malloc"); }
  *(u64*)(p-16)=0x5358465245454421ULL; u32*s=SH(p); for (u64 i=0;i<n;i++) s[i]=POISON; memset((void*)p,0xDF,n); live--; }
void sxl_free(void*p){ concretise(__sx_args[0],(u64)p,64); dofree((u64)p); }
void *sxl_realloc(void*q,size_t n){ concretise(__sx_args[0],(u64)q,64); concretise(__sx_args[1],n,64); u64 old=0; __sx_ret[0]=0; 
  if (q && !okblk((u64)q,&old)) { viol_now("memory","realloc of a pointer not from malloc"); }
  if (q && n==0) { dofree((u64)q); __sx_ret[0]=0; return nullptr; }
  if (failHere()) { __sx_ret[0]=0; return nullptr; } if (n>ARENA_SZ/2) { __sx_ret[0]=0; return nullptr; }
  u64 p=rawalloc(n); fillgarb(p,n); if (q) { u64 m=std::min<u64>(old,n); memcpy((void*)p,q,m); memcpy(SH(p),SH((u64)q),m*4); dofree((u64)q); } live++; __sx_ret[0]=0; return (void*)p; }
long sx_live_allocs(void){ __sx_ret[0]=0; return live; }

// ---- harness API -------------------------------------------------------------------
static u32 newvar(const char*name,u8 dflt){ u32 k=nvars++; if (k>=cur.size()) { cur.resize(k+1,0); cur[k]=dflt; } if (k>=dom.size()) dom.resize(k+1,FULL); if (k>=vname.size()) vname.resize(k+1); vname[k]=name; if (k>G->maxinputs) G->maxinputs=k; return k; }
unsigned char sx_byte(const char*name){ u32 k=newvar(name,0); __sx_ret[0]=raw(VAR,8,0,0,0,k); return cur[k]; }
static u32 restricted(const char*name,unsigned lo,unsigned hi){ u32 k=newvar(name,lo); u32 v=raw(VAR,8,0,0,0,k); if (cur[k]<lo||cur[k]>hi) cur[k]=lo; M256 m{0,0,0,0}; for (unsigned i=lo;i<=hi;i++) m[i>>6]|=1ULL<<(i&63); dom[k]=m; return v; }
unsigned sx_range(const char*name,unsigned lo,unsigned hi){ u32 v=restricted(name,lo,hi); u64 c=cur[nvars-1]; __sx_ret[0]= lo==hi?0: mkZext(v,32); return c; }
unsigned sx_choice(const char*name,unsigned n){ if (n<=1) { __sx_ret[0]=0; return 0; } u32 v=restricted(name,0,n-1); u64 c=cur[nvars-1]; concretise(v,c,8); __sx_ret[0]=0; return c; }
int sx_fork(int v){ concretise(__sx_args[0],(u32)v,32); __sx_ret[0]=0; return v; }
void sx_assume_(int cond){ u32 s=__sx_args[0]; if (s&&isC(s)) s=0; if (!s) { if (!cond) { endrun(END_ASSUME);} return; }
  u32 c=mkNot(mkCmp(EQ,s,mkC(0,32))); if (isC(c)) { if (!cond) endrun(END_ASSUME); return; }
  if (cond) { if (!pcset.count(c)) pcAdd(c); return; }
  checkDiv();
  if (pos>=J.start) { Model m; if (query({c},m)==1) { Job j; j.in=cur; applyModel(j.in,m); j.start=pos; j.phash=phash; pushJob(std::move(j)); } }
  endrun(END_ASSUME); }
void sx_assert_(int cond,const char*msg){ concretise(__sx_args[1],(u64)msg,64); u32 s=__sx_args[0]; if (s&&isC(s)) s=0; L.asserts++;
  if (!s) { if (!cond) viol_now("assert",msg); return; }
  u32 c=mkNot(mkCmp(EQ,s,mkC(0,32))); if (isC(c)) { if (!cond) viol_now("assert",msg); return; }
  L.asserts_sym++; guardUninit(c,"asserted result");
  if (!cond) { violation("assert",msg,cur); 
     endrun(END_VIOL); }
  if (pos>=J.start) { Model m; int r=query({mkNot(c)},m,true); if (r==1) { std::vector<u8> in=cur; applyModel(in,m); violation("assert",msg,in); } }
  if (!pcset.count(c)) pcAdd(c); }
void sx_fail(const char*msg){ viol_now("assert",msg); }
void sx_reach(const char*tag){ concretise(__sx_args[0],(u64)tag,64); static std::unordered_set<std::string> seen; if (!seen.insert(tag).second) return; pthread_mutex_lock(&G->mu); int i; for (i=0;i<G->nreach;i++) if (!strcmp(G->reach[i],tag)) break; if (i==G->nreach&&i<MAXREACH) snprintf(G->reach[G->nreach++],64,"%s",tag); pthread_mutex_unlock(&G->mu); }
long sx_param(const char*name,long d){ concretise(__sx_args[1],d,64); __sx_ret[0]=0; for (auto&p:params) if (p.first==name) return p.second; return d; }
static bool verbose=false;
void sx_log(const char*fmt,const char*s,long v){ if (verbose) { fprintf(stderr,fmt,s,v); fputc('\n',stderr);} }
void sx_arm_alloc_failure(unsigned maxi){ u32 a=newvar("allocfail.lo",0xff),b=newvar("allocfail.hi",0xff); (void)b; failvar=a; failarmed=true; failinjected=false; allocidx=0; failmax=maxi; }
int sx_disarm_alloc_failure(void){ failarmed=false; __sx_ret[0]=0; return failinjected; }
void sx_symbolic_garbage(int on){ garb=on; } void sx_no_uninit_branch(int on){ nouninit=on; }
void sxl___assert_fail(const char*e,const char*f,unsigned l,const char*fn){ char b[400]; const char*s=strrchr(f,'/'); snprintf(b,sizeof b,"assertion failed: %s (%s %s)",e,s?s+1:f,fn); (void)l; viol_now("abort",b); }
void sxl_abort(){ viol_now("abort","abort() called"); }
void sx_exit_hook(int);
static int exit_allowed=0; static int exit_code; static jmp_buf*exit_jb;
void sx_allow_exit(int on){ allowexit=on; }
void sxl_exit(int c){ if (allowexit) endrun(END_OK); viol_now("exit","exit() called by the library"); }
void sx_raw_stop(void){ endrun(END_OK); }
}

// ---- driver ------------------------------------------------------------------------------
static std::vector<char> datasnap;
static void (*entry)(void);
static ucontext_t mainctx,runctx; static int runend;
static void tramp(){ int r=setjmp(runjb); if (r==0) { running=true; memset(__sx_args,0,sizeof __sx_args); entry(); runend=END_OK; } else runend=r-1; running=false; swapcontext(&runctx,&mainctx); }
static void onsig(int sig,siginfo_t*si,void*uc){ 
  if (sig==SIGVTALRM) { if (!running) return; if (insolver) return; 
    violation("hang","no termination within the per-path CPU limit",cur); sigset_t s; sigemptyset(&s); sigaddset(&s,sig); sigprocmask(SIG_UNBLOCK,&s,nullptr); longjmp(runjb,1+END_VIOL); }
  if (!running||insolver) { const char m[]="symx: fatal signal inside the engine\n"; (void)!write(2,m,sizeof m-1); _exit(99); }
  sigset_t s; sigemptyset(&s); sigaddset(&s,sig); sigprocmask(SIG_UNBLOCK,&s,nullptr);
  char b[100]; snprintf(b,sizeof b,"crash: signal %d%s",sig, sig==SIGSEGV? ((u64)si->si_addr<4096?" (null pointer access)":((u64)si->si_addr>=STK-65536&&(u64)si->si_addr<STK+4096)?" (stack overflow)":""):""); violation("crash",b,cur); longjmp(runjb,1+END_VIOL); }
static void resetDag(){ N.clear(); HC.clear(); VS.clear(); VSI.clear(); VSU.clear(); for (auto&p:TTC) delete p.second; TTC.clear(); BTC.clear(); qcache.clear(); Node z{}; N.push_back(z); VS.push_back({}); VSI[{}]=0;
  if (Z) { Z3_solver_dec_ref(Z,ZS); Z3_del_context(Z); Z=nullptr; } ZB.clear(); zinit(); }
static void oneRun(){
  cur=J.in; nvars=0; pos=0; phash=0; dom.clear(); multi.clear(); pcset.clear(); linked.clear(); gdom.clear(); linkedg.clear(); bump=ARENA+64; live=0; allocidx=0; failarmed=failinjected=false; allowexit=false; garb=nouninit=false; ngarb=0;
  for (u64 a: dirty) *SH(a)=0; dirty.clear();
  if (!datasnap.empty()) memcpy(__start_sxdata,datasnap.data(),datasnap.size());
  if (N.size()>2000000) { G->nodes+=N.size(); resetDag(); }
  getcontext(&runctx); runctx.uc_stack.ss_sp=(void*)STK; runctx.uc_stack.ss_size=STK_SZ; runctx.uc_link=&mainctx; makecontext(&runctx,tramp,0);
  itimerval it{}; it.it_value.tv_sec=run_cpu_limit; it.it_interval.tv_sec=5; setitimer(ITIMER_VIRTUAL,&it,nullptr);
  swapcontext(&mainctx,&runctx);
  flushCnt(); G->runs++; if (runend==END_OK) { u64 p=G->paths++; (void)p; 
     if (G->nsamp<8 && (p<4 || (p&(p-1))==0)) { pthread_mutex_lock(&G->mu); if (G->nsamp<8) { int i=G->nsamp++; G->sampn[i]=std::min<int>(nvars,256); memcpy(G->samp[i],cur.data(),G->sampn[i]); } pthread_mutex_unlock(&G->mu);} }
  else if (runend==END_ASSUME) G->assume_killed++;
  if (pos>G->maxdepth) G->maxdepth=pos;
  if (runend==END_OK && pos<J.start) G->divergence++;
}
static size_t enc(const Job&j,u8*b){ size_t n=4+8+2+j.excl.size()*8+2+j.in.size(); if (n>SLOT) return 0; u8*p=b; memcpy(p,&j.start,4);p+=4; memcpy(p,&j.phash,8);p+=8; uint16_t k=j.excl.size(); memcpy(p,&k,2);p+=2; memcpy(p,j.excl.data(),k*8);p+=k*8; k=j.in.size(); memcpy(p,&k,2);p+=2; memcpy(p,j.in.data(),k);p+=k; return p-b; }
static void decj(Job&j,const u8*p){ memcpy(&j.start,p,4);p+=4; memcpy(&j.phash,p,8);p+=8; uint16_t k; memcpy(&k,p,2);p+=2; j.excl.resize(k); memcpy(j.excl.data(),p,k*8);p+=k*8; memcpy(&k,p,2);p+=2; j.in.assign(p,p+k); }
static void share(){ if (G->ringn>=32||local.size()<2) return; pthread_mutex_lock(&G->mu); size_t give=std::min<size_t>(local.size()/2,32); size_t i=0; 
  while (i<give && G->ringn<RINGN) { size_t n=enc(local[i],G->slot[G->ringn]); if (!n) break; G->slen[G->ringn]=n; G->ringn++; i++; } local.erase(local.begin(),local.begin()+i); pthread_mutex_unlock(&G->mu); }
static bool take(Job&j){ pthread_mutex_lock(&G->mu); bool ok=false; if (G->ringn>0) { int i=--G->ringn; decj(j,G->slot[i]); ok=true; } pthread_mutex_unlock(&G->mu); return ok; }
static void worker(int w){ wid=w; resetDag(); stack_t ss{}; ss.ss_size=1<<17; ss.ss_sp=malloc(ss.ss_size); sigaltstack(&ss,nullptr);
  struct sigaction sa{}; sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for (int s: {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGVTALRM}) sigaction(s,&sa,nullptr);
  struct rlimit rl{6ULL<<30,6ULL<<30}; (void)rl;
  bool idle=false;
  for (;;) {
    if (G->stop) break; if (now()>tlimit) { G->incomplete=2; G->stop=1; break; }
    if (!local.empty()) { J=std::move(local.back()); local.pop_back(); }
    else { if (!idle) { idle=true; G->idle++; } Job j; bool got=false;
      pthread_mutex_lock(&G->mu); if (G->ringn>0) { int i=--G->ringn; decj(j,G->slot[i]); got=true; G->idle--; idle=false; } pthread_mutex_unlock(&G->mu);
      if (!got) { if (G->idle==G->nworkers && G->ringn==0) break; usleep(300); continue; } J=j; }
    oneRun(); share();
  }
  if (!local.empty()) { G->dropped+=local.size(); }
  G->nodes+=N.size();
  pthread_mutex_lock(&G->mu); size_t i=0; for (fnrec*f=__start_sxfn; f<__stop_sxfn; f++,i++) if (i<MAXFN&&f->hit) G->fnhit[i]=1; pthread_mutex_unlock(&G->mu);
}
static void jstr(FILE*f,const char*s){ fputc('"',f); for (;*s;s++) { if (*s=='"'||*s=='\\') fprintf(f,"\\%c",*s); else if ((u8)*s<32||(u8)*s>126) fprintf(f,"\\u%04x",(u8)*s); else fputc(*s,f);} fputc('"',f); }
int main(int argc,char**argv){
  clock_gettime(CLOCK_MONOTONIC,&t0); int nw=8; const char*out="/dev/stdout"; const char*hname="main"; 
  for (int i=1;i<argc;i++) { std::string a=argv[i]; if (a=="-j") nw=atoi(argv[++i]); else if (a=="-t") tlimit=atof(argv[++i]); else if (a=="-o") out=argv[++i]; else if (a=="-V") maxviol=atoi(argv[++i]); else if (a=="-v") verbose=true; else if (a=="-T") run_cpu_limit=atoi(argv[++i]); else if (a=="-R") rlimit=strtoull(argv[++i],0,10); else if (a.find('=')!=std::string::npos) { size_t e=a.find('='); params.push_back({a.substr(0,e),atol(a.c_str()+e+1)}); } else hname=argv[i]; }
  if (mmap((void*)SHB,LIMIT*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED) { perror("mmap shadow"); return 2; }
  madvise((void*)SHB,LIMIT*4,MADV_NOHUGEPAGE);
  if (mmap((void*)ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED) { perror("mmap arena"); return 2; }
  if (mmap((void*)STK,STK_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED) { perror("mmap stack"); return 2; }
  G=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma,PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&ma,PTHREAD_MUTEX_ROBUST); pthread_mutex_init(&G->mu,&ma);
  { std::string s=std::string("h_")+hname; entry=(void(*)())dlsym(RTLD_DEFAULT,s.c_str()); if (!entry) { fprintf(stderr,"symx: no harness %s\n",s.c_str()); return 2; } }
  { FILE*f=fopen("/proc/self/maps","r"); char l[512]; exeLo=~0ULL; while (fgets(l,sizeof l,f)) { u64 a,b; if (sscanf(l,"%lx-%lx",&a,&b)==2 && a<0x40000000ULL && !strstr(l,"[heap]")) { exeLo=std::min(exeLo,a); exeHi=std::max(exeHi,b);} } fclose(f); }
  if (__start_sxdata) datasnap.assign(__start_sxdata,__stop_sxdata);
  G->nworkers=nw; Job j0; local.push_back(j0);
  std::vector<pid_t> pids; int bad=0;
  if (nw==1) worker(0);
  else for (int w=0;w<nw;w++) { pid_t p=fork(); if (p==0) { if (w) local.clear(); worker(w); _exit(0); } pids.push_back(p); }
  for (pid_t p: pids) { int st; waitpid(p,&st,0); if (!WIFEXITED(st)||WEXITSTATUS(st)) { bad++; fprintf(stderr,"symx: worker ended abnormally (status %x)\n",st); G->stop=1; } }
  FILE*f=fopen(out,"w"); if (!f) { perror(out); return 2; }
  bool complete=!bad && !G->incomplete && !G->dropped && G->ringn==0 && !G->divergence;
  fprintf(f,"{\"harness\":\"%s\",\"complete\":%s,\"workers_failed\":%d,\"incomplete\":%lu,\"dropped\":%lu,\"divergence\":%lu,\n",hname,complete?"true":"false",bad,(u64)G->incomplete,(u64)(G->dropped+G->ringn),(u64)G->divergence);
  fprintf(f,"\"params\":{"); for (size_t i=0;i<params.size();i++) fprintf(f,"%s\"%s\":%ld",i?",":"",params[i].first.c_str(),params[i].second); fprintf(f,"},\n");
  fprintf(f,"\"runs\":%lu,\"paths\":%lu,\"assume_killed\":%lu,\"symbolic_branches\":%lu,\"z3_queries\":%lu,\"z3_sat\":%lu,\"z3_unsat\":%lu,\"z3_unknown\":%lu,\"table_queries\":%lu,\"table_sat\":%lu,\"cached_queries\":%lu,\"asserts\":%lu,\"symbolic_asserts\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"concretisations\":%lu,\"symbolic_loads\":%lu,\"symbolic_stores\":%lu,\"max_depth\":%lu,\"inputs\":%lu,\"nodes\":%lu,\"wall_s\":%.2f,\n",(u64)G->runs,(u64)G->paths,(u64)G->assume_killed,(u64)G->br_sym,(u64)G->z3q,(u64)G->z3sat,(u64)G->z3unsat,(u64)G->z3unk,(u64)G->tabq,(u64)G->tabsat,(u64)G->cacheq,(u64)G->asserts,(u64)G->asserts_sym,G->z3ns*1e-9,G->maxq_ns*1e-9,(u64)G->conc,(u64)G->symload,(u64)G->symstore,(u64)G->maxdepth,(u64)G->maxinputs+1,(u64)G->nodes,now());
  fprintf(f,"\"reach\":["); for (int i=0;i<G->nreach;i++) { if (i) fputc(',',f); jstr(f,G->reach[i]); } fprintf(f,"],\n\"functions\":[");
  bool first=true; size_t i=0; std::set<std::string> seen; for (fnrec*r=__start_sxfn; r<__stop_sxfn; r++,i++) if (i<MAXFN&&(G->fnhit[i]||r->hit)&&seen.insert(r->name).second) { if (!first) fputc(',',f); first=false; jstr(f,r->name); }
  fprintf(f,"],\n\"samples\":["); for (int k=0;k<G->nsamp;k++) { if (k) fputc(',',f); fputc('[',f); for (int q=0;q<G->sampn[k];q++) fprintf(f,"%s%d",q?",":"",G->samp[k][q]); fputc(']',f);} 
  fprintf(f,"],\n\"violations_total\":%lu,\"violations\":[",G->nviol_total); for (int k=0;k<G->nviol;k++) { Viol&v=G->viol[k]; if (k) fputc(',',f); fprintf(f,"{\"kind\":"); jstr(f,v.kind); fprintf(f,",\"msg\":"); jstr(f,v.msg); fprintf(f,",\"input\":["); for (int q=0;q<v.n;q++) fprintf(f,"%s%d",q?",":"",v.in[q]); fprintf(f,"]}"); }
  fprintf(f,"]}\n"); fclose(f); return bad?3:0; }
