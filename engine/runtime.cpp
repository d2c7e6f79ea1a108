// Symbolic execution runtime: expression DAG, shadow memory, path exploration, z3 queries.
#include <malloc.h>
#include "sym.h"
#include <z3.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <stdexcept>
#include <chrono>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef unsigned char u8;

enum OpCode { OP_ADD=1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR,
  OP_SHL, OP_LSHR, OP_ASHR, OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
  OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_USUBSAT, OP_UADDSAT, OP_UADDO, OP_USUBO, OP_UMULO, OP_SADDO, OP_SSUBO, OP_SMULO,
  OP_TRUNC, OP_ZEXT, OP_SEXT, OP_BSWAP, OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_ABS, OP_FSHL, OP_FSHR,
  // internal
  OP_CONST=64, OP_VAR, OP_EXTRACT, OP_CONCAT, OP_ITE, OP_SET, OP_TAB };

static const unsigned MAXV=192;
struct Mask { u64 m[3]; bool operator==(const Mask& o) const { return m[0]==o.m[0]&&m[1]==o.m[1]&&m[2]==o.m[2]; } bool meets(const Mask& o) const { return (m[0]&o.m[0])|(m[1]&o.m[1])|(m[2]&o.m[2]); } bool sub(const Mask& o) const { return !((m[0]&~o.m[0])|(m[1]&~o.m[1])|(m[2]&~o.m[2])); } void add(const Mask& o) { m[0]|=o.m[0]; m[1]|=o.m[1]; m[2]|=o.m[2]; } bool any() const { return m[0]|m[1]|m[2]; }
  int low() const { for (int i=0;i<3;++i) if (m[i]) return i*64+__builtin_ctzll(m[i]); return 0; } int high() const { for (int i=2;i>=0;--i) if (m[i]) return i*64+63-__builtin_clzll(m[i]); return 0; } };
struct Expr { u8 op, w; u8 nk; bool cl; /* const-leaf ite */ u32 id; u32 size; Expr* k[3]; u64 c; Mask v; u64 kz, mx; u64 val; u64 run; Z3_ast z; };

static u64 wm(unsigned w) { return w>=64? ~0ull : (1ull<<w)-1; }
static i64 sx(u64 v, unsigned w) { if (w>=64) return (i64)v; u64 s=1ull<<(w-1); return (i64)((v^s)-s); }

// ---------- expressions
struct EKey { u8 op,w; Expr *a,*b,*c; u64 k; bool operator==(const EKey& o) const { return op==o.op&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&k==o.k; } };
struct EHash { size_t operator()(const EKey& e) const { u64 h=e.op*131+e.w; auto mix=[&](u64 x){ h^=x; h*=0x9E3779B97F4A7C15ull; h^=h>>29; }; mix((u64)e.a); mix((u64)e.b); mix((u64)e.c); mix(e.k); return h; } };
static std::unordered_map<EKey,Expr*,EHash> Table;
static u32 NextId=1; static u64 CurRun=1;
static std::vector<u8> Input; // current assignment
static const std::vector<u8>* EvalIn=&Input;
static Expr* Vars[MAXV];

// function of one input byte given by its values
static std::vector<std::vector<u64>> Tabs; static std::map<std::vector<u64>,u32> TabIdx;
static u64 tabOr(u64 k) { u64 r=0; for (u64 v: Tabs[k]) r|=v; return r; }
static u64 tabMax(u64 k) { u64 r=0; for (u64 v: Tabs[k]) r=std::max(r,v); return r; }
static inline bool isC_(Expr* e) { return e->op==OP_CONST; }
static Expr* raw(u8 op, u8 w, Expr* a, Expr* b, Expr* c, u64 k) {
  EKey key{op,w,a,b,c,k}; auto it=Table.find(key); if (it!=Table.end()) return it->second;
  Expr* e=(Expr*)calloc(1,sizeof(Expr)); e->op=op; e->w=w; e->k[0]=a; e->k[1]=b; e->k[2]=c; e->c=k; e->id=NextId++; e->nk= c?3:b?2:a?1:0; e->size=1;
  for (int i=0;i<e->nk;++i) { e->v.add(e->k[i]->v); e->size+=e->k[i]->size; if (e->size>1000000) e->size=1000000; }
  if (op==OP_VAR) { e->v.m[k/64]|=1ull<<(k%64); }
  u64 m=wm(w), kz=~m;
  switch (op) {
    case OP_CONST: kz=~k; break;
    case OP_AND: kz=a->kz|b->kz; break;
    case OP_OR: case OP_XOR: kz=a->kz&b->kz; break;
    case OP_ZEXT: kz=a->kz|~wm(a->w); break;
    case OP_CONCAT: kz=((a->kz)<<b->w | (wm(b->w)&b->kz)) ; if (b->w>=64) kz=b->kz; break;
    case OP_EXTRACT: kz=a->kz>>k; break;
    case OP_ITE: kz=b->kz&c->kz; break;
    case OP_SHL: if (b->op==OP_CONST && b->c<64) kz=(a->kz<<b->c)|((1ull<<b->c)-1); break;
    case OP_LSHR: if (b->op==OP_CONST && b->c<64) kz=((a->kz|~m)>>b->c)|~(m>>b->c); else { u64 nz=~(a->kz|~m); int hb= nz? 64-__builtin_clzll(nz):0; kz= hb>=64?0:~((1ull<<hb)-1); } break;
    case OP_ADD: { u64 x=~(a->kz|~m), y=~(b->kz|~m); int tz=std::min(x?__builtin_ctzll(x):64,y?__builtin_ctzll(y):64); int hb=std::max(x?64-__builtin_clzll(x):0,y?64-__builtin_clzll(y):0)+1; kz= (hb>=64?0:~((1ull<<hb)-1)) | (tz>=64? ~0ull : (1ull<<tz)-1); if (!(x&y)) kz|=~(x|y); break; }
    case OP_MUL: { u64 x=~(a->kz|~m), y=~(b->kz|~m); int tz=(x?__builtin_ctzll(x):64)+(y?__builtin_ctzll(y):64); int hb=(x?64-__builtin_clzll(x):0)+(y?64-__builtin_clzll(y):0); kz=(hb>=64?0:~((1ull<<hb)-1))|(tz>=64?~0ull:(1ull<<tz)-1); break; }
    case OP_UREM: if (b->op==OP_CONST && b->c) { int hb=64-__builtin_clzll(b->c); kz= hb>=64?0:~((1ull<<hb)-1); } break;
    case OP_UDIV: { u64 x=~(a->kz|~m); int hb=x?64-__builtin_clzll(x):0; if (b->op==OP_CONST&&b->c) kz=hb>=64?0:~((1ull<<hb)-1); break; }
    case OP_TAB: kz=~m; kz|=~tabOr(k); break;
    default: break;
  }
  e->kz=kz|~m; u64 mx=m;
  switch (op) {
    case OP_CONST: mx=k; break; case OP_AND: mx=std::min(a->mx,b->mx); break; case OP_ZEXT: mx=a->mx; break; case OP_ITE: mx=std::max(b->mx,c->mx); break; case OP_TAB: mx=tabMax(k); break;
    case OP_CONCAT: if (b->w<64) mx=(a->mx<<b->w)|wm(b->w); break; case OP_EXTRACT: if (a->mx<=wm(w+k>=64?64:w+k)) mx=a->mx>>k; break;
    case OP_SHL: if (isC_(b) && b->c<64 && a->mx<=(m>>b->c)) mx=a->mx<<b->c; break; case OP_LSHR: if (isC_(b)&&b->c<64) mx=a->mx>>b->c; else mx=a->mx; break;
    case OP_ADD: if (a->mx<=m-b->mx) mx=a->mx+b->mx; break; case OP_MUL: if (!a->mx || b->mx<=m/a->mx) mx=a->mx*b->mx; break; case OP_UDIV: if (isC_(b)&&b->c) mx=a->mx/b->c; break; case OP_UREM: if (isC_(b)&&b->c) mx=std::min(a->mx,b->c-1); break;
  }
  e->mx=std::min(mx,~e->kz);
  e->cl = op==OP_TAB || op==OP_ITE && (b->op==OP_CONST||b->cl) && (c->op==OP_CONST||c->cl);
  Table.emplace(key,e); return e;
}
static Expr* K(unsigned w, u64 v) { return raw(OP_CONST,w,0,0,0,v&wm(w)); }
static inline bool isC(Expr* e) { return e->op==OP_CONST; }
static Expr* var(unsigned i) { if (i>=MAXV) { fprintf(stderr,"too many symbolic bytes\n"); _exit(3); } if (!Vars[i]) Vars[i]=raw(OP_VAR,8,0,0,0,i); return Vars[i]; }

static u64 ev2(unsigned op, unsigned w, u64 a, u64 b) {
  u64 m=wm(w); a&=m; b&=m;
  switch (op) {
    case OP_ADD: return (a+b)&m; case OP_SUB: return (a-b)&m; case OP_MUL: return (a*b)&m;
    case OP_UDIV: return b? a/b : m; case OP_UREM: return b? a%b : a;
    case OP_SDIV: if (!b) return sx(a,w)<0?1:m; if (b==m) return (0-a)&m; return (u64)(sx(a,w)/sx(b,w))&m;
    case OP_SREM: if (!b) return a; if (b==m) return 0; return (u64)(sx(a,w)%sx(b,w))&m;
    case OP_AND: return a&b; case OP_OR: return a|b; case OP_XOR: return a^b;
    case OP_SHL: return b>=w?0:(a<<b)&m; case OP_LSHR: return b>=w?0:a>>b; case OP_ASHR: return (u64)(sx(a,w)>>(b>=w?w-1:b))&m;
    case OP_EQ: return a==b; case OP_NE: return a!=b; case OP_ULT: return a<b; case OP_ULE: return a<=b; case OP_UGT: return a>b; case OP_UGE: return a>=b;
    case OP_SLT: return sx(a,w)<sx(b,w); case OP_SLE: return sx(a,w)<=sx(b,w); case OP_SGT: return sx(a,w)>sx(b,w); case OP_SGE: return sx(a,w)>=sx(b,w);
  }
  fprintf(stderr,"ev2 op %u\n",op); _exit(3);
}
// membership of one input byte in a set of values: canonical form of every 1-bit function of a single byte
struct TT { u64 w[4]; bool operator<(const TT& o) const { return memcmp(w,o.w,sizeof w)<0; } };
static std::vector<TT> TTs; static std::map<TT,u32> TTIdx;
static u64 ev(Expr* e, u64 run) {
  if (e->op==OP_CONST) return e->c;
  if (e->run==run) return e->val;
  u64 r;
  switch (e->op) {
    case OP_VAR: r= e->c<EvalIn->size()? (*EvalIn)[e->c]:0; break;
    case OP_EXTRACT: r=(ev(e->k[0],run)>>e->c)&wm(e->w); break;
    case OP_CONCAT: r=(ev(e->k[0],run)<<e->k[1]->w)|ev(e->k[1],run); break;
    case OP_ZEXT: r=ev(e->k[0],run); break;
    case OP_SEXT: r=(u64)sx(ev(e->k[0],run),e->k[0]->w)&wm(e->w); break;
    case OP_ITE: r=ev(ev(e->k[0],run)?e->k[1]:e->k[2],run); break;
    case OP_TAB: r=Tabs[e->c][ev(e->k[0],run)&255]; break;
    case OP_SET: { u64 x=ev(e->k[0],run); r=TTs[e->c].w[x>>6]>>(x&63)&1; break; }
    default: r=ev2(e->op,e->k[0]->w,ev(e->k[0],run),ev(e->k[1],run));
  }
  e->val=r; e->run=run; return r;
}
static Expr* mk(unsigned op, Expr* a, Expr* b);
static Expr* setE(Expr* v, const TT& t) {
  if (!(t.w[0]|t.w[1]|t.w[2]|t.w[3])) return K(1,0);
  if (!~(t.w[0]&t.w[1]&t.w[2]&t.w[3])) return K(1,1);
  auto it=TTIdx.find(t); if (it==TTIdx.end()) { it=TTIdx.emplace(t,(u32)TTs.size()).first; TTs.push_back(t); }
  return raw(OP_SET,1,v,0,0,it->second);
}
static u64 CanonRun=1ull<<50;
static Expr* tabE(Expr* v, unsigned w, const std::vector<u64>& t) {
  if (w==1) { TT x{}; for (int i=0;i<256;++i) if (t[i]) x.w[i>>6]|=1ull<<(i&63); return setE(v,x); }
  bool same=true; for (u64 x: t) if (x!=t[0]) same=false; if (same) return K(w,t[0]);
  auto it=TabIdx.find(t); if (it==TabIdx.end()) { it=TabIdx.emplace(t,(u32)Tabs.size()).first; Tabs.push_back(t); }
  return raw(OP_TAB,w,v,0,0,it->second);
}
static inline bool oneVar(Expr* e) { return __builtin_popcountll(e->v.m[0])+__builtin_popcountll(e->v.m[1])+__builtin_popcountll(e->v.m[2])==1; }
// canonical form of 1-bit functions of a single byte, and of table-like wider ones
static Expr* canon(Expr* e) {
  if (e->op==OP_SET || e->op==OP_CONST || e->op==OP_TAB || e->op==OP_VAR || !oneVar(e)) return e;
  if (e->w!=1) { bool t=e->op==OP_ITE; for (int i=0;i<e->nk;++i) { u8 o=e->k[i]->op; if (o==OP_TAB||o==OP_ITE||o==OP_SET) t=true; } if (!t) return e; }
  static std::unordered_map<Expr*,Expr*> memo; auto it=memo.find(e); if (it!=memo.end()) return it->second;
  unsigned i=e->v.low(); static std::vector<u8> in(MAXV); const std::vector<u8>* old=EvalIn; EvalIn=&in; std::vector<u64> t(256);
  for (unsigned x=0;x<256;++x) { in[i]=x; ++CanonRun; t[x]=ev(e,CanonRun); }
  EvalIn=old; return memo[e]=tabE(var(i),e->w,t);
}

static Expr* ite(Expr* c, Expr* a, Expr* b);
static Expr* extract(Expr* a, unsigned lo, unsigned w);
static Expr* concat(Expr* hi, Expr* lo);
static Expr* zext(Expr* a, unsigned w);
static Expr* NotE(Expr* a) { return mk(OP_XOR,a,K(1,1)); }
static bool isNot(Expr* a) { return a->op==OP_XOR && a->w==1 && isC(a->k[1]); }
static std::unordered_map<EKey,Expr*,EHash> TabMemo;
template<class G> static Expr* mapLeaves(Expr* e, G g, std::unordered_map<Expr*,Expr*>& memo) {
  if (isC(e)) return g(e);
  auto it=memo.find(e); if (it!=memo.end()) return it->second;
  if (e->op==OP_TAB) {
    const std::vector<u64> t=Tabs[e->c]; std::map<u64,Expr*> r; bool allC=true; unsigned w=0; for (u64 v: t) if (!r.count(v)) { Expr* x=g(K(e->w,v)); r[v]=x; w=x->w; if (!isC(x)) allC=false; }
    Expr* q;
    if (allC) { std::vector<u64> n(256); for (int i=0;i<256;++i) n[i]=r[t[i]]->c; q=tabE(e->k[0],w,n); }
    else { q=nullptr; for (auto& x: r) { if (!q) { q=x.second; continue; } TT y{}; for (int i=0;i<256;++i) if (t[i]==x.first) y.w[i>>6]|=1ull<<(i&63); q=ite(setE(e->k[0],y),x.second,q); } }
    memo[e]=q; return q;
  }
  Expr* r=ite(e->k[0],mapLeaves(e->k[1],g,memo),mapLeaves(e->k[2],g,memo)); memo[e]=r; return r;
}
static Expr* sext0(Expr* a, unsigned w);
static Expr* sext(Expr* a, unsigned w) {
  if (a->op==OP_TAB) { Expr*& r=TabMemo[EKey{OP_SEXT,(u8)w,a,0,0,0}]; if (!r) r=0; if (Expr* q=r) return q; Expr* q=sext0(a,w); return TabMemo[EKey{OP_SEXT,(u8)w,a,0,0,0}]=q; }
  return sext0(a,w);
}
static Expr* sext0(Expr* a, unsigned w) {
  if (a->w==w) return a; if (isC(a)) return K(w,(u64)sx(a->c,a->w));
  if (a->kz>>(a->w-1)&1) return zext(a,w);
  if (a->cl) { std::unordered_map<Expr*,Expr*> m; return mapLeaves(a,[&](Expr* x){return K(w,(u64)sx(x->c,x->w));},m); }
  if (a->op==OP_SEXT) return sext(a->k[0],w);
  return canon(raw(OP_SEXT,w,a,0,0,0));
}
static Expr* zext0(Expr* a, unsigned w);
static Expr* zext(Expr* a, unsigned w) {
  if (a->op==OP_TAB) { Expr*& r=TabMemo[EKey{OP_ZEXT,(u8)w,a,0,0,0}]; if (!r) r=0; if (Expr* q=r) return q; Expr* q=zext0(a,w); return TabMemo[EKey{OP_ZEXT,(u8)w,a,0,0,0}]=q; }
  return zext0(a,w);
}
static Expr* zext0(Expr* a, unsigned w) {
  if (a->w==w) return a; if (isC(a)) return K(w,a->c);
  if (a->op==OP_ZEXT) return zext(a->k[0],w);
  if (a->cl) { std::unordered_map<Expr*,Expr*> m; return mapLeaves(a,[&](Expr* x){return K(w,x->c);},m); }
  return canon(raw(OP_ZEXT,w,a,0,0,0));
}
static Expr* extract0(Expr* a, unsigned lo, unsigned w);
static Expr* extract(Expr* a, unsigned lo, unsigned w) {
  if (a->op==OP_TAB) { EKey k{OP_EXTRACT,(u8)w,a,0,0,lo}; auto it=TabMemo.find(k); if (it!=TabMemo.end()) return it->second; Expr* q=extract0(a,lo,w); return TabMemo[k]=q; }
  return extract0(a,lo,w);
}
static Expr* extract0(Expr* a, unsigned lo, unsigned w) {
  if (lo==0 && w==a->w) return a;
  if (isC(a)) return K(w,a->c>>lo);
  if (((a->kz>>lo)&wm(w))==wm(w)) return K(w,0);
  switch (a->op) {
    case OP_EXTRACT: return extract(a->k[0],a->c+lo,w);
    case OP_ZEXT: { unsigned iw=a->k[0]->w; if (lo>=iw) return K(w,0); if (lo+w<=iw) return extract(a->k[0],lo,w); return zext(extract(a->k[0],lo,iw-lo),w); }
    case OP_SEXT: { unsigned iw=a->k[0]->w; if (lo+w<=iw) return extract(a->k[0],lo,w); break; }
    case OP_CONCAT: { unsigned lw=a->k[1]->w; if (lo>=lw) return extract(a->k[0],lo-lw,w); if (lo+w<=lw) return extract(a->k[1],lo,w); return concat(extract(a->k[0],0,lo+w-lw),extract(a->k[1],lo,lw-lo)); }
    case OP_AND: case OP_OR: case OP_XOR: return mk(a->op,extract(a->k[0],lo,w),extract(a->k[1],lo,w));
    case OP_ADD: case OP_SUB: case OP_MUL: if (lo==0) return mk(a->op,extract(a->k[0],0,w),extract(a->k[1],0,w)); break;
    case OP_TAB: { std::unordered_map<Expr*,Expr*> m; return mapLeaves(a,[&](Expr* x){return K(w,x->c>>lo);},m); }
    case OP_ITE: if (a->cl) { std::unordered_map<Expr*,Expr*> m; return mapLeaves(a,[&](Expr* x){return K(w,x->c>>lo);},m); }
      if (a->size<200) return ite(a->k[0],extract(a->k[1],lo,w),extract(a->k[2],lo,w)); break;
    case OP_SHL: if (isC(a->k[1])) { unsigned s=a->k[1]->c; if (lo>=s) return extract(a->k[0],lo-s,w); if (lo+w<=s) return K(w,0); } break;
    case OP_LSHR: if (isC(a->k[1])) { unsigned s=a->k[1]->c; if (lo+s+w<=a->w) return extract(a->k[0],lo+s,w); } break;
  }
  return canon(raw(OP_EXTRACT,w,a,0,0,lo));
}
static Expr* concat(Expr* hi, Expr* lo) {
  if (isC(hi)&&isC(lo)) return K(hi->w+lo->w,(hi->c<<lo->w)|lo->c);
  if (isC(hi)&&hi->c==0) return zext(lo,hi->w+lo->w);
  if (hi->op==OP_EXTRACT && lo->op==OP_EXTRACT && hi->k[0]==lo->k[0] && hi->c==lo->c+lo->w) return extract(hi->k[0],lo->c,hi->w+lo->w);
  if (hi->op==OP_EXTRACT && hi->k[0]==lo && hi->c==lo->w) return extract(lo,0,lo->w+hi->w);
  if (lo->op==OP_CONCAT) { Expr* h=concat(hi,lo->k[0]); if (h->op!=OP_CONCAT) return concat(h,lo->k[1]); }
  // zext top: hi = zext(x) ++ lo  => zext(x ++ lo)
  if (hi->op==OP_ZEXT) return zext(concat(hi->k[0],lo),hi->w+lo->w);
  if (hi->cl && isC(lo)) { std::unordered_map<Expr*,Expr*> m; return mapLeaves(hi,[&](Expr* x){return concat(x,lo);},m); }
  if (lo->cl && isC(hi)) { std::unordered_map<Expr*,Expr*> m; return mapLeaves(lo,[&](Expr* x){return concat(hi,x);},m); }
  if (hi->op==OP_ITE && lo->op==OP_ITE && hi->k[0]==lo->k[0]) return ite(hi->k[0],concat(hi->k[1],lo->k[1]),concat(hi->k[2],lo->k[2]));
  return canon(raw(OP_CONCAT,hi->w+lo->w,hi,lo,0,0));
}
static Expr* ite(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c?a:b; if (a==b) return a;
  if (isNot(c)) return ite(c->k[0],b,a);
  if (a->w==1) {
    if (isC(a)&&isC(b)) return a->c? c: NotE(c);
    if (isC(a)) return a->c? mk(OP_OR,c,b): mk(OP_AND,NotE(c),b);
    if (isC(b)) return b->c? mk(OP_OR,NotE(c),a): mk(OP_AND,c,a);
  }
  if (a->op==OP_ITE && a->k[0]==c) a=a->k[1];
  if (b->op==OP_ITE && b->k[0]==c) b=b->k[2];
  if (a==b) return a;
  return canon(raw(OP_ITE,a->w,c,a,b,0));
}
static Expr* mk0(unsigned op, Expr* a, Expr* b);
static Expr* mk1(unsigned op, Expr* a, Expr* b);
static Expr* mk(unsigned op, Expr* a, Expr* b) {
  if (a->op==OP_SET && (op==OP_AND||op==OP_OR||op==OP_XOR)) {
    const TT x=TTs[a->c];
    if (b->op==OP_SET && a->k[0]==b->k[0]) { TT y=TTs[b->c]; for (int i=0;i<4;++i) y.w[i]= op==OP_AND? x.w[i]&y.w[i]: op==OP_OR? x.w[i]|y.w[i]: x.w[i]^y.w[i]; return setE(a->k[0],y); }
    if (op==OP_XOR && isC(b)) { if (!b->c) return a; TT y; for (int i=0;i<4;++i) y.w[i]=~x.w[i]; return setE(a->k[0],y); }
  }
  if ((a->op==OP_TAB && (isC(b)||b->op==OP_TAB)) || (b->op==OP_TAB && isC(a))) { EKey k{(u8)op,0,a,b,0,0}; auto it=TabMemo.find(k); if (it!=TabMemo.end()) return it->second; Expr* q=mk1(op,a,b); return TabMemo[k]=q; }
  return mk1(op,a,b);
}
static Expr* mk1(unsigned op, Expr* a, Expr* b) {
  if (a->op==OP_TAB && b->op==OP_TAB && a->k[0]==b->k[0]) { const std::vector<u64> x=Tabs[a->c], y=Tabs[b->c]; std::vector<u64> t(256); bool c=op>=OP_EQ&&op<=OP_SGE; for (int i=0;i<256;++i) t[i]=ev2(op,a->w,x[i],y[i]); return tabE(a->k[0],c?1:a->w,t); }
  return canon(mk0(op,a,b));
}
static Expr* mk0(unsigned op, Expr* a, Expr* b) {
  unsigned w=a->w; u64 m=wm(w);
  if (a->w!=b->w) { fprintf(stderr,"engine: width mismatch op %u %u %u\n",op,a->w,b->w); _exit(3); }
  switch (op) { // canonical comparisons
    case OP_NE: return NotE(mk(OP_EQ,a,b)); case OP_UGT: return mk(OP_ULT,b,a); case OP_UGE: return NotE(mk(OP_ULT,a,b)); case OP_ULE: return NotE(mk(OP_ULT,b,a));
    case OP_SGT: return mk(OP_SLT,b,a); case OP_SGE: return NotE(mk(OP_SLT,a,b)); case OP_SLE: return NotE(mk(OP_SLT,b,a)); }
  bool cmp= op==OP_EQ||op==OP_ULT||op==OP_SLT;
  if (isC(a)&&isC(b)) return K(cmp?1:w,ev2(op,w,a->c,b->c));
  bool comm= op==OP_ADD||op==OP_MUL||op==OP_AND||op==OP_OR||op==OP_XOR||op==OP_EQ;
  if (comm && isC(a)) std::swap(a,b);
  else if (comm && !isC(b) && a->id>b->id) std::swap(a,b);
  // constant leaves: distribute
  if (a->cl && isC(b) && op!=OP_XOR) { std::unordered_map<Expr*,Expr*> mm; return mapLeaves(a,[&](Expr* x){return mk(op,x,b);},mm); }
  if (b->cl && isC(a)) { std::unordered_map<Expr*,Expr*> mm; return mapLeaves(b,[&](Expr* x){return mk(op,a,x);},mm); }
  if (isC(b)) {
    u64 c=b->c;
    switch (op) {
      case OP_ADD: if (!c) return a; if (a->op==OP_ADD&&isC(a->k[1])) return mk(OP_ADD,a->k[0],K(w,a->k[1]->c+c)); break;
      case OP_SUB: return mk(OP_ADD,a,K(w,0-c));
      case OP_MUL: if (c==1) return a; if (!c) return b; if (!(c&(c-1))) return mk(OP_SHL,a,K(w,__builtin_ctzll(c))); break;
      case OP_UDIV: if (c==1) return a; if (c&&!(c&(c-1))) return mk(OP_LSHR,a,K(w,__builtin_ctzll(c))); break;
      case OP_UREM: if (c&&!(c&(c-1))) return mk(OP_AND,a,K(w,c-1)); break;
      case OP_AND: if (!c) return b; if ((c|a->kz)==~0ull || (c&~a->kz&m)==(~a->kz&m)) return a; if (a->op==OP_AND&&isC(a->k[1])) return mk(OP_AND,a->k[0],K(w,a->k[1]->c&c));
        if (!(c&(c+1))) { unsigned n=64-__builtin_clzll(c); if (n<w) return zext(extract(a,0,n),w); } if ((c&~a->kz)==0) return K(w,0); break;
      case OP_OR: if (!c) return a; if (c==m) return b; break;
      case OP_XOR: if (!c) return a; if (a->op==OP_XOR&&isC(a->k[1])) return mk(OP_XOR,a->k[0],K(w,a->k[1]->c^c)); if (w>1 && a->cl) { std::unordered_map<Expr*,Expr*> mm; return mapLeaves(a,[&](Expr* x){return K(w,x->c^c);},mm); } break;
      case OP_SHL: if (!c) return a; if (c>=w) return K(w,0); if (a->op==OP_SHL&&isC(a->k[1])) return mk(OP_SHL,a->k[0],K(w,a->k[1]->c+c)); break;
      case OP_LSHR: if (!c) return a; if (c>=w) return K(w,0); return zext(extract(a,c,w-c),w);
      case OP_ASHR: if (!c) return a; if (c>=w) c=w-1; return sext(extract(a,c,w-c),w);
      case OP_EQ:
        if (w==1) return c? a: NotE(a);
        if ((c & a->kz & m) || c>a->mx) return K(1,0);
        if (a->op==OP_ZEXT) return mk(OP_EQ,a->k[0],K(a->k[0]->w,c));
        if (a->op==OP_SEXT) { u64 t=c&wm(a->k[0]->w); if (((u64)sx(t,a->k[0]->w)&m)!=c) return K(1,0); return mk(OP_EQ,a->k[0],K(a->k[0]->w,t)); }
        if (a->op==OP_ADD&&isC(a->k[1])) return mk(OP_EQ,a->k[0],K(w,c-a->k[1]->c));
        if (a->op==OP_XOR&&isC(a->k[1])) return mk(OP_EQ,a->k[0],K(w,c^a->k[1]->c));
        if (a->op==OP_CONCAT) return mk(OP_AND,mk(OP_EQ,a->k[0],K(a->k[0]->w,c>>a->k[1]->w)),mk(OP_EQ,a->k[1],K(a->k[1]->w,c)));
        if (a->op==OP_SHL&&isC(a->k[1])) { unsigned s=a->k[1]->c; if (c&((1ull<<s)-1)) return K(1,0); return mk(OP_EQ,extract(a->k[0],0,w-s),K(w-s,c>>s)); }
        if (a->op==OP_ITE && isC(a->k[1])) { if (a->k[1]->c==c) return mk(OP_OR,a->k[0],mk(OP_EQ,a->k[2],b)); return mk(OP_AND,NotE(a->k[0]),mk(OP_EQ,a->k[2],b)); }
        if (a->op==OP_ITE && isC(a->k[2])) { if (a->k[2]->c==c) return mk(OP_OR,NotE(a->k[0]),mk(OP_EQ,a->k[1],b)); return mk(OP_AND,a->k[0],mk(OP_EQ,a->k[1],b)); }
        break;
      case OP_ULT: if (!c) return K(1,0); if (c==1) return mk(OP_EQ,a,K(w,0)); if (a->mx<c) return K(1,1);
        if (a->op==OP_ZEXT) { u64 im=wm(a->k[0]->w); if (c>im) return K(1,1); return mk(OP_ULT,a->k[0],K(a->k[0]->w,c)); } break;
      case OP_SLT: if (a->kz>>(w-1)&1) { if (sx(c,w)<=0) return K(1,0); return mk(OP_ULT,a,b); }
        if (a->op==OP_SEXT) { unsigned iw=a->k[0]->w; i64 s=sx(c,w); i64 lo=-(1ll<<(iw-1)), hi=(1ll<<(iw-1))-1; if (s<=lo) return K(1,0); if (s>hi) return K(1,1); return mk(OP_SLT,a->k[0],K(iw,(u64)s)); }
        break;
    }
  } else if (isC(a)) {
    u64 c=a->c;
    switch (op) {
      case OP_SHL: case OP_LSHR: if (!c) return a; break;
      case OP_ULT: if (c>=b->mx) return K(1,0); if (c==0) return NotE(mk(OP_EQ,b,K(w,0))); if (b->op==OP_ZEXT) { u64 im=wm(b->k[0]->w); if (c>=im) return K(1,0); return mk(OP_ULT,K(b->k[0]->w,c),b->k[0]); } break;
      case OP_SLT: if (b->kz>>(w-1)&1) { if (sx(c,w)<0) return K(1,1); return mk(OP_ULT,a,b); }
        if (b->op==OP_SEXT) { unsigned iw=b->k[0]->w; i64 s=sx(c,w); i64 lo=-(1ll<<(iw-1)), hi=(1ll<<(iw-1))-1; if (s<lo) return K(1,1); if (s>=hi) return K(1,0); return mk(OP_SLT,K(iw,(u64)s),b->k[0]); } break;
      case OP_SUB: break;
    }
  }
  if (a==b) switch (op) { case OP_SUB: case OP_XOR: return K(w,0); case OP_AND: case OP_OR: return a; case OP_EQ: return K(1,1); case OP_ULT: case OP_SLT: return K(1,0); }
  if (w==1) {
    if (op==OP_AND && (a==NotE(b))) return K(1,0);
    if (op==OP_OR && (a==NotE(b))) return K(1,1);
    if (op==OP_EQ) return NotE(mk(OP_XOR,a,b));
    if (op==OP_ADD||op==OP_SUB) return mk(OP_XOR,a,b);
    if (op==OP_MUL) return mk(OP_AND,a,b);
    if (op==OP_ULT) return mk(OP_AND,NotE(a),b);
    if (op==OP_XOR && !isC(b)) { if (isNot(a)&&isNot(b)) return mk(OP_XOR,a->k[0],b->k[0]); }
  }
  if (op==OP_SUB && b->op==OP_ADD && isC(b->k[1])) return mk(OP_ADD,mk(OP_SUB,a,b->k[0]),K(w,0-b->k[1]->c));
  if (op==OP_SUB && a->op==OP_ADD && isC(a->k[1])) return mk(OP_ADD,mk(OP_SUB,a->k[0],b),K(w,a->k[1]->c));
  if (op==OP_ADD && a->op==OP_ADD && isC(a->k[1])) return mk(OP_ADD,mk(OP_ADD,a->k[0],b),a->k[1]);
  if (op==OP_ADD && b->op==OP_ADD && isC(b->k[1])) return mk(OP_ADD,mk(OP_ADD,a,b->k[0]),b->k[1]);
  if (op==OP_OR) { // or of disjoint shifted pieces => concat:  (x<<n)|zext(y)
    for (int t=0;t<2;++t) { Expr *x=t?b:a,*y=t?a:b; if (x->op==OP_SHL && isC(x->k[1])) { unsigned s=x->k[1]->c; u64 low=(1ull<<s)-1; if ((~y->kz & m & ~low)==0) return concat(extract(x->k[0],0,w-s),extract(y,0,s)); } }
  }
  if ((op==OP_ULT||op==OP_EQ||op==OP_AND||op==OP_OR||op==OP_XOR) && a->op==OP_ZEXT && b->op==OP_ZEXT) {
    unsigned iw=std::max(a->k[0]->w,b->k[0]->w); Expr* r=mk(op,zext(a->k[0],iw),zext(b->k[0],iw)); return cmp? r: zext(r,w);
  }
  return raw(op,cmp?1:w,a,b,0,0);
}

// ---------- shift (canonical variable position)
struct PK { Expr* e; int d; bool operator==(const PK& o) const { return e==o.e&&d==o.d; } };
struct PH { size_t operator()(const PK& p) const { return (size_t)p.e*31+p.d*0x9E3779B9; } };
static std::unordered_map<PK,Expr*,PH> ShiftMemo;
static Expr* shiftE(Expr* e, int d) {
  if (d==0 || !e->v.any()) return e;
  auto it=ShiftMemo.find({e,d}); if (it!=ShiftMemo.end()) return it->second;
  Expr* r;
  if (e->op==OP_VAR) r=var(e->c-d);
  else r=raw(e->op,e->w,e->nk>0?shiftE(e->k[0],d):0,e->nk>1?shiftE(e->k[1],d):0,e->nk>2?shiftE(e->k[2],d):0,e->c);
  ShiftMemo[{e,d}]=r; return r;
}

// ---------- solver
static Z3_context Z; static Z3_solver ZS;
static u64 NQuery,NSat,NUnsat,NUnknown,NCache,NSmallUnsat,NImplied; static double SolverS, MaxQ; static std::string FnLog;
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z,w); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(Z,b,Z3_mk_unsigned_int64(Z,1,bvs(1)),Z3_mk_unsigned_int64(Z,0,bvs(1))); }
static Z3_ast zx(Expr* e);
// boolean-sorted translation of 1-bit expressions; memo separate
static std::unordered_map<Expr*,Z3_ast> BoolMemo;
static Z3_ast zb(Expr* e) {
  auto it=BoolMemo.find(e); if (it!=BoolMemo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case OP_CONST: r=e->c?Z3_mk_true(Z):Z3_mk_false(Z); break;
    case OP_EQ: r=Z3_mk_eq(Z,zx(e->k[0]),zx(e->k[1])); break;
    case OP_ULT: r=Z3_mk_bvult(Z,zx(e->k[0]),zx(e->k[1])); break;
    case OP_SLT: r=Z3_mk_bvslt(Z,zx(e->k[0]),zx(e->k[1])); break;
    case OP_XOR: if (isC(e->k[1])) r=Z3_mk_not(Z,zb(e->k[0])); else r=Z3_mk_xor(Z,zb(e->k[0]),zb(e->k[1])); break;
    case OP_AND: { Z3_ast a[2]={zb(e->k[0]),zb(e->k[1])}; r=Z3_mk_and(Z,2,a); break; }
    case OP_OR: { Z3_ast a[2]={zb(e->k[0]),zb(e->k[1])}; r=Z3_mk_or(Z,2,a); break; }
    case OP_ITE: r=Z3_mk_ite(Z,zb(e->k[0]),zb(e->k[1]),zb(e->k[2])); break;
    case OP_SET: { TT t=TTs[e->c]; auto has=[&](int x){ return t.w[x>>6]>>(x&63)&1; }; auto count=[&](bool w){ int n=0; for (int x=0;x<256;++x) if ((bool)has(x)==w && (x==0||(bool)has(x-1)!=w)) ++n; return n; };
      bool pos=count(true)<=count(false); std::vector<Z3_ast> v; Z3_ast x=zx(e->k[0]); auto num=[&](int n){ return Z3_mk_unsigned_int64(Z,n,bvs(8)); };
      for (int lo=0;lo<256;) { if ((bool)has(lo)!=pos) { ++lo; continue; } int hi=lo; while (hi<255 && (bool)has(hi+1)==pos) ++hi;
        if (lo==hi) v.push_back(Z3_mk_eq(Z,x,num(lo))); else { Z3_ast a[2]; int k=0; if (lo>0) a[k++]=Z3_mk_bvuge(Z,x,num(lo)); if (hi<255) a[k++]=Z3_mk_bvule(Z,x,num(hi)); v.push_back(k==1?a[0]:Z3_mk_and(Z,k,a)); } lo=hi+1; }
      r= v.size()==1? v[0]: Z3_mk_or(Z,v.size(),v.data()); if (!pos) r=Z3_mk_not(Z,r); break; }
    default: r=Z3_mk_eq(Z,zx(e),Z3_mk_unsigned_int64(Z,1,bvs(1)));
  }
  Z3_inc_ref(Z,r); BoolMemo[e]=r; return r;
}
static Z3_ast zx(Expr* e) {
  if (e->z) return e->z;
  Z3_ast r;
  bool boolop= e->w==1 && (e->op==OP_EQ||e->op==OP_ULT||e->op==OP_SLT||e->op==OP_XOR||e->op==OP_AND||e->op==OP_OR||e->op==OP_SET);
  if (boolop) r=b2bv(zb(e));
  else switch (e->op) {
    case OP_CONST: r=Z3_mk_unsigned_int64(Z,e->c,bvs(e->w)); break;
    case OP_VAR: r=Z3_mk_const(Z,Z3_mk_int_symbol(Z,e->c),bvs(8)); break;
    case OP_EXTRACT: r=Z3_mk_extract(Z,e->c+e->w-1,e->c,zx(e->k[0])); break;
    case OP_CONCAT: r=Z3_mk_concat(Z,zx(e->k[0]),zx(e->k[1])); break;
    case OP_ZEXT: r=Z3_mk_zero_ext(Z,e->w-e->k[0]->w,zx(e->k[0])); break;
    case OP_SEXT: r=Z3_mk_sign_ext(Z,e->w-e->k[0]->w,zx(e->k[0])); break;
    case OP_ITE: r=Z3_mk_ite(Z,zb(e->k[0]),zx(e->k[1]),zx(e->k[2])); break;
    case OP_TAB: { const std::vector<u64> t=Tabs[e->c]; std::map<u64,int> n; for (u64 v: t) ++n[v]; auto num=[&](u64 v){ return Z3_mk_unsigned_int64(Z,v,bvs(e->w)); };
      if (n.size()<=32) { u64 top=t[0]; for (auto& x: n) if (x.second>n[top]) top=x.first; r=num(top); for (auto& x: n) if (x.first!=top) { TT y{}; for (int i=0;i<256;++i) if (t[i]==x.first) y.w[i>>6]|=1ull<<(i&63); r=Z3_mk_ite(Z,zb(setE(e->k[0],y)),num(x.first),r); } }
      else { std::vector<Z3_ast> l(256); for (int i=0;i<256;++i) l[i]=num(t[i]); Z3_ast x=zx(e->k[0]); for (int b=0;b<8;++b) { Z3_ast c=Z3_mk_eq(Z,Z3_mk_extract(Z,b,b,x),Z3_mk_unsigned_int64(Z,1,bvs(1))); for (size_t i=0;i<l.size()/2;++i) l[i]= l[2*i]==l[2*i+1]? l[2*i]: Z3_mk_ite(Z,c,l[2*i+1],l[2*i]); l.resize(l.size()/2); } r=l[0]; }
      break; }
    default: { Z3_ast a=zx(e->k[0]), b=zx(e->k[1]);
      switch (e->op) {
        case OP_ADD: r=Z3_mk_bvadd(Z,a,b); break; case OP_SUB: r=Z3_mk_bvsub(Z,a,b); break; case OP_MUL: r=Z3_mk_bvmul(Z,a,b); break;
        case OP_UDIV: r=Z3_mk_bvudiv(Z,a,b); break; case OP_SDIV: r=Z3_mk_bvsdiv(Z,a,b); break; case OP_UREM: r=Z3_mk_bvurem(Z,a,b); break; case OP_SREM: r=Z3_mk_bvsrem(Z,a,b); break;
        case OP_AND: r=Z3_mk_bvand(Z,a,b); break; case OP_OR: r=Z3_mk_bvor(Z,a,b); break; case OP_XOR: r=Z3_mk_bvxor(Z,a,b); break;
        case OP_SHL: r=Z3_mk_bvshl(Z,a,b); break; case OP_LSHR: r=Z3_mk_bvlshr(Z,a,b); break; case OP_ASHR: r=Z3_mk_bvashr(Z,a,b); break;
        default: fprintf(stderr,"zx op %u\n",e->op); _exit(3);
      } } }
  Z3_inc_ref(Z,r); e->z=r; return r;
}
struct VHash { size_t operator()(const std::vector<u32>& v) const { u64 h=v.size(); for (u32 x: v) { h^=x; h*=0x9E3779B97F4A7C15ull; h^=h>>31; } return h; } };
struct QRes { int r; std::vector<u8> model; };
static std::unordered_map<std::vector<u32>,QRes,VHash> QCache;
static FILE* DumpQ; static u64 DumpN;
static unsigned QTimeout=60000;

static std::unordered_map<Expr*,Z3_ast> Defs; static size_t DefN, DefLimit=100;
// decide the conjunction; model indexed relative to base var
static const QRes& solve(std::vector<Expr*> cs, int& base) {
  Mask mv{}; for (auto* e: cs) mv.add(e->v);
  base=mv.low(); int n=mv.high()-base+1;
  std::vector<Expr*> sh; for (auto* e: cs) sh.push_back(shiftE(e,base));
  std::sort(sh.begin(),sh.end(),[](Expr* a,Expr* b){return a->id<b->id;}); sh.erase(std::unique(sh.begin(),sh.end()),sh.end());
  std::vector<u32> key; for (auto* e: sh) key.push_back(e->id);
  auto it=QCache.find(key); if (it!=QCache.end()) { ++NCache; return it->second; }
  auto t0=std::chrono::steady_clock::now();
  if (DefN>DefLimit) { Z3_solver_reset(Z,ZS); Defs.clear(); DefN=0; }
  std::vector<Z3_ast> as; for (auto* e: sh) { auto d=Defs.find(e); if (d==Defs.end()) { Z3_ast b=Z3_mk_const(Z,Z3_mk_int_symbol(Z,1000+(int)e->id),Z3_mk_bool_sort(Z)); Z3_solver_assert(Z,ZS,Z3_mk_implies(Z,b,zb(e))); d=Defs.emplace(e,b).first; ++DefN; } as.push_back(d->second); }
  struct itimerval off{}, left{}; setitimer(ITIMER_PROF,&off,&left); // the solver's time is not the path's
  Z3_lbool r=Z3_solver_check_assumptions(Z,ZS,as.size(),as.data());
  if (left.it_value.tv_sec||left.it_value.tv_usec) setitimer(ITIMER_PROF,&left,nullptr);
  if (Z3_get_error_code(Z)!=Z3_OK) { fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(Z,Z3_get_error_code(Z))); _exit(3); }
  QRes q; q.r= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1; ++NQuery;
  if (r==Z3_L_TRUE) {
    ++NSat; Z3_model m=Z3_solver_get_model(Z,ZS); Z3_model_inc_ref(Z,m); q.model.resize(n);
    for (int i=0;i<n;++i) { Z3_ast o=0; uint64_t v=0; if (Z3_model_eval(Z,m,zx(var(i)),true,&o)) Z3_get_numeral_uint64(Z,o,&v); q.model[i]=v; }
    Z3_model_dec_ref(Z,m);
  } else if (r==Z3_L_FALSE) { ++NUnsat; } else ++NUnknown;
  if (DumpQ && DumpN<400 && r!=Z3_L_UNDEF && (NQuery%7)==1) { ++DumpN; Z3_solver t=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,t); for (auto* e: sh) Z3_solver_assert(Z,t,zb(e)); std::string s=Z3_solver_to_string(Z,t); Z3_solver_dec_ref(Z,t); fprintf(DumpQ,"(reset)\n(set-logic QF_BV)\n(echo \"expect %s\")\n%s(check-sat)\n",r==Z3_L_TRUE?"sat":"unsat",s.c_str()); }
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); SolverS+=dt; if (dt>MaxQ) MaxQ=dt;
  return QCache[key]=q;
}

// ---------- path state
struct Dec { Expr* e; bool val; u64 site; bool implied; bool done; bool hasAlt; std::vector<u8> alt; };
static std::vector<Dec> Stack; static size_t Pos; static std::vector<Expr*> PC; static std::unordered_set<Expr*> PCSet;
static bool Exploring; static unsigned NVars;
static u64 NPaths,NAssume,NBranches,NDiverge,NSoft,NStale,NEngineErr,NPinned; static sigjmp_buf JB; static u64 MaxDec;
static std::map<std::string,u64> Cover; static std::map<std::string,u64> ExtWarn; static std::string Note;
struct Viol { std::string msg,note; std::vector<u8> in; }; static std::vector<Viol> Viols; static std::map<std::string,int> ViolCount;
static u64 OutHash; static u64 AltRun=1ull<<40;
static std::string EngineMsg;
static void engineErr(const char* m) { ++NEngineErr; if (EngineMsg.empty()) EngineMsg=m; }

// is lit feasible together with PC? returns model (full input) in alt
static int feasible(Expr* lit, std::vector<u8>& alt) {
  if (isC(lit)) return lit->c;
  if (PCSet.count(NotE(lit))) { ++NImplied; return 0; }
  // 1: constraints over a subset of lit's variables
  std::vector<Expr*> cs{lit}; for (auto* e: PC) if (e->v.sub(lit->v)) cs.push_back(e);
  size_t nsmall=cs.size(); int base;
  { const QRes& q=solve(cs,base);
    if (q.r==0) { ++NSmallUnsat; return 0; }
    if (q.r<0) return -1;
    alt=Input; for (size_t i=0;i<q.model.size();++i) if (base+i<alt.size() && (lit->v.m[(base+i)/64]>>((base+i)%64)&1)) alt[base+i]=q.model[i];
  }
  auto ok=[&](){ EvalIn=&alt; ++AltRun; bool r=ev(lit,AltRun); for (auto* e: PC) { if (!r) break; if (e->v.meets(lit->v)) r=ev(e,AltRun); } EvalIn=&Input; return r; };
  if (ok()) return 1;
  // 2: full slice
  Mask mv=lit->v; cs.clear(); cs.push_back(lit); std::vector<char> in(PC.size(),0); bool ch=true;
  while (ch) { ch=false; for (size_t i=0;i<PC.size();++i) if (!in[i] && PC[i]->v.meets(mv)) { in[i]=1; mv.add(PC[i]->v); cs.push_back(PC[i]); ch=true; } }
  (void)nsmall;
  const QRes& q=solve(cs,base);
  if (q.r<=0) return q.r;
  alt=Input; for (size_t i=0;i<q.model.size();++i) if (base+i<alt.size() && (mv.m[(base+i)/64]>>((base+i)%64)&1)) alt[base+i]=q.model[i];
  if (!ok()) { engineErr("model does not satisfy path"); return -1; }
  return 1;
}
static std::string show(Expr* e, int d=6) {
  static const char* n[]={"?","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>","ashr","==","!=","<","<=",">",">=","s<","s<=","s>","s>="};
  char b[64]; if (isC(e)) { snprintf(b,64,"%llx",(unsigned long long)e->c); return b; } if (e->op==OP_VAR) { snprintf(b,64,"v%llu",(unsigned long long)e->c); return b; }
  if (e->op==OP_SET) { TT t=TTs[e->c]; int c=0,f=-1; for (int x=0;x<256;++x) if (t.w[x>>6]>>(x&63)&1) { ++c; if (f<0) f=x; } snprintf(b,64,"S%llu{%02x#%d}",(unsigned long long)e->k[0]->c,f,c); return b; }
  if (e->op==OP_TAB) { snprintf(b,64,"T%llu#%llu",(unsigned long long)e->k[0]->c,(unsigned long long)e->c); return b; }
  if (!d) return ".."; std::string r="("; r+= e->op<24? n[e->op]: e->op==OP_ITE?"ite": e->op==OP_ZEXT?"zx": e->op==OP_EXTRACT?"ex"+std::to_string(e->c)+"w"+std::to_string(e->w): e->op==OP_CONCAT?"cat": "op"+std::to_string(e->op);
  for (int i=0;i<e->nk;++i) r+=" "+show(e->k[i],d-1); return r+")";
}
static int DomAt[MAXV]; // index in PC of the constraint on that byte alone, +1
static TT KDom[MAXV]; // values of that byte not excluded by decided or implied literals
static void learn(Expr* lit) {
  if (lit->op==OP_AND) { learn(lit->k[0]); learn(lit->k[1]); }
  else if (lit->op==OP_SET) { TT& d=KDom[lit->k[0]->c]; const TT& x=TTs[lit->c]; for (int i=0;i<4;++i) d.w[i]&=x.w[i]; }
  PCSet.insert(lit);
}
static void addPC(Expr* lit) { if (lit->op==OP_SET) learn(lit), PCSet.erase(lit); 
  if (lit->op==OP_AND) { addPC(lit->k[0]); addPC(lit->k[1]); PCSet.insert(lit); return; }
  if (!PCSet.insert(lit).second) return;
  if (lit->op==OP_SET) { int& d=DomAt[lit->k[0]->c]; if (d) { Expr* m=mk(OP_AND,PC[d-1],lit); if (!isC(m)) { PC[d-1]=m; PCSet.insert(m); return; } } else d=PC.size()+1; }
  PC.push_back(lit);
}

// value of a 1-bit expression when the path condition already fixes it: 1, 0, or -1
static int known(Expr* c) {
  if (isC(c)) return c->c;
  if (PCSet.count(c)) return 1; if (PCSet.count(NotE(c))) return 0;
  if (c->op==OP_SET) { { const TT &x=KDom[c->k[0]->c], &y=TTs[c->c]; bool in=true,out=true; for (int i=0;i<4;++i) { if (x.w[i]&~y.w[i]) in=false; if (x.w[i]&y.w[i]) out=false; } if (in) return 1; if (out) return 0; } }
  return -1;
}
static Expr* simp(Expr* e) {
  if (!e) return e;
  if (e->op==OP_ITE) { int k=known(e->k[0]); if (k>=0) return simp(e->k[k?1:2]); if (e->size<64) { Expr *a=simp(e->k[1]),*b=simp(e->k[2]); if (a!=e->k[1]||b!=e->k[2]) return ite(e->k[0],a,b); } return e; }
  if (e->size<64) switch (e->op) { case OP_ZEXT: { Expr* a=simp(e->k[0]); return a==e->k[0]? e: zext(a,e->w); } case OP_ADD: { Expr *a=simp(e->k[0]),*b=simp(e->k[1]); return a==e->k[0]&&b==e->k[1]? e: mk(OP_ADD,a,b); } case OP_SET: { int k=known(e); return k<0? e: K(1,k); }
    case OP_TAB: { const TT& d=KDom[e->k[0]->c]; const std::vector<u64>& t=Tabs[e->c]; bool f=false; u64 v=0; for (int i=0;i<256;++i) if (d.w[i>>6]>>(i&63)&1) { if (!f) { f=true; v=t[i]; } else if (t[i]!=v) return e; } return f? K(e->w,v): e; } }
  return e;
}
static bool TimeUp; static double Deadline; static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void branch(Expr* e, bool c, u64 site) {
  if (!Exploring || isC(e)) { if (isC(e)&&e->c!=c) engineErr("constant mismatch"); return; }
  if ((bool)ev(e,CurRun)!=c) { engineErr("shadow mismatch at branch"); return; }
  e=simp(e); Expr* lit=c?e:NotE(e);
  if (known(lit)==1) return;
  ++NBranches;
  if (Pos<Stack.size()) {
    Dec& d=Stack[Pos++];
    if (d.site!=site || d.val!=c) { ++NDiverge; engineErr("divergence on re-execution"); siglongjmp(JB,5); }
    if (d.e!=e) { static bool dbg=getenv("LG_SD"); if (dbg) fprintf(stderr,"SOFT site=%llx old=%s new=%s\n",(unsigned long long)site,show(d.e).c_str(),show(e).c_str()); ++NSoft; d.e=e; }
    if (!d.implied) addPC(lit); else learn(lit);
    return;
  }
  static bool dbg=getenv("LG_DBG"); if (dbg && e->op!=OP_SET) fprintf(stderr,"lit site=%llx size=%u vars=%d %s\n",(unsigned long long)site,e->size,__builtin_popcountll(e->v.m[0]),show(e,5).substr(0,300).c_str()); if (dbg && e->op!=OP_SET && getenv("LG_BT") && strtoull(getenv("LG_BT"),0,16)==site) { for (auto* q: PC) fprintf(stderr,"PC %s\n",show(q).substr(0,200).c_str()); abort(); }
  Dec d{e,c,site,false,false,false,{}};
  int f=feasible(NotE(lit),d.alt);
  if (f==0) d.implied=true; else if (f>0) d.hasAlt=true; else engineErr("solver returned unknown");
  Stack.push_back(std::move(d)); ++Pos;
  if (f!=0) addPC(lit); else learn(lit);
}
static void pinE(Expr* e, u64 v, u64 site) {
  if (!Exploring || isC(e)) return;
  if (ev(e,CurRun)!=(v&wm(e->w))) { engineErr("shadow mismatch at pin"); return; }
  e=simp(e); if (isC(e)) return;
  ++NPinned; static bool dbg=getenv("LG_DBG"); if (dbg) fprintf(stderr,"pin site=%llx %s\n",(unsigned long long)site,show(e,4).substr(0,200).c_str());
  if (e->w==1) { branch(e,v&1,site); return; }
  while (Pos<Stack.size()) {
    e=simp(e); if (isC(e) || known(mk(OP_EQ,e,K(e->w,v)))==1) return;
    Dec& d=Stack[Pos];
    if (d.site!=site) { ++NDiverge; engineErr("divergence at pin"); siglongjmp(JB,5); }
    if (d.val) { ++Pos; Expr* q=mk(OP_EQ,e,K(e->w,v)); if (isC(q)) return; if (d.e!=q) { static bool dbg=getenv("LG_SD"); if (dbg) fprintf(stderr,"SOFTPIN site=%llx old=%s new=%s\n",(unsigned long long)site,show(d.e).c_str(),show(q).c_str()); ++NSoft; d.e=q; } if (!d.implied) addPC(q); else learn(q); return; }
    ++Pos; addPC(NotE(d.e)); // an excluded value
  }
  Expr* q=mk(OP_EQ,e,K(e->w,v)); branch(q,true,site);
}
// ---------- shadow memory
struct Page { Expr* b[4096]; u32 n; };
static std::unordered_map<u64,Page*> Pages; static u64 LastPg=~0ull; static Page* LastPage;
struct GuardBuf { u64 lo,hi,plo,phi; }; static std::vector<GuardBuf> Guards;
static std::map<u64,u64> Regions; // heap/global objects: start -> size
extern "C" { Expr* __sym_arg[64]; void* __sym_callee; Expr* __sym_ret[16]; void* __sym_retfn; u8 __sym_pageflag[65536]; }
static Page* page(u64 a, bool mkp) {
  u64 p=a>>12; if (p==LastPg && (LastPage||!mkp)) return LastPage;
  auto it=Pages.find(p); Page* r=nullptr;
  if (it!=Pages.end()) r=it->second; else if (mkp) { r=(Page*)calloc(1,sizeof(Page)); Pages[p]=r; }
  LastPg=p; LastPage=r; if (mkp) { __sym_pageflag[p&0xffff]=1; __sym_pageflag[(p-1)&0xffff]=1; } return r;
}
static inline Expr* getB(u64 a) { Page* p=page(a,false); return p? p->b[a&4095]:nullptr; }
static inline void setB(u64 a, Expr* e) { Page* p=page(a,e!=nullptr); if (p) p->b[a&4095]=e; }
static void clearMem(u64 a, u64 n) { u64 end=a+n; while (a<end) { u64 pe=std::min(end,(a|4095)+1); if (__sym_pageflag[(a>>12)&0xffff]) { Page* p=page(a,false); if (p) memset(&p->b[a&4095],0,(pe-a)*sizeof(Expr*)); } a=pe; } }
static void resetShadow() { for (auto& p: Pages) free(p.second); Pages.clear(); LastPg=~0ull; LastPage=nullptr; memset(__sym_pageflag,0,sizeof __sym_pageflag); for (auto& g: Guards) for (u64 a=g.plo;a<g.phi;a+=4096) { __sym_pageflag[(a>>12)&0xffff]=1; __sym_pageflag[((a>>12)-1)&0xffff]=1; } }

static void fail(const std::string& msg) {
  if (!Exploring) { fprintf(stderr,"fail outside exploration: %s\n",msg.c_str()); _exit(4); }
  int n=ViolCount[msg]++; if (n<3) Viols.push_back({msg,Note,std::vector<u8>(Input.begin(),Input.begin()+NVars)});
  siglongjmp(JB,2);
}
static bool knownId(const char* id) { const char* k=getenv("LG_KNOWN"); if (!k) return false; std::string s=std::string(",")+k+",", w=std::string(",")+id+","; return s.find(w)!=std::string::npos; }
static void guardCheck(u64 a, u64 n) { for (auto& g: Guards) if (a<g.phi && a+n>g.plo && n) { if (a<g.lo||a+n>g.hi) { char b[96]; snprintf(b,sizeof b,"access outside buffer (offset %lld of %llu)",(long long)(a-g.lo),(unsigned long long)(g.hi-g.lo)); fail(b); } } }
static inline bool guardsOn() { return !Guards.empty(); }

static Expr* loadBytes(u64 a, unsigned n) {
  bool any=false; Expr* bs[8]; for (unsigned i=0;i<n;++i) { bs[i]=getB(a+i); if (bs[i]) any=true; }
  if (!any) return nullptr;
  Expr* r=nullptr;
  for (unsigned i=0;i<n;++i) { Expr* x=bs[i]; u8 cv=*(u8*)(a+i); if (x && ev(x,CurRun)!=cv) { ++NStale; setB(a+i,nullptr); x=nullptr; } if (!x) x=K(8,cv); r= r? concat(x,r): x; }
  return isC(r)? nullptr: r;
}
static bool region(u64 a, u64& lo, u64& hi) {
  auto it=Regions.upper_bound(a); if (it==Regions.begin()) return false; --it; if (a<it->first+it->second) { lo=it->first; hi=lo+it->second; return true; }
  return false;
}
static bool readable(u64 a, u64 n) { // inside some registered region or guard
  u64 lo,hi; if (region(a,lo,hi)) return a+n<=hi; for (auto& g: Guards) if (a>=g.lo&&a+n<=g.hi) return true; return false;
}
// leaves of an ITE dag with constant leaves
static bool iteLeaves(Expr* e, std::set<u64>& out, unsigned lim) { if (isC(e)) { out.insert(e->c); return out.size()<=lim; } if (e->op==OP_TAB) { for (u64 v: Tabs[e->c]) out.insert(v); return out.size()<=lim; } if (e->op!=OP_ITE) return false; return iteLeaves(e->k[1],out,lim)&&iteLeaves(e->k[2],out,lim); }

static Expr* buildTable(Expr* off, const std::vector<unsigned>& bits, unsigned lvl, u64 cur, const std::unordered_map<u64,Expr*>& val) {
  if (lvl==bits.size()) { auto it=val.find(cur); return it==val.end()? nullptr: it->second; }
  unsigned b=bits[lvl];
  Expr* x0=buildTable(off,bits,lvl+1,cur,val); Expr* x1=buildTable(off,bits,lvl+1,cur|(1ull<<b),val);
  if (!x0) return x1; if (!x1) return x0; if (x0==x1) return x0;
  return ite(extract(off,b,1),x1,x0);
}
static u64 StackLo,StackHi;
static Expr* symLoad(u64 addr, unsigned n, unsigned w, Expr* sa, u64 site) {
  // ITE over few concrete addresses
  std::set<u64> lv;
  if (sa->op==OP_TAB) { const TT& d=KDom[sa->k[0]->c]; std::vector<u64> t=Tabs[sa->c]; u64 dv=addr; for (int i=255;i>=0;--i) if (d.w[i>>6]>>(i&63)&1) dv=t[i]; for (int i=0;i<256;++i) if (!(d.w[i>>6]>>(i&63)&1)) t[i]=dv; sa=tabE(sa->k[0],64,t); if (isC(sa)) return loadBytes(addr,n); }
  if ((sa->op==OP_ITE||sa->op==OP_TAB) && iteLeaves(sa,lv,64)) {
    bool ok=true; for (u64 a: lv) if (!readable(a,n) && a!=addr && !(a>=StackLo && a<StackHi)) ok=false;
    if (ok) { std::unordered_map<Expr*,Expr*> m; return mapLeaves(sa,[&](Expr* x)->Expr*{ u64 a=x->c; Expr* r=loadBytes(a,n); if (!r) { u64 v=0; memcpy(&v,(void*)a,n); r=K(n*8,v); } return r; },m); }
  }
  if (oneVar(sa) && sa->op!=OP_TAB) { // address decided by one byte
    unsigned i=sa->v.low(); u64 lo=0,hi=0; bool haveR=region(addr,lo,hi); if (!haveR) for (auto& g: Guards) if (addr>=g.lo&&addr<=g.hi) { lo=g.lo; hi=g.hi; haveR=true; }
    if (haveR) {
      Expr* in= hi-lo>=n ? mk(OP_ULE,mk(OP_SUB,sa,K(64,lo)),K(64,hi-lo-n)) : K(1,0); bool inc= addr>=lo && addr+n<=hi; branch(in,inc,site^0x5555); if (!inc) fail("symbolic index out of bounds");
      static std::vector<u8> inp(MAXV); const std::vector<u8>* old=EvalIn; EvalIn=&inp; std::vector<u64> at(256); const TT& kd=KDom[i]; u64 dv=addr; std::vector<char> ok(256);
      for (int x=255;x>=0;--x) { inp[i]=x; ++CanonRun; u64 a=ev(sa,CanonRun); if ((kd.w[x>>6]>>(x&63)&1) && a>=lo && a+n<=hi) { ok[x]=1; dv=at[x]=a; } }
      EvalIn=old; std::set<u64> ds; for (int x=0;x<256;++x) { if (!ok[x]) at[x]=dv; ds.insert(at[x]); }
      std::map<u64,Expr*> val; bool symc=false; for (u64 a: ds) { Expr* r=loadBytes(a,n); if (r) symc=true; else { u64 v=0; memcpy(&v,(void*)a,n); r=K(n*8,v); } val[a]=r; }
      if (!symc) { std::vector<u64> t(256); for (int x=0;x<256;++x) t[x]=val[at[x]]->c; return tabE(var(i),n*8,t); }
      if (ds.size()<=64) { Expr* at_=tabE(var(i),64,at); std::unordered_map<Expr*,Expr*> m; return mapLeaves(at_,[&](Expr* x)->Expr*{ return val[x->c]; },m); }
    }
  }
  u64 basec=0; Expr* off=sa; if (sa->op==OP_ADD && isC(sa->k[1])) { basec=sa->k[1]->c; off=sa->k[0]; }
  u64 unk=~off->kz; int nb=__builtin_popcountll(unk);
  u64 lo,hi; bool haveR=(basec && region(basec,lo,hi)) || region(addr,lo,hi);
  if (!haveR) for (auto& g: Guards) if (addr>=g.lo&&addr<=g.hi) { lo=g.lo; hi=g.hi; haveR=true; }
  if (!haveR) { pinE(sa,addr,site); return nullptr; }
  // in-bounds obligation
  Expr* in= hi-lo>=n ? mk(OP_ULE,mk(OP_SUB,sa,K(64,lo)),K(64,hi-lo-n)) : K(1,0);
  bool inc= addr>=lo && addr+n<=hi;
  branch(in,inc,site^0x5555);
  if (!inc) fail("symbolic index out of bounds");
  if (nb>16) { pinE(sa,addr,site); return nullptr; }
  std::vector<unsigned> bits; for (int b=63;b>=0;--b) if (unk>>b&1) bits.push_back(b);
  // memoise tables per (off, base, contents) is left to hash-consing
  struct TC { std::vector<u8> copy; Expr* r; u64 lo,hi; }; static std::unordered_map<PK,TC,PH> tcache; u64 tlo=std::max(lo,basec), thi=std::min(hi,basec+unk+n); bool plain= thi>tlo && thi-tlo<=65536 && !oneVar(off); if (plain) for (u64 a=tlo>>12;a<=(thi-1)>>12;++a) if (__sym_pageflag[a&0xffff]) { Page* pg=page(a<<12,false); if (pg) plain=false; }
  PK tk{off,(int)(basec*0x9E3779B1u>>8)+(int)n*77}; if (plain) { auto it=tcache.find(tk); if (it!=tcache.end() && it->second.lo==tlo && it->second.hi==thi && !memcmp(it->second.copy.data(),(void*)tlo,thi-tlo)) return it->second.r; }
  std::unordered_map<u64,Expr*> val; u64 sub=0;
  bool symc=false;
  do { u64 a=basec+sub; if (a>=lo && a+n<=hi) { Expr* r=loadBytes(a,n); if (r) symc=true; else { u64 v=0; memcpy(&v,(void*)a,n); r=K(n*8,v); } val[sub]=r; } sub=(sub-unk)&unk; } while (sub);
  if (symc && val.size()>64) { pinE(sa,addr,site); return nullptr; }
  if (oneVar(off) && !symc) { unsigned i=off->v.low(); static std::vector<u8> in(MAXV); const std::vector<u8>* old=EvalIn; EvalIn=&in; std::vector<u64> t(256); std::vector<char> miss(256); const TT& kd=KDom[i]; u64 dv=val[addr-basec]->c; for (int x=255;x>=0;--x) { in[i]=x; ++CanonRun; auto it=val.find(ev(off,CanonRun)); if (it==val.end() || !(kd.w[x>>6]>>(x&63)&1)) miss[x]=1; else dv=t[x]=it->second->c; } for (int x=0;x<256;++x) if (miss[x]) t[x]=dv; EvalIn=old; return tabE(var(i),n*8,t); }
  Expr* r=buildTable(off,bits,0,0,val);
  if (plain && !symc) tcache[tk]=TC{std::vector<u8>((u8*)tlo,(u8*)thi),r,tlo,thi};
  return r;
}
static u64 AllocCount, AllocLive; static unsigned ForkW=getenv("LG_FORKW")?atoi(getenv("LG_FORKW")):32;
extern "C" {
static Expr* sv(Expr* s, unsigned w, u64 v) { return s? simp(s): K(w,v); }
Expr* _sym_bin(u32 op, u32 w, Expr* sa, u64 a, Expr* sb, u64 b) {
  Expr *x=sv(sa,w,a), *y=sv(sb,w,b); if (x->w!=w||y->w!=w) { engineErr("operand width"); return nullptr; }
  Expr* r; u64 m=wm(w);
  switch (op) {
    case OP_UMIN: r=ite(mk(OP_ULT,x,y),x,y); break; case OP_UMAX: r=ite(mk(OP_ULT,x,y),y,x); break;
    case OP_SMIN: r=ite(mk(OP_SLT,x,y),x,y); break; case OP_SMAX: r=ite(mk(OP_SLT,x,y),y,x); break;
    case OP_USUBSAT: r=ite(mk(OP_ULT,x,y),K(w,0),mk(OP_SUB,x,y)); break;
    case OP_UADDSAT: { Expr* s=mk(OP_ADD,x,y); r=ite(mk(OP_ULT,s,x),K(w,m),s); break; }
    case OP_UADDO: r=mk(OP_ULT,mk(OP_ADD,x,y),x); break;
    case OP_USUBO: r=mk(OP_ULT,x,y); break;
    case OP_UMULO: { if (isC(x)) std::swap(x,y); if (isC(y)) { r= y->c? mk(OP_ULT,K(w,m/y->c),x): K(1,0); break; } if (w<=32) { Expr* p=mk(OP_MUL,zext(x,64),zext(y,64)); r=NotE(mk(OP_EQ,mk(OP_LSHR,p,K(64,w)),K(64,0))); break; } pinE(x,ev(x,CurRun),0x77); pinE(y,ev(y,CurRun),0x78); return nullptr; }
    case OP_SADDO: { Expr* s=mk(OP_ADD,x,y); Expr* z=K(w,0); Expr *nx=mk(OP_SLT,x,z),*ny=mk(OP_SLT,y,z),*ns=mk(OP_SLT,s,z); r=mk(OP_AND,NotE(mk(OP_XOR,nx,ny)),mk(OP_XOR,nx,ns)); break; }
    case OP_SSUBO: { Expr* s=mk(OP_SUB,x,y); Expr* z=K(w,0); Expr *nx=mk(OP_SLT,x,z),*ny=mk(OP_SLT,y,z),*ns=mk(OP_SLT,s,z); r=mk(OP_AND,mk(OP_XOR,nx,ny),mk(OP_XOR,nx,ns)); break; }
    case OP_SMULO: { if (w<=32) { Expr* p=mk(OP_MUL,sext(x,64),sext(y,64)); r=NotE(mk(OP_EQ,sext(extract(p,0,w),64),p)); break; } pinE(x,ev(x,CurRun),0x79); pinE(y,ev(y,CurRun),0x7a); return nullptr; }
    default: r=mk(op,x,y);
  }
  return isC(r)? nullptr: r;
}
Expr* _sym_un(u32 op, u32 fw, u32 tw, Expr* s, u64 v) {
  Expr* x=sv(s,fw,v); if (x->w!=fw) { engineErr("operand width (cast)"); return nullptr; } Expr* r;
  if (fw==1 && tw>=ForkW && Exploring && !isC(x)) { branch(x,v&1,0x5E2000+tw); return nullptr; }
  switch (op) {
    case OP_TRUNC: r=extract(x,0,tw); break; case OP_ZEXT: r=zext(x,tw); break; case OP_SEXT: r=sext(x,tw); break;
    case OP_BSWAP: { r=nullptr; for (unsigned i=0;i<fw;i+=8) { Expr* b=extract(x,i,8); r= r? concat(r,b): b; } break; }
    case OP_ABS: r=ite(mk(OP_SLT,x,K(fw,0)),mk(OP_SUB,K(fw,0),x),x); break;
    case OP_CTPOP: { r=K(fw,0); for (unsigned i=0;i<fw;++i) r=mk(OP_ADD,r,zext(extract(x,i,1),fw)); break; }
    case OP_CTTZ: { r=K(fw,fw); for (int i=fw-1;i>=0;--i) r=ite(extract(x,i,1),K(fw,i),r); break; }
    case OP_CTLZ: { r=K(fw,fw); for (unsigned i=0;i<fw;++i) r=ite(extract(x,i,1),K(fw,fw-1-i),r); break; }
    default: r=x;
  }
  return isC(r)? nullptr: r;
}
Expr* _sym_fsh(u32 op, u32 w, Expr* sa, u64 a, Expr* sb, u64 b, Expr* sc, u64 c) {
  Expr *x=sv(sa,w,a),*y=sv(sb,w,b),*z=sv(sc,w,c); Expr* s=mk(OP_UREM,z,K(w,w)); Expr* inv=mk(OP_SUB,K(w,w),s); Expr* r;
  if (op==OP_FSHL) r=ite(mk(OP_EQ,s,K(w,0)),x,mk(OP_OR,mk(OP_SHL,x,s),mk(OP_LSHR,y,inv))); else r=ite(mk(OP_EQ,s,K(w,0)),y,mk(OP_OR,mk(OP_SHL,x,inv),mk(OP_LSHR,y,s)));
  return isC(r)? nullptr: r;
}
Expr* _sym_select(u32 w, Expr* sc, u64 c, Expr* st, u64 t, Expr* sf, u64 f) { if (sc) { int k=known(sc); if (k>=0) { Expr* r=k? st: sf; return r && isC(r)? nullptr: r; } if (w>=ForkW && Exploring) { branch(sc,c&1,0x5E1000+w); Expr* r= c&1? st: sf; return r && isC(r)? nullptr: r; } } Expr* r=ite(sc,sv(st,w,t),sv(sf,w,f)); return isC(r)? nullptr: r; }
Expr* _sym_load(void* p, u32 n, u32 w, Expr* sa, u64 v, u64 site) {
  u64 a=(u64)p; Expr* r; if (sa) { sa=simp(sa); if (isC(sa)) sa=nullptr; }
  if (sa && Exploring) { if (ev(sa,CurRun)!=a) { engineErr("address shadow mismatch"); return nullptr; } r=symLoad(a,n,w,sa,site); }
  else { if (guardsOn()) guardCheck(a,n); r=loadBytes(a,n); }
  if (!r || isC(r)) return nullptr;
  if (r->w>w) r=extract(r,0,w);
  if (isC(r)) return nullptr;
  if (ev(r,CurRun)!=(v&wm(w))) { ++NStale; return nullptr; }
  return r;
}
void _sym_store(void* p, u32 n, Expr* s, u64 v, Expr* sa, u64 site) {
  u64 a=(u64)p; if (sa) sa=simp(sa); if (sa && !isC(sa)) pinE(sa,a,site);
  if (guardsOn()) guardCheck(a,n);
  if (!s) { clearMem(a,n); return; }
  if (s->w<8*n) s=zext(s,8*n);
  for (u32 i=0;i<n;++i) { Expr* b=extract(s,8*i,8); setB(a+i,isC(b)?nullptr:b); }
}
void _sym_branch(Expr* s, u64 c, u64 site) { branch(s,c&1,site); }
void _sym_pin(Expr* s, u64 v, u64 site) { pinE(s,v,site); }
void _sym_pin_mem(void* p, u64 n, u64 site) { u64 a=(u64)p; if (guardsOn()) guardCheck(a,n); for (u64 i=0;i<n;++i) { Expr* b=getB(a+i); if (b) { if (ev(b,CurRun)!=*(u8*)(a+i)) { ++NStale; setB(a+i,nullptr); } else pinE(b,*(u8*)(a+i),site+i); } } }
void _sym_switch(Expr* s, u64 c, u32 w, const u64* vals, u32 n, u64 site) {
  u64 g=0; for (u32 i=0;i<n;++i) g=std::max(g,vals[2*i+1]);
  for (u64 k=0;k<=g;++k) {
    Expr* q=K(1,0); bool t=false; std::vector<u64> v; for (u32 i=0;i<n;++i) if (vals[2*i+1]==k) { v.push_back(vals[2*i]); t|= (c&wm(w))==vals[2*i]; }
    std::sort(v.begin(),v.end());
    for (size_t i=0;i<v.size();) { size_t j=i; while (j+1<v.size() && v[j+1]==v[j]+1) ++j; if (j-i<2) { for (size_t x=i;x<=j;++x) q=mk(OP_OR,q,mk(OP_EQ,s,K(w,v[x]))); } else q=mk(OP_OR,q,mk(OP_ULT,mk(OP_SUB,s,K(w,v[i])),K(w,v[j]-v[i]+1))); i=j+1; }
    if (!isC(q)) branch(q,t,site+k*0x10001); if (t) return; }
}
void _sym_memcpy(void* d, void* s, u64 n) {
  u64 da=(u64)d, sa=(u64)s; if (!n) return;
  if (guardsOn()) { guardCheck(da,n); guardCheck(sa,n); }
  bool fs=false, fd=false; for (u64 a=sa>>12;a<=(sa+n-1)>>12;++a) if (__sym_pageflag[a&0xffff]) fs=true; for (u64 a=da>>12;a<=(da+n-1)>>12;++a) if (__sym_pageflag[a&0xffff]) fd=true;
  if (!fs) { if (fd) clearMem(da,n); return; }
  std::vector<Expr*> t(n); bool any=false; for (u64 i=0;i<n;++i) { t[i]=getB(sa+i); if (t[i]) { if (ev(t[i],CurRun)!=*(u8*)(sa+i)) { ++NStale; t[i]=nullptr; } else any=true; } }
  if (!any) { clearMem(da,n); return; }
  for (u64 i=0;i<n;++i) setB(da+i,t[i]);
}
void _sym_memset(void* d, Expr* s, u64 v, u64 n) { if (!n) return; if (guardsOn()) guardCheck((u64)d,n); if (!s) clearMem((u64)d,n); else { Expr* b=extract(s,0,8); for (u64 i=0;i<n;++i) setB((u64)d+i,isC(b)?nullptr:b); } }
void _sym_clear(void* p, u64 n) { clearMem((u64)p,n); }
// native function receives a pointer whose page may hold symbolic bytes
void _sym_ext_ptr(const char* name, void* p, u64 site) {
  static std::unordered_map<std::string,int> pol; // 0 ignore 1 pin object 2 sink
  auto it=pol.find(name); int k;
  if (it==pol.end()) {
    std::string n=name; auto sw=[&](const char* s){ return n.compare(0,strlen(s),s)==0; };
    if (n.find("_Rb_tree")!=std::string::npos || n.find("_List_node_base")!=std::string::npos || sw("_ZSt18_Rb_tree") || n.find("_Prime_rehash")!=std::string::npos || n.find("exception")!=std::string::npos || n.find("_errorC")!=std::string::npos || n.find("_errorD")!=std::string::npos || n.find("ios_base")!=std::string::npos || n.find("localeC")!=std::string::npos|| n.find("localeD")!=std::string::npos || sw("__cxa") || sw("__dynamic_cast")) k=0;
    else if (sw("_ZNSo")||sw("_ZStls")||sw("_ZSt16__ostream_insert")||n.find("basic_ostream")!=std::string::npos||n.find("basic_ios")!=std::string::npos || n.find("basic_streambuf")!=std::string::npos|| sw("_ZNSi")|| n.find("basic_istream")!=std::string::npos || n.find("basic_stringbuf")!=std::string::npos|| n.find("stringstream")!=std::string::npos) k=2;
    else k=1;
    pol[n]=k;
  } else k=it->second;
  u64 a=(u64)p; if (k==0) return;
  u64 lo,hi; if (!region(a,lo,hi)) { lo=a; hi=a+64; for (auto& g: Guards) if (a>=g.lo&&a<=g.hi) hi=g.hi; }
  if (hi>a+256) hi=a+256;
  bool any=false; for (u64 x=a;x<hi;++x) { if (!__sym_pageflag[(x>>12)&0xffff]) continue; Expr* b=getB(x); if (!b) continue; if (ev(b,CurRun)!=*(u8*)x) { ++NStale; setB(x,nullptr); continue; } any=true; if (k==1) pinE(b,*(u8*)x,site+(x-a)); }
  if (any) ExtWarn[std::string(k==1?"pin ":"sink ")+name]++;
}
void _sym_register_global(void* p, u64 n) { Regions[(u64)p]=n; }
struct UndoR { u64 a,n; bool del; }; static std::vector<UndoR> Undo;
static void regAlloc(void* p, u64 n) { if (!p) return; clearMem((u64)p,n); u64 a=(u64)p; Regions[a]=n; if (Exploring) Undo.push_back({a,n,false}); ++AllocCount; ++AllocLive; }
// Arena for everything allocated by instrumented code; its contents are restored before every path,
// so that each path starts from the same state and sees the same addresses.
static const u64 ABase=0x600000000000ull, ASize=4ull<<30, AHdr=4096;
static inline u64* ah() { return (u64*)ABase; } // [0] top, [1..] free lists
static bool ainit() { static bool d=false; if (!d) { d=true; if (mmap((void*)ABase,ASize,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED) _exit(3); ah()[0]=ABase+AHdr; } return true; }
static int acls(u64 n) { if (n<=2048) return (n+15)/16; int c=64-__builtin_clzll(n-1); return 130+c; }
static u64 asize(int c) { return c<=128? (u64)c*16: 1ull<<(c-130); }
static inline bool inArena(void* p) { return (u64)p>=ABase && (u64)p<ABase+ASize; }
static void* aalloc(u64 n) {
  ainit(); if (!n) n=1; int c=acls(n); u64* f=&ah()[1+c]; u64 p=*f;
  if (p) *f=*(u64*)p; else { u64 sz=asize(c)+16; p=ah()[0]+16; if (p+sz>ABase+ASize) return nullptr; ah()[0]+=sz; ((u64*)p)[-2]=c; }
  ((u64*)p)[-1]=n; memset((void*)p,0xA5,n<=65536?n:256); return (void*)p;
}
static void afree(void* q) { u64 p=(u64)q; u64 n=((u64*)p)[-1]; memset((void*)p,0xDB,n<=65536?n:256); u64* f=&ah()[1+((u64*)p)[-2]]; *(u64*)p=*f; *f=p; }
void* __sym_malloc(size_t n) { if (n>(1ull<<31)) return nullptr; void* p=aalloc(n); regAlloc(p,n); return p; }
void* __sym_new(size_t n) { void* p= n<(1ull<<31)? aalloc(n): nullptr; if (!p) throw std::bad_alloc(); regAlloc(p,n); return p; }
void* __sym_calloc(size_t a, size_t b) { u64 n; if (__builtin_mul_overflow(a,b,&n)||n>(1ull<<31)) return nullptr; void* p=aalloc(n); if (p) memset(p,0,n); regAlloc(p,n); return p; }
void __sym_free(void* p) {
  if (!p) return; auto it=Regions.find((u64)p);
  if (!inArena(p)) { if (!Exploring) free(p); return; }
  if (it==Regions.end()) { if (Exploring) fail("free of memory that is not allocated"); abort(); }
  clearMem((u64)p,it->second); if (Exploring) Undo.push_back({(u64)p,it->second,true}); Regions.erase(it); --AllocLive; afree(p);
}
void* __sym_realloc(void* p, size_t n) { if (!p) return __sym_malloc(n); u64 old=0; auto it=Regions.find((u64)p); if (it!=Regions.end()) old=it->second; void* q=__sym_malloc(n); u64 c=std::min<u64>(old,n); _sym_memcpy(q,p,c); memcpy(q,p,c); __sym_free(p); return q; }
void __sym_delete(void* p, size_t) { __sym_free(p); }

// ---------- harness API
static void checkVars(unsigned n) { if (NVars+n>MAXV) { fprintf(stderr,"too many symbolic bytes\n"); _exit(3); } if (Input.size()<NVars+n) Input.resize(NVars+n,0); }
void sym_make(void* p, size_t n) { checkVars(n); for (size_t i=0;i<n;++i) { ((u8*)p)[i]=Input[NVars]; setB((u64)p+i,var(NVars)); ++NVars; } }
uint64_t sym_choice(uint64_t n) {
  if (n<=1) return 0; unsigned k= n<=256?1: n<=65536?2:4; checkVars(k); Expr* e=nullptr; u64 v=0;
  for (unsigned i=0;i<k;++i) { Expr* x=var(NVars); v|=(u64)Input[NVars]<<(8*i); e= e? concat(x,e): x; ++NVars; }
  if (n>>(8*k)==0) { bool ok=v<n; Expr* c=mk(OP_ULT,e,K(e->w,n)); branch(c,ok,0xC401+n); if (!ok) siglongjmp(JB,1); }
  pinE(e,v,0xC402); return v;
}
void sym_assume_(int c) { if (!c) siglongjmp(JB,1); }
void sym_fail_(const char* m) { fail(m); }
void sym_known(const char* id, const char* m) { if (!knownId(id)) fail(m); Cover[std::string("known:")+id]++; siglongjmp(JB,6); }
void sym_cover(const char* l) { Cover[l]++; }
void sym_output(uint64_t v) { OutHash=(OutHash^v)*1099511628211ull+7; }
void sym_note(const char* t) { Note=t; }
void sym_pin_bytes(const void* p, size_t n) { _sym_pin_mem((void*)p,n,0x9100); }
int sym_is_native(void) { return 0; }
uint64_t sym_alloc_count(void) { return AllocCount; }
uint64_t sym_alloc_live(void) { return AllocLive; }
static u8* GArena; static size_t GOff;
unsigned char* sym_guarded(size_t n) {
  const size_t A=64<<20; if (!GArena) { GArena=(u8*)mmap((void*)0x700000000000ull,A,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); GOff=0; }
  size_t pg=(n+4095)/4096; if (!pg) pg=1; u64 b=(u64)GArena+GOff+4096; GOff+=(pg+2)*4096; if (GOff>A) { fprintf(stderr,"guard arena\n"); _exit(3); }
  mprotect((void*)b,pg*4096,PROT_READ|PROT_WRITE); u64 lo=b+pg*4096-n; memset((void*)b,0xA5,pg*4096);
  Guards.push_back({lo,lo+n,b-4096,b+pg*4096+4096}); for (u64 a=b-4096;a<b+(pg+1)*4096;a+=4096) { __sym_pageflag[(a>>12)&0xffff]=1; __sym_pageflag[((a>>12)-1)&0xffff]=1; }
  return (u8*)lo;
}
} // extern C

// ---------- exploration
struct Snap { u64 len; std::vector<std::pair<u64,std::vector<u8>>> globs; u64 count, live; }; static Snap SN;
static void takeSnap() {
  Undo.clear(); ainit(); SN.globs.clear(); { u64 len=(ah()[0]-ABase+4095)&~4095ull; static int fd=-1; if (fd>=0) { /* keep the old mapping alive until replaced */ } int nf=memfd_create("snap",0); for (u64 o=0;o<len;) { ssize_t k=pwrite(nf,(void*)(ABase+o),len-o,o); if (k<=0) { fprintf(stderr,"snapshot\n"); _exit(3); } o+=k; } if (mmap((void*)ABase,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_FIXED|MAP_NORESERVE,nf,0)==MAP_FAILED) { fprintf(stderr,"snapshot map\n"); _exit(3); } if (fd>=0) close(fd); fd=nf; SN.len=len; } SN.count=AllocCount; SN.live=AllocLive;
  std::vector<std::pair<u64,u64>> wr; FILE* f=fopen("/proc/self/maps","r"); char l[512]; while (f && fgets(l,sizeof l,f)) { unsigned long a,b; char pm[8]; if (sscanf(l,"%lx-%lx %7s",&a,&b,pm)==3 && pm[1]=='w') wr.push_back({a,b}); } if (f) fclose(f);
  for (auto& r: Regions) if (!inArena((void*)r.first)) for (auto& x: wr) if (r.first>=x.first && r.first<x.second) SN.globs.push_back({r.first,std::vector<u8>((u8*)r.first,(u8*)r.first+r.second)});
}
static void restoreSnap() {
  for (size_t i=Undo.size();i-->0;) { if (Undo[i].del) Regions[Undo[i].a]=Undo[i].n; else Regions.erase(Undo[i].a); } Undo.clear();
  madvise((void*)ABase,SN.len,MADV_DONTNEED); for (auto& g: SN.globs) if (memcmp((void*)g.first,g.second.data(),g.second.size())) memcpy((void*)g.first,g.second.data(),g.second.size());
  AllocCount=SN.count; AllocLive=SN.live;
}
static std::string Only; static bool ListOnly; static u64 MaxPaths=~0ull; static double Budget=1e9; static unsigned PathSecs=20; static FILE* Out; static int MaxViol=8; static bool Trace; static bool AllSamples, Fns;
static std::string hex(const std::vector<u8>& v) { std::string s; char b[3]; for (u8 x: v) { snprintf(b,3,"%02x",x); s+=b; } return s; }
static std::string esc(const std::string& s) { std::string r; for (char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if ((u8)c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static const char* CurInst; static std::vector<std::pair<std::string,u64>> Samples; static double T0; static sig_atomic_t CrashSig;
static void report(bool complete, const char* why) {
  std::string s="{\"instance\":\""+esc(CurInst)+"\",\"complete\":"+(complete?"true":"false")+",\"why\":\""+why+"\"";
  auto num=[&](const char* k, double v){ char b[96]; if (v==(double)(u64)v) snprintf(b,96,",\"%s\":%llu",k,(unsigned long long)v); else snprintf(b,96,",\"%s\":%.4f",k,v); s+=b; };
  num("paths",NPaths); num("assumed_away",NAssume); num("branches",NBranches); num("queries",NQuery); num("sat",NSat); num("unsat",NUnsat); num("unknown",NUnknown); num("cache_hits",NCache); num("solver_s",SolverS); num("max_query_s",MaxQ);
  num("engine_errors",NEngineErr); num("stale",NStale); num("soft_div",NSoft); num("pins",NPinned); num("max_decisions",MaxDec); num("exprs",Table.size()); num("wall_s",now()-T0); num("implied",NImplied+NSmallUnsat);
  s+=",\"engine_msg\":\""+esc(EngineMsg)+"\",\"cover\":{"; bool f=true; for (auto& c: Cover) { if (!f) s+=","; f=false; s+="\""+esc(c.first)+"\":"+std::to_string(c.second); }
  s+="},\"ext\":{"; f=true; for (auto& c: ExtWarn) { if (!f) s+=","; f=false; s+="\""+esc(c.first)+"\":"+std::to_string(c.second); }
  s+="},\"violations\":["; f=true; for (auto& v: Viols) { if (!f) s+=","; f=false; s+="{\"msg\":\""+esc(v.msg)+"\",\"note\":\""+esc(v.note)+"\",\"input\":\""+hex(v.in)+"\"}"; }
  s+="],\"samples\":["; f=true; for (auto& v: Samples) { if (!f) s+=","; f=false; char b[32]; snprintf(b,32,"%016llx",(unsigned long long)v.second); s+="[\""+v.first+"\",\""+b+"\"]"; }
  s+="]}\n"; fputs(s.c_str(),Out); fflush(Out);
}
static std::string Pending; static bool inSetup() { return !Pending.empty(); }
static void resetAll();
static void onSig(int sg) {
  if (!Exploring && !inSetup()) { signal(sg,SIG_DFL); raise(sg); return; }
  const char* n= sg==SIGSEGV?"SIGSEGV": sg==SIGBUS?"SIGBUS": sg==SIGFPE?"SIGFPE": sg==SIGILL?"SIGILL": sg==SIGABRT?"SIGABRT":"timeout";
  std::string m= sg==SIGALRM||sg==SIGVTALRM||sg==SIGPROF? std::string("does not return within the step limit"): std::string("crash ")+n;
  if (!Exploring) { resetAll(); CurInst=Pending.c_str(); Viols.push_back({m+" while setting up",Note,{}}); report(false,"stopped at crash"); _exit(7); }
  Viols.push_back({m,Note,std::vector<u8>(Input.begin(),Input.begin()+NVars)});
  report(false,"stopped at crash"); _exit(7);
}
static u64* Claim; static u64 InstIdx; static u64 MyClaim=~0ull; static std::string Prefix;
static void flushPending(const char* why) { if (Pending.empty()) return; fprintf(Out,"{\"instance\":\"%s\",\"skipped\":\"%s\"}\n",esc(Pending).c_str(),why); fflush(Out); Pending.clear(); }
extern "C" void sym_skip(const char* why) { flushPending(why); }
extern "C" int sym_want(const char* i) {
  if (ListOnly) { fprintf(Out,"%s\n",i); return 0; }
  flushPending("not explored");
  if (!Only.empty()) { if (Only==i) Pending=i; return Only==i; }
  u64 idx=InstIdx++;
  if (now()>Deadline) return 0;
  if (Claim) {
    if (MyClaim==~0ull) { if (Table.size()>2500000) { fflush(Out); _exit(7); } MyClaim=__atomic_fetch_add(Claim,1,__ATOMIC_SEQ_CST); }
    if (idx<MyClaim) return 0;
    if (idx>MyClaim) { fprintf(stderr,"claim order\n"); _exit(3); }
    MyClaim=~0ull;
  }
  Pending=i; struct itimerval tv{}; tv.it_value.tv_sec=3*PathSecs; setitimer(ITIMER_PROF,&tv,0); return 1;
}
struct FnReg { u8* flag; const char* name; }; static std::vector<FnReg>& fnRegs() { static std::vector<FnReg> v; return v; } static std::set<std::string> FnHit;
extern "C" void _sym_register_fn(u8* f, const char* n) { fnRegs().push_back({f,n}); }
static void collectFns() { for (auto& f: fnRegs()) if (*f.flag) { FnHit.insert(f.name); *f.flag=0; } }
static void resetAll() { for (auto& c: Stack) (void)c; Stack.clear(); NPaths=NAssume=NBranches=NDiverge=NSoft=NStale=NEngineErr=NPinned=MaxDec=0; NQuery=NSat=NUnsat=NUnknown=NCache=NSmallUnsat=NImplied=0; SolverS=MaxQ=0; Cover.clear(); ExtWarn.clear(); Viols.clear(); ViolCount.clear(); Samples.clear(); Input.clear(); EngineMsg.clear(); }
extern "C" void sym_explore(const char* inst, sym_fn f, void* arg) {
  if (ListOnly || Pending!=inst) return;
  Pending.clear(); static bool fnInit=false; if (!fnInit) { fnInit=true; for (auto& f: fnRegs()) *f.flag=0; } std::vector<u8*> pre; for (auto& f: fnRegs()) { if (*f.flag && !FnHit.count(f.name)) pre.push_back(f.flag); *f.flag=0; }
  takeSnap(); resetAll(); CurInst=inst; T0=now(); bool complete=true; const char* why="";
  u64 nextSample=1; u64 rounds=0;
  for (;;) {
    ++CurRun; PC.clear(); memset(DomAt,0,sizeof DomAt); memset(KDom,0xff,sizeof KDom); PCSet.clear(); Pos=0; NVars=0; Guards.clear(); if (GArena&&GOff) { mprotect(GArena,GOff,PROT_NONE); } GOff=0; resetShadow(); OutHash=1469598103934665603ull; Note.clear(); __sym_callee=0; __sym_retfn=0;
    struct itimerval tv{}; tv.it_value.tv_sec=PathSecs; setitimer(ITIMER_PROF,&tv,0);
    Exploring=true;
    int r=sigsetjmp(JB,0);
    if (r==0) { try { f(arg); } catch (const std::exception& e) { std::string m=std::string("uncaught exception: ")+e.what(); int n=ViolCount[m]++; if (n<3) Viols.push_back({m,Note,std::vector<u8>(Input.begin(),Input.begin()+NVars)}); r=2; } }
    Exploring=false; Guards.clear(); restoreSnap();
    tv.it_value.tv_sec=0; setitimer(ITIMER_PROF,&tv,0); ++rounds;
    if (r==0||r==2||r==6) { ++NPaths; if (r==0 && (AllSamples || NPaths>=nextSample)) { Samples.push_back({hex(std::vector<u8>(Input.begin(),Input.begin()+NVars)),OutHash}); nextSample=nextSample<16? nextSample+1 : nextSample+nextSample/3; } }
    else if (r==1) ++NAssume;
    else if (r==5) { complete=false; why="divergence"; break; }
    if (Stack.size()>MaxDec) MaxDec=Stack.size();
    if (Trace) { fprintf(stderr,"path %llu r=%d dec=%zu in=%s\n",(unsigned long long)NPaths,r,Stack.size(),hex(Input).c_str()); }
    if ((int)Viols.size()>=MaxViol) { complete=false; why="violations"; break; }
    while (!Stack.empty() && (Stack.back().implied||Stack.back().done||!Stack.back().hasAlt)) Stack.pop_back();
    if (Stack.empty()) break;
    if (NPaths>=MaxPaths || now()>Deadline || now()-T0>Budget) { complete=false; why="budget"; break; }
    if (Table.size()>12000000) { complete=false; why="memory"; break; }
    Dec& d=Stack.back(); d.done=true; d.val=!d.val; Input.assign(d.alt.begin(),d.alt.end()); d.alt.clear();
  }
  if (NEngineErr) { complete=false; if (!*why) why="engine error"; }
  report(complete,why); collectFns();
}
static void setupFailFn(void* m) { sym_note((const char*)m); sym_fail_((const char*)m); }
extern "C" void sym_setup_fail(const char* inst, const char* m) { sym_explore(inst,setupFailFn,(void*)m); }
void operator delete(void* p) noexcept { if (!p) return; if (inArena(p)) __sym_free(p); else { if (Exploring) clearMem((u64)p,malloc_usable_size(p)); free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void harness_main(int argc, char** argv);
static const char* EmptyArgs[]={"h",nullptr};
int main(int argc, char** argv) {
  Out=stdout; std::vector<char*> rest{argv[0]}; double total=1e9;
  for (int i=1;i<argc;++i) { std::string a=argv[i];
    if (a=="--list") ListOnly=true; else if (a=="--only") Only=argv[++i]; else if (a=="--paths") MaxPaths=strtoull(argv[++i],0,10); else if (a=="--budget") Budget=atof(argv[++i]); else if (a=="--total") total=atof(argv[++i]);
    else if (a=="--pathsecs") PathSecs=atoi(argv[++i]); else if (a=="--out") Out=fopen(argv[++i],"a"); else if (a=="--dumpq") DumpQ=fopen(argv[++i],"w"); else if (a=="--maxviol") MaxViol=atoi(argv[++i]); else if (a=="--trace") Trace=true; else if (a=="--claim") { int fd=open(argv[++i],O_RDWR); Claim=(u64*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if (Claim==MAP_FAILED) { fprintf(stderr,"claim\n"); _exit(3); } } else if (a=="--allsamples") AllSamples=true; else if (a=="--fns") Fns=true; else rest.push_back(argv[i]); }
  Deadline=now()+total; StackHi=((u64)__builtin_frame_address(0)|4095)+1; StackLo=StackHi-(4<<20);
  static char alt[1<<16]; stack_t ss{}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0);
  struct sigaction sa{}; sa.sa_handler=onSig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for (int s: {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGPROF}) sigaction(s,&sa,0);
  struct rlimit rl{3ull<<30,3ull<<30}; rl.rlim_cur=rl.rlim_max=12ull<<30; setrlimit(RLIMIT_AS,&rl);
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,0);
  const char* sl=getenv("LG_SOLVER"); if (!sl) sl="QF_BV"; if (getenv("LG_DEFS")) DefLimit=atoi(getenv("LG_DEFS"));
  ZS= !sl||!strcmp(sl,"simple")? Z3_mk_simple_solver(Z): Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,sl)); Z3_solver_inc_ref(Z,ZS);
  Z3_params ps=Z3_mk_params(Z); Z3_params_inc_ref(Z,ps); Z3_params_set_uint(Z,ps,Z3_mk_string_symbol(Z,"timeout"),QTimeout); Z3_solver_set_params(Z,ZS,ps);
  harness_main(rest.size(),rest.data());
  flushPending("not explored");
  if (Fns) { std::string f="{\"functions\":["; bool first=true; for (auto& n: FnHit) { if (!first) f+=","; first=false; f+="\""+esc(n)+"\""; } f+="]}\n"; fputs(f.c_str(),Out); }
  fflush(Out); _exit(0);
}
