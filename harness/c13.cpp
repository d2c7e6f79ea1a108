// C13: a character class matches exactly the set that its operators denote.
#include "lg.h"
#include "re.h"
#include "rangeset.h"
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
// ---------- the algebra of sets of code points, with symbolic end points
typedef std::pair<uint32_t,uint32_t> R;
struct ACase { int op, ka, kb; };
template <uint32_t N> static uint32_t point() { uint32_t v=0; sym_make(&v,N>255?3:1); if (N>255) sym_assume(v<=N); return v; }
template <uint32_t N> static R range() { R r; r.first=point<N>(); r.second=point<N>(); sym_assume(r.first<r.second); return r; }
static bool in(const std::vector<R>& v, uint32_t x) { bool b=false; for (auto& r: v) b|= (x>=r.first)&(x<r.second); return b; }
template <uint32_t N> static void runAlg(void* p) {
  typedef RangeSet<uint32_t,N> Set;
  ACase& c=*(ACase*)p; std::vector<R> a,b; Set A,B;
  for (int i=0;i<c.ka;++i) { a.push_back(range<N>()); A.insert(a.back()); } for (int i=0;i<c.kb;++i) { b.push_back(range<N>()); B.insert(b.back()); }
  uint32_t x=point<N>(), y=point<N>(); sym_assume(x<N); sym_assume(y<N); bool ia=in(a,x), ib=in(b,x), w=false; Set C(A);
  auto note=[&]{ std::string s; for (auto& r: a) s+="["+std::to_string(r.first)+","+std::to_string(r.second)+") "; s+="op "+std::to_string(c.op); for (auto& r: b) s+=" ["+std::to_string(r.first)+","+std::to_string(r.second)+")"; s+=" at "+std::to_string(x)+" / "+std::to_string(y); sym_note(s.c_str()); };
  switch (c.op) {
    case 0: C|=B; w=ia|ib; break; case 1: C&=B; w=ia&ib; break; case 2: C-=B; w=ia&!ib; break; case 3: C^=B; w=ia^ib; break; case 4: C.flip(); w=!ia; break;
    case 5: C.set(y); w=ia|(x==y); break; case 6: C.reset(y); w=ia&(x!=y); break; case 7: C.flip(y); w=ia^(x==y); break;
    case 8: if (sym_decide(x<y)) C.erase(x,y); else if (sym_decide(x==y)) C.erase(x,y); else return; w= x==y? ia: false; break;
    case 9: C|=C; w=ia; break; case 10: C^=A; w=false; break; case 11: C-=A; w=false; break; case 12: C&=A; w=ia; break;
  }
  bool got=sym_decide(C.test(x)); CK(got==sym_decide(w),"a set operation gives a wrong set"); sym_cover(got?"in the set":"not in the set");
  // the representation is canonical and iterates over exactly the set
  bool it=false, ok=true, first=true; uint32_t prev=0; typename Set::size_type n=0;
  for (auto r: C) { ok&= r.first<r.second; if (!first) ok&= r.first>prev; prev=r.second; ok&= r.second<=N; it|= (x>=r.first)&(x<r.second); n+=r.second-r.first; first=false; }
  CK(sym_decide(ok),"a set is not kept as separate increasing ranges"); CK(sym_decide(it==got),"iterating over a set shows another set"); if (c.ka+c.kb<2) CK(sym_decide(n==C.count()),"the size of a set is wrong"); CK(C.none()==first && C.any()!=first,"a set is not known to be empty");
  sym_output(got);
}
// ---------- classes in patterns
struct Den { ref::Set s; bool b[256]={}; bool add=true; bool bytes() const { for (bool x: b) if (x) return true; return false; } bool empty() const { return s.r.empty() && (!add || !bytes()); } };
struct Gen {
  Rng r; bool deep, breakout, ci; bool bad=false;
  Gen(uint64_t seed): r(seed) {}
  static std::string hex(uint32_t c) { char b[24]; snprintf(b,sizeof b,"\\x{%X}",c); return b; }
  uint32_t ch() { static const uint32_t pool[]={'a','b','c','d','e','f','A','B','z','Z','0','5','9','_','-','^',']','&','~','.','*','|','(','$','{',',',' ','\n',0x7f,0x80,0xc3,0xe9,0xff,0x100,0x3a9,0x7ff,0x800,0xd7ff,0xe000,0xffff,0x10000,0x1f600,0x10ffff}; return r(3)? pool[r(8)]: pool[r(sizeof pool/sizeof *pool)]; }
  std::string spell(uint32_t c) {
    if (c=='\n') return r(2)?"\\n":"\\x0a";
    if (c=='-'||c=='^'||c==']'||c=='&'||c=='~') return std::string("\\")+(char)c;
    if (c<0x80 && c>=32) { if (c!='[' && c!='\\' && r(6)) return std::string(1,(char)c); char b[8]; snprintf(b,sizeof b,r(2)?"\\x%02x":"\\%03o",c); return b; }
    if (c<0x100 && r(2)) { char b[8]; snprintf(b,sizeof b,r(2)?"\\x%02X":"\\%03o",c); return b; }
    return r(2)||c<0x80? hex(c): ref::encode(ref::U8,c);
  }
  Den atom(std::string& o, int depth) {
    Den d; int k=r(12);
    if (depth>0 && k<4) { o+="["; bool neg=r(4)==0; if (neg) o+="^"; d=expr(o,neg,depth-1); o+="]"; return d; }
    if (k<6) { uint32_t a=ch(), b=ch(); if (a>b) std::swap(a,b); if (a==b) { if (b==0x10ffff) --a; else ++b; } if (a>=0xd800&&a<0xe000) a=0xe000; if (b>=0xd800&&b<0xe000) b=0xe000; if (a==b) a='a'; o+=spell(a); o+="-"; o+=spell(b); d.s.add(a,b); return d; }
    if (k==6) { static const char* n="dDsSwWhHvV"; char c=n[r(10)]; o+="\\"; o+=c; d.s=ref::Regex::named(c); return d; }
    if (k==7 && breakout) { int a=r(256), b=a; char t[16]; if (r(2)) { b=r(256); if (b<a) std::swap(a,b); } if (a==b) snprintf(t,sizeof t,"\\z%02x",a); else snprintf(t,sizeof t,"\\z%02X-\\z%02x",a,b); o+=t; for (int i=a;i<=b;++i) d.b[i]=true; return d; }
    uint32_t c=ch(); o+=spell(c); d.s.add(c,c); return d;
  }
  // operators apply from left to right, each to what stands before it and the next operand
  Den expr(std::string& o, bool neg, int depth) {
    Den d=atom(o,depth); int n=r(4);
    for (int i=0;i<n;++i) {
      int op=r(7); if (op==4) o+="&&"; else if (op==5) o+="--"; else if (op==6) o+="~~"; Den e=atom(o,depth); if (!d.add||!e.add) bad=true;
      switch (op) { default: d.s=ref::Set::uni(d.s,e.s); break; case 4: d.s=ref::Set::inter(d.s,e.s); break; case 5: d.s=ref::Set::minus(d.s,e.s); break; case 6: d.s=ref::Set::xorr(d.s,e.s); break; }
      for (int j=0;j<256;++j) { bool x=d.b[j], y=e.b[j]; d.b[j]= op==4? x&&y: op==5? x&&!y: op==6? x!=y: x||y; }
    }
    if (neg) { if (d.s.r.empty() && d.bytes()) for (bool& x: d.b) x=!x; else { if (!d.s.r.empty() && d.bytes()) d.add=false; d.s=d.s.neg(); } if (!d.add && deep) bad=true; }
    if (d.empty()) bad=true; return d;
  }
};
struct Case { LG_HCONTEXT c; int e, n; Den d; bool rep; };
static void run(void* v) {
  Case& c=*(Case*)v; int n=1+(int)sym_choice(c.n); unsigned char* t=sym_guarded(n); sym_make(t,n);
  Hits h; lg_reset_context(c.c); lg_starts_with(c.c,(const char*)t,(const char*)t+n,0,&h,onHit); int got= h.v.empty()? 0: (int)(h.v[0].e-h.v[0].s);
  auto note=[&]{ sym_note(("matched "+std::to_string(got)+" of "+std::to_string(n)+" bytes").c_str()); };
  CK(h.v.size()<2 && (!got || !h.v[0].s),"more than one hit, or not at the start"); outHits(h.v); sym_cover(got?"match":"no match");
  ref::Ch g=ref::decode(c.e,t,n,0); bool asChar= g.len && sym_decide(c.d.s.has(g.cp)); if (asChar && !c.d.add && g.len==1 && sym_decide(c.d.b[t[0]])) asChar=false;
  bool asByte= c.d.add && sym_decide(c.d.b[t[0]]); if (asByte) sym_cover("breakout byte");
  if (!got) CK(!asChar && !asByte,"a member of the class does not match"); else CK((asChar && got==g.len) || (asByte && got==1),"bytes outside the class match");
}
void harness_main(int argc, char** argv) {
  int seed=argInt(argc,argv,"--seed",1), gen=argInt(argc,argv,"--gen",60), k=argInt(argc,argv,"--k",2), maxd=argInt(argc,argv,"--maxdepth",3);
  static const char* ops[]={"union","intersection","difference","xor","negation","set","reset","flip1","erase","self-union","self-xor","self-difference","self-intersection"};
  for (int op=0;op<13;++op) for (int a=0;a<=k;++a) for (int b=0;b<=(op<4?k:0);++b) for (int full=0;full<2;++full) { if (full && a+b>2-(op<4)) continue; std::string inst=std::string(full?"code points/":"bytes/")+ops[op]+"/"+std::to_string(a)+"/"+std::to_string(b); if (!sym_want(inst.c_str())) continue; ACase c{op,a,b}; sym_explore(inst.c_str(),full?runAlg<0x110000>:runAlg<255>,&c); }
  struct F { const char* pat; std::function<void(Den&)> f; }; auto S=[](Den& d, uint32_t a, uint32_t b){ d.s.add(a,b); };
  std::vector<F> fixed={
    {"[]a]",[&](Den& d){ S(d,']',']'); S(d,'a','a'); }},{"[-a]",[&](Den& d){ S(d,'-','-'); S(d,'a','a'); }},{"[a-]",[&](Den& d){ S(d,'-','-'); S(d,'a','a'); }},{"[a^]",[&](Den& d){ S(d,'^','^'); S(d,'a','a'); }},{"[^^]",[&](Den& d){ S(d,'^','^'); d.s=d.s.neg(); }},{"[^-a]",[&](Den& d){ S(d,'-','-'); S(d,'a','a'); d.s=d.s.neg(); }},
    {"[a&b]",[&](Den& d){ S(d,'a','b'); S(d,'&','&'); }},{"[a~b]",[&](Den& d){ S(d,'a','b'); S(d,'~','~'); }},{"[a-\\d]",[&](Den& d){ S(d,'a','a'); S(d,'-','-'); S(d,'0','9'); }},{"[\\d-a]",[&](Den& d){ S(d,'a','a'); S(d,'-','-'); S(d,'0','9'); }},{"[ab-[cd]]",[&](Den& d){ S(d,'a','d'); S(d,'-','-'); }},{"[^b-[cd]]",[&](Den& d){ S(d,'b','d'); S(d,'-','-'); d.s=d.s.neg(); }},{"[[a-f]--[b-d]e]",[&](Den& d){ S(d,'a','a'); S(d,'e','f'); }},{"[[abcd][bce]]",[&](Den& d){ S(d,'a','e'); }},{"[[abcd]&&[bce]]",[&](Den& d){ S(d,'b','c'); }},{"[[abcd]--[bce]]",[&](Den& d){ S(d,'a','a'); S(d,'d','d'); }},{"[[abcd]~~[bce]]",[&](Den& d){ S(d,'a','a'); S(d,'d','e'); }},
    {"[Q\\z00-\\z7F]",[&](Den& d){ S(d,'Q','Q'); for (int i=0;i<128;++i) d.b[i]=true; }},{"[^\\zff]",[&](Den& d){ for (int i=0;i<255;++i) d.b[i]=true; }},{"[^a\\zff]",[&](Den& d){ S(d,'a','a'); d.s=d.s.neg(); d.b[255]=true; d.add=false; }},{"[^a\\z62]",[&](Den& d){ S(d,'a','a'); d.s=d.s.neg(); d.b['b']=true; d.add=false; }},{"[\\z80-\\zff]",[&](Den& d){ for (int i=128;i<256;++i) d.b[i]=true; }},{"[\\z61-\\d]",[&](Den& d){ S(d,'0','9'); S(d,'-','-'); d.b['a']=true; }},{"[.*+?(|){}$]",[&](Den& d){ for (char c: std::string(".*+?(|){}$")) S(d,c,c); }},{"[<=!,]",[&](Den& d){ for (char c: std::string("<=!,")) S(d,c,c); }},{"[[^a]&&[^b]]",[&](Den& d){ S(d,'a','b'); d.s=d.s.neg(); }},{"[[^a]~~[^b]]",[&](Den& d){ S(d,'a','b'); }},{"[^[^ab]]",[&](Den& d){ S(d,'a','b'); }},{"[\\p{AHex}--[a-f]]",[&](Den& d){ S(d,'0','9'); S(d,'A','F'); }},{"[\\P{AHex}&&\\w]",[&](Den& d){ S(d,'G','Z'); S(d,'g','z'); S(d,'_','_'); }},{"[^\\d\\D]",nullptr},{"[a&&b]",nullptr},{"[\\b]",[&](Den& d){ S(d,8,8); }},{"[\\x{1F600}é]",[&](Den& d){ S(d,0x1f600,0x1f600); S(d,0xe9,0xe9); }}};
  static const char* encs[]={"UTF-8","ISO-8859-1","UTF-16LE","UTF-16BE","UTF-32LE"};
  auto one=[&](const std::string& pat, const char* enc, const Den& d, bool refuse) {
    std::string inst=std::string(enc)+" "+pat; if (!sym_want(inst.c_str())) return; int e=ref::encOf(enc); Pat p; p.p=pat; p.enc=enc; Built b=build({p});
    bool none= refuse; if (!refuse && e==ref::LATIN1) { none=true; for (int i=0;i<256;++i) if ((d.s.has(i)&&(d.add||!d.b[i]))||(d.add&&d.b[i])) none=false; }
    if (!b.prog) { if (none) { sym_skip("empty class, refused"); return; } sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); return; }
    if (refuse) { drop(b); sym_setup_fail(inst.c_str(),"an empty class is accepted"); return; }
    Case c{b.ctx,e,e==ref::LATIN1?2:4,d}; sym_explore(inst.c_str(),run,&c); drop(b); };
  for (auto& f: fixed) { Den d; if (f.f) f.f(d); for (int i=0;i<(f.f?2:1);++i) one(f.pat,encs[i],d,!f.f); }
  Gen g(seed*31337+11); int made=0; while (made<gen) { std::string pat="["; bool neg=g.r(3)==0; if (neg) pat+="^"; g.bad=false; g.breakout=g.r(3)==0; int depth=g.r(maxd); g.deep=true; Den d;
    d=g.expr(pat,neg,0); if (depth) { pat= neg?"[^":"["; g.bad=false; g.deep=true; struct Top {}; d=Den(); Den x=g.expr(pat,false,depth); if (neg) { if (!x.add) g.bad=true; if (x.s.r.empty()&&x.bytes()) for (bool& q: x.b) q=!q; else { if (x.bytes()) x.add=false; x.s=x.s.neg(); } if (x.empty()) g.bad=true; } d=x; }
    pat+="]"; if (g.bad) continue; one(pat,encs[made%5],d,false); ++made; }
}
