// C20: case-insensitive patterns, ASCII and Unicode mode, inline switches. What the case variants of a
// character are is computed here from ICU's full case folding, one character at a time.
#include "lg.h"
#include "re.h"
#include "gen.h"
#include <unicode/ustring.h>
#include <unicode/uchar.h>
#include <algorithm>
#include <map>
#include <memory>
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
static std::map<uint32_t,std::vector<uint32_t>> Var; // code points with other case variants -> all variants
static void initFold() {
  std::map<std::u16string,std::vector<uint32_t>> by;
  for (uint32_t c=0;c<0x110000;++c) { if (c>=0xd800 && c<0xe000) continue; UChar in[2]; int n=0; if (c>0xffff) { in[n++]=0xd800+((c-0x10000)>>10); in[n++]=0xdc00+((c-0x10000)&0x3ff); } else in[n++]=c;
    UChar o[16]; UErrorCode e=U_ZERO_ERROR; int m=u_strFoldCase(o,16,in,n,U_FOLD_CASE_DEFAULT,&e); if (U_FAILURE(e) || (m==n && !memcmp(o,in,2*n))) continue; by[std::u16string((char16_t*)o,m)].push_back(c); }
  for (auto& p: by) { const std::u16string& s=p.first; if (s.size()==1) p.second.push_back(s[0]); else if (s.size()==2 && s[0]>=0xd800 && s[0]<0xdc00) p.second.push_back(0x10000+((s[0]-0xd800)<<10)+(s[1]-0xdc00)); }
  for (auto& p: by) if (p.second.size()>1) for (uint32_t c: p.second) Var[c]=p.second;
}
static ref::Set fromList(std::vector<uint32_t> v) { std::sort(v.begin(),v.end()); ref::Set s; for (uint32_t c: v) { if (!s.r.empty() && c<=s.r.back().second+1) s.r.back().second=std::max(c,s.r.back().second); else s.r.push_back({c,c}); } return s; }
static ref::Set variants(const ref::Set& s, bool ascii) {
  std::vector<uint32_t> add;
  for (auto& p: Var) if (s.has(p.first)) { if (ascii && p.first<128) add.push_back(p.first^32); else for (uint32_t c: p.second) add.push_back(c); }
  return ref::Set::uni(s,fromList(add));
}
static ref::Set namedUni(int c) {
  static std::map<int,ref::Set> memo; auto it=memo.find(c); if (it!=memo.end()) return it->second; ref::Set s; int l=c|32;
  if (l=='s') s=ref::Set::uni(ref::Regex::named('h'),ref::Regex::named('v'));
  else { std::vector<uint32_t> v; for (uint32_t x=0;x<0x110000;++x) { int m=U_MASK(u_charType(x)); if (l=='d'? m&U_GC_ND_MASK: m&(U_GC_L_MASK|U_GC_N_MASK) || x=='_') v.push_back(x); } s=fromList(v); }
  return memo[c]= c<'a'? s.neg(): s;
}
// ---------- one character
struct One { LG_HCONTEXT c; ref::Set s; uint32_t cp; };
struct Chars { std::vector<One> v; int e; };
static void runChars(void* p) {
  Chars& c=*(Chars*)p; One& o=c.v[sym_choice(c.v.size())]; int n=c.e==ref::LATIN1?1:4; unsigned char* t=sym_guarded(n); sym_make(t,n); Hits h; lg_reset_context(o.c); lg_starts_with(o.c,(const char*)t,(const char*)t+n,0,&h,onHit); int got=h.v.empty()?0:(int)h.v[0].e;
  auto note=[&]{ char b[64]; snprintf(b,sizeof b,"pattern character %x, text %02x %02x %02x %02x",o.cp,t[0],n>1?t[1]:0,n>1?t[2]:0,n>1?t[3]:0); sym_note(b); };
  ref::Ch g=ref::decode(c.e,t,n,0); bool w=g.len && sym_decide(o.s.has(g.cp)); sym_cover(w?"a case variant":"not a case variant"); sym_output(got);
  CK(!w || got,"a case variant does not match"); CK(w || !got,"something else than a case variant matches"); CK(!w || got==g.len,"the hit is not the character");
}
struct Case { LG_HCONTEXT ctx; ref::Regex* re; int n; };
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  std::vector<Hit> h=searchAll(c.ctx,t,n); outHits(h);
  c.re->text(t,n); std::vector<ref::Regex::H> w=c.re->all(); if (c.re->over) { sym_cover("undecided: reference limit"); return; }
  sym_cover(w.empty()?"no hit":w.size()==1?"one hit":"several hits");
  bool eq=h.size()==w.size(); for (size_t i=0;eq&&i<h.size();++i) eq=h[i].s==(uint64_t)w[i].s && h[i].e==(uint64_t)w[i].e && h[i].k==0;
  if (!eq) { std::string s="got "+showHits(h)+" want "; for (auto& x: w) s+="["+std::to_string(x.s)+","+std::to_string(x.e)+") "; sym_note(s.c_str()); sym_fail_("hits differ from the reference"); }
}
static void oneChar(const char* tag, const std::string& p, const std::string& enc, ref::Opt o) {
  std::string inst=std::string(tag)+"/"+enc+"/1"+(o.ci?"/caseless":"")+(o.uni?"/unicode":"/ascii")+"/"+p; if (!sym_want(inst.c_str())) return;
  ref::Regex re(p,ref::encOf(enc),o); if (re.root->k!=ref::CLS) { sym_setup_fail(inst.c_str(),"not one character"); return; }
  Pat pt; pt.p=p; pt.enc=enc; pt.ci=o.ci; pt.uni=o.uni; Built b=build({pt}); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); return; }
  Chars c; c.e=ref::encOf(enc); One x; x.c=b.ctx; x.s=re.root->set; x.cp=0; c.v.push_back(x); sym_explore(inst.c_str(),runChars,&c); drop(b);
}
static void one(const char* tag, const std::string& p, const std::string& enc, int n, ref::Opt o, bool mayRefuse=false) {
  std::string inst=std::string(tag)+"/"+enc+"/n"+std::to_string(n)+(o.fixed?"/fixed":"")+(o.ci?"/caseless":"")+(o.uni?"/unicode":"/ascii")+"/"+p;
  if (!sym_want(inst.c_str())) return;
  std::unique_ptr<ref::Regex> re; try { re.reset(new ref::Regex(p,ref::encOf(enc),o)); } catch (const std::exception& e) { if (mayRefuse) sym_skip("not in the reference syntax"); else sym_setup_fail(inst.c_str(),"not in the reference syntax"); return; }
  Pat pt; pt.p=p; pt.enc=enc; pt.fixed=o.fixed; pt.ci=o.ci; pt.uni=o.uni; Built b=build({pt});
  if (!b.ctx) { if (ref::Regex::nullable(re->root)||mayRefuse) sym_skip("refused"); else sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
  Case c{b.ctx,re.get(),n}; sym_explore(inst.c_str(),run,&c); drop(b);
}
struct SwGen: PatGen {
  using PatGen::PatGen;
  static constexpr const char* sw[]={"(?i)","(?-i)","(?a)","(?-a)","(?i-a)","(?a-i)","(?ia)","(?-ia)"};
  std::string g(int n) {
    if (n<=1) { std::string s; static const char* at[]={"a","b","A","B","k","s","[ab]","[^a]","[^K]","[a-b]","[K-S]","\\x41","."}; s+=at[r(13)]; if (r(4)==0) s+=quant(); return s; }
    int k=1+(int)r(n-1); std::string a=g(k), b=g(n-k), s=r(3)?"":sw[r(8)], m=r(3)==0?sw[r(8)]:"";
    switch (r(4)) { case 0: return a+m+b; case 1: return "("+s+a+m+b+")"; case 2: return "("+s+a+m+"|"+b+")"; default: return a+"("+s+b+")"; }
  }
};
void harness_main(int argc, char** argv) {
  int seed=argInt(argc,argv,"--seed",1), gen=argInt(argc,argv,"--gen",60), step=argInt(argc,argv,"--step",10), n=argInt(argc,argv,"--n",4), full=argInt(argc,argv,"--full",0);
  initFold(); ref::foldHook=variants; ref::namedHook=namedUni; Rng r(seed*31+7);
  // every character that has case variants, and some without
  std::vector<uint32_t> cps; for (auto& p: Var) cps.push_back(p.first);
  for (uint32_t c: {0u,0x1fu,'0'+0u,'['+0u,'@'+0u,'`'+0u,'{'+0u,0x7fu,0x80u,0xbfu,0xd7u,0xdfu,0xf7u,0x149u,0x1f0u,0x2b0u,0x345u,0x37au,0x587u,0x5d0u,0x3042u,0xfb13u,0xfffdu,0x10000u,0x1f600u,0x10ffffu}) if (!Var.count(c)) cps.push_back(c);
  for (int uni=0;uni<2;++uni) for (auto& enc: {"UTF-8","UTF-16LE","UTF-32BE","ISO-8859-1"}) {
    int e=ref::encOf(enc); std::vector<uint32_t> use; int st= e==ref::U8? step: step*4; int off=r(st); for (size_t i=0;i<cps.size();++i) if (cps[i]<0x80 || (int)(i%st)==off || st==1) if (e!=ref::LATIN1 || cps[i]<256) use.push_back(cps[i]);
    for (size_t i=0;i<use.size();i+=8) {
      size_t m=std::min<size_t>(8,use.size()-i); char nm[96]; snprintf(nm,sizeof nm,"characters/%s/%s/%x-%x",uni?"unicode":"ascii",enc,use[i],use[i+m-1]); if (!sym_want(nm)) continue;
      Chars c; c.e=e; std::vector<Built> bs; bool ok=true;
      for (size_t j=0;j<m && ok;++j) { One o; o.cp=use[i+j]; o.s.add(o.cp,o.cp); o.s=variants(o.s,!uni); char p[32]; snprintf(p,sizeof p,"\\x{%x}",o.cp); Pat pt; pt.p=p; pt.enc=enc; pt.ci=1; pt.uni=uni; bs.push_back(build({pt})); o.c=bs.back().ctx; if (!o.c) { sym_setup_fail(nm,("refused: "+bs.back().err).c_str()); ok=false; } c.v.push_back(o); }
      if (ok) sym_explore(nm,runChars,&c); for (auto& b: bs) drop(b);
    } }
  ref::Opt O[4]; for (int i=0;i<4;++i) { O[i].ci=i&1; O[i].uni=i>>1; }
  for (auto& p: {"ab","Ab+","(a|B)c","[a-c]+","[^a-c]","[^k]","[k]","[^\\x{212a}]","[\\x{212a}]","[K-S]","[^K-S]","[\\x{c0}-\\x{ff}]","[^\\x{100}-\\x{17f}]","\\xdf","[\\x{391}-\\x{3a9}]","[^\\x{10400}]","ks","[^s]k","\\x{17f}t","[^\\x{17f}]","[a\\x{3c3}]","\\x{130}","\\x{131}","i\\x{307}","[^i]","[@-\\[]","[`-{]","[\\x00-\\x{10ffff}]","a{2}","(aB){2}","[^aA]a"})
    for (int i=1;i<4;i+=2) { one("caseless",p,"UTF-8",n,O[i]); one("caseless",p,"ISO-8859-1",n-1,O[i],true); }
  for (auto& p: {"\\d","\\w","\\s","\\D","\\W","\\S","[\\d]","[^\\d]","[\\w-]","[^\\w]","[^\\s]","\\d\\w","(?a)\\w","(?-a)\\w","((?a)\\d)\\d","((?-a)\\d)\\d","(?-a)\\d(?a)\\d","a\\d(?-a)|\\s","(?a)(?-a)\\s","((?-a)\\s)\\s","\\h","\\v","[^\\h]"})
    for (int i=0;i<4;++i) if (!(i&1) || p[0]!='[') { bool single=ref::Regex(p,ref::U8,O[i]).root->k==ref::CLS; bool big=O[i].uni || strstr(p,"-a"); if (!full && big && O[i].ci) continue; if (single) { oneChar("named",p,"UTF-8",O[i]); if (full) oneChar("named",p,"UTF-16LE",O[i]); } else if (full || !big) one("named",p,"UTF-8",2,O[i]); one("named",p,"ISO-8859-1",n-1,O[i]); }
  for (auto& p: {"(?i)a","(?-i)a","a(?i)b","(a(?i)b)c","((?i)a)b","((?i)a|b)c","(a(?i)|b)c","(?i)a(?-i)b","(?i)(a(?-i)b)c","a(?i)b|c","((?-i)a)b","(?i-a)k","(?ia)k","(?i)(?-a)k","(?i)((?a)k)k","(?-a)((?i)k)K","(?i)[a-b](?-i)[a-b]","(?i)[^a](?-i)[^a]","((?i)a)*b","((?i)ab){2}","((?i)(a)b)c","((a)(?i)b)c","(?i)(?-i)a","(?ii)a","(?i)\\x61","((?i)a)((?-i)b)c","((?a)\\d(?i)s)s"})
    for (int i=0;i<4;++i) { one("switch",p,"ISO-8859-1",n,O[i]); if (strpbrk(p,"kKs")) one("switch",p,"UTF-8",n,O[i]); }
  for (auto& p: {"aB","(?i)a","k+","[k]","S\\s"}) for (int i=0;i<4;++i) { ref::Opt o=O[i]; o.fixed=true; one("fixed",p,"UTF-8",n,o); }
  SwGen g(seed*99991+3); for (int i=0;i<gen;++i) { std::string p=g.g(2+g.r(3)); const char* enc=g.r(4)?"ISO-8859-1":"UTF-8"; int o=(int)g.r(4); one("gen",p,enc,n,O[o],true); }
}
