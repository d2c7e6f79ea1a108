// C12: a character or range matches exactly the encodings of its code points.
#include "lg.h"
#include "re.h"
#include "oce.h"
#include "encoders/encoder.h"
#include "encoders/encoderfactory.h"
#include <lightgrep/encodings.h>
#include <unicode/ucnv.h>
#include <memory>
typedef std::vector<std::pair<uint32_t,uint32_t>> Ranges;
static std::string hex(uint32_t c) { char b[24]; snprintf(b,sizeof b,"\\x{%X}",c); return b; }
static std::string cls(const Ranges& r, bool neg) { std::string s= neg?"[^":"["; for (auto& x: r) { s+=hex(x.first); if (x.second!=x.first) s+="-"+hex(x.second); } return s+"]"; }
struct Case { LG_HCONTEXT c; int e, n; bool oce; ref::Set set; bool tab; bool ok[256]; std::vector<std::string> strs; };
// the characters of the set, and only they, match at the start of the text
static void run(void* v) {
  Case& c=*(Case*)v; int n=1+(int)sym_choice(c.n); unsigned char* t=sym_guarded(n); sym_make(t,n);
  unsigned char p[8]; for (int i=0;i<n;++i) p[i]= c.oce? ref::unOCE()[t[i]]: t[i];
  Hits h; lg_reset_context(c.c); lg_starts_with(c.c,(const char*)t,(const char*)t+n,0,&h,onHit); int got= h.v.empty()? 0: (int)(h.v[0].e-h.v[0].s);
  auto fail=[&](const char* m){ sym_note(("matched "+std::to_string(got)+" of "+std::to_string(n)+" bytes").c_str()); sym_fail_(m); };
  if (h.v.size()>1 || (got && (h.v[0].s || h.v[0].k))) fail("more than one hit, or not at the start");
  outHits(h.v); sym_cover(got?"match":"no match");
  if (c.tab) { bool w=sym_decide(c.ok[p[0]]); if (w!=(got==1)) fail("a single byte is matched wrongly"); return; }
  if (c.e<0) { bool w=false; for (auto& s: c.strs) { if ((int)s.size()>n) continue; if (got && (int)s.size()!=got) continue; unsigned d=0; for (size_t i=0;i<s.size();++i) d|=p[i]^(unsigned char)s[i]; w|= d==0; } w=sym_decide(w); if (w!=(got!=0)) fail(got? "bytes which encode no character of the set match": "an encoded character of the set does not match"); return; }
  ref::Ch g=ref::decode(c.e,p,n,0); bool in= g.len && sym_decide(c.set.has(g.cp));
  if (in && got!=g.len) fail("an encoded character of the set does not match");
  if (!in && got) fail("bytes which encode no character of the set match");
}
struct ECase { std::shared_ptr<Encoder> enc; int e; bool oce; };
// every code point is encoded as the standard says, and decoded back
static void runWrite(void* v) {
  ECase& c=*(ECase*)v; uint32_t cp=0; unsigned char* t=sym_guarded(4); sym_make(t,4); memcpy(&cp,t,4);
  byte buf[16]; uint32_t len=c.enc->write((int32_t)cp,buf); sym_output(len);
  uint32_t want; bool valid= !sym_decide(cp>0x10FFFF) && !sym_decide(cp>=0xD800&&cp<=0xDFFF);
  if (!valid) want=0; else switch (c.e) { case ref::ASCII_: want= sym_decide(cp<0x80)?1:0; break; case ref::U8: want= sym_decide(cp<0x80)?1: sym_decide(cp<0x800)?2: sym_decide(cp<0x10000)?3:4; break; case ref::U16LE: case ref::U16BE: want= sym_decide(cp<0x10000)?2:4; break; default: want=4; }
  auto fail=[&](const char* m){ sym_note(("encoded in "+std::to_string(len)+" bytes").c_str()); sym_fail_(m); };
  if (len!=want) fail("a code point is encoded in a wrong number of bytes"); if (!len) { sym_cover("not encodable"); return; }
  byte p[8]; for (uint32_t i=0;i<len;++i) p[i]= c.oce? ref::unOCE()[buf[i]]: buf[i];
  ref::Ch g=ref::decode(c.e,p,len,0); if (!sym_decide((uint32_t)g.len==len && g.cp==cp)) fail("a code point is encoded wrongly"); sym_cover("encoded");
}
// each single-byte encoding: what ICU encodes each code point as, asked directly
static bool icuTable(const char* name, const ref::Set& want, std::vector<std::pair<uint32_t,std::string>>& all, int& maxlen) {
  UErrorCode e=U_ZERO_ERROR; UConverter* u=ucnv_open(name,&e); if (U_FAILURE(e)) return false; maxlen=ucnv_getMaxCharSize(u);
  ucnv_setFromUCallBack(u,UCNV_FROM_U_CALLBACK_STOP,nullptr,nullptr,nullptr,&e); ucnv_setFallback(u,false);
  auto put=[&](uint32_t c) {
    if (c>0x10FFFF||(c>=0xD800&&c<=0xDFFF)) return; UChar s[2]; int k=0; if (c>0xFFFF) { s[0]=0xD800+((c-0x10000)>>10); s[1]=0xDC00+((c-0x10000)&0x3FF); k=2; } else { s[0]=c; k=1; }
    char b[16]; UErrorCode x=U_ZERO_ERROR; int l=ucnv_fromUChars(u,b,sizeof b,s,k,&x); if (U_SUCCESS(x) && l>0 && l<16) all.push_back({c,std::string(b,l)}); };
  if (maxlen==1) for (int i=0;i<256;++i) { char b=(char)i; UChar s[4]; UErrorCode x=U_ZERO_ERROR; UConverter* d=ucnv_open(name,&x); ucnv_setToUCallBack(d,UCNV_TO_U_CALLBACK_STOP,nullptr,nullptr,nullptr,&x); int l=ucnv_toUChars(d,s,4,&b,1,&x); if (U_SUCCESS(x) && l==1) put(s[0]); else if (U_SUCCESS(x) && l==2) put(0x10000+((s[0]-0xD800)<<10)+(s[1]-0xDC00)); ucnv_close(d); }
  else for (auto& r: want.r) for (uint32_t c=r.first;c<=r.second;++c) put(c);
  ucnv_close(u); return true;
}
static void pattern(const std::string& chain, const std::string& pat, const std::string& inst, Case c) {
  Pat p; p.p=pat; p.enc=chain; Built b=build({p}); bool any=c.e>=0;
  if (!b.prog) { // nothing of the set can be encoded
    bool empty= c.tab? std::find(c.ok,c.ok+256,true)==c.ok+256: c.e<0? c.strs.empty(): false;
    if (empty) { sym_skip("no character of the set is representable"); return; }
    sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); return; }
  c.c=b.ctx; sym_explore(inst.c_str(),run,&c); drop(b);
}
void harness_main(int argc, char** argv) {
  int seed=argInt(argc,argv,"--seed",1), step=argInt(argc,argv,"--step",8), gen=argInt(argc,argv,"--gen",40), icu=argInt(argc,argv,"--icu",1), multi=argInt(argc,argv,"--multi",1), all=argInt(argc,argv,"--all",0);
  const char* encs[]={"UTF-8","UTF-16LE","UTF-16BE","UTF-32LE","UTF-32BE"}; EncoderFactory fac;
  for (auto s: {"ASCII","UTF-8","UTF-16LE","UTF-16BE","UTF-32LE","UTF-32BE"}) for (int oce=0;oce<2;++oce) { if (oce && strcmp(s,"UTF-8")) continue; std::string chain=std::string(s)+(oce?"|OCE":""), inst="write/"+chain; if (!sym_want(inst.c_str())) continue; ECase c{fac.get(chain),ref::encOf(s),oce!=0}; sym_explore(inst.c_str(),runWrite,&c); }
  static const uint32_t edge[]={0,1,0x40,0x7f,0x80,0x81,0xbf,0xc0,0xff,0x100,0x101,0x13f,0x7ff,0x800,0x801,0xfff,0x1000,0x1003,0xd7fe,0xd7ff,0xe000,0xe001,0xfffe,0xffff,0x10000,0x10001,0x103ff,0x10400,0x10fff,0x11000,0x1ffff,0x20000,0x3ffff,0x40000,0xfffff,0x100000,0x10fffe,0x10ffff};
  const int ne=sizeof edge/sizeof *edge; int k=0; std::vector<Ranges> sets;
  for (int i=0;i<ne;++i) for (int j=i;j<ne;++j) if (i==j || k++%step==seed%step) sets.push_back({{edge[i],edge[j]}});
  Rng r(seed*7919+5); for (int g=0;g<gen;++g) { Ranges x; int m=1+r(4); for (int i=0;i<m;++i) { uint32_t a=edge[r(ne)]+r(3)*r(300), b= r(2)? a: a+(r(3)? r(200): r(70000)); if (a>0x10ffff) a=0x10ffff; if (b>0x10ffff) b=0x10ffff; if (b<a) b=a; if (a>=0xd800&&a<=0xdfff) a=0xe000; if (b>=0xd800&&b<=0xdfff) b=0xe000; if (b<a) b=a; x.push_back({a,b}); } sets.push_back(x); }
  for (auto e: encs) {
    int n=4, en=ref::encOf(e); std::string pre=std::string(e)+" ";
    auto one=[&](const std::string& pat, const ref::Set& s, const std::string& chain, bool oce) { std::string inst=chain+" "+pat; if (!sym_want(inst.c_str())) return; Case c{}; c.e=en; c.n=n; c.oce=oce; c.set=s; pattern(chain,pat,inst,c); };
    ref::Set full; full.add(0,0x10FFFF); one(".",full,e,false); one(".",full,std::string(e)+"|OCE",true);
    int q=0; for (auto& x: sets) { ref::Set s; for (auto& y: x) s.add(y.first,y.second); one(cls(x,false),s,e,false); if (q%5==0) one(cls(x,true),s.neg(),e,false); if (q%7==0) one(cls(x,false),s,std::string(e)+"|OCE",true); if (x.size()==1 && x[0].first==x[0].second) one(hex(x[0].first),s,e,false); ++q; }
  }
  // ASCII, ISO-8859-1 and the single-byte encodings that ICU converts; some multi-byte ones
  int kk=0; for (size_t i=0;i<sizeof LG_CANONICAL_ENCODINGS/sizeof *LG_CANONICAL_ENCODINGS;++i) {
    std::string name=LG_CANONICAL_ENCODINGS[i]; if (!icu) break; int id=ref::U8; try { id=ref::encOf(name); } catch (std::exception&) { id=-1; } if (id>=0 && id!=ref::ASCII_ && id!=ref::LATIN1) continue;
    bool due= name=="US-ASCII"||name=="ISO-8859-1"|| all || (kk++%icu==seed%icu);
    std::vector<std::string> pats={".","\\x{E9}","[a-z]","[^a]","[\\x{80}-\\x{10FFFF}]","[\\x{400}-\\x{4FF}\\x{20AC}]"}; std::vector<ref::Set> ss(pats.size());
    ss[0].add(0,0x10FFFF); ss[1].add(0xE9,0xE9); ss[2].add('a','z'); { ref::Set q; q.add('a','a'); ss[3]=q.neg(); } ss[4].add(0x80,0x10FFFF); ss[5].add(0x400,0x4FF); ss[5].add(0x20AC,0x20AC);
    static const ref::Set* dummy=nullptr; std::vector<std::string> mp={"\\x{E9}","a","\\x{3042}","[\\x{3041}-\\x{3060}]","[a-f]","[\\x{4E00}-\\x{4E0F}\\x{61}]","[\\x{4E00}-\\x{4E20}]","\\x{AC00}"}; std::vector<ref::Set> ms(mp.size());
    ms[0].add(0xE9,0xE9); ms[1].add('a','a'); ms[2].add(0x3042,0x3042); ms[3].add(0x3041,0x3060); ms[4].add('a','f'); ms[5].add(0x4E00,0x4E0F); ms[5].add(0x61,0x61); ms[6].add(0x4E00,0x4E20); ms[7].add(0xAC00,0xAC00);
    if (!due) continue;
    // is any instance of this encoding wanted? the table is made at most once
    std::vector<std::pair<uint32_t,std::string>> tab; int ml=-1;
    UErrorCode er=U_ZERO_ERROR; UConverter* u=ucnv_open(name.c_str(),&er); if (U_FAILURE(er)) continue; ml=ucnv_getMaxCharSize(u); ucnv_close(u);
    bool single=ml==1; if (!single && !multi) continue; auto& P= single? pats: mp; auto& S= single? ss: ms;
    for (size_t j=0;j<P.size();++j) {
      std::string inst=name+" "+P[j]; if (!sym_want(inst.c_str())) continue; tab.clear(); if (!icuTable(name.c_str(),S[j],tab,ml)) { sym_skip("no converter"); continue; }
      Case c{}; c.e=-1; c.n= single?1:4; c.tab=single; int longest=1; bool stateful=false;
      for (auto& x: tab) if (S[j].has(x.first)) { if (single) { if (x.second.size()==1) c.ok[(unsigned char)x.second[0]]=true; } else { if (x.second.size()>1 && (x.second[0]==0x0E||x.second[0]==0x0F||x.second[0]==0x1B)) stateful=true; c.strs.push_back(x.second); if ((int)x.second.size()>longest) longest=x.second.size(); } }
      if (stateful || longest>8) { sym_skip("stateful encoding"); continue; }
      if (!single) c.n=longest; pattern(name,P[j],inst,c);
    }
  }
}
