// C01: the hits of one keyword against the reference matcher, for every text up to N bytes.
#include "lg.h"
#include "re.h"
#include "gen.h"
#include <memory>
struct Case { LG_HCONTEXT ctx; ref::Regex* re; int n; int unit; };
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  std::vector<Hit> h=searchAll(c.ctx,t,n); outHits(h);
  c.re->text(t,n); std::vector<ref::Regex::H> w=c.re->all(); if (c.re->over) { sym_cover("undecided: reference limit"); return; }
  sym_cover(w.empty()?"no hit":w.size()==1?"one hit":"several hits");
  bool eq=h.size()==w.size(); for (size_t i=0;eq&&i<h.size();++i) eq=h[i].s==(uint64_t)w[i].s && h[i].e==(uint64_t)w[i].e && h[i].k==0;
  if (!eq) { std::string s="got "+showHits(h)+" want "; for (auto& x: w) s+="["+std::to_string(x.s)+","+std::to_string(x.e)+") "; sym_note(s.c_str()); sym_fail_("hits differ from the reference"); }
}
static void one(const std::string& tag, const std::string& p, const std::string& enc, int n, uint32_t depth, ref::Opt o=ref::Opt()) {
  std::string inst=tag+"/"+enc+"/n"+std::to_string(n)+"/d"+std::to_string(depth)+(o.fixed?"/fixed":"")+(o.ci?"/ci":"")+"/"+p;
  if (!sym_want(inst.c_str())) return;
  std::unique_ptr<ref::Regex> re; try { re.reset(new ref::Regex(p,ref::encOf(enc),o)); } catch (const std::exception& e) { sym_skip("not in the reference syntax"); return; }
  Pat pt; pt.p=p; pt.enc=enc; pt.fixed=o.fixed; pt.ci=o.ci; Built b=build({pt},depth);
  if (!b.ctx) { if (ref::Regex::nullable(re->root)) sym_skip("matches the empty string"); else sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
  Case c{b.ctx,re.get(),n,1}; sym_explore(inst.c_str(),run,&c); drop(b);
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",5), gn=argInt(argc,argv,"--gn",4), count=argInt(argc,argv,"--gen",300), seed=argInt(argc,argv,"--seed",1), atoms=argInt(argc,argv,"--atoms",4);
  const uint32_t D=0xffffffff;
  for (auto& p: curated()) one("cur",p,"ISO-8859-1",n,D);
  for (auto& p: curated()) one("cur",p,"UTF-8",n-1,D);
  PatGen g(seed*7919+11), g3(seed*104729+5,"abc");
  for (int i=0;i<count;++i) one("gen",i%2? g.gen(2+g.r(atoms-1)): g3.gen(2+g3.r(atoms-1)),"ISO-8859-1",gn,D);
  for (auto& p: {"a","ab","a+b","a.b","[a-c]+","(a|b)c","a|bc"}) { one("u16",p,"UTF-16LE",n+1,D); one("u16",p,"UTF-16BE",n+1,D); }
  for (auto& p: {"a","ab","a.","[a-c]"}) { one("u32",p,"UTF-32LE",8,D); one("u32",p,"UTF-32BE",8,D); }
  ref::Opt f; f.fixed=true; for (auto& p: {"a.b","a+","(","a|b","\\n","[a]","a*b","^$"}) one("fixed",p,"ISO-8859-1",n,D,f);
  ref::Opt ci; ci.ci=true; for (auto& p: {"ab","[a-c]d","a+B","[^a]b"}) one("ci",p,"ISO-8859-1",n,D,ci);
}
