// C06: each keyword of a program has the hits it has alone; order of adding does not matter.
#include "sets.h"
struct Case { LG_HCONTEXT all, rev; std::vector<LG_HCONTEXT>* alone; int n; };
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  std::vector<Hit> h=searchAll(c.all,t,n), r=searchAll(c.rev,t,n); outHits(h); size_t sum=0, K=c.alone->size();
  for (size_t k=0;k<K;++k) {
    std::vector<Hit> w=searchAll((*c.alone)[k],t,n); for (auto& x: w) { sym_check(x.k==0,"keyword index"); x.k=k; } sum+=w.size();
    std::vector<Hit> g=ofKey(r,K-1-k); for (auto& x: g) x.k=k;
    if (w!=ofKey(h,k)) { sym_note(("keyword "+std::to_string(k)+" alone "+showHits(w)+"together "+showHits(h)).c_str()); sym_fail_("a keyword has other hits in a program with others"); }
    if (w!=g) { sym_note(("keyword "+std::to_string(k)+" alone "+showHits(w)+"together in reverse order "+showHits(g)).c_str()); sym_fail_("the hits of a keyword depend on the order in which keywords were added"); }
  }
  sym_check(sum==h.size(),"hits of no keyword"); sym_cover(sum==0?"no hit":sum==1?"one hit":"several hits");
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4), depth=argInt(argc,argv,"--depth",-1);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    if (s.size()<2) return;
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Built b=build(s,depth), rb=build(PatSet(s.rbegin(),s.rend()),depth); std::vector<Built> one; std::vector<LG_HCONTEXT> alone; bool ok=b.ctx&&rb.ctx; for (auto& p: s) { one.push_back(build({p},depth)); ok=ok&&one.back().ctx; alone.push_back(one.back().ctx); }
    if (!ok) sym_setup_fail(inst.c_str(),("refused: "+b.err+rb.err).c_str()); else { Case c{b.ctx,rb.ctx,&alone,n}; sym_explore(inst.c_str(),run,&c); }
    drop(b); drop(rb); for (auto& x: one) drop(x);
  },false);
}
