// C07: every determinization depth gives the same hits.
#include "sets.h"
struct Case { std::vector<LG_HCONTEXT> ctx; int n,keys; };
static const uint32_t D[]={0,1,2,3,4,10,0xffffffff};
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  std::vector<Hit> h=searchAll(c.ctx[0],t,n); outHits(h); sym_cover(h.empty()?"no hit":"hit");
  for (size_t i=1;i<c.ctx.size();++i) { std::vector<Hit> g=searchAll(c.ctx[i],t,n);
    for (int k=0;k<c.keys;++k) if (ofKey(h,k)!=ofKey(g,k)) { sym_note(("depth 0 "+showHits(h)+"depth "+std::to_string(D[i])+" "+showHits(g)).c_str()); sym_fail_("hits depend on the determinization depth"); }
    sym_check(g.size()==h.size(),"hits depend on the determinization depth"); }
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Case c; c.n=n; c.keys=s.size(); std::vector<Built> bs; std::string bad; for (uint32_t d: D) { bs.push_back(build(s,d)); if (!bs.back().ctx) bad=bs.back().err+" "; c.ctx.push_back(bs.back().ctx); }
    if (!bad.empty()) sym_setup_fail(inst.c_str(),("refused: "+bad).c_str()); else sym_explore(inst.c_str(),run,&c);
    for (auto& b: bs) drop(b);
  });
}
