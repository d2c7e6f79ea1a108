// C02: any split of the text into buffers gives the hits of the single buffer.
#include "sets.h"
struct Case { LG_HCONTEXT a,b; int n,cuts,keys; };
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* all=sym_guarded(n); sym_make(all,n);
  std::vector<Hit> h=searchAll(c.a,all,n,1000); outHits(h);
  Hits g; lg_reset_context(c.b); int at=0; uint64_t cut=0; std::string how;
  for (int k=0;k<=c.cuts;++k) {
    int len= k==c.cuts? n-at: (int)sym_choice(n-at+1); unsigned char* buf=sym_guarded(len); memcpy(buf,all+at,len);
    lg_search(c.b,(const char*)buf,(const char*)buf+len,1000+at,&g,onHit); at+=len; how+=std::to_string(len)+" "; cut=cut*7+len;
  }
  lg_closeout_search(c.b,&g,onHit); sym_cover(h.empty()?"no hit":"hit"); if (g.v.size()>1) sym_cover("several hits");
  for (int k=0;k<c.keys;++k) if (ofKey(h,k)!=ofKey(g.v,k)) { sym_note(("buffers of "+how+": one buffer "+showHits(h)+" split "+showHits(g.v)).c_str()); sym_fail_("hits depend on how the text is split into buffers"); }
  if (h.size()!=g.v.size()) sym_fail_("different number of hits");
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4), cuts=argInt(argc,argv,"--cuts",1);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/cuts"+std::to_string(cuts)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Built b=build(s); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
    Case c{b.ctx,newContext(b.prog),n,cuts,(int)s.size()}; sym_explore(inst.c_str(),run,&c); lg_destroy_context(c.b); drop(b);
  });
}
