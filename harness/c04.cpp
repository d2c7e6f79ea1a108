// C04: lg_starts_with against the reference matcher at position 0.
#include "sets.h"
struct Case { Built* b; LG_HCONTEXT fresh; std::vector<std::unique_ptr<ref::Regex>>* re; int n; };
static void run(void* v) {
  Case& c=*(Case*)v; LG_HCONTEXT x=c.b->ctx; int n=(int)sym_choice(c.n+1); static const uint64_t offs[]={0,7,1ull<<40}; uint64_t off=offs[sym_choice(3)];
  unsigned char* t=sym_guarded(n); sym_make(t,n);
  Hits h; lg_reset_context(x); lg_starts_with(x,(const char*)t,(const char*)t+n,off,&h,onHit); outHits(h.v);
  size_t want=0; std::string s="got "+showHits(h.v)+" want ";
  bool ok=true; for (size_t k=0;k<c.re->size();++k) { ref::Regex& r=*(*c.re)[k]; r.text(t,n); int e=n? r.at(0): -1; if (r.over) return; std::vector<Hit> g=ofKey(h.v,k);
    if (e>0) { ++want; s+="[0,"+std::to_string(e)+")#"+std::to_string(k)+" "; ok=ok && g.size()==1 && g[0].s==off && g[0].e==off+e; } else ok=ok && g.empty(); }
  sym_cover(want==0?"no hit":want==1?"one hit":"several hits");
  if (!ok || h.v.size()!=want) { sym_note(s.c_str()); sym_fail_("lg_starts_with differs from the reference at the first byte"); }
  // the context is left as new
  Hits a,b; int m= n<2? n: 2; uint64_t ra=lg_search(x,(const char*)t,(const char*)t+m,50,&a,onHit), rb=(lg_reset_context(c.fresh),lg_search(c.fresh,(const char*)t,(const char*)t+m,50,&b,onHit));
  lg_closeout_search(x,&a,onHit); lg_closeout_search(c.fresh,&b,onHit);
  if (a.v!=b.v || ra!=rb) { sym_note(("after lg_starts_with "+showHits(a.v)+" in a reset context "+showHits(b.v)).c_str()); sym_fail_("lg_starts_with leaves the context different from a reset one"); }
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Built b=build(s); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
    std::vector<std::unique_ptr<ref::Regex>> re; for (auto& p: s) { ref::Opt o; o.fixed=p.fixed; o.ci=p.ci; re.emplace_back(new ref::Regex(p.p,ref::encOf(p.enc),o)); }
    Case c{&b,newContext(b.prog),&re,n}; sym_explore(inst.c_str(),run,&c); lg_destroy_context(c.fresh); drop(b);
  });
}
