// C05: hits are well formed, match their keyword, come in order; a start offset shifts everything.
#include "sets.h"
struct Case { LG_HCONTEXT a,b; std::vector<std::unique_ptr<ref::Regex>>* re; int n; };
struct Rec { std::vector<Hit> v; bool bad=false; Rec* self; };
static void cb(void* u, const LG_SearchHit* h) { Rec* r=(Rec*)u; if (r->self!=r) { r->bad=true; return; } r->v.push_back({h->Start,h->End,h->KeywordIndex}); }
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1), m=(int)sym_choice(n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  static const uint64_t offs[]={1,0x7fffffffull,0xffffffffull,0xfffffffffull,0x7fffffffffffff00ull,0xfffffffffffffe00ull};
  uint64_t off=offs[sym_choice(6)];
  Rec r0, r1, r2; r0.self=&r0; r1.self=&r1; r2.self=&r2;
  lg_reset_context(c.a); lg_reset_context(c.b); const char* p=(const char*)t;
  uint64_t x0=lg_search(c.a,p,p+m,0,&r0,cb), y0=lg_search(c.b,p,p+m,off,&r1,cb); size_t k0=r0.v.size();
  for (auto& h: r0.v) if (h.e>(uint64_t)m) sym_fail_("a hit ends after the bytes seen so far");
  uint64_t x1=lg_search(c.a,p+m,p+n,m,&r0,cb), y1=lg_search(c.b,p+m,p+n,off+m,&r1,cb);
  lg_closeout_search(c.a,&r0,cb); lg_closeout_search(c.b,&r1,cb); outHits(r0.v); (void)k0;
  sym_cover(r0.v.empty()?"no hit":"hit"); sym_note(("hits "+showHits(r0.v)+"shifted "+showHits(r1.v)).c_str());
  sym_check(!r0.bad&&!r1.bad,"the user data passed to the callback is not that of the call");
  sym_check(y0==x0+off && y1==x1+off,"a start offset does not shift the returned offset by the same amount");
  sym_check(r0.v.size()==r1.v.size(),"a start offset changes the number of hits");
  for (size_t i=0;i<r0.v.size();++i) { Hit w=r0.v[i]; w.s+=off; w.e+=off; sym_check(w==r1.v[i],"a start offset does not shift the hits by the same amount"); }
  std::vector<uint64_t> last(c.re->size(),0);
  for (auto& h: r0.v) {
    sym_check(h.k<c.re->size(),"no such keyword"); sym_check(h.s<h.e && h.e<=(uint64_t)n,"a hit outside the text"); sym_check(h.s>=last[h.k],"hits of a keyword overlap or are out of order"); last[h.k]=h.e;
    ref::Regex& r=*(*c.re)[h.k]; r.text(t,n); bool some=false; r.m(r.root,h.s,[&](int j){ if (j==(int)h.e) { some=true; return true; } return false; }); if (r.over) return;
    sym_check(some,"the keyword does not match the bytes of its hit");
  }
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Built b=build(s); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
    std::vector<std::unique_ptr<ref::Regex>> re; for (auto& p: s) { ref::Opt o; o.fixed=p.fixed; o.ci=p.ci; re.emplace_back(new ref::Regex(p.p,ref::encOf(p.enc),o)); }
    Case c{b.ctx,newContext(b.prog),&re,n}; sym_explore(inst.c_str(),run,&c); lg_destroy_context(c.b); drop(b);
  });
}
