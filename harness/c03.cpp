// C03: the returned offset bounds every later hit from below; resolving reports exactly the undecided hits.
#include "sets.h"
struct Case { LG_HCONTEXT a,b; int n,cuts,keys; bool resolve; };
static const uint64_t OFF=1000;
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* all=sym_guarded(n); sym_make(all,n);
  if (!c.resolve) {
    Hits g; lg_reset_context(c.b); int at=0; std::vector<std::pair<uint64_t,size_t>> ret; std::string how;
    for (int k=0;k<=c.cuts;++k) {
      int len= k==c.cuts? n-at: (int)sym_choice(n-at+1); unsigned char* buf=sym_guarded(len); memcpy(buf,all+at,len);
      uint64_t r=lg_search(c.b,(const char*)buf,(const char*)buf+len,OFF+at,&g,onHit); at+=len; how+=std::to_string(len)+" "; sym_output(r);
      if (r>OFF+at) { sym_note((how+"returned "+std::to_string(r)).c_str()); sym_fail_("the returned offset is beyond the text searched"); }
      if (r<OFF+at) sym_cover("resume before the end"); else sym_cover("resume at the end");
      ret.push_back({r,g.v.size()});
    }
    lg_closeout_search(c.b,&g,onHit); outHits(g.v);
    for (auto& r: ret) for (size_t i=r.second;i<g.v.size();++i) { sym_cover("hit after a returned offset"); if (g.v[i].s<r.first) { sym_note((how+showHits(g.v)+"returned "+std::to_string(r.first)).c_str()); sym_fail_("a later hit starts before the returned offset"); } }
    return;
  }
  int m=(int)sym_choice(n+1); std::vector<Hit> full=searchAll(c.a,all,n,OFF);
  Hits g; lg_reset_context(c.b); unsigned char* x=sym_guarded(m); memcpy(x,all,m); unsigned char* y=sym_guarded(n-m); memcpy(y,all+m,n-m);
  uint64_t r1=lg_search(c.b,(const char*)x,(const char*)x+m,OFF,&g,onHit);
  size_t before=g.v.size();
  uint64_t r2=lg_search_resolve(c.b,(const char*)y,(const char*)y+(n-m),OFF+m,&g,onHit); size_t mid=g.v.size();
  lg_closeout_search(c.b,&g,onHit); outHits(g.v); sym_output(r2);
  std::string note="first "+std::to_string(m)+" bytes; one buffer "+showHits(full)+" resolved "+showHits(g.v)+" returned "+std::to_string(r1)+" "+std::to_string(r2); sym_note(note.c_str());
  if (r2>OFF+n) sym_fail_("resolving returned an offset beyond the text");
  for (size_t i=mid;i<g.v.size();++i) if (g.v[i].s<r2) sym_fail_("a hit after resolving starts before the returned offset");
  for (size_t i=before;i<g.v.size();++i) sym_cover("hit resolved");
  for (int k=0;k<c.keys;++k) {
    std::vector<Hit> w; for (auto& h: ofKey(full,k)) if (h.s<OFF+m) w.push_back(h);
    if (w!=ofKey(g.v,k)) sym_fail_("resolving does not give exactly the hits that start before its buffer");
  }
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4), cuts=argInt(argc,argv,"--cuts",1);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) { for (int res=0;res<2;++res) {
    std::string inst=std::string(res?"resolve/":"resume/")+tag+"/n"+std::to_string(n)+"/cuts"+std::to_string(cuts)+"/"+setName(s); if (!sym_want(inst.c_str())) continue;
    Built b=build(s); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); continue; }
    Case c{b.ctx,newContext(b.prog),n,cuts,(int)s.size(),res==1}; sym_explore(inst.c_str(),run,&c); lg_destroy_context(c.b); drop(b);
  } });
}
