#include "sym.h"
#include <lightgrep/api.h>
#include <vector>
#include <cstdio>
#include <string>
struct Hit { uint64_t s,e,k; };
static void cb(void* u, const LG_SearchHit* h) { ((std::vector<Hit>*)u)->push_back({h->Start,h->End,h->KeywordIndex}); }
struct A { LG_HPROGRAM p; LG_HCONTEXT c; size_t n; };
static void f(void* v) {
  A* a=(A*)v; unsigned char* t=sym_guarded(a->n); sym_make(t,a->n);
  std::vector<Hit> hs;
  lg_reset_context(a->c);
  lg_search(a->c,(const char*)t,(const char*)t+a->n,0,&hs,cb);
  lg_closeout_search(a->c,&hs,cb);
  for (auto& h: hs) { sym_check(h.s<h.e && h.e<=a->n,"bad hit"); sym_output(h.s*100+h.e); }
  if (hs.size()==2) sym_cover("two hits");
  if (hs.size()==3) sym_fail_("demo");
}
void harness_main(int argc,char** argv) {
  for (std::string pat: {"ab","a+b","(a|ab)(c|bcd)","[a-f]{2,3}","a.*?b|c"}) {
    for (size_t n=3;n<=6;++n) {
      std::string inst=pat+"/"+std::to_string(n);
      if (!sym_want(inst.c_str())) continue;
      LG_Error* err=nullptr; LG_HPATTERN hp=lg_create_pattern(); LG_KeyOptions ko{0,0,0}; LG_HFSM fsm=lg_create_fsm(0,0);
      if (!lg_parse_pattern(hp,pat.c_str(),&ko,&err)) { printf("ERR %s\n",err->Message); return; }
      lg_add_pattern(fsm,hp,"UTF-8",0,&err); LG_ProgramOptions po{0xffffffff}; LG_HPROGRAM p=lg_create_program(fsm,&po);
      LG_ContextOptions co{}; co.TraceBegin=0xffffffffffffffffull; co.TraceEnd=0; LG_HCONTEXT c=lg_create_context(p,&co);
      A a{p,c,n}; sym_explore(inst.c_str(),f,&a);
    }
  }
}
