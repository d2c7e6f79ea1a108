// Common parts of the harnesses: building programs and running searches through the C API.
#pragma once
#include "sym.h"
#include <lightgrep/api.h>
#include <lightgrep/util.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
struct Hit { uint64_t s,e,k; bool operator==(const Hit& o) const { return s==o.s&&e==o.e&&k==o.k; } bool operator!=(const Hit& o) const { return !(*this==o); } };
struct Hits { std::vector<Hit> v; void* tag=this; bool tagOk=true; };
inline void onHit(void* u, const LG_SearchHit* h) { ((Hits*)u)->v.push_back({h->Start,h->End,h->KeywordIndex}); }
struct Pat { std::string p; std::string enc="UTF-8"; char fixed=0, ci=0, uni=0; };
// nullptr when some pattern is refused; which one in *bad
struct Built { LG_HFSM fsm=nullptr; LG_HPROGRAM prog=nullptr; LG_HCONTEXT ctx=nullptr; std::string err; };
inline LG_HCONTEXT newContext(LG_HPROGRAM p) { LG_ContextOptions co; co.TraceBegin=0xffffffffffffffffull; co.TraceEnd=0; return lg_create_context(p,&co); }
inline Built build(const std::vector<Pat>& ps, uint32_t depth=0xffffffff) {
  Built b; b.fsm=lg_create_fsm(0,0); int i=0;
  for (auto& p: ps) {
    LG_HPATTERN h=lg_create_pattern(); LG_KeyOptions ko; ko.FixedString=p.fixed; ko.CaseInsensitive=p.ci; ko.UnicodeMode=p.uni; LG_Error* err=nullptr;
    if (!lg_parse_pattern_slice(h,p.p.data(),p.p.size(),&ko,&err)) { b.err="parse "+p.p+": "+(err&&err->Message?err->Message:"?"); lg_free_error(err); lg_destroy_pattern(h); lg_destroy_fsm(b.fsm); b.fsm=nullptr; return b; }
    if (lg_add_pattern(b.fsm,h,p.enc.c_str(),i++,&err)<0) { b.err="add "+p.p+": "+(err&&err->Message?err->Message:"?"); lg_free_error(err); lg_destroy_pattern(h); lg_destroy_fsm(b.fsm); b.fsm=nullptr; return b; }
    lg_destroy_pattern(h);
  }
  LG_ProgramOptions po; po.DeterminizeDepth=depth; b.prog=lg_create_program(b.fsm,&po); if (!b.prog) { b.err="program"; return b; }
  b.ctx=newContext(b.prog); return b;
}
inline void drop(Built& b) { if (b.ctx) lg_destroy_context(b.ctx); if (b.prog) lg_destroy_program(b.prog); if (b.fsm) lg_destroy_fsm(b.fsm); b=Built(); }
inline std::vector<Hit> searchAll(LG_HCONTEXT c, const unsigned char* t, size_t n, uint64_t off=0) {
  Hits h; lg_reset_context(c); lg_search(c,(const char*)t,(const char*)t+n,off,&h,onHit); lg_closeout_search(c,&h,onHit); return h.v;
}
inline std::string showHits(const std::vector<Hit>& v) { std::string s; for (auto& h: v) s+="["+std::to_string(h.s)+","+std::to_string(h.e)+")#"+std::to_string(h.k)+" "; return s; }
inline std::vector<Hit> ofKey(const std::vector<Hit>& v, uint64_t k) { std::vector<Hit> r; for (auto& h: v) if (h.k==k) r.push_back(h); return r; }
inline int argInt(int argc, char** argv, const char* name, int def) { for (int i=1;i+1<argc;++i) if (!strcmp(argv[i],name)) return atoi(argv[i+1]); return def; }
inline void outHits(const std::vector<Hit>& v) { sym_output(v.size()); for (auto& h: v) { sym_output(h.s); sym_output(h.e); sym_output(h.k); } }
struct Rng { uint64_t s; explicit Rng(uint64_t x): s(x*0x9E3779B97F4A7C15ull+1) {} uint64_t operator()() { s^=s<<13; s^=s>>7; s^=s<<17; return s; } uint64_t operator()(uint64_t n) { return ((*this)()>>11)%n; } };
