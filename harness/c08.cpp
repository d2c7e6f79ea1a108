// C08: a written program, read back, is the same program and gives the same hits.
#include "sets.h"
struct Case { LG_HPROGRAM prog; LG_HCONTEXT a; int n; const PatSet* s; };
static void readable(const char* s) { volatile char c=0; for (;*s;++s) c=*s; (void)c; }
static LG_HPROGRAM trip(LG_HPROGRAM prog, const PatSet& s, const uint64_t* idx) {
  unsigned size=lg_program_size(prog); sym_check(size>0,"a program has no size");
  unsigned char* i1=sym_guarded(size); unsigned char* i2=sym_guarded(size); memset(i1,0xAA,size); memset(i2,0x55,size);
  lg_write_program(prog,i1); lg_write_program(prog,i2); sym_check(memcmp(i1,i2,size)==0,"writing a program does not fill its size");
  LG_HPROGRAM p=lg_read_program(i1,size); sym_check(p!=nullptr,"a written program cannot be read");
  sym_check(lg_prog_pattern_count(p)==s.size() && lg_prog_pattern_count(prog)==s.size(),"a read program has another number of keywords");
  for (size_t k=0;k<s.size();++k) { LG_PatternInfo *x=lg_prog_pattern_info(p,k), *y=lg_prog_pattern_info(prog,k);
    sym_check(x&&y,"no pattern info"); sym_check(s[k].p==x->Pattern && !strcmp(x->Pattern,y->Pattern),"a read program has another pattern"); sym_check(!strcmp(x->EncodingChain,y->EncodingChain) && s[k].enc==x->EncodingChain,"a read program has another encoding");
    sym_check(x->UserIndex==y->UserIndex && x->UserIndex==idx[k],"a read program has another user index"); }
  sym_check(lg_program_size(p)==size,"a read program has another size"); unsigned char* i3=sym_guarded(size); memset(i3,0x33,size); lg_write_program(p,i3); sym_check(memcmp(i1,i3,size)==0,"a read program is written differently");
  return p;
}
static void hits(void* v) {
  Case& c=*(Case*)v; std::vector<uint64_t> idx; for (size_t k=0;k<c.s->size();++k) idx.push_back(k);
  LG_HPROGRAM p=trip(c.prog,*c.s,idx.data()); LG_HCONTEXT b=newContext(p);
  int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  std::vector<Hit> h=searchAll(c.a,t,n), g=searchAll(b,t,n); outHits(h); sym_cover(h.empty()?"no hit":"hit"); sym_note(("written "+showHits(h)+"read back "+showHits(g)).c_str());
  sym_check(h==g,"a program read back gives other hits");
  Hits x,y; lg_reset_context(c.a); lg_reset_context(b); lg_starts_with(c.a,(const char*)t,(const char*)t+n,3,&x,onHit); lg_starts_with(b,(const char*)t,(const char*)t+n,3,&y,onHit); sym_check(x.v==y.v,"a program read back starts differently");
  lg_destroy_context(b); lg_destroy_program(p);
}
// user indexes are symbolic
static void meta(void* v) {
  const PatSet& s=*(const PatSet*)v; uint64_t idx[8]; sym_make(idx,8*s.size());
  LG_HFSM f=lg_create_fsm(0,0); for (size_t k=0;k<s.size();++k) { LG_HPATTERN h=lg_create_pattern(); LG_KeyOptions o={s[k].fixed,s[k].ci,s[k].uni}; LG_Error* e=nullptr; lg_parse_pattern(h,s[k].p.c_str(),&o,&e); sym_check(lg_add_pattern(f,h,s[k].enc.c_str(),idx[k],&e)==(int)k,"adding a pattern"); lg_destroy_pattern(h);
    sym_check(lg_fsm_pattern_info(f,k)->UserIndex==idx[k],"the user index of a keyword is not kept"); }
  LG_ProgramOptions po={10}; LG_HPROGRAM p=lg_create_program(f,&po); lg_destroy_fsm(f); lg_destroy_program(trip(p,s,idx)); sym_cover("user index"); sym_output(lg_program_size(p)); lg_destroy_program(p);
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4);
  std::vector<PatSet> m={mkset({"a"}),mkset({"a","bcd"},"UTF-8"),mkset({"a+b","x","[a-z]{2,4}"},"UTF-16LE"),mkset({"ab","ab"},"OCE,UTF-8")}; m.back()[0].enc="UTF-8"; m.back()[1].enc="UTF-16BE";
  m.pop_back();
  for (auto& s: m) { std::string inst="index/"+setName(s); if (sym_want(inst.c_str())) sym_explore(inst.c_str(),meta,(void*)&s); }
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Built b=build(s); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
    Case c{b.prog,b.ctx,n,&s}; sym_explore(inst.c_str(),hits,&c); drop(b);
  });
}
