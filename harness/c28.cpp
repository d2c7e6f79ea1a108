// C28: a program holds exactly the patterns added to the FSM before it was created.
#include "lg.h"
#include "sets.h"
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
struct Case { int steps, n; std::vector<Pat> pool; };
struct Made { LG_HPROGRAM g; std::vector<std::pair<int,int>> pats; uint32_t depth; int at; std::string img; };
static bool add(LG_HFSM f, LG_HPATTERN h, const Pat& p, uint64_t user) {
  LG_KeyOptions ko; ko.FixedString=p.fixed; ko.CaseInsensitive=p.ci; ko.UnicodeMode=p.uni; LG_Error* e=nullptr; bool ok=lg_parse_pattern_slice(h,p.p.data(),p.p.size(),&ko,&e); if (ok) ok=lg_add_pattern(f,h,p.enc.c_str(),user,&e)>=0; lg_free_error(e); return ok;
}
static void run(void* a) {
  Case& c=*(Case*)a; std::string log; auto note=[&]{ sym_note(log.c_str()); }; LG_HFSM f=lg_create_fsm(0,0); LG_HPATTERN h=lg_create_pattern(); std::vector<std::pair<int,int>> in; std::vector<Made> made; int P=c.pool.size();
  static const uint32_t depths[]={0xffffffff,0,1};
  auto mk=[&](int d){ LG_ProgramOptions po; po.DeterminizeDepth=depths[d]; LG_HPROGRAM g=lg_create_program(f,&po); log+="program(depth "+std::to_string((int)depths[d])+") "; CK((g!=nullptr)==!in.empty(),in.empty()?"a program of nothing":"no program of the accepted patterns"); if (g) { Made m{g,in,depths[d],(int)in.size(),{}}; m.img.resize(lg_program_size(g)); lg_write_program(g,&m.img[0]); made.push_back(m); } };
  for (int s=0;s<c.steps;++s) {
    int k=(int)sym_choice(P+3+(made.empty()?0:1));
    if (k<P) { log+="add "+c.pool[k].p+"@"+c.pool[k].enc+" "; unsigned before=lg_fsm_pattern_count(f); bool ok=add(f,h,c.pool[k],100*s+k); if (ok) in.push_back({k,100*s+k}); else sym_cover("refused"); CK(lg_fsm_pattern_count(f)==before+ok,"a pattern is counted wrongly"); }
    else if (k<P+3) mk(k-P);
    else { log+="destroy the first program "; lg_destroy_program(made[0].g); made.erase(made.begin()); }
  }
  mk(0); bool fsmFirst=sym_choice(2); if (fsmFirst) { lg_destroy_fsm(f); lg_destroy_pattern(h); log+="destroy the FSM "; }
  if (made.empty()) { sym_cover("no program"); }
  unsigned char* t=sym_guarded(c.n); sym_make(t,c.n); 
  for (auto& m: made) {
    LG_HFSM w=lg_create_fsm(0,0); LG_HPATTERN x=lg_create_pattern(); for (auto& q: m.pats) add(w,x,c.pool[q.first],q.second); LG_ProgramOptions po; po.DeterminizeDepth=m.depth; LG_HPROGRAM v=lg_create_program(w,&po); CK(v,"no program of the accepted patterns");
    std::string now(lg_program_size(m.g),0); lg_write_program(m.g,&now[0]); CK(now==m.img,"a program is changed by later use of its FSM");
    CK(lg_prog_pattern_count(m.g)==m.pats.size(),"a program lists another number of patterns"); for (size_t i=0;i<m.pats.size();++i) { LG_PatternInfo* pi=lg_prog_pattern_info(m.g,i); CK(c.pool[m.pats[i].first].p==pi->Pattern && c.pool[m.pats[i].first].enc==pi->EncodingChain && pi->UserIndex==(uint64_t)m.pats[i].second,"a program lists other patterns"); }
    LG_HCONTEXT c1=newContext(m.g), c2=newContext(v); std::vector<Hit> g=searchAll(c1,t,c.n), e=searchAll(c2,t,c.n); bool same=g.size()==e.size(); for (uint64_t k=0;k<m.pats.size();++k) same=same&&ofKey(g,k)==ofKey(e,k); if (!same) log+="-> "+showHits(g)+"instead of "+showHits(e); CK(same,"a program finds something else than one made afresh");
    outHits(e); sym_cover(e.empty()?"no hit":"hit"); lg_destroy_context(c1); lg_destroy_context(c2); lg_destroy_program(v); lg_destroy_fsm(w); lg_destroy_pattern(x); lg_destroy_program(m.g);
  }
  if (!fsmFirst) { lg_destroy_fsm(f); lg_destroy_pattern(h); }
}
void harness_main(int argc, char** argv) {
  int steps=argInt(argc,argv,"--steps",4), n=argInt(argc,argv,"--n",2), gen=argInt(argc,argv,"--gen",12), seed=argInt(argc,argv,"--seed",1);
  auto go=[&](const char* tag, int st, std::vector<Pat> pool){ std::string q=std::string(tag)+"/"+setName(pool)+" steps "+std::to_string(st); if (!sym_want(q.c_str())) return; Case c{st,n,pool}; sym_explore(q.c_str(),run,&c); };
  auto P=[&](const char* p, const char* e="ISO-8859-1", char ci=0){ Pat x; x.p=p; x.enc=e; x.ci=ci; return x; };
  std::vector<std::vector<Pat>> pools={{P("ab"),P("a")},{P("a+"),P("b*")},{P("a"),P("a","UTF-16LE"),P("\\x{100}","ASCII")},{P("a.b"),P("(")},{P("a|b"),P("a","no such")},{P("a"),P("a")},{P("ab?"),P("A","UTF-8",1)},{P("[^a]b"),P("a{3}?")},{P("a+?b"),P("\\x{e9}","UTF-8")},{P("a(b|c)+"),P("ab")},{P("ax*b"),P("a*x")},{P("..") ,P("b")},{P("(a|bc)*d"),P("bcd")}};
  for (auto& p: pools) for (int s=1;s<=steps;++s) go("pool",s,p);
  PatGen g(seed*911+5); for (int i=0;i<gen;++i) { PatSet s=genSet(g,2,3); if (s.size()<2) s.push_back(P("a*")); go("gen",steps-1,s); }
}
