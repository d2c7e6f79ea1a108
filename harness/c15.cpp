// C15: equivalent spellings, and a pattern before and after its rewriting, give the same hits.
#include "sets.h"
#include "handles.h"
#include "parser.h"
#include <lightgrep/api.h>
struct Case { LG_HCONTEXT a, b; int n; std::string pa, pb; };
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  std::vector<Hit> x=searchAll(c.a,t,n), y=searchAll(c.b,t,n); outHits(x); sym_cover(x.empty()?"no hit":x.size()>1?"several hits":"one hit");
  if (x!=y) { sym_note((c.pa+" gives "+showHits(x)+"but "+c.pb+" gives "+showHits(y)).c_str()); sym_fail_("two spellings of one pattern match differently"); }
}
// compiled from the parse tree as it is, without the rewriting
static Built buildRaw(const Pat& p) {
  Built b; LG_HPATTERN h=lg_create_pattern(); LG_KeyOptions ko={p.fixed,p.ci,p.uni}; LG_Error* err=nullptr;
  h->Pat={p.p,p.fixed!=0,p.ci!=0,p.uni!=0}; bool ok=false; try { ok=parse(h->Pat,h->Tree); } catch (const std::exception& e) { b.err=e.what(); }
  if (ok) { b.fsm=lg_create_fsm(0,0); if (lg_add_pattern(b.fsm,h,p.enc.c_str(),0,&err)<0) { b.err=err->Message; lg_free_error(err); lg_destroy_fsm(b.fsm); b.fsm=nullptr; } }
  lg_destroy_pattern(h); if (!b.fsm) return b; LG_ProgramOptions po; po.DeterminizeDepth=0xffffffff; b.prog=lg_create_program(b.fsm,&po); b.ctx=newContext(b.prog); return b;
}
typedef std::string S;
static bool simple(const S& t) { // a single atom
  if (t.size()==1) return true; if (t[0]=='[') return t.find(']')==t.size()-1; if (t[0]=='\\') return t.size()==2 || (t[1]=='x'&&t.size()==4);
  if (t[0]!='(') return false; int d=0; for (size_t i=0;i<t.size();++i) { if (t[i]=='(') ++d; if (t[i]==')' && !--d) return i+1==t.size(); } return false; }
static S g(const S& t) { return simple(t)? t: "("+t+")"; }
static S rep(const S& t, int k) { S s; while (k-->0) s+=t; return s; }
// T{n,m} spelled with concatenation and optional parts
static S expand(const S& t, int n, int m, bool ng) {
  S o; if (m<0) { if (n==0) return t+"*"+(ng?"?":""); return rep(t,n)+t+"*"+(ng?"?":""); }
  for (int i=n;i<m;++i) o="("+t+o+")?"+(ng?"?":""); return rep(t,n)+o; }
static S count(const S& t, int n, int m, bool ng) { S s=t+"{"+std::to_string(n); if (m<0) s+=","; else if (m!=n) s+=","+std::to_string(m); return s+"}"+(ng?"?":""); }
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4), gen=argInt(argc,argv,"--gen",60), seed=argInt(argc,argv,"--seed",1), raw=argInt(argc,argv,"--raw",1);
  auto pairOf=[&](const char* tag, const S& x, const S& y, const char* enc="ISO-8859-1") {
    S inst=S(tag)+"/n"+std::to_string(n)+"/"+x+"  "+y; if (x==y || !sym_want(inst.c_str())) return; Pat p,q; p.p=x; q.p=y; p.enc=q.enc=enc; Built a=build({p}), b=build({q});
    if (!a.ctx && !b.ctx) { sym_skip("both refused"); return; } if (!a.ctx || !b.ctx) { sym_setup_fail(inst.c_str(),("one spelling is refused: "+a.err+b.err).c_str()); drop(a); drop(b); return; }
    Case c{a.ctx,b.ctx,n,x,y}; sym_explore(inst.c_str(),run,&c); drop(a); drop(b); };
  auto rawOf=[&](const char* tag, const S& x) {
    if (x.find("{0}")!=S::npos) return; // the builder leaves these to the rewriting
    S inst=S(tag)+"/n"+std::to_string(n)+"/"+x; if (!sym_want(inst.c_str())) return; Pat p; p.p=x; p.enc="ISO-8859-1"; Built a=build({p}), b=buildRaw(p);
    if (!a.ctx && !b.ctx) { sym_skip("refused"); return; } if (!a.ctx || !b.ctx) { sym_setup_fail(inst.c_str(),("accepted only with or without rewriting: "+a.err+b.err).c_str()); drop(a); drop(b); return; }
    Case c{a.ctx,b.ctx,n,x+" rewritten",x+" as parsed"}; sym_explore(inst.c_str(),run,&c); drop(a); drop(b); };
  static const char* fixed[][2]={{"a{1}","a"},{"a{0,}b","a*b"},{"a{1,}","a+"},{"a{0,1}b","a?b"},{"a{1,1}?b","ab"},{"a{0}b","b"},{"a{0,0}b","b"},{"a{0}?b","b"},{"ba{0}","b"},{"b(ac){0}d","bd"},{"a**","a*"},{"(a*)*b","a*b"},{"(a+)+","a+"},{"(a+)*b","a*b"},{"(a*)+b","a*b"},{"(a?)*b","a*b"},{"(a?)?b","a?b"},{"(a?)+b","a*b"},{"(a+)?b","a*b"},{"a+a+","aa+a*"},{"a*a*b","a*b"},{"a+a*","a+"},{"a*a+","aa*"},{"a{2}a{3}","a{5}"},{"a{2}{3}","a{6}"},{"(a{2}){3}","a{6}"},{"(a{2,}){3}","a{6,}"},{"((a))","a"},{"(a)(b)","ab"},{"((ab)c)d","a(b(cd))"},{"(a|b)|c","a|(b|c)"},{"(a|b)c","ac|bc"},{"a(b|c)","ab|ac"},{"a(b|c)d","abd|acd"},{"(a|ab)c","ac|abc"},{"[ab]","a|b"},{"[a-c]d","(a|b|c)d"},{"a??b","(b|ab)"},{"a?b","(ab|b)"},{"ab??","a"},{"ab*?","a"},{"ab{0,3}?","a"},{"ab{2,3}?","abb"},{"ab+?","ab"},{"ab{2,}?","abb"},{"a.*?b??","a"},{"(ab??)","a"},{"a(b|c)??","a"},{"a(b*?c*?)","a"},{"(a|b)(c??)","a|b"},{"a+?b*","ab*"},{"a+?b+","a+?b(b*)"},{"a*?a*b","a*b"},{"(a|b{0})c","ac|c"},{"(b{0}|a)c","c|ac"},{"(a{0}|b{0}|c)d","d|cd"},{"a(b{0}|c)*?d","a(c*?)d"},{"x(a{0})y","xy"},{"x(a{0}b{0})y","xy"},{"x(a{0}){3}y","xy"},{"x(a{0})*y","xy"},{"(a|(b|(c|d)))e","(((a|b)|c)|d)e"},{"a{2,4}b","aa(aa?)?b"},{"(ab){1,2}c","ab(ab)?c"},{"(a|b){2}","(a|b)(a|b)"},{"(a|ab){2}c","(a|ab)(a|ab)c"},{"(a??b){2}","a??ba??b"},{"a{1,3}?b","a(a(a)??)??b"},{"\\x61","a"},{"\\141","a"},{"[a]","a"},{"\\x{61}+","a+"},{"[^a]","[\\x00-`b-\\xff]"},{"\\d","[0-9]"},{"\\D","[^0-9]"},{"\\w","[0-9A-Za-z_]"},{"\\s","[\\t-\\r ]"},{".","[\\x00-\\xff]"}};
  for (auto& f: fixed) pairOf("same",f[0],f[1]);
  // any repetition, counted and expanded
  static const char* atoms[]={"a",".","(ab)","(a|b)","(a|ab)","(ab?)","(ab??)","(a+b?)","(a?b)","[ab]","(a|(b|c)a)","(.a?)"}; static const char* tails[]={"","b","a","b?","(a|b)","c*?d","+"};
  int q=0; for (auto t: atoms) for (int lo=0;lo<=3;++lo) for (int hi=-1;hi<=3;++hi) for (int ng=0;ng<2;++ng) for (int ti=0;ti<6;++ti) { if (hi>=0 && hi<lo) continue; if (hi==0) continue; if ((q++*7+seed)%(gen>0?std::max(1,6000/gen):1000)) continue; S x=count(t,lo,hi,ng)+tails[ti], y=g(expand(t,lo,hi,ng))+tails[ti]; pairOf("count",x,y); }
  PatGen G(seed*4241+9,"ab"), H(seed*887+2,"abc");
  for (int i=0;i<gen;++i) {
    PatGen& P=i%2?G:H; S a=P.gen(1+P.r(2),false), b=P.gen(1+P.r(2),false), d=P.gen(1+P.r(2),false);
    int lo=P.r(3), hi=(int)P.r(4)-1; bool ng=P.r(2); if (hi>=0 && hi<lo) hi=lo; if (hi==0) hi=1;
    switch (i%6) {
      case 0: pairOf("count",count(g(a),lo,hi,ng)+g(b),expand(g(a),lo,hi,ng)+g(b)); break;
      case 1: pairOf("group","("+g(a)+g(b)+")"+g(d),g(a)+"("+g(b)+g(d)+")"); break;
      case 2: pairOf("alternation","(("+a+"|"+b+")|"+d+")","("+a+"|("+b+"|"+d+"))"); break;
      case 3: pairOf("suffix","("+a+"|"+b+")"+g(d),"("+g(a)+g(d)+"|"+g(b)+g(d)+")"); break;
      case 4: pairOf("prefix","a("+b+"|"+d+")","a"+g(b)+"|a"+g(d)); break;
      case 5: pairOf("group",a+"|"+b,"("+a+")|(("+b+"))"); break;
    }
  }
  if (raw) { int step=argInt(argc,argv,"--rawstep",1), k=0; for (auto& p: curated()) if (k++%step==seed%step) rawOf("rewriting",p); for (int i=0;i<gen;++i) { PatGen& P=i%2?G:H; rawOf("rewriting",P.gen(1+P.r(4))); } }
}
