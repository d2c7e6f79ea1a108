// C22: every sample the generator of sample texts can produce is matched in full by one of the patterns, whatever its random numbers are.
#include "sets.h"
#include "automata.h"
#include "basic.h"
#include "fsmthingy.h"
#include "handles.h"
#include "matchgen.h"
#include "pattern_map.h"
#include "utility.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <iterator>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <utility>
#include <vector>
// --- the random numbers, chosen by the engine; of ranges with more than eight values, the ends and the middle
struct LgRng { typedef uint32_t result_type; LgRng() {} template <class T> explicit LgRng(T&&) {} template <class T> void seed(T&&) {} static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffff; } uint32_t operator()() { uint32_t x; sym_make(&x,4); return x; } };
struct LgBern { double p; explicit LgBern(double p=0.5): p(p) {} template <class R> bool operator()(R&) { if (p>=1) return true; if (p<=0) return false; return sym_choice(2); } };
template <class T=int> struct LgUni { T a,b; explicit LgUni(T a=0, T b=~T(0)): a(a),b(b) {} template <class R> T operator()(R&) { uint64_t n=(uint64_t)(b-a)+1; if (n<=8) return a+(T)sym_choice(n); uint64_t k=sym_choice(3); return k==0? a: k==1? b: a+(b-a)/2; } };
namespace std { using ::LgRng; using ::LgBern; using ::LgUni; }
#define default_random_engine LgRng
#define mt19937 LgRng
#define mt19937_64 LgRng
#define minstd_rand LgRng
#define bernoulli_distribution LgBern
#define uniform_int_distribution LgUni
namespace standin {
#include "src/lib/matchgen.cpp"
}
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
static std::string hex(const std::string& b) { static const char* d="0123456789abcdef"; std::string s; for (unsigned char c: b) { s+=d[c>>4]; s+=d[c&15]; } return s; }
struct Case { const NFA* g; std::vector<ref::Regex*> r; uint32_t n, loops; };
static bool inLanguage(ref::Regex& r, const std::string& s) { r.text((const uint8_t*)s.data(),s.size()); return r.m(r.root,0,[&](int j){ return j==(int)s.size(); }); }
static void run(void* v) {
  Case& c=*(Case*)v; std::set<std::string> out; uint32_t n=sym_choice(c.n+1); standin::matchgen(*c.g,out,n,c.loops);
  std::string all; for (auto& s: out) all+=hex(s)+" "; auto note=[&]{ sym_note((std::to_string(n)+" samples, "+std::to_string(c.loops)+" visits: "+all).c_str()); };
  CK(out.size()<=n,"more samples than requested"); sym_cover(n?"samples":"none"); sym_output(out.size());
  for (auto& s: out) { bool in=false, over=false; for (auto r: c.r) { in= in||inLanguage(*r,s); over= over||r->over; } CK(in||over,"a sample does not match"); if (s.size()>1) sym_cover("several bytes"); }
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",1), loops=argInt(argc,argv,"--loops",2);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) { for (int l=1;l<=loops;++l) for (int det=0;det<2;++det) {
    std::string inst=std::string(tag)+"/visits"+std::to_string(l)+(det?"/determinized/":"/as built/")+setName(s); if (!sym_want(inst.c_str())) continue;
    LG_HFSM f=lg_create_fsm(0,0); bool ok=true; Case c{nullptr,{},(uint32_t)n,(uint32_t)l}; int i=0;
    for (auto& p: s) { LG_HPATTERN h=lg_create_pattern(); LG_KeyOptions ko; ko.FixedString=p.fixed; ko.CaseInsensitive=p.ci; ko.UnicodeMode=p.uni; LG_Error* e=nullptr; ok= ok && lg_parse_pattern(h,p.p.c_str(),&ko,&e) && lg_add_pattern(f,h,p.enc.c_str(),i++,&e)>=0; lg_free_error(e); lg_destroy_pattern(h); ref::Opt o; o.fixed=p.fixed; o.ci=p.ci; o.uni=p.uni; try { c.r.push_back(new ref::Regex(p.p,ref::encOf(p.enc),o)); } catch (const std::exception&) { ok=false; } }
    if (!ok) { sym_skip("refused"); lg_destroy_fsm(f); continue; }
    NFAPtr nfa(det? f->Impl->finalizeGraph(0xffffffff): f->Impl->Fsm); c.g=nfa.get(); sym_explore(inst.c_str(),run,&c); for (auto r: c.r) delete r; lg_destroy_fsm(f);
  } });
}
