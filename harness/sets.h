// Programs of several keywords used by the harnesses.
#pragma once
#include "lg.h"
#include "re.h"
#include "gen.h"
#include <memory>
typedef std::vector<Pat> PatSet;
inline PatSet mkset(std::initializer_list<const char*> l, const char* enc="ISO-8859-1") { PatSet s; for (auto p: l) { Pat x; x.p=p; x.enc=enc; s.push_back(x); } return s; }
inline const std::vector<PatSet>& curatedSets() {
  static std::vector<PatSet> v;
  if (v.empty()) {
    for (auto& l: std::vector<std::vector<const char*>>{
      {"a","b"},{"a","ab"},{"ab","a"},{"a","a"},{"ab","abc","abcd"},{"abc","ab","a"},{"a+","a"},{"a","a+"},{"a+b","ab+"},{"a*b","b"},{"ab","bc","ca"},{"a.b",".b"},{"a.*b","b"},{"a.*?b","ab"},{"aa","aaa","a"},{"a+","aa"},{"[ab]+","ab"},{"ab|c","c|d"},{"a","[a-c]"},{"[a-c]","a"},{"(ab)+","ba"},{"aab","ab","b"},{"abab","ab"},{"a{2,3}","a{3}"},{"foo","fo+","o"},{".","a"},{"a","."},{"..","a."},{"ab.","b"},{"xa","ya","za"},{"ax","ay","az"},{"abc","xbc","bc"},{"a[^b]c","abc"},{"a+?b","a+b"},{"(a|b)*c","ac","bc"},{"a","b","c","d"},{"a","b","c","d","e","f"},{"ab","cd","ef","gh"},{"a[bc]","a[cd]","a[de]"},{"\\x00","\\x00\\x00"},{"\\xff\\xff","\\xff"},{"a?b","b"},{"ab?","b"},{"a|b|c","b"},{"aXb","aYb","aZb"},{"a.c","abc","a[b-z]c"},{"a.{0,2}b","bb"},{"ab*","ab*c"},{"[^a]","a"},{"[^a]b","ab"},{"a+","b+","[ab]+"},{"(a|ab)(c|bcd)","abc","cd"},{"abcd","bcd","cd","d"},{"aaaa","aa"},{"ab.*cd","b.c"}}) { PatSet s; for (auto p: l) { Pat x; x.p=p; x.enc="ISO-8859-1"; s.push_back(x); } v.push_back(s); }
    { PatSet s=mkset({"a","ab"},"UTF-8"); s.push_back(s[0]); s[2].enc="UTF-16LE"; v.push_back(s); }
    { PatSet s=mkset({"ab","b"},"UTF-16LE"); s[1].enc="UTF-8"; v.push_back(s); }
    { PatSet s=mkset({"ab","AB"}); s[0].ci=1; v.push_back(s); }
    { PatSet s=mkset({"a.b","a.b"}); s[0].fixed=1; v.push_back(s); }
    { PatSet s=mkset({"[\\x{80}-\\x{7ff}]","\\x{e9}",".b"},"UTF-8"); v.push_back(s); }
  }
  return v;
}
inline std::string setName(const PatSet& s) { std::string n; for (auto& p: s) { if (!n.empty()) n+=" , "; n+=p.p; if (p.enc!="ISO-8859-1") n+="@"+p.enc; if (p.fixed) n+="@F"; if (p.ci) n+="@I"; } return n; }
inline bool refParses(const Pat& p) { ref::Opt o; o.fixed=p.fixed; o.ci=p.ci; o.uni=p.uni; try { ref::Regex r(p.p,ref::encOf(p.enc),o); return !ref::Regex::nullable(r.root); } catch (const std::exception&) { return false; } }
inline PatSet genSet(PatGen& g, int maxPats, int atoms) { PatSet s; int n=1+g.r(maxPats); while ((int)s.size()<n) { Pat p; p.p=g.gen(1+g.r(atoms)); p.enc="ISO-8859-1"; if (refParses(p)) s.push_back(p); } return s; }
// every curated set, every curated single pattern (if wanted) and `gen` generated sets
template <class F> inline void forSets(int argc, char** argv, F f, bool singles=true) {
  int seed=argInt(argc,argv,"--seed",1), gen=argInt(argc,argv,"--gen",60), step=argInt(argc,argv,"--singles",1);
  for (auto& s: curatedSets()) f("set",s);
  int i=0; if (singles && step) for (auto& p: curated()) if (i++%step==seed%step) { PatSet s=mkset({p.c_str()}); if (refParses(s[0])) f("one",s); }
  PatGen g(seed*6151+7), h(seed*92821+3,"abc"); for (int k=0;k<gen;++k) f("gen",genSet(k%2?g:h,3,3));
}
