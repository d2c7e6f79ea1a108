// Pattern spaces shared by the harnesses: a curated list and generated patterns.
#pragma once
#include "lg.h"
#include <string>
#include <vector>
inline const std::vector<std::string>& curated() {
  static const std::vector<std::string> v={
    "a","ab","abc","aa","aba","aab","abab","a.b",".a","a.","..",".","a|b","ab|ac","ab|a","a|ab","abc|ab|a","a|ab|abc","(a|ab)(c|bcd)","(ab|a)(bc|c)",
    "a+","a+b","ab+","a+b+","a*b","ab*","a*ba","(ab)+","(ab)*a","(a|b)+","(a|b)*c","(a|b)*abb","a?b","ab?","a?b?c","a{2}","a{3}","a{2,3}","a{1,3}b","a{2,}","a{2,}b","(ab){2}","(ab){1,2}c","(ab){2,}","a{0,1}b","a{0,2}b","(a|bc){2}","(a|ab){2}",
    "a+?","a+?b","a*?b","ab*?","ab*?c","a.*?b","a.+?b","ab??","ab??c","a??b","(ab)+?","(ab)+?c","a{2,3}?","a{2,3}?b","a{2,}?","a{2,}?b","a{1,3}?c","a.*b","a.*b|c","a.*?b|c","a.{2}b","a.{1,2}b","a.{0,2}b","a[^b]*b","a[^b]+b","[^a]+","[^a]b",
    "[ab]","[a-f]{2,3}","[a-c]+d","[^a-y]","[\\x00-\\x1f]+","\\x00","\\x00+","\\xff","\\x7f","\\n","a\\nb","^a","[ac]b[ac]","[a-z][0-9]","\\d+","\\w+","\\s+","\\d\\w","\\D","\\W\\w",
    "a(b|c)d","a(b|c)*d","a(bc)?d","a(b|)d","(a|b)(a|b)","(a|b)(c|d)(e|f)","(ab|cd)+e","((a|b)c)+","((a|b)*c)+","(a*b)+","(a*b*)+c","(a+b?)+","(a?b)+c","(a|ab|abc)c","(aa|aab)b","x(y|yz)zw","(foo|fo)o","fo+b|fo+","aab|aac|ab","(a|aa)+","(a|aa)+b","(aa|a)+b","(aaa|aa)+","aaa|aa|a","aa+a","a+a","a*a","a*aa","a+a+","a*?a","a+?a","a?a","a??a","a?a?a","a??a??a",".*a",".+a",".*?a",".a.","..a","a..","(.a)+","(a.)+",".{2,3}",".{2,3}a","(..)+","(.|a)b","ab(c|d)?","ab(c|d)??e","(a|b)??c","(a+|b+)c","(a+|b+)+","(a+|b)*c","(ab*)*c","(ab*?)+c","(a*?b)+","(a*)b","(a*)*b","(a*)+b","(a?)*b","(a??)*b","(a|b*)c","(a*|b)c","a(b*|c)d","a(b??|c)d","x*y*z","xx*","x?x*y","(x|y)?z","(x|y){2}z","(x{2}|y)z","(x{2})+","(x{2}){2}","(x{1,2}){2}","(x{1,2}y){2}","(x+y){2}","(x+){2}y","(x?y){2}","(x*y){2}","(xy?){2}","(xy?)+","(xy*){2}","xyxz","xyxyxz","aabaab","abcabd","ab.*cd","ab.*?cd","ab[^c]*cd","a(.b)*c","a(.b)*?c","a(.|b)c","a(b|.)c","a(.b|b)c","(?i)ab","(?i)a(?-i)b","a(?i)b","(?i)[a-c]d","(?i)k",
    "a(bc|b)(c|cd)","(a|b|c)(ab|bc|ca)","ab|bc|ca","abc|bcd|cde","aXb|aYb","(ab|ba)+","(ab|ba)+?c","a(b(c(d)?)?)?","a(b(c)??)??d","(a(b(c)?)?)+","[a-m][g-z]","[a-m]|[g-z]a","[a-m]a|[g-z]b","[^ab][^bc]","[^a]*a","[^a]*?a","a[^\\n]*b",
    "a\\x{62}","\\141","a\\-b","a{2}b{2}","a{2}b{2,}","(a{2}b)+","a+b*c?","a+?b*?c??d","a??b??c","a*?b*?c","(a*?)(b*?)c","(a|b)*?c","(a|b)+?c","(a|bb)+?c","(a|bb)*?bc","(ab?)*?bc","(ab?)*bc","(ab??)*bc","b(ab?)*?","c(a|b){1,2}","c(a|b){1,2}?","c(a|b){1,2}?d","c.{1,3}?d","cd?e?","cd??e??f","c(d|e)??f","(a|b|ab)(c|bcd)(d*)e",
    "(ab??){2}","(a|b{1,2}?b){3}","a(b?|c)","a(b*|.)c?","(a(b??|c)){2}","(b|a??)+a","b(b|a{0,2}?)+","(a|ab)+(a|ab)+","(a|ab){1,2}(a|ab){1,2}","(ab)+(ab)+","(a{0}|b)c","c(a{0}|b)","c(a{0}|b)+d","a(b{0}|c)*?d","(a|b{0})c","a+a{0}b","(a{0}b|c)d","a{1}b{1}?","((a|b{0})c)+","(a?|b)+c","(a??|b)+c","(a?|b)*?c","(a|b??)*c",
  };
  return v;
}
// a random pattern over a small alphabet with up to n atoms
struct PatGen {
  Rng r; const char* atoms; PatGen(uint64_t seed, const char* a="ab"): r(seed),atoms(a) {}
  std::string atom() {
    switch (r(12)) { case 0: return "."; case 1: return "[ab]"; case 2: return "[^a]"; case 3: return "[b-d]"; default: return std::string(1,atoms[r(strlen(atoms))]); }
  }
  std::string quant() {
    static const char* q[]={"*","+","?","*?","+?","??","{2}","{1,2}","{0,2}","{2,}","{2,3}","{1,2}?","{0,2}?","{2,}?","{0,1}","{1,}","{3}","{0,3}?","{0}","{1}","{1}?","{2}?"};
    return q[r(22)];
  }
  std::string gen(int n, bool top=true) {
    if (n<=1) { std::string s=atom(); if (r(5)<2) s+=quant(); return s; }
    int k=1+(int)r(n-1); std::string a=gen(k,false), b= r(8)? gen(n-k,false): a;
    if (r(5)<3) { if (top || r(2)) return a+b; std::string s="("+a+b+")"; if (r(2)) s+=quant(); return s; }
    std::string s="("+a+"|"+b+")"; if (r(2)) s+=quant(); return s;
  }
};
