// Reference matcher, written independently of lightgrep: its own parser for the pattern
// syntax, its own decoders, and ordinary Perl backtracking.
#pragma once
#include "sym.h"
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
namespace ref {
enum Enc { ASCII_, LATIN1, U8, U16LE, U16BE, U32LE, U32BE };
inline int encOf(const std::string& s) {
  if (s=="ASCII") return ASCII_; if (s=="ISO-8859-1") return LATIN1; if (s=="UTF-8") return U8; if (s=="UTF-16LE") return U16LE; if (s=="UTF-16BE") return U16BE; if (s=="UTF-32LE") return U32LE; if (s=="UTF-32BE") return U32BE;
  throw std::runtime_error("ref: encoding "+s);
}
// a well-formed character at t[i..n): its code point and length, or length 0
struct Ch { uint32_t cp; int len; };
inline Ch decode(int enc, const uint8_t* t, int n, int i) {
  int m=n-i; if (m<=0) return {0,0};
  const uint8_t* p=t+i;
  switch (enc) {
    case ASCII_: return p[0]<0x80? Ch{p[0],1}: Ch{0,0};
    case LATIN1: return {p[0],1};
    case U8: {
      uint32_t a=p[0];
      if (a<0x80) return {a,1};
      if (a<0xC2 || a>0xF4) return {0,0};
      if (a<0xE0) { if (m<2 || (p[1]&0xC0)!=0x80) return {0,0}; return {(a&0x1F)<<6|(p[1]&0x3Fu),2}; }
      if (a<0xF0) { if (m<3 || (p[1]&0xC0)!=0x80 || (p[2]&0xC0)!=0x80) return {0,0}; uint32_t c=(a&15)<<12|(p[1]&0x3Fu)<<6|(p[2]&0x3Fu); if (c<0x800 || (c>=0xD800&&c<=0xDFFF)) return {0,0}; return {c,3}; }
      if (m<4 || (p[1]&0xC0)!=0x80 || (p[2]&0xC0)!=0x80 || (p[3]&0xC0)!=0x80) return {0,0};
      uint32_t c=(a&7)<<18|(p[1]&0x3Fu)<<12|(p[2]&0x3Fu)<<6|(p[3]&0x3Fu); if (c<0x10000||c>0x10FFFF) return {0,0}; return {c,4}; }
    case U16LE: case U16BE: {
      if (m<2) return {0,0}; uint32_t a= enc==U16LE? p[0]|p[1]<<8u: p[0]<<8u|p[1];
      if (a<0xD800||a>0xDFFF) return {a,2}; if (a>=0xDC00||m<4) return {0,0};
      uint32_t b= enc==U16LE? p[2]|p[3]<<8u: p[2]<<8u|p[3]; if (b<0xDC00||b>0xDFFF) return {0,0};
      return {0x10000+((a-0xD800)<<10)+(b-0xDC00),4}; }
    case U32LE: case U32BE: {
      if (m<4) return {0,0}; uint32_t a= enc==U32LE? p[0]|p[1]<<8u|p[2]<<16u|(uint32_t)p[3]<<24: (uint32_t)p[0]<<24|p[1]<<16u|p[2]<<8u|p[3];
      if (a>0x10FFFF||(a>=0xD800&&a<=0xDFFF)) return {0,0}; return {a,4}; }
  }
  return {0,0};
}
inline std::string encode(int enc, uint32_t c) { // "" when not representable
  std::string s; auto b=[&](uint32_t x){ s+=(char)(uint8_t)x; };
  bool sur=c>=0xD800&&c<=0xDFFF; if (c>0x10FFFF) return s;
  switch (enc) {
    case ASCII_: if (c<0x80) b(c); break; case LATIN1: if (c<0x100) b(c); break;
    case U8: if (sur) break; if (c<0x80) b(c); else if (c<0x800) { b(0xC0|c>>6); b(0x80|(c&63)); } else if (c<0x10000) { b(0xE0|c>>12); b(0x80|(c>>6&63)); b(0x80|(c&63)); } else { b(0xF0|c>>18); b(0x80|(c>>12&63)); b(0x80|(c>>6&63)); b(0x80|(c&63)); } break;
    case U16LE: case U16BE: { if (sur) break; auto u=[&](uint32_t x){ if (enc==U16LE) { b(x); b(x>>8); } else { b(x>>8); b(x); } }; if (c<0x10000) u(c); else { u(0xD800+((c-0x10000)>>10)); u(0xDC00+((c-0x10000)&0x3FF)); } break; }
    case U32LE: if (sur) break; b(c); b(c>>8); b(c>>16); b(c>>24); break;
    case U32BE: if (sur) break; b(c>>24); b(c>>16); b(c>>8); b(c); break;
  }
  return s;
}
// sorted disjoint closed ranges of code points
struct Set {
  std::vector<std::pair<uint32_t,uint32_t>> r; bool byte[256]={};  bool anyByte=false; bool low[256]={};
  void add(uint32_t a, uint32_t b) { r.push_back({a,b}); norm(); }
  void norm() { std::vector<std::pair<uint32_t,uint32_t>> s=r; for (size_t i=1;i<s.size();++i) for (size_t j=i;j>0&&s[j]<s[j-1];--j) std::swap(s[j],s[j-1]); r.clear(); for (auto& x: s) { if (!r.empty() && x.first<=r.back().second+1) { if (x.second>r.back().second) r.back().second=x.second; } else r.push_back(x); } }
  void fin() { for (auto& l: low) l=false; for (auto& x: r) for (uint32_t c=x.first;c<=x.second&&c<256;++c) low[c]=true; }
  bool has(uint32_t c) const { if (r.size()>6) { bool b=false; for (auto& x: r) b|= (c>=x.first)&(c<=x.second); return b; } for (auto& x: r) if (c>=x.first && c<=x.second) return true; return false; }
  Set neg() const { Set o; uint32_t p=0; for (auto& x: r) { if (x.first>p) o.r.push_back({p,x.first-1}); p=x.second+1; } if (p<=0x10FFFF) o.r.push_back({p,0x10FFFF}); return o; }
  static Set uni(const Set& a, const Set& b) { Set o; o.r=a.r; o.r.insert(o.r.end(),b.r.begin(),b.r.end()); o.norm(); return o; }
  static Set inter(const Set& a, const Set& b) { return uni(a.neg(),b.neg()).neg(); }
  static Set minus(const Set& a, const Set& b) { return inter(a,b.neg()); }
  static Set xorr(const Set& a, const Set& b) { return uni(minus(a,b),minus(b,a)); }
};
enum Kind { CLS, RAW, CAT, ALT, REP, EMPTY };
struct Node { Kind k; Set set; int byte=0; Node *l=nullptr,*r=nullptr; int lo=0,hi=0; bool ng=false; };
const int INF=1<<28;
struct Opt { bool fixed=false, ci=false, uni=false; };
struct Sw { bool ci, ascii; };
// Unicode mode is left to these, when given
inline Set (*foldHook)(const Set&, bool ascii)=nullptr;
inline Set (*namedHook)(int c)=nullptr;


struct Regex {
  std::string src; Opt opt; int enc; Node* root=nullptr; size_t p=0; std::vector<Node*> own;
  const uint8_t* t=nullptr; int n=0;
  typedef std::function<bool(int)> K;
  Regex(const std::string& s, int e, Opt o=Opt()): src(s),opt(o),enc(e) {
    if (o.fixed) { Node* x=nullptr; while (p<src.size()) { Node* c=lit(next()); x= x? mk(CAT,x,c): c; } root=x; }
    else { Sw w{o.ci,!o.uni}; root=alt(w); if (p!=src.size()) bad(); }
    fin(root);
  }
  Regex(Node* r, int e): enc(e), root(r) { fin(r); }
  void fin(Node* x) { if (!x) return; if (x->k==CLS) x->set.fin(); fin(x->l); fin(x->r); }
  [[noreturn]] void bad() { throw std::runtime_error("ref: cannot parse "+src); }
  Node* mk(Kind k, Node* l=nullptr, Node* r=nullptr) { Node* x=new Node; own.push_back(x); x->k=k; x->l=l; x->r=r; return x; }
  Node* cls(const Set& s) { Node* x=mk(CLS); x->set=s; return x; }
  Node* lit(uint32_t c, Sw w) { Set s; s.add(c,c); if (w.ci) fold(s,w.ascii); return cls(s); }
  Node* lit(uint32_t c) { return lit(c,Sw{opt.ci,!opt.uni}); }
  void fold(Set& s, bool ascii) { if (foldHook) { s=foldHook(s,ascii); return; } Set o=s; for (uint32_t c=0;c<26;++c) { if (s.has('a'+c)) o.add('A'+c,'A'+c); if (s.has('A'+c)) o.add('a'+c,'a'+c); } if (!ascii) bad(); s.r=o.r; }
  bool more() { return p<src.size(); }
  uint32_t next() { Ch c=decode(U8,(const uint8_t*)src.data(),src.size(),p); if (!c.len) bad(); p+=c.len; return c.cp; }
  uint8_t peek() { return more()? src[p]: 0; }
  Node* alt(Sw& ci) { Node* x=cat(ci); while (peek()=='|'&&more()) { ++p; x=mk(ALT,x,cat(ci)); } return x; }
  bool isSwitch() { return p+2<src.size() && src[p]=='(' && src[p+1]=='?' && (src[p+2]=='i'||src[p+2]=='a'||src[p+2]=='-'); }
  void doSwitch(Sw& ci) { p+=2; bool on=true; while (more() && src[p]!=')') { if (src[p]=='-') on=false; else if (src[p]=='i') ci.ci=on; else if (src[p]=='a') ci.ascii=on; else bad(); ++p; } ++p; }
  Node* cat(Sw& ci) { Node* x=nullptr; while (more() && peek()!='|' && peek()!=')') { if (isSwitch()) { doSwitch(ci); continue; } Node* y=rep(ci); x= x? mk(CAT,x,y): y; } if (!x) bad(); return x; }
  int num() { int v=0; if (!isdigit_(peek())) bad(); while (isdigit_(peek())) v=v*10+(src[p++]-'0'); return v; }
  static bool isdigit_(uint8_t c) { return c>='0'&&c<='9'; }
  Node* rep(Sw& ci) {
    Node* a=atom(ci); int lo,hi;
    switch (peek()) {
      case '*': ++p; lo=0; hi=INF; break; case '+': ++p; lo=1; hi=INF; break; case '?': ++p; lo=0; hi=1; break;
      case '{': if (!(p+1<src.size()&&isdigit_(src[p+1]))) return a; ++p; lo=num(); hi=lo; if (peek()==',') { ++p; hi= peek()=='}'? INF: num(); } if (peek()!='}'||lo>hi) bad(); ++p; break;
      default: return a;
    }
    Node* r=mk(REP,a); r->lo=lo; r->hi=hi; if (more()&&peek()=='?') { ++p; r->ng=true; } return r;
  }
  static int hexv(int c) { return c>='0'&&c<='9'? c-'0': c>='a'&&c<='f'? c-'a'+10: c>='A'&&c<='F'? c-'A'+10: -1; }
  static Set named(int c) { Set s; switch (c|32) {
      case 'd': s.add('0','9'); break; case 'w': s.add('0','9'); s.add('A','Z'); s.add('a','z'); s.add('_','_'); break; case 's': s.add(9,13); s.add(32,32); break;
      case 'h': s.add(9,9); s.add(32,32); s.add(0xA0,0xA0); s.add(0x1680,0x1680); s.add(0x180E,0x180E); s.add(0x2000,0x200A); s.add(0x202F,0x202F); s.add(0x205F,0x205F); s.add(0x3000,0x3000); break;
      case 'v': s.add(0xA,0xD); s.add(0x85,0x85); s.add(0x2028,0x2029); break; }
    return c<'a'? s.neg(): s; }
  // after the backslash: 0 character (v), 1 set, 2 raw byte (v)
  int escape(uint32_t& v, Set& s, bool incc, bool ascii) {
    if (!more()) bad(); char c=src[p++];
    switch (c) {
      case 'a': v=7; return 0; case 'e': v=27; return 0; case 'f': v=12; return 0; case 'n': v=10; return 0; case 'r': v=13; return 0; case 't': v=9; return 0;
      case 'b': if (!incc) bad(); v=8; return 0;
      case 'd': case 'D': case 's': case 'S': case 'w': case 'W': if (!ascii) { if (!namedHook) bad(); s=namedHook(c); return 1; } // fallthrough
      case 'h': case 'H': case 'v': case 'V': s=named(c); return 1;
      case 'x': if (peek()=='{') { ++p; v=0; int k=0; while (peek()!='}') { int h=hexv(peek()); if (h<0||++k>6) bad(); v=v*16+h; ++p; } ++p; if (!k||v>0x10FFFF) bad(); return 0; } // fallthrough
      case 'z': { int h=hexv(peek()); if (h<0) bad(); ++p; int l=hexv(peek()); if (l<0) bad(); ++p; v=h*16+l; return c=='z'?2:0; }
      default:
        if (c>='0'&&c<='7') { v=c-'0'; for (int k=0;k<2&&peek()>='0'&&peek()<='7';++k) v=v*8+(src[p++]-'0'); if (v>255) bad(); return 0; }
        if (strchr("|()?+*.[]^$-{}&~<=!\\",c)) { v=c; return 0; } bad();
    }
  }
  Node* atom(Sw& ci) {
    uint8_t c=peek();
    if (c=='(') { ++p; Sw inner=ci; Node* x=alt(inner); if (peek()!=')'||!more()) bad(); ++p; return x; }
    if (c=='.') { ++p; Set s; s.add(0,0x10FFFF); return cls(s); }
    if (c=='[') { Node* x=cls(Set()); cc(x->set,ci); return x; }
    if (c=='\\') { ++p; uint32_t v=0; Set s; int k=escape(v,s,false,ci.ascii); if (k==0) return lit(v,ci); if (k==1) return cls(s); Node* x=mk(RAW); x->byte=v; return x; }
    if (strchr("*+?|)^$",c)&&c) bad();
    return lit(next(),ci);
  }
  // simple class: characters, ranges, escapes, negation (no set operators)
  void cc(Set& out, Sw ci) {
    ++p; bool neg=false; if (peek()=='^') { neg=true; ++p; } Set s; bool first=true;
    while (more() && (peek()!=']' || first)) {
      uint32_t a=0; Set q; int k=0; if (peek()=='\\') { ++p; k=escape(a,q,true,ci.ascii); } else { if (peek()=='['||peek()=='&'||peek()=='~') bad(); a=next(); }
      first=false;
      if (k==1) { s=Set::uni(s,q); continue; } if (k==2) bad();
      uint32_t b=a; if (peek()=='-' && p+1<src.size() && src[p+1]!=']') { ++p; Set q2; if (peek()=='\\') { ++p; if (escape(b,q2,true,ci.ascii)!=0) bad(); } else b=next(); if (b<a) bad(); }
      s.add(a,b);
    }
    if (!more()) bad(); ++p; if (ci.ci) fold(s,ci.ascii); out= neg? s.neg(): s;
  }
  // ---------- matching
  int one(const Set& s, int i) { // length of the single character at i when it is in s, else 0
    if (enc<=LATIN1) { if (i>=n) return 0; uint8_t b=t[i]; if (enc==ASCII_ && b>=0x80) return 0; return sym_decide(s.low[b])?1:0; }
    Ch c=decode(enc,t,n,i); return c.len && sym_decide(s.has(c.cp))? c.len: 0;
  }
  long steps=0; bool over=false;
  bool m(Node* x, int i, const K& k) {
    if (++steps>300000) { over=true; return false; }
    switch (x->k) {
      case EMPTY: return k(i);
      case CLS: { int l=one(x->set,i); return l && k(i+l); }
      case RAW: return i<n && t[i]==x->byte && k(i+1);
      case CAT: return m(x->l,i,[&](int j){ return m(x->r,j,k); });
      case ALT: return m(x->l,i,k)||m(x->r,i,k);
      case REP: return rp(x,i,0,k);
    }
    return false;
  }
  // T{n,m} is T..T(T(..)?)? (as in PCRE); an empty iteration ends an unbounded loop
  bool rp(Node* x, int i, int c, const K& k) {
    auto again=[&]{ return c<x->hi && m(x->l,i,[&](int j){ if (j==i && c>=x->lo && x->hi==INF) return k(j); return rp(x,j,c+1,k); }); };
    if (c<x->lo) return again();
    if (x->ng) return k(i)||again();
    return again()||k(i);
  }
  // end of the preferred match at i, or -1
  int at(int i) { int e=-1; if (m(root,i,[&](int j){ e=j; return true; })) return e; return -1; }
  void text(const uint8_t* p_, int n_) { t=p_; n=n_; steps=0; over=false; }
  static bool nullable(const Node* x) { switch (x->k) { case EMPTY: return true; case CLS: case RAW: return false; case CAT: return nullable(x->l)&&nullable(x->r); case ALT: return nullable(x->l)||nullable(x->r); case REP: return x->lo==0||nullable(x->l); } return false; }
  struct H { int s,e; };
  std::vector<H> all() { std::vector<H> v; int i=0; while (i<n) { int e=at(i); if (e>i) { v.push_back({i,e}); i=e; } else ++i; } return v; }
};
}
