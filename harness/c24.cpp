// C24: calls that fail say so, those that succeed say so, with and without an error pointer.
#include "lg.h"
#include <lightgrep/encodings.h>
#include <lightgrep/transforms.h>
#include <strings.h>
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
static std::string esc(const std::string& s) { std::string q; for (unsigned char x: s) { char b[8]; snprintf(b,sizeof b,x>32&&x<127?"%c":"<%02x>",x); q+=b; } return q; }
static std::string fill(const std::string& tpl) { std::string s; for (char ch: tpl) { if (ch=='?') { unsigned char x; sym_make(&x,1); sym_assume(x!=0); ch=(char)x; } s+=ch; } return s; }
static bool same(const char* a, const std::string& b) { size_t n=strlen(a); if (n!=b.size()) return false; for (size_t i=0;i<n;++i) { unsigned char x=a[i], y=b[i]; if (x>='A'&&x<='Z') x+=32; bool up= y>='A'&&y<='Z'; unsigned char z= up? (unsigned char)(y+32): y; if (!sym_decide(x==z)) return false; } return true; }
template <size_t N> static int find(const LG_TRANS (&t)[N], const std::string& s) { for (auto& e: t) if (same(e.name,s)) return (int)e.idx; return -1; }
// the canonical form of a chain, or nothing
static std::string canon(const std::string& chain) {
  std::vector<std::string> tok; std::string cur; for (size_t i=0;i<=chain.size();++i) { bool sep= i==chain.size(); if (!sep) sep=sym_decide(chain[i]=='|'); if (sep) { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur+=chain[i]; }
  size_t i=0; std::string r; int id; while (i<tok.size() && find(LG_CHAR_TRANSFORMS,tok[i])>=0) { r+="identity|"; ++i; }
  if (i==tok.size() || (id=find(LG_ENCODINGS,tok[i]))<0) return "";
  r+=LG_CANONICAL_ENCODINGS[id]; for (++i;i<tok.size();++i) { id=find(LG_BYTE_TRANSFORMS,tok[i]); if (id<0) return ""; r+=std::string("|")+LG_CANONICAL_BYTE_TRANSFORMS[id]; }
  return r;
}
static std::string image(LG_HFSM f) { LG_ProgramOptions po; po.DeterminizeDepth=0xffffffff; LG_HPROGRAM g=lg_create_program(f,&po); if (!g) return "no program"; std::string s(lg_program_size(g),0); lg_write_program(g,&s[0]); lg_destroy_program(g); return s; }
static bool eq(const char* a, const std::string& b) { if (!a) return false; for (size_t i=0;i<b.size();++i) { if (a[i]!=b[i]) return false; if (!b[i]) return true; } return a[b.size()]==0; }
static LG_KeyOptions plain() { LG_KeyOptions o; o.FixedString=o.CaseInsensitive=o.UnicodeMode=0; return o; }
struct Chain { std::string tpl, pat; int before; bool err; };
static void chain(void* a) {
  Chain& c=*(Chain*)a; std::string s=fill(c.tpl); auto note=[&]{ sym_note(esc(s).c_str()); }; LG_KeyOptions o=plain(); LG_Error* e=nullptr; LG_Error** pe= c.err?&e:nullptr;
  LG_HFSM f=lg_create_fsm(0,0), w=lg_create_fsm(0,0); LG_HPATTERN h=lg_create_pattern();
  for (int i=0;i<c.before;++i) for (LG_HFSM q: {f,w}) { lg_parse_pattern(h,i?"x":"z+q",&o,nullptr); lg_add_pattern(q,h,"UTF-8",77,nullptr); }
  lg_parse_pattern(h,c.pat.c_str(),&o,nullptr); std::string k=canon(s); int want=-1; if (!k.empty()) want=lg_add_pattern(w,h,k.c_str(),5,nullptr);
  int r=lg_add_pattern(f,h,s.c_str(),5,pe); sym_output(r);
  CK((r>=0)==(want>=0),k.empty()?"an unknown encoding chain is accepted":want>=0?"a known encoding chain is refused":"an encoding chain is accepted although its canonical form is not"); CK(r>=-1,"an undocumented return value");
  if (r>=0) { CK(r==c.before,"the returned index is not that of the pattern"); CK(!e,"success with an error"); LG_PatternInfo* p=lg_fsm_pattern_info(f,r); CK(eq(p->EncodingChain,s)&&c.pat==p->Pattern&&p->UserIndex==5,"the pattern is listed wrongly"); sym_cover("chain accepted"); }
  else { if (c.err) { CK(e,"failure without an error"); CK(e->Message&&e->Message[0],"an error has no message"); CK(eq(e->Pattern,c.pat),"an error names another pattern"); CK(eq(e->EncodingChain,s),"an error names another encoding chain"); CK(!e->Next&&!e->Source,"an error names other things"); } else CK(!e,"an error appears from nowhere"); sym_cover(k.empty()?"chain refused":"not encodable"); }
  CK((int)lg_fsm_pattern_count(f)==c.before+(r>=0),"the number of patterns is wrong");
  // the FSM is as without the failed call, and can be added to
  lg_parse_pattern(h,"yx?z",&o,nullptr); for (LG_HFSM q: {f,w}) { int x=lg_add_pattern(q,h,"UTF-8",9,nullptr); CK(x==c.before+(r>=0),"a later pattern is refused or misnumbered"); }
  if (r<0 || s==k) CK(image(f)==image(w),"a failed call changes the FSM"); 
  if (r>=0) { LG_ProgramOptions po; po.DeterminizeDepth=0xffffffff; LG_HPROGRAM g=lg_create_program(f,&po), v=lg_create_program(w,&po); unsigned char t[4]={'a','b',0,'b'}; LG_HCONTEXT c1=newContext(g), c2=newContext(v); CK(searchAll(c1,t,4)==searchAll(c2,t,4),"a chain finds something else than its canonical form"); CK(lg_program_size(g)-s.size()==lg_program_size(v)-k.size(),"a chain means something else than its canonical form"); lg_destroy_context(c1); lg_destroy_context(c2); lg_destroy_program(g); lg_destroy_program(v); }
  lg_free_error(e); lg_destroy_pattern(h); lg_destroy_fsm(f); lg_destroy_fsm(w);
}
static void names(void* a) {
  std::string s=fill(*(std::string*)a); auto note=[&]{ sym_note(esc(s).c_str()); }; int e=find(LG_ENCODINGS,s), ch=find(LG_CHAR_TRANSFORMS,s), b=find(LG_BYTE_TRANSFORMS,s);
  CK(lg_get_encoding_id(s.c_str())==e,"an encoding has another number"); CK(lg_get_char_transform_id(s.c_str())==ch,"a character transformation has another number"); CK(lg_get_byte_transform_id(s.c_str())==b,"a byte transformation has another number");
  sym_output(e); sym_output(ch); sym_output(b); sym_cover(e>=0||ch>=0||b>=0?"name known":"name unknown");
}
struct Win { std::string tpl; bool err; };
static void window(void* a) {
  Win& c=*(Win*)a; std::string s=fill(c.tpl); auto note=[&]{ sym_note(esc(s).c_str()); }; std::string k=canon(s); LG_Error* e=nullptr; LG_Error** pe= c.err?&e:nullptr; LG_HDECODER d=lg_create_decoder(), x=lg_create_decoder(); const char t[]="a\0b\0c\0d"; LG_Window in; in.begin=102; in.end=104;
  int32_t mark=0; size_t mo=0; const char* mu="mark"; int32_t *c1=&mark,*c2=nullptr; size_t *o1=&mo,*o2=nullptr,n1=99,n2=0; LG_Window h1={7,7},h2={7,7},u1={7,7},u2={7,7}; const char *s1=mu,*s2=nullptr;
  unsigned r1=lg_read_window(d,t,t+8,100,&in,s.c_str(),1,1,&c1,&o1,&n1,&h1,pe);
  if (k.empty()) { CK(r1==0&&c1==&mark&&o1==&mo&&n1==99&&h1.begin==7&&h1.end==7,"a failed call writes results"); CK((e!=nullptr)==c.err,"failure without an error"); if (e) CK(e->Message&&e->Message[0]&&!e->Next,"an error has no message"); sym_cover("decoder refused"); }
  else { unsigned r2=lg_read_window(x,t,t+8,100,&in,k.c_str(),1,1,&c2,&o2,&n2,&h2,nullptr); CK(!e,"success with an error"); CK(r1==r2&&n1==n2&&h1.begin==h2.begin&&h1.end==h2.end,"a chain decodes otherwise than its canonical form"); CK(!memcmp(c1,c2,n1*sizeof *c1)&&!memcmp(o1,o2,n1*sizeof *o1),"a chain decodes otherwise than its canonical form"); lg_free_window_characters(c1); lg_free_window_characters(c2); lg_free_window_offsets(o1); lg_free_window_offsets(o2); sym_cover("decoder found"); }
  lg_free_error(e); e=nullptr;
  unsigned q1=lg_hit_context(d,t,t+8,100,&in,s.c_str(),1,63,&s1,&u1,&h1,pe);
  if (k.empty()) { CK(q1==0&&s1==mu&&u1.begin==7&&u1.end==7,"a failed call writes results"); CK((e!=nullptr)==c.err,"failure without an error"); if (e) CK(e->Message&&e->Message[0]&&!e->Next,"an error has no message"); }
  else { unsigned q2=lg_hit_context(x,t,t+8,100,&in,k.c_str(),1,63,&s2,&u2,&h2,nullptr); CK(!e,"success with an error"); CK(q1==q2&&!strcmp(s1,s2)&&u1.begin==u2.begin&&u1.end==u2.end&&h1.begin==h2.begin&&h1.end==h2.end,"a chain decodes otherwise than its canonical form"); lg_free_hit_context_string(s1); lg_free_hit_context_string(s2); }
  sym_output(r1); sym_output(q1); lg_free_error(e); lg_destroy_decoder(d); lg_destroy_decoder(x);
}
// calls in any order, with a byte of the pattern and of the encoding chosen freely
struct Seq { int steps; std::string pt, et; std::vector<int> acts; int first; };
static void seq(void* a) {
  Seq& c=*(Seq*)a; std::string log; auto note=[&]{ sym_note(log.c_str()); }; LG_HFSM f=lg_create_fsm(0,0), w=lg_create_fsm(0,0); LG_HPATTERN h=lg_create_pattern(); LG_KeyOptions o=plain(); bool parsed=false, pass=sym_choice(2); std::string cur; int n=0; bool made=false;
  std::string sp=fill(c.pt), se=fill(c.et); const std::string pats[]={"ab",sp,"x(","a*","\\x{100}"}, encs[]={"UTF-8",se,"none","ASCII"};
  for (int s=0;s<c.steps;++s) {
    int k= s||c.first<0? c.acts[sym_choice(c.acts.size())]: c.first; LG_Error* e=nullptr; LG_Error** pe= pass?&e:nullptr;
    if (k<5) { const std::string& p=pats[k]; LG_HPATTERN x=lg_create_pattern(); int want=lg_parse_pattern(x,p.c_str(),&o,nullptr); lg_destroy_pattern(x); int r=lg_parse_pattern(h,p.c_str(),&o,pe); log+="parse "+esc(p)+"="+std::to_string(r)+" ";
      CK(r>=0&&(r>0)==(want>0),"what is parsed before changes what can be parsed"); if (k!=1) CK((r>0)==(k!=2),"the wrong patterns are refused"); CK((e!=nullptr)==(r<=0&&pass),r>0?"success with an error":"failure without an error"); if (e) { CK(e->Message&&e->Message[0]&&!e->Next,"an error has no message"); CK(eq(e->Pattern,p),"an error names another pattern"); } parsed=r>0; cur=p; }
    else if (k<9) { const std::string& x=encs[k-5]; int want=-1; if (parsed) { LG_HPATTERN y=lg_create_pattern(); lg_parse_pattern(y,cur.c_str(),&o,nullptr); want=lg_add_pattern(w,y,x.c_str(),n,nullptr); lg_destroy_pattern(y); }
      int r=lg_add_pattern(f,h,x.c_str(),n,pe); log+="add "+esc(x)+"="+std::to_string(r)+" "; if (!parsed) CK(r<0,"a pattern that was not parsed is added"); CK(r==want,"what is called before changes what can be added"); CK((e!=nullptr)==(r<0&&pass),r>=0?"success with an error":"failure without an error"); if (e) { CK(e->Message&&e->Message[0]&&!e->Next,"an error has no message"); CK(eq(e->EncodingChain,x),"an error names another encoding chain"); if (parsed) CK(eq(e->Pattern,cur),"an error names another pattern"); } if (r>=0) { CK(r==n,"the returned index is not that of the pattern"); ++n; sym_cover("added"); } else sym_cover(parsed?"not added":"not parsed"); CK((int)lg_fsm_pattern_count(f)==n,"the number of patterns is wrong"); }
    else { LG_ProgramOptions po; po.DeterminizeDepth=0; LG_HPROGRAM g=lg_create_program(f,&po); log+="program "; CK((g!=nullptr)==(n>0),n?"no program of the accepted patterns":"a program of nothing"); lg_destroy_program(g); if (g) made=true; }
    lg_free_error(e);
  }
  CK(image(f)==image(w),"failed calls change the FSM"); sym_output(n); if (made) sym_cover("program");
  lg_destroy_pattern(h); lg_destroy_fsm(f); lg_destroy_fsm(w);
}
static void nulls(void*) {
  auto note=[]{}; LG_HFSM f=lg_create_fsm(0,0); LG_HPATTERN h=lg_create_pattern(); LG_KeyOptions o=plain(); LG_Error* e=nullptr; bool pass=sym_choice(2); LG_Error** pe= pass?&e:nullptr; unsigned char b[2]; sym_make(b,2); std::string p(b,b+2); int r=0, want=0;
  int k=(int)sym_choice(6);
  if (k==0) { r=lg_parse_pattern_slice(nullptr,p.data(),2,&o,pe); } else if (k==1) r=lg_parse_pattern_slice(h,p.data(),2,nullptr,pe);
  else if (k<5) { lg_parse_pattern(h,"ab",&o,nullptr); r=lg_add_pattern(k==2?nullptr:f,k==3?nullptr:h,k==4?nullptr:"UTF-8",1,pe); want=-1-(k-2); }
  else { lg_free_error(nullptr); lg_destroy_pattern(nullptr); lg_destroy_fsm(nullptr); lg_destroy_program(nullptr); lg_destroy_context(nullptr); lg_destroy_decoder(nullptr); lg_free_window_characters(nullptr); lg_free_window_offsets(nullptr); lg_free_hit_context_string(nullptr); pass=false; }
  CK(r==want,"an undocumented return value"); CK((e!=nullptr)==pass,"failure without an error"); if (e) CK(e->Message&&e->Message[0],"an error has no message"); sym_cover("null"); sym_output(r);
  CK(lg_fsm_pattern_count(f)==0,"a failed call adds a pattern"); lg_free_error(e); lg_destroy_pattern(h); lg_destroy_fsm(f);
}
void harness_main(int argc, char** argv) {
  int full=argInt(argc,argv,"--full",0), steps=argInt(argc,argv,"--steps",3);
  static const char* cs[]={"?","??","UTF-?","?TF-8","utf-8?","U?F-16LE","UTF-16?E","UTF-3?LE","?UTF-8","UTF-8|?","UTF-8|?CE","UTF-8|OC?","UTF-8|OCE?","UTF-8|O?E|OCE","UTF-8?OCE","identity|?TF-8","identit?|UTF-8","?dentity|UTF-8","identity?UTF-8","UTF-8|identit?","UTF-8|identity|?","ISO-8859-?","ISO-8859-1?","windows-125?","ASCI?","A?CII|OCE","UTF-8|?|OCE","?|UTF-8","IBM-?37","cp?37","37|?","UTF-8|UTF-?","identity?","UTF-7?","UTF-7","SCSU","UTF8","Shift_JI?"};
  static const char* cs2[]={"??TF-8","UTF-8??","UTF-8|??","UTF-8|??E","UT??8","UTF-16??","??|UTF-8","identi??|UTF-8","ISO-8859-??","latin??","??-8","???"};
  auto ch=[&](const char* t, const char* p, int before, bool err){ Chain c{t,p,before,err}; std::string q=std::string("chain/")+t+" "+p+" after "+std::to_string(before)+(err?"":" no error"); if (sym_want(q.c_str())) sym_explore(q.c_str(),chain,&c); };
  for (auto t: cs) { ch(t,"ab",0,true); ch(t,"\\x{e9}|\\x{100}",1,true); ch(t,"a\\x{4e00}",2,false); }
  for (auto t: {"UTF-?","ISO-8859-?","ASCI?","UTF-8|OC?","windows-125?"}) for (auto p: {strchr(t,'|')?"a.?b":".","[^a]","(?i)k\\x{17f}","a*","a|b?","\\x{d800}","\\x{10ffff}b","\\zFF"}) { ch(t,p,1,true); ch(t,p,1,false); }
  for (auto t: cs2) { if (!full && strlen(t)>6 && 0) continue; ch(t,"ab",1,true); if (full) ch(t,".b",0,false); }
  static const char* ns[]={"","?","??","UTF-?","utf-?","?tf-16le","UTF-16?e","ISO-8859-?","ISO-8859-1?","windows-125?","identit?","?DENTITY","?CE","oc?","O?e","OCE?","identity?","cp125?","ibm-?","ascii?","?SCII","UTF-8?","UTF?8","ru?"};
  for (auto t: ns) { std::string s=t, q=std::string("name/")+t; if (sym_want(q.c_str())) sym_explore(q.c_str(),names,&s); }
  if (full) for (auto t: {"???","UTF-??","?TF??6LE","ISO-8859-??","o??","cp??37"}) { std::string s=t, q=std::string("name/")+t; if (sym_want(q.c_str())) sym_explore(q.c_str(),names,&s); }
  for (auto t: {"","?","UTF-?","UTF-8|?","UTF-8|OC?","?TF-16LE","UTF-16?E","UTF-3?LE","ASCI?","identity|?TF-8","identity?UTF-8","ISO-8859-?","UTF-8|identit?","UTF-8??","??TF-8"}) for (bool err: {true,false}) { Win c{t,err}; std::string q=std::string("window/")+t+(err?"":" no error"); if (sym_want(q.c_str())) sym_explore(q.c_str(),window,&c); }
  for (auto p: {"a?","?","(?b","a{?}","\\?","[?","[a?b]"}) for (auto e: {"UTF-?","UTF-8|OC?","?"}) { Seq c{steps,p,e,{1,0,5,6,9},-1}; std::string q=std::string("calls/")+p+" "+e; if (sym_want(q.c_str())) sym_explore(q.c_str(),seq,&c); }
  for (int k=0;k<10;++k) { Seq c{steps+1,"a.b","UTF-16LE",{0,1,2,3,4,5,6,7,8,9},k}; std::string q="calls/first "+std::to_string(k); if (sym_want(q.c_str())) sym_explore(q.c_str(),seq,&c); }
  if (sym_want("null")) sym_explore("null",nulls,nullptr);
}
