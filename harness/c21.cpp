// C21: numeric escapes, control escapes, breakout bytes and repetition counts mean what they spell.
#include "lg.h"
#include "re.h"
#include "parser.h"
#include <climits>
#include <stdexcept>
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
enum Form { HEX2, BRACED, UPLUS, OCT, RAWB, CONTROL };
// digits: '?' is any byte, '#' any hexadecimal digit, others themselves; whole: only well-formed escapes in range
struct Case { int form; std::string tpl; bool incc, whole; };
static int hv(int c) { return sym_decide((c>='0')&(c<='9'))? c-'0': sym_decide((c>='a')&(c<='f'))? c-'a'+10: sym_decide((c>='A')&(c<='F'))? c-'A'+10: -1; }
// what parsing gives: 0 refused, 1 a character or byte (v), 2 something else
static int parsed(const std::string& s, bool incc, bool& isByte, uint32_t& v) {
  Pattern p(s); ParseTree t; try { if (!parse(p,t)) return 0; } catch (const std::exception&) { return 0; }
  const ParseNode* r=t.Root; if (!r || r->Type!=ParseNode::REGEXP) return 2; r=r->Child.Left;
  if (!incc) { isByte=r->Type==ParseNode::BYTE; if (!isByte && r->Type!=ParseNode::LITERAL) return 2; v=r->Val; return 1; }
  if (r->Type==ParseNode::LITERAL) { isByte=false; v=r->Val; return 1; } if (r->Type!=ParseNode::CHAR_CLASS) return 2;
  int n=0; for (auto q: r->Set.CodePoints) { ++n; v=q.first; if (q.second-q.first!=1) return 2; } isByte=!n; if (n>1) return 2;
  int nb=0; for (int b=0;b<256;++b) if (r->Set.Breakout.Bytes[b]) { ++nb; if (isByte) v=b; } return nb+n==1?1:2;
}
static int fill(const std::string& tpl, unsigned char* d) { int k=tpl.size(); for (int i=0;i<k;++i) { d[i]=tpl[i]; if (tpl[i]=='?'||tpl[i]=='#') sym_make(d+i,1); if (tpl[i]=='#') sym_assume(((d[i]>='0')&(d[i]<='9'))|((d[i]>='a')&(d[i]<='f'))|((d[i]>='A')&(d[i]<='F'))); } return k; }
static void runEsc(void* a) {
  Case& c=*(Case*)a; unsigned char d[16]; int k=fill(c.tpl,d); std::string s=c.incc?"[":""; uint32_t want=0; bool ok=true;
  auto note=[&]{ std::string q; for (unsigned char x: s) { char b[8]; snprintf(b,sizeof b,x>32&&x<127?"%c":"<%02x>",x); q+=b; } sym_note(q.c_str()); };
  switch (c.form) {
    case HEX2: case RAWB: s+= c.form==HEX2? "\\x": "\\z"; sym_assume(d[0]!='{'); for (int i=0;i<2;++i) { int h= i<k? hv(d[i]): -1; if (h<0) { ok=false; break; } want=want*16+h; } break;
    case BRACED: case UPLUS: s+= c.form==BRACED? "\\x{": "\\N{U+"; if (k<1 || k>6) ok=false; for (int i=0;i<k;++i) sym_assume(d[i]!='}'); for (int i=0;ok && i<k;++i) { int h=hv(d[i]); if (h<0) ok=false; want=want*16+h; } if (ok && sym_decide(want>0x10ffff)) ok=false; break;
    case OCT: s+="\\"; for (int i=0;i<k;++i) { sym_assume((d[i]>='0')&(d[i]<='7')); want=want*8+(d[i]-'0'); } if (sym_decide(want>255)) ok=false; break;
    case CONTROL: s+="\\"; break;
  }
  if (c.whole) sym_assume(ok);
  s.append((char*)d,k); if (c.form==BRACED||c.form==UPLUS) s+="}"; if (c.incc) s+="]";
  bool isByte=false; uint32_t v=0; int r=parsed(s,c.incc,isByte,v); sym_output(r);
  if (c.form==CONTROL) {
    static const char from[]="aefnrt", to[]="\a\033\f\n\r\t", meta[]="|()?+*.[]^$-{}&~<=!\\"; int w=-1; for (int i=0;i<6;++i) if (d[0]==from[i]) w=to[i]; for (const char* m=meta;*m;++m) if (d[0]==*m) w=*m; if (c.incc && d[0]=='b') w=8; if (d[0]>='0'&&d[0]<='7') w=d[0]-'0';
    if (w>=0) { CK(r==1 && !isByte && v==(uint32_t)w,"an escape does not denote its character"); sym_cover("accepted"); }
    else { bool set=memchr("dDsSwWhHvVbBAZK",d[0],15)&&d[0]; if (!set) { CK(r==0,"an unknown escape is accepted"); sym_cover("refused"); } else CK(r!=1,"a class or assertion is taken for a character"); }
    return;
  }
  if (!ok) { CK(r==0,"a malformed or out-of-range escape is accepted"); sym_cover("refused"); return; }
  CK(r==1,"a well-formed escape is refused"); CK(isByte==(c.form==RAWB),"a character is taken for a byte, or a byte for a character"); CK(sym_decide(v==want),"an escape denotes another value than its digits spell"); sym_cover("accepted"); sym_output(v);
}
// digits beyond the third of an octal escape are literal
static void runOctRest(void* a) {
  int k=(int)((Case*)a)->tpl.size(); unsigned char d[8]; sym_make(d,k); for (int i=0;i<k;++i) sym_assume((d[i]>='0')&(d[i]<='9')); sym_assume(d[0]<='7'); std::string s="\\"; s.append((char*)d,k); s+="x"; auto note=[&]{ sym_note(s.c_str()); };
  int u=1; while (u<3 && u<k && sym_decide(d[u]<='7')) ++u; uint32_t want=0; for (int i=0;i<u;++i) want=want*8+(d[i]-'0');
  Pattern p(s); ParseTree t; bool ok=true; try { ok=parse(p,t); } catch (const std::exception&) { ok=false; } sym_output(ok);
  if (sym_decide(want>255)) { CK(!ok,"an octal escape above 0377 is accepted"); sym_cover("refused"); return; } CK(ok,"an octal escape is refused"); sym_cover("accepted");
  std::vector<const ParseNode*> leaves, st{t.Root}; while (!st.empty()) { const ParseNode* n=st.back(); st.pop_back(); if (n->Type==ParseNode::CONCATENATION) { st.push_back(n->Child.Right); st.push_back(n->Child.Left); } else if (n->Type==ParseNode::REGEXP) st.push_back(n->Child.Left); else leaves.push_back(n); }
  CK((int)leaves.size()==1+k-u+1,"an octal escape takes another number of digits"); CK(leaves[0]->Type==ParseNode::LITERAL && sym_decide((uint32_t)leaves[0]->Val==want),"an octal escape denotes another value"); for (int i=u;i<k;++i) CK(sym_decide(leaves[1+i-u]->Val==d[i]),"a digit after an octal escape is not itself");
}
// least and greatest number as templates (digits; '?' any digit); no second number: "-", open: ""
struct CCase { std::string lo, hi; bool ng, whole; };
static int digits(const std::string& tpl, unsigned char* d) { int k=tpl.size(); for (int i=0;i<k;++i) { d[i]=tpl[i]; if (tpl[i]=='?') { sym_make(d+i,1); sym_assume((d[i]>='0')&(d[i]<='9')); } } return k; }
// more than INT_MAX
static bool tooBig(const unsigned char* d, int k) {
  bool gt=false; for (;k>10;--k,++d) gt|= *d!='0'; if (k<10) return false; static const char lim[]="2147483647"; bool eq=true; for (int i=0;i<10;++i) { gt|= eq&(d[i]>lim[i]); eq&= d[i]==lim[i]; } return sym_decide(gt);
}
static int value(const unsigned char* d, int k) { unsigned v=d[0]-48u; for (int i=1;i<k;++i) v=v*10+(d[i]-48u); return (int)v; }
static void runCount(void* a) {
  CCase& c=*(CCase*)a; unsigned char d[16], f[16]; int k=digits(c.lo,d), m= c.hi=="-"? -1: digits(c.hi,f);
  std::string s="a{"; s.append((char*)d,k); if (m>=0) s+=","; if (m>0) s.append((char*)f,m); s+="}"; if (c.ng) s+="?"; auto note=[&]{ sym_note(s.c_str()); };
  bool big=tooBig(d,k) || (m>0 && tooBig(f,m)); if (c.whole) sym_assume(!big); uint32_t lo= big?0: value(d,k), hi= big?0: m<0? lo: m==0? UNBOUNDED: value(f,m); bool ok=!big && !(m>0 && sym_decide((int)lo>(int)hi)); if (c.whole) sym_assume(ok);
  Pattern p(s); ParseTree t; bool got; try { got=parse(p,t); } catch (const std::exception&) { got=false; } sym_output(got);
  if (!got) { CK(!ok,"a repetition is refused"); sym_cover("refused"); return; }
  CK(!big,"a number too large is accepted"); CK(ok,"reversed bounds are accepted"); const ParseNode* r=t.Root->Child.Left; CK(r->Type==(c.ng?ParseNode::REPETITION_NG:ParseNode::REPETITION),"not a repetition"); CK(sym_decide(r->Child.Rep.Min==lo),"the least count is another number"); CK(sym_decide(r->Child.Rep.Max==hi),"the greatest count is another number"); sym_cover("counted");
}
// the same, through compiling and searching
static void runMatch(void* a) {
  Case& c=*(Case*)a; unsigned char d[8], x[2]; int k=fill(c.tpl,d); uint32_t want=0; std::string s= c.form==HEX2?"\\x":c.form==RAWB?"\\z":c.form==BRACED?"\\x{":"\\"; if (c.incc) s="["+s;
  for (int i=0;i<k;++i) { if (c.form==OCT) { sym_assume((d[i]>='0')&(d[i]<='7')); want=want*8+(d[i]-'0'); } else { int h=hv(d[i]); sym_assume(h>=0); want=want*16+h; } } sym_assume(want<256);
  s.append((char*)d,k); if (c.form==BRACED) s+="}"; if (c.incc) s+="]"; auto note=[&]{ std::string q; for (unsigned char x: s) { char b[8]; snprintf(b,sizeof b,x>32&&x<127?"%c":"<%02x>",x); q+=b; } sym_note(q.c_str()); }; Pat pt; pt.p=s; pt.enc="ISO-8859-1"; Built b=build({pt}); CK(b.ctx,"an escape cannot be compiled"); x[0]=0xff; sym_make(x+1,1); 
  bool same=sym_decide(x[1]==want); std::vector<Hit> h=searchAll(b.ctx,x+1,1); outHits(h); CK(h.size()==(same?1u:0u),"an escape matches another byte than it spells"); sym_cover(same?"match":"no match"); drop(b);
}
static void runCountMatch(void* a) {
  CCase& c=*(CCase*)a; unsigned char d[4]; int ck=digits(c.lo,d), cm= c.hi=="-"? -1: digits(c.hi,d+ck); std::string s="x(ab|c){"; s.append((char*)d,ck); if (cm>=0) s+=","; if (cm>0) s.append((char*)d+ck,cm); s+="}"; if (c.ng) s+="?"; s+="x?"; auto note=[&]{ sym_note(s.c_str()); };
  int lo=0, hi=0; for (int i=0;i<ck;++i) lo=lo*10+(d[i]-'0'); for (int i=0;i<cm;++i) hi=hi*10+(d[ck+i]-'0'); if (cm<0) hi=lo; if (cm==0) hi=1000; sym_assume(lo<=hi); sym_assume(lo<=12);
  Pat pt; pt.p=s; pt.enc="ISO-8859-1"; Built b=build({pt}); CK(b.ctx,"a repetition cannot be compiled"); int k=(int)sym_choice(14); std::string t="x"; for (int i=0;i<k;++i) t+= i%3==1?"c":"ab"; t+="y";
  std::vector<Hit> h=searchAll(b.ctx,(const unsigned char*)t.data(),t.size()); outHits(h); bool w=k>=lo; int m= c.ng? lo: std::min(k,hi), e=1; for (int i=0;i<m;++i) e+= i%3==1?1:2;
  CK(h.size()==(w?1u:0u),"a counted repetition matches another number"); if (w) CK(h[0].s==0 && (int)h[0].e==e,"a counted repetition takes another number"); sym_cover(w?"match":"no match"); drop(b);
}
void harness_main(int argc, char** argv) {
  int full=argInt(argc,argv,"--full",0); static const char* names[]={"\\xHH","\\x{}","\\N{U+}","\\OOO","\\zHH","\\c"};
  auto esc=[&](int f, const std::string& t, bool whole){ for (int cc=0;cc<2;++cc) { std::string nm=std::string("escape/")+names[f]+"/"+t+(whole?"/well-formed":"")+(cc?"/in a class":""); if (!sym_want(nm.c_str())) continue; Case c{f,t,cc!=0,whole}; sym_explore(nm.c_str(),runEsc,&c); } };
  for (int f: {HEX2,RAWB}) { for (auto& t: {"?","??"}) esc(f,t,false); esc(f,"##",true); } for (auto& t: {"?","??","???"}) esc(OCT,t,false); esc(CONTROL,"?",false);
  for (int f: {BRACED,UPLUS}) { std::string all; for (int k=1;k<=6;++k) { all+="#"; esc(f,all,true); } for (int k=1;k<=8;++k) for (int i=0;i<k;++i) { std::string t(k,'1'); t[0]='0'; t[i]='?'; esc(f,t,false); } for (auto& t: {"","?","??","10FF#?","1100##","#10000","##ffff","FFFF##","00000##","0000000#","1#?"}) esc(f,t,false); if (full) for (auto& t: {"???","1???","#1#000","###000"}) esc(f,t,false); }
  for (int k=2;k<=5;++k) { char nm[64]; snprintf(nm,sizeof nm,"octal and digits/%d",k); if (!sym_want(nm)) continue; Case c{OCT,std::string(k,'?'),false,false}; sym_explore(nm,runOctRest,&c); }
  auto cnt=[&](const std::string& lo, const std::string& hi, bool whole){ for (int ng=0;ng<2;++ng) { std::string nm="count/{"+lo+(hi=="-"?"":","+hi)+"}"+(ng?"?":"")+(whole?"/well-formed":""); if (!sym_want(nm.c_str())) continue; CCase c{lo,hi,ng!=0,whole}; sym_explore(nm.c_str(),runCount,&c); } };
  for (int k=1;k<=(full?6:4);++k) for (int m=-1;m<=(full?6:3);++m) cnt(std::string(k,'?'),m<0?"-":std::string(m,'?'),true);
  for (auto& q: {std::pair<const char*,const char*>{"??","??"},{"?","123456??"},{"1234??","98765??"},{"?00000","-"},{"00000??","000000?"},{"1??00000","-"},{"1?","?"},{"21474836??","-"},{"21474836??",""},{"??99999999","-"},{"42949672??","-"},{"42949672??","42949672??"},{"429496729??","-"},{"0021474836??","-"},{"1","21474836??"},{"1","42949672??"},{"?","858993459?"},{"99999999999?","-"},{"1844674407370955161?","-"},{"6442450944?","?"}}) if (strlen(q.first)<16) cnt(q.first,q.second,false);
  for (int cc=0;cc<2;++cc) for (auto& q: {std::pair<int,const char*>{HEX2,"##"},{RAWB,"##"},{OCT,"???"},{OCT,"??"},{OCT,"?"},{BRACED,"#"},{BRACED,"##"},{BRACED,"0##"}}) { if (!full && q.first==OCT && strlen(q.second)==3 && cc) continue; std::string nm=std::string("match/")+names[q.first]+"/"+q.second+(cc?"/in a class":""); if (!sym_want(nm.c_str())) continue; Case c{q.first,q.second,cc!=0,true}; sym_explore(nm.c_str(),runMatch,&c); }
  for (int ng=0;ng<2;++ng) for (auto& q: {std::pair<const char*,const char*>{"?","-"},{"1?","-"},{"?",""},{"1?",""},{"?","?"},{"?","1?"},{"0?","0?"}}) { std::string nm=std::string("count match/{")+q.first+","+q.second+"}"+(ng?"?":""); if (!sym_want(nm.c_str())) continue; CCase c{q.first,q.second,ng!=0,true}; sym_explore(nm.c_str(),runCountMatch,&c); }
}
