// C14: any byte string is accepted or rejected as a pattern, safely.
#include "lg.h"
#include "re.h"
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
struct Case { std::string pre, suf; int k; int mode; const char* enc; bool add; };
static void run(void* v) {
  Case& c=*(Case*)v; size_t np=c.pre.size(), n=np+c.k+c.suf.size(); unsigned char* p=sym_guarded(n); memcpy(p,c.pre.data(),np); sym_make(p+np,c.k); memcpy(p+np+c.k,c.suf.data(),c.suf.size());
  LG_KeyOptions ko; ko.FixedString=0; ko.CaseInsensitive=0; ko.UnicodeMode=0; char q=0; if (c.mode==1) { sym_make(&q,1); ko.FixedString=q; } if (c.mode==2) { sym_make(&q,1); ko.CaseInsensitive=q; } if (c.mode==3) { sym_make(&q,1); ko.UnicodeMode=q; }
  LG_Error* err=nullptr; std::string what; auto note=[&]{ std::string s; for (size_t i=0;i<n;++i) { char b[8]; snprintf(b,sizeof b,p[i]>32&&p[i]<127?"%c":"\\%02x",p[i]); s+=b; } sym_note((s+" -> "+what).c_str()); };
  LG_HPATTERN h=lg_create_pattern(); int r=lg_parse_pattern_slice(h,(const char*)p,n,&ko,&err); sym_output(r);
  if (r<=0) { CK(r==0,"a rejected pattern does not give 0"); CK(err,"a pattern is rejected without an error"); CK(err->Message && err->Message[0],"a pattern is rejected without a message"); CK(err->Pattern,"a pattern is rejected without naming it"); CK(!err->Next,"one rejected pattern gives several errors"); what="rejected"; sym_cover("rejected"); lg_free_error(err); err=nullptr; }
  else { CK(!err,"a pattern is accepted with an error"); sym_cover("accepted"); what="accepted"; }
  LG_HFSM f=lg_create_fsm(0,0); bool added=false;
  if (r>0 && c.add) {
    int a=lg_add_pattern(f,h,c.enc,7,&err); what="accepted, added as "+std::to_string(a);
    if (a<0) { CK(a==-1,"a pattern that cannot be added does not give -1"); CK(err && err->Message && err->Message[0] && err->Pattern && err->EncodingChain,"a pattern cannot be added, without a full error"); lg_free_error(err); err=nullptr; sym_cover("accepted, not added"); }
    else { CK(a==0 && !err,"adding the first pattern does not give 0"); CK(lg_fsm_pattern_count(f)==1,"the pattern is not counted"); added=true; sym_cover("added"); }
  }
  // the handle can be used again
  LG_KeyOptions plain={0,0,0}; int r2=lg_parse_pattern(h,"qa+x",&plain,&err); CK(r2>0 && !err,"a handle cannot be used again after parsing");
  int a2=lg_add_pattern(f,h,"UTF-8",8,&err); CK(a2==(added?1:0) && !err,"a handle's second pattern cannot be added");
  LG_ProgramOptions po; po.DeterminizeDepth=0xffffffff; LG_HPROGRAM g=lg_create_program(f,&po); CK(g,"no program of accepted patterns");
  LG_HCONTEXT x=newContext(g); static const char text[]="xaqaaxab(1"; Hits hits; lg_search(x,text,text+sizeof text-1,0,&hits,onHit); lg_closeout_search(x,&hits,onHit);
  int m=0; for (auto& t: hits.v) { CK(t.k<=(added?1u:0u) && t.s<t.e && t.e<=sizeof text-1,"a malformed hit"); if (t.k==(added?1u:0u)) { ++m; CK(t.s==2 && t.e==6,"the handle's second pattern is matched wrongly"); } } CK(m==1,"the handle's second pattern is not found");
  sym_output(hits.v.size()); lg_destroy_context(x); lg_destroy_program(g); lg_destroy_fsm(f); lg_destroy_pattern(h);
}
void harness_main(int argc, char** argv) {
  int k=argInt(argc,argv,"--k",3), kt=argInt(argc,argv,"--kt",2), ka=argInt(argc,argv,"--ka",1);
  struct T { const char *pre,*suf; }; static const T ts[]={{"a",""},{"","a"},{"a","b"},{"ab","cd"},{"[",""},{"[","]"},{"[^","]"},{"[a","]"},{"[a-","]"},{"[[a]","]"},{"[a","[b]]"},{"[a&","b]"},{"[\\","]"},{"\\",""},{"\\","a"},{"\\x",""},{"\\x{",""},{"\\x{","}"},{"\\x{10F","}"},{"\\z",""},{"\\0",""},{"\\N{U+","}"},{"\\N{",""},{"\\p{",""},{"a{",""},{"a{","}"},{"a{1,","}"},{"a{3,","}b"},{"a{1,2","?b"},{"(",""},{"(",")"},{"(a",")b"},{"(a|",")"},{"(?",")a"},{"(?i","a"},{"((","))"},{"(a)","b"},{"a|","b"},{"a*","b"},{"a+","?"},{"(a*","*"},{"a??","b"},{"^",""},{"$",""},{"a\\b","b"},{"\\b\\B",""},{"(?=","a)"},{"(?<!","a)"},{"a.*","?b"},{"\xc3",""},{"\xe2\x82",""},{"\xf0\x9f",""},{"\\Q",""},{"(?#",")"},{"(?:",")"},{"a{2}{","}"},{"[\\z00","]"},{"[\\z00-","]"},{"[^\\z",""},{"(a|b{0}",")c"}};
  auto go=[&](const char* name, Case c){ std::string inst=std::string(name)+" "+(c.add?c.enc:"")+"/"+c.pre+"_"+std::to_string(c.k)+"_"+c.suf; { std::string q; for (unsigned char ch: inst) { char b[8]; snprintf(b,sizeof b,ch>126?"<%02x>":"%c",ch); q+=b; } inst=q; } if (!sym_want(inst.c_str())) return; sym_explore(inst.c_str(),run,&c); };
  for (int i=0;i<=k;++i) { go("parse",{"","",i,0,"UTF-8",false}); }
  for (auto& t: ts) for (int i=1;i<=kt;++i) go("parse",{t.pre,t.suf,i,0,"UTF-8",false});
  for (int i=1;i<=kt;++i) { go("parse fixed",{"","",i,1,"UTF-8",false}); go("parse unicode",{"","",i,3,"UTF-8",false}); go("parse unicode",{"\\","",i,3,"UTF-8",false}); }
  for (int i=1;i<=ka;++i) { go("add",{"","",i,0,"UTF-8",true}); go("add",{"","",i,0,"UTF-16LE",true}); go("add fixed",{"","",i,1,"UTF-8",true}); go("add unicode",{"","",i,3,"UTF-8",true}); }
  for (auto& t: ts) for (int i=1;i<=ka;++i) go("add",{t.pre,t.suf,i,0,"ISO-8859-1",true});
  go("add caseless",{"","",1,2,"UTF-8",true});
}
