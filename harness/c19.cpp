// C19: a pattern list does what adding its patterns one by one does.
#include "lg.h"
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
struct Case { std::string tpl; int encs, opts; bool src, errs; int before; };
struct Exp { std::string msg; int line; };
static const char* E[]={"UTF-8","UTF-16LE","no such encoding"};
static std::vector<std::string> split(const std::string& s, const char* seps) { std::vector<std::string> v; std::string cur; for (char c: s) { bool is=false; for (const char* p=seps;*p;++p) is|= c==*p; if (sym_decide(is)) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur+=c; } if (!cur.empty()) v.push_back(cur); return v; }
static std::string image(LG_HFSM f) { LG_ProgramOptions po; po.DeterminizeDepth=0xffffffff; LG_HPROGRAM g=lg_create_program(f,&po); if (!g) return "no program"; std::string s(lg_program_size(g),0); lg_write_program(g,&s[0]); lg_destroy_program(g); return s; }
static void run(void* a) {
  Case& c=*(Case*)a; std::string list; for (char ch: c.tpl) { if (ch=='?') { unsigned char x; sym_make(&x,1); sym_assume(x!=0); ch=(char)x; } list+=ch; }
  auto note=[&]{ std::string q; for (unsigned char x: list) { char b[8]; snprintf(b,sizeof b,x>32&&x<127?"%c":"<%02x>",x); q+=b; } sym_note(q.c_str()); };
  LG_KeyOptions def; def.FixedString=c.opts&1; def.CaseInsensitive=(c.opts>>1)&1; def.UnicodeMode=(c.opts>>2)&1; const char* src= c.src?"list.txt":nullptr;
  LG_HFSM f=lg_create_fsm(0,0), w=lg_create_fsm(0,0); LG_HPATTERN h=lg_create_pattern(); LG_Error* err=nullptr;
  for (int i=0;i<c.before;++i) for (LG_HFSM q: {f,w}) { LG_KeyOptions plain={0,0,0}; lg_parse_pattern(h,"z+q",&plain,&err); lg_add_pattern(q,h,"UTF-8",77,&err); }
  unsigned char* buf=sym_guarded(list.size()+1); memcpy(buf,list.data(),list.size()); buf[list.size()]=0; LG_KeyOptions passed=def; const char* encs[]={E[0],E[1],E[2]};
  int r=lg_add_pattern_list(f,(const char*)buf,src,encs,c.encs,&passed,c.errs?&err:nullptr);
  // one by one
  std::vector<Exp> want; std::vector<std::pair<std::string,std::string>> added; std::vector<uint64_t> user; bool loose=false; int ln=0;
  for (auto& line: split(list,"\r\n")) {
    // empty columns are not specified
    bool prev=true; for (char ch: line) { bool t=ch=='\t'; if (sym_decide(t)) { if (prev) loose=true; prev=true; } else prev=false; }
    auto col=split(line,"\t"); if (col.empty()) { want.push_back({"",ln++}); continue; }
    LG_KeyOptions o=def; std::vector<std::string> es(encs,encs+c.encs); bool bad=false; char* dst[]={&o.FixedString,&o.CaseInsensitive,&o.UnicodeMode};
    if (col.size()>1) { es=split(col[1],","); if (es.empty()) bad=true; for (size_t k=2;k<col.size()&&k<5&&!bad;++k) { if (sym_decide(col[k]=="0")) *dst[k-2]=0; else if (sym_decide(col[k]=="1")) *dst[k-2]=1; else { if (col[k].size()>1) loose=true; bad=true; } } }
    if (bad) { want.push_back({"",ln++}); continue; }
    LG_Error* e=nullptr; if (!lg_parse_pattern(h,col[0].c_str(),&o,&e)) { want.push_back({e&&e->Message?e->Message:"?",ln}); lg_free_error(e); }
    else for (auto& x: es) { if (lg_add_pattern(w,h,x.c_str(),ln,&e)<0) { want.push_back({e&&e->Message?e->Message:"?",ln}); lg_free_error(e); e=nullptr; } else { added.push_back({col[0],x}); user.push_back(ln); } }
    ++ln;
  }
  sym_output(r); sym_output(lg_fsm_pattern_count(f));
  CK(r==0||r==-1,"an undocumented return value"); CK(memcmp(&passed,&def,sizeof def)==0,"the default options are changed");
  if (!c.errs) CK(!err,"an error appears from nowhere"); else CK((r==0)==(err==nullptr),"success with errors, or failure without");
  if (!loose) {
    CK((r==0)==want.empty(),"wrong lines and the returned value disagree");
    CK(lg_fsm_pattern_count(f)==c.before+added.size(),"another number of keywords is added"); CK(lg_fsm_pattern_count(f)==lg_fsm_pattern_count(w),"another number of keywords is added");
    for (size_t i=0;i<added.size();++i) { LG_PatternInfo* p=lg_fsm_pattern_info(f,c.before+i); CK(added[i].first==p->Pattern,"a keyword has another pattern"); CK(added[i].second==p->EncodingChain,"a keyword has another encoding"); CK(p->UserIndex==user[i],"a keyword has another line number"); }
    if (c.errs) { size_t i=0; for (LG_Error* e=err;e;e=e->Next,++i) { CK(i<want.size(),"an error for a line that is right"); CK(e->Index==want[i].line,"an error names another line"); CK(src? e->Source && !strcmp(e->Source,src): !e->Source,"an error names another source"); CK(e->Message && e->Message[0],"an error has no message"); CK(want[i].msg.empty() || want[i].msg==e->Message,"an error gives another reason"); } CK(i==want.size(),"a wrong line is not reported"); }
    if (!added.empty() || c.before) CK(image(f)==image(w),"the keywords added are not those of the lines");
    sym_cover(want.empty()?"all added":added.empty()?"none added":"some added");
  } else sym_cover("not specified");
  lg_free_error(err); lg_destroy_pattern(h); lg_destroy_fsm(f); lg_destroy_fsm(w);
}
void harness_main(int argc, char** argv) {
  int full=argInt(argc,argv,"--full",0);
  auto go=[&](Case c){ std::string q; for (unsigned char x: c.tpl) { char b[8]; snprintf(b,sizeof b,x==9?"\\t":x==10?"\\n":x==13?"\\r":x>126?"<%02x>":"%c",x); q+=b; } q="list/"+q+" encodings "+std::to_string(c.encs)+" options "+std::to_string(c.opts)+(c.src?"":" no source")+(c.errs?"":" no errors")+(c.before?" after":""); if (sym_want(q.c_str())) sym_explore(q.c_str(),run,&c); };
  static const char* ts[]={"","?","a?","?a","ab?cd","a\tUTF-8?b","a\tUTF-8\t?","a.\tUTF-8\t1\t?","A\tUTF-8\t0\t1\t?","a\tUTF-8\t1\t0\t1?","a\t?","a\tUTF-8,?","a\t,\nb","a\tASCII,UTF-16LE?b\tUTF-8","ab\n?\ncd","ab\r\n?cd","(\n?b","a?\n[b\nc\t\n","a\tnone,UTF-8\n?","ab\tUTF-8\t2\nc?","a*\n?","a\n\n\r\nb?","\t?","a\n?\t1","a\tUTF-8,UTF-8\nb?","\\w\tUTF-8\t0\t0\t?","a\tUTF-8\t?\t1","a\tUTF-8\t0\t0\t0\t?","a\tUTF-?LE","a\t\t?"};
  for (auto t: ts) go({t,1,0,true,true,0});
  for (auto t: {"a?","a.\n?b","?\tUTF-8"}) { for (int o=1;o<8;++o) go({t,1,o,true,true,0}); for (int e: {0,2,3}) go({t,e,0,true,true,0}); go({t,1,0,false,true,0}); go({t,3,0,true,false,0}); go({t,1,0,true,true,2}); go({t,3,2,false,true,1}); }
  for (auto t: {"(\n?b","a\tUTF-8\t?","a\t?"}) go({t,2,0,true,false,1});
  for (auto t: {"??","a??","a\t??","a?b?c","a\tUTF-8?b?","a\tUTF-8\t??","?\tUTF-8\t1?","(?a?b\n)","a?UTF-8?1"}) go({t,1,0,true,true,0});
  if (full) for (auto t: {"???","a???","a?b?c?d","a\t???","a\tUTF-8\t?\t?","a\tUTF-8\t1?1?"}) go({t,2,0,true,true,0});
}
