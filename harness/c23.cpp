// C23: destroying handles releases everything and nothing still needed; contexts do not grow with the text.
#include "lg.h"
#include "sets.h"
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
static std::string hexs(const std::string& s) { std::string q; for (unsigned char x: s) { char b[8]; snprintf(b,sizeof b,x>32&&x<127?"%c":"<%02x>",x); q+=b; } return q; }
static std::string fill(const std::string& tpl) { std::string s; for (char ch: tpl) { if (ch=='?') { unsigned char x; sym_make(&x,1); sym_assume(x!=0); ch=(char)x; } else if (ch==1) ch='?'; s+=ch; } return s; }
static void count(void* u, const LG_SearchHit*) { ++*(uint64_t*)u; }
struct Grow { LG_HCONTEXT ctx; int len; std::string known; bool closeout; };
static void grow(void* a) {
  Grow& c=*(Grow*)a; unsigned char w[4]; sym_make(w,c.len); static unsigned char t[600]; const int R=32, L=160; for (int i=0;i<L+40;++i) t[i]=w[i%c.len]; uint64_t n=0;
  auto note=[&]{ sym_note(("repeated: "+hexs(std::string((char*)w,c.len))).c_str()); };
  // a shorter text, four times, so that both thread lists have been used for each position
  for (int k=0;k<4;++k) { lg_reset_context(c.ctx); lg_search(c.ctx,(char*)t,(char*)t+R+k%2,0,&n,count); lg_closeout_search(c.ctx,&n,count); }
  uint64_t m=0, cnt=sym_alloc_count(), live=sym_alloc_live(); lg_reset_context(c.ctx); lg_search(c.ctx,(char*)t,(char*)t+L,0,&m,count); uint64_t cnt2=sym_alloc_count(); lg_closeout_search(c.ctx,&m,count); 
  bool grew= cnt2!=cnt || sym_alloc_count()!=cnt2 || sym_alloc_live()!=live; sym_output(m); sym_cover(n?"hits":"no hits");
  if (grew) { note(); if (!c.known.empty()) sym_known(c.known.c_str(),"a context allocates more for a longer text"); sym_fail_("a context allocates more for a longer text"); }
}

// everything that can be made and destroyed; destroyed in any allowed order, used as long as it may be
struct Life { std::string pat, enc, list; int orders; bool again; };
static bool sameHits(const std::vector<Hit>& a, const std::vector<Hit>& b) { return a==b; }
static void scenario(Life& c) {
  std::string log; auto note=[&]{ sym_note(log.c_str()); }; std::string p=fill(c.pat), e=fill(c.enc), l=fill(c.list); log=hexs(p)+" "+hexs(e)+" "+hexs(l)+": ";
  LG_KeyOptions ko; ko.FixedString=ko.CaseInsensitive=ko.UnicodeMode=0; LG_HFSM f=lg_create_fsm(0,0); LG_HPATTERN h=lg_create_pattern(); std::vector<LG_Error*> errs; LG_Error* er=nullptr;
  auto keep=[&]{ if (er) { errs.push_back(er); er=nullptr; sym_cover("error"); } };
  lg_parse_pattern(h,"xy?z",&ko,&er); lg_add_pattern(f,h,"ISO-8859-1",3,&er); keep();
  bool ok=lg_parse_pattern(h,p.c_str(),&ko,&er)>0; keep(); if (ok) { int r=lg_add_pattern(f,h,e.c_str(),4,&er); keep(); sym_cover(r>=0?"added":"not added"); if (c.again) { lg_add_pattern(f,h,"UTF-16LE",5,&er); keep(); } } else { lg_parse_pattern(h,p.c_str(),&ko,nullptr); sym_cover("not parsed"); }
  if (!l.empty()) { const char* encs[]={"UTF-8","UTF-16BE"}; lg_add_pattern_list(f,l.c_str(),"some list",encs,2,&ko,&er); keep(); lg_add_pattern_list(f,l.c_str(),nullptr,encs,1,&ko,nullptr); }
  LG_ProgramOptions po; po.DeterminizeDepth=0xffffffff; LG_HPROGRAM g[2]; g[0]=lg_create_program(f,&po); CK(g[0],"no program"); size_t isz=lg_program_size(g[0]); char* img=(char*)malloc(isz); lg_write_program(g[0],img); g[1]=lg_read_program(img,(int)isz); CK(g[1],"no program from its image"); LG_HPROGRAM bad=lg_read_program(img,(int)isz-1); CK(!bad,"half a program"); bad=lg_read_program(img,9); CK(!bad,"half a program");
  LG_HCONTEXT x[4]; for (int i=0;i<4;++i) x[i]=newContext(g[i&1]); LG_HDECODER d=lg_create_decoder();
  static const char t[]="xyzab\0xzaab"; const size_t n=sizeof t; auto find=[&](LG_HCONTEXT q){ return searchAll(q,(const unsigned char*)t,n); }; std::vector<Hit> want=find(x[0]); unsigned np=lg_prog_pattern_count(g[0]);
  { Hits hs; lg_starts_with(x[1],t,t+n,5,&hs,onHit); lg_reset_context(x[2]); lg_search(x[2],t,t+2,0,&hs,onHit); lg_search_resolve(x[2],t+2,t+n,2,&hs,onHit); lg_reset_context(x[2]); }
  LG_Window in, dh, out; in.begin=0; in.end=2; int32_t* cp=nullptr; size_t* of=nullptr, cl=0; const char* u=nullptr; lg_read_window(d,t,t+n,0,&in,e.c_str(),1,2,&cp,&of,&cl,&dh,&er); keep(); lg_hit_context(d,t,t+n,0,&in,e.c_str(),2,63,&u,&out,&dh,&er); keep(); LG_HDECODER d2=lg_create_decoder(); lg_destroy_decoder(d2);
  std::vector<std::string> names; for (unsigned i=0;i<np;++i) names.push_back(lg_prog_pattern_info(g[0],i)->Pattern);
  // objects: 0 pattern, 1 fsm, 2 program, 3 program read, 4..7 contexts, 8 decoder, 9 window and string, 10 errors, 11 image
  bool live[12]; for (bool& b: live) b=true; uint64_t pick= c.orders? sym_choice(c.orders): 0; int left=12; Rng r(pick+1);
  while (left) {
    std::vector<int> can; for (int i=0;i<12;++i) if (live[i]) { if (i==2 && (live[4]||live[6])) continue; if (i==3 && (live[5]||live[7])) continue; if (i==11 && live[3]) continue; can.push_back(i); }
    int k; if (c.orders) k=can[r(can.size())]; else k=can[sym_choice(can.size())];
    log+=std::to_string(k)+" "; live[k]=false; --left;
    if (k==0) lg_destroy_pattern(h); else if (k==1) lg_destroy_fsm(f); else if (k<4) lg_destroy_program(g[k-2]); else if (k<8) lg_destroy_context(x[k-4]); else if (k==8) lg_destroy_decoder(d); else if (k==9) { lg_free_window_characters(cp); lg_free_window_offsets(of); lg_free_hit_context_string(u); } else if (k==10) { for (auto q: errs) lg_free_error(q); errs.clear(); } else free(img);
    // what is left works as before
    for (int i=4;i<8;++i) if (live[i]) { CK(sameHits(find(x[i-4]),want),"after something else is destroyed, a context finds something else"); break; }
    for (int i=0;i<2;++i) if (live[2+i]) { CK(lg_prog_pattern_count(g[i])==np,"after something else is destroyed, a program has other patterns"); for (unsigned j=0;j<np;++j) CK(names[j]==lg_prog_pattern_info(g[i],j)->Pattern,"after something else is destroyed, a program has other patterns"); }
    if (live[1]) for (unsigned j=0;j<np;++j) CK(names[j]==lg_fsm_pattern_info(f,j)->Pattern,"after something else is destroyed, an FSM has other patterns");
    if (live[10]) for (auto q: errs) for (;q;q=q->Next) CK(q->Message[0],"after something else is destroyed, an error is gone");
    if (live[9] && cp) { CK(cp[cl-1]==LG_WINDOW_END,"after something else is destroyed, a window is gone"); }
  }
  sym_output(want.size()); sym_output(np);
}
static void life(void* a) {
  Life& c=*(Life*)a; uint64_t live=sym_alloc_live(); scenario(c); uint64_t now=sym_alloc_live(); sym_cover("destroyed");
  if (now!=live) { char b[80]; snprintf(b,sizeof b,"%lld allocations are left",(long long)(now-live)); sym_note(b); sym_fail_("something is not released"); }
}
// a call that fails or is repeated leaves nothing behind but what its handle holds
struct Rep { std::string pat, enc; };
static void repeat(void* a) {
  Rep& c=*(Rep*)a; uint64_t live=sym_alloc_live(); auto note=[]{};
  { std::string p=fill(c.pat), e=fill(c.enc); LG_KeyOptions ko; ko.FixedString=ko.CaseInsensitive=ko.UnicodeMode=0;
    uint64_t l0=sym_alloc_live(); LG_HPATTERN h=lg_create_pattern(); LG_Error* er=nullptr; int r=lg_parse_pattern(h,p.c_str(),&ko,&er); sym_cover(r>0?"parsed":"refused"); CK((r>0)==!er,"an error and success, or neither"); lg_free_error(er); er=nullptr; LG_HFSM f=lg_create_fsm(0,0); int q=-1; if (r>0) { q=lg_add_pattern(f,h,e.c_str(),0,&er); CK((q>=0)==!er,"an error and success, or neither"); lg_free_error(er); } sym_output(r); sym_output(q);
    lg_destroy_pattern(h); if (q>=0) { LG_ProgramOptions po; po.DeterminizeDepth=0; LG_HPROGRAM g=lg_create_program(f,&po); CK(g,"no program"); lg_destroy_fsm(f); f=nullptr; LG_HCONTEXT x=newContext(g); uint64_t n=0; lg_search(x,"aab",(const char*)"aab"+3,0,&n,count); lg_destroy_context(x); lg_destroy_program(g); } lg_destroy_fsm(f);
    if (sym_alloc_live()!=l0) sym_fail_("something is not released"); }
  if (sym_alloc_live()!=live) sym_fail_("something is not released");
}
static const char* growing[]={"a*aa","(ab|ba)+?c","(a|bb)+?c","(a|ab)+(a|ab)+","(a|bb)*?bc","(aa|a)+b","(a|aa)+b",".+a","a*a","a.*?b|c",".*a","a[^\\n]*b","a.*b","a.*b|c","(ab)*a","a.*b , b",nullptr};
static bool bounded(const PatSet& s) { for (auto& p: s) { std::string x=p.p; if (x.find('*')!=std::string::npos || x.find('+')!=std::string::npos || x.find(",}")!=std::string::npos) return false; } return true; }
void harness_main(int argc, char** argv) {
  int lens=argInt(argc,argv,"--len",2), full=argInt(argc,argv,"--full",0);
  // once beforehand: what is made once and kept is not counted
  static bool warm=false; if (!warm) { warm=true; for (auto p: {"a[b-d]","(\1i)k","\\p{Lu}","x(","a*","\\x{100}"}) for (auto e: {"UTF-8","ASCII","none","UTF-16LE|OCE","ISO-8859-1"}) { Life c{p,e,"a\tnone\nb",1,true}; try { scenario(c); } catch (...) {} } }
  forSets(argc,argv,[&](const char* tag, const PatSet& s){ std::string known, nm=setName(s); for (int i=0;growing[i];++i) if (nm==growing[i]) known="growth-"+nm; for (char& ch: known) if (ch==' '||ch==',') ch='_'; if (!strcmp(tag,"gen") && !bounded(s)) return;
    for (int l=1;l<=lens;++l) { std::string q=std::string("growth/")+tag+"/"+nm+" word "+std::to_string(l); if (!sym_want(q.c_str())) continue; Built b=build(s); if (!b.ctx) { sym_skip("refused"); continue; } Grow c{b.ctx,l,known,true}; sym_explore(q.c_str(),grow,&c); drop(b); } });
  auto lf=[&](Life c){ std::string q="handles/"+hexs(c.pat)+" "+c.enc+" list "+hexs(c.list)+" orders "+std::to_string(c.orders); if (sym_want(q.c_str())) sym_explore(q.c_str(),life,&c); };
  lf({"a?b","UTF-8","",24,true}); lf({"?","UTF-8","",8,false}); lf({"a?","ISO-8859-1","b\n",8,true}); lf({"ab","UTF-?","",8,true}); lf({"ab","UTF-8|OC?","",8,true}); lf({"a","UTF-8","a?\nb",6,false}); lf({"a","UTF-8","a\tUTF-8?x",6,false}); lf({"a","UTF-8","a\tASCII\t?",6,false}); lf({"(a?b","UTF-8","(?\nb\nc\tnone",6,false}); lf({"[a?","ASCII","",6,true}); lf({"\\?","ISO-8859-2","",6,true}); lf({"(a|b)\1?","UTF-16LE","",6,true});
  { Life c{"ab","UTF-8","a\tnone\nb\nx(",full?400:60,true}; for (int i=0;i<(full?8:4);++i) { c.pat=i==0?"ab":i==1?"a.b":i==2?"(a|ab)+":"[ab]{2}"; if (i>=4) { c.pat="a{2,}"; c.enc="UTF-16LE"; c.list.pop_back(); } lf(c); } }
  auto rp=[&](Rep c){ std::string q="failures/"+hexs(c.pat)+" "+c.enc; if (sym_want(q.c_str())) sym_explore(q.c_str(),repeat,&c); };
  for (auto p: {"??","a??","(?","(?b","[a?]","[?-?]","[^?","\\??","\\x?","\\x{?","a{?","a{?}","a{1,?}","(a|?","?*","a?\1","a|?","\\p{?","\\z?","(\1?","[[:?","\\N{?","a(?)b"}) rp({p,"UTF-8"});
  for (auto e: {"?","UTF-?","UTF-8|?","UTF-8|OC?","ISO-8859-?","ASCI?"}) for (auto p: {"a","\\x{e9}","a*","[^a]","\\x{d800}"}) rp({p,e});
  if (full) for (auto p: {"???","a{??}","[??]","(??)","\\???","[^??]"}) for (auto e: {"UTF-8","ISO-8859-1"}) rp({p,e});
}
