// Concrete replay of a harness: inputs come from a hex string.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <new>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
static std::vector<unsigned char> In; static size_t Pos; static std::string Want; static uint64_t Out; static bool Failed, Ran; static sigjmp_buf JB; static std::string Notes;
static bool knownId(const char* id) { const char* k=getenv("LG_KNOWN"); if (!k) return false; std::string s=std::string(",")+k+",", w=std::string(",")+id+","; return s.find(w)!=std::string::npos; }
static uint64_t NAlloc, NLive;
#ifndef __SANITIZE_ADDRESS__
void* operator new(size_t n) { void* p=malloc(n?n:1); if (!p) throw std::bad_alloc(); ++NAlloc; ++NLive; return p; }
void operator delete(void* p) noexcept { if (p) { --NLive; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --NLive; free(p); } }
#endif
extern "C" {
void sym_make(void* p, size_t n) { for (size_t i=0;i<n;++i) ((unsigned char*)p)[i]= Pos<In.size()? In[Pos++]: 0; }
uint64_t sym_choice(uint64_t n) { if (n<=1) return 0; unsigned k= n<=256?1: n<=65536?2:4; uint64_t v=0; for (unsigned i=0;i<k;++i) v|=(uint64_t)(Pos<In.size()?In[Pos++]:0)<<(8*i); return v%n; }
void sym_assume_(int c) { if (!c) siglongjmp(JB,1); }
void sym_fail_(const char* m) { printf("FAIL %s\n",m); fflush(stdout); Failed=true; siglongjmp(JB,2); }
void sym_known(const char* id, const char* m) { if (!knownId(id)) sym_fail_(m); printf("KNOWN %s %s\n",id,m); siglongjmp(JB,3); }
void sym_cover(const char*) {}
void sym_output(uint64_t v) { Out=(Out^v)*1099511628211ull+7; }
unsigned char* sym_guarded(size_t n) { return (unsigned char*)malloc(n?n:1)+ (n?0:1); }
uint64_t sym_alloc_count(void) { return NAlloc; }
uint64_t sym_alloc_live(void) { return NLive; }
int sym_is_native(void) { return 1; }
void sym_note(const char* t) { Notes=t; }
void sym_skip(const char*) {}
void sym_pin_bytes(const void*, size_t) {}
int sym_want(const char* i) { return Want==i; }
void sym_explore(const char* inst, sym_fn f, void* arg) {
  if (Want!=inst) return;
  Ran=true;
  Pos=0; Out=1469598103934665603ull; Failed=false; Notes.clear();
  int r=sigsetjmp(JB,1);
  if (r==0) { try { f(arg); } catch (const std::exception& e) { printf("FAIL uncaught exception %s\n",e.what()); Failed=true; } catch (...) { printf("FAIL uncaught exception\n"); Failed=true; } }
  if (r==1) printf("ASSUME\n");
  if (!Notes.empty()) printf("NOTE %s\n",Notes.c_str());
  printf("OUT %016llx\n",(unsigned long long)Out); fflush(stdout);
}
}
static void setupFailFn(void* m) { sym_note((const char*)m); sym_fail_((const char*)m); }
extern "C" void sym_setup_fail(const char* inst, const char* m) { sym_explore(inst,setupFailFn,(void*)m); }
static unsigned hexv(char c){ return c<='9'? c-'0': (c|32)-'a'+10; }
void harness_main(int argc, char** argv);
// usage: prog --replay INSTANCE HEX ARGS...   |  prog --batch FILE ARGS...  (lines: INSTANCE<TAB>HEX)
static bool once(const std::string& inst, const std::string& hex, int argc, char** argv) {
  Want=inst; In.clear(); for (size_t i=0;i+1<hex.size();i+=2) In.push_back(hexv(hex[i])*16+hexv(hex[i+1]));
  Ran=false; harness_main(argc,argv); return Ran;
}
int main(int argc, char** argv) {
  std::string mode=argc>1?argv[1]:"";
  if (mode=="--replay" && argc>=4) {
    bool ok=once(argv[2],argv[3],argc-3,argv+3);
    if (!ok) { printf("NOINSTANCE\n"); return 3; }
    return Failed?1:0;
  }
  if (mode=="--batch" && argc>=3) {
    FILE* f=fopen(argv[2],"r"); char* line=nullptr; size_t cap=0; ssize_t n; bool bad=false;
    while ((n=getline(&line,&cap,f))>0) { while (n&&(line[n-1]=='\n')) line[--n]=0; char* t=strchr(line,'\t'); if (!t) continue; *t=0; printf("CASE %s %s\n",line,t+1); if (!once(line,t+1,argc-2,argv+2)) printf("NOINSTANCE\n"); bad|=Failed; }
    return bad;
  }
  fprintf(stderr,"usage\n"); return 3;
}
