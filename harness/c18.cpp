// C18: a file searched through the readers and the search controller, against one search of its whole contents.
#include "sets.h"
#include <cerrno>
#include <cstdio>
#include <future>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <utility>
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
// --- stand-ins for what reader.cpp calls: one open file, reads that fail, and when the asynchronous read happens
struct File { const unsigned char* t; size_t n, pos; int reads, failAt, open, closed; bool failed; }; static File F; static int When; // 0: at once, 1: when waited for
static FILE* theFile() { return (FILE*)&F; }
inline FILE* lgOpen(const char*, const char*) { ++F.open; F.pos=0; return theFile(); }
inline size_t lgRead(void* b, size_t sz, size_t cnt, FILE*) { if (F.reads++==F.failAt) { F.failed=true; errno=EIO; return 0; } size_t k=F.n-F.pos; if (sz!=1) k=k/sz; if (k>cnt) k=cnt; memcpy(b,F.t+F.pos,k*sz); F.pos+=k*sz; return k; }
inline int lgError(FILE*) { return F.failed; }
inline int lgEof(FILE*) { return F.pos>=F.n; }
inline int lgClose(FILE*) { ++F.closed; return 0; }
template <class Fn, class... A> auto lgAsync(std::launch, Fn f, A... a) -> std::future<decltype(f(a...))> {
  typedef decltype(f(a...)) R; std::promise<R> p;
  if (When) return std::async(std::launch::deferred,f,a...);
  try { p.set_value(f(a...)); } catch (...) { p.set_exception(std::current_exception()); }
  return p.get_future();
}
namespace std { using ::lgOpen; using ::lgRead; using ::lgError; using ::lgEof; using ::lgClose; using ::lgAsync; inline void lgSetbuf(FILE*, char*) {} inline int lgSetvbuf(FILE*, char*, int, size_t) { return 0; } }
using std::lgSetbuf; using std::lgSetvbuf;
#define BOOST_INTERPROCESS_FILE_MAPPING_HPP
#define BOOST_INTERPROCESS_MAPPED_REGION_HPP
namespace boost { namespace interprocess {
  enum mode_t { read_only, read_write, copy_on_write, read_private, invalid_mode };
  struct file_mapping { file_mapping() {} file_mapping(const char*, mode_t) {} };
  struct mapped_region { enum advice_types { advice_normal, advice_sequential, advice_random, advice_willneed, advice_dontneed }; bool on=false; mapped_region() {} template <class M> mapped_region(const M&, mode_t): on(true) { if (!F.n) throw std::runtime_error("an empty file is mapped"); } void* get_address() const { return on? (void*)F.t: nullptr; } size_t get_size() const { return on? F.n: 0; } bool advise(advice_types) { return true; } };
} }
#define FileReader StandinFileReader
#define MemoryMappedFileReader StandinMappedReader
#define fopen(...) lgOpen(__VA_ARGS__)
#define fread(...) lgRead(__VA_ARGS__)
#define ferror(...) lgError(__VA_ARGS__)
#define feof(...) lgEof(__VA_ARGS__)
#define fclose(...) lgClose(__VA_ARGS__)
#define setbuf(...) lgSetbuf(__VA_ARGS__)
#define setvbuf(...) lgSetvbuf(__VA_ARGS__)
#define async(...) lgAsync(__VA_ARGS__)
#include "src/cmd/reader.cpp"
#undef fopen
#undef fread
#undef ferror
#undef feof
#undef fclose
#undef setbuf
#undef setvbuf
#undef async
#include "searchcontroller.h"
// ---
struct Guarded: Reader { // each block in memory of its own
  size_t pos=0; std::future<std::pair<const char*,size_t>> read(size_t len) override { size_t k=F.n-pos; if (k>len) k=len; unsigned char* b=sym_guarded(k); memcpy(b,F.t+pos,k); pos+=k; std::promise<std::pair<const char*,size_t>> p; p.set_value({(const char*)b,k}); return p.get_future(); }
};
struct Sink: std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Case { LG_HPROGRAM prog; LG_HCONTEXT a,b; int n,keys; };
struct Rec: HitOutputData { using HitOutputData::HitOutputData; std::vector<Hit> v; int bad=0; };
static void rec(void* u, const LG_SearchHit* h) { // what the program's callback does, and where the buffer it uses stands
  Rec* r=(Rec*)(HitOutputData*)u; r->v.push_back({h->Start,h->End,h->KeywordIndex}); const ContextBuffer& c=r->CtxBuf;
  if (!c.BufLen || c.BufOff+c.BufLen>F.n || h->End>c.BufOff+c.BufLen) { r->bad=1; return; }
  for (size_t i=0;i<c.BufLen;++i) if (c.Buf[i]!=(char)F.t[c.BufOff+i]) { r->bad=2; return; }
}
// its size is the number of bytes searched, in case the size is asked for
static std::string fileOf(int n) { std::string s=__FILE__; return s.substr(0,s.rfind('/'))+"/files/"+std::to_string(n); }
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n); size_t blk=1+sym_choice(n+2); int how=(int)sym_choice(4), fail= how==1||how==2? (int)sym_choice(3)? -1: (int)sym_choice(3): -1;
  F=File{t,(size_t)n,0,0,fail,0,0,false}; When=how==2; std::vector<Hit> full=searchAll(c.a,t,n);
  Sink sk; std::ostream os(&sk); Rec d(os,c.prog,'\t',"--",-1,-1,false); SearchController sc(blk); sc.BytesSearched=5; bool threw=false; std::string path=fileOf(n); lg_reset_context(c.b);
  auto note=[&]{ static const char* W[]={"own blocks","reads at once","reads when waited for","mapped"}; sym_note((std::string(W[how])+" of "+std::to_string(blk)+" bytes, "+std::to_string(n)+" bytes in all, read "+std::to_string(fail)+" fails: at once "+showHits(full)+" file "+showHits(d.v)+"searched "+std::to_string(sc.BytesSearched)).c_str()); };
  try { std::unique_ptr<Reader> r; if (how==0) r.reset(new Guarded); else if (how==3) r.reset(new StandinMappedReader(path)); else r.reset(new StandinFileReader(path,blk)); bool ok=sc.searchFile(c.b,&d,*r,rec); CK(ok,"the search of the file fails"); } catch (const std::exception&) { threw=true; }
  if (how==1||how==2) CK(F.closed==1,"the file is not closed once");
  if (F.failed) { CK(threw,"a failed read is not reported"); sym_cover("failed read"); return; }
  CK(!threw,"an exception without a failed read"); sym_cover(n>(int)blk?"several blocks":"one block"); if (!d.v.empty()) sym_cover("hit");
  for (int k=0;k<c.keys;++k) CK(ofKey(full,k)==ofKey(d.v,k),"the hits differ from those in the whole text");
  CK(full.size()==d.v.size(),"another number of hits"); CK(sc.BytesSearched==5+(uint64_t)n,"the bytes searched are counted wrongly");
  CK(d.bad!=1,"a hit is reported while the output has a buffer without it"); CK(d.bad!=2,"the output has a buffer with other text than that of the file"); outHits(d.v);
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",4);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Built b=build(s); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
    Case c{b.prog,b.ctx,newContext(b.prog),n,(int)s.size()}; sym_explore(inst.c_str(),run,&c); lg_destroy_context(c.b); drop(b);
  });
}
