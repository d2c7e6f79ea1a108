// C11: decoders partition the buffer and agree with the Unicode standard.
#include "lg.h"
#include "re.h"
#include "oce.h"
#include "decoders/decoder.h"
#include "decoders/decoderfactory.h"
#include <memory>
struct Case { std::shared_ptr<Decoder> d; int e, n; bool oce, used; };
#define CK(c, msg) do { if (!(c)) { note(i); sym_fail_(msg); } } while (0)
static void run(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n); sym_make(t,n);
  unsigned char plain[16]; for (int i=0;i<n;++i) plain[i]= c.oce? ref::unOCE()[t[i]]: t[i];
  auto note=[&](int i){ sym_note(("length "+std::to_string(n)+", at byte "+std::to_string(i)).c_str()); };
  if (c.used) { static const unsigned char junk[]={0xF0,0x9F,0x61,0xD8,0x3D,0,0,0x10,0x61}; int k=(int)sym_choice(4); c.d->reset(junk+k,junk+sizeof junk); for (int j=0;j<k;++j) c.d->next(); }
  c.d->reset(t,t+n);
  for (int i=0;i<n;) {
    auto g=c.d->next(); ref::Ch r=ref::decode(c.e,plain,n,i);
    CK(g.second==t+i,"a value is not where the one before it ended");
    if (r.len) { CK(sym_decide(g.first==(int32_t)r.cp),"a character is decoded wrongly"); sym_cover(r.len>1? "long character": "character"); i+=r.len; }
    else { CK(g.first<0 && g.first!=Decoder::END,"an ill-formed byte is decoded as a character"); CK(sym_decide(g.first==-(int32_t)plain[i]-1),"a bad byte is reported wrongly"); sym_cover("bad byte"); ++i; }
    sym_output((uint32_t)g.first);
  }
  int i=n; for (int k=0;k<2;++k) { auto g=c.d->next(); CK(g.first==Decoder::END,"decoding does not end with the buffer"); CK(g.second==t+n,"the end is elsewhere"); }
}
void harness_main(int argc, char** argv) {
  int n8=argInt(argc,argv,"--n8",5), n16=argInt(argc,argv,"--n16",7), n32=argInt(argc,argv,"--n32",9), na=argInt(argc,argv,"--na",6); DecoderFactory fac;
  for (auto& x: std::vector<std::pair<std::string,int>>{{"ASCII",na},{"UTF-8",n8},{"UTF-16LE",n16},{"UTF-16BE",n16},{"UTF-32LE",n32},{"UTF-32BE",n32}})
    for (int oce=0;oce<2;++oce) for (int used=0;used<2;++used) {
      int n= oce||used? x.second-1: x.second; std::string chain=x.first+(oce?"|OCE":""), inst=chain+(used?"/reused":"")+"/n"+std::to_string(n); if (!sym_want(inst.c_str())) continue;
      Case c{fac.get(chain),ref::encOf(x.first),n,oce!=0,used!=0}; sym_explore(inst.c_str(),run,&c);
    }
}
