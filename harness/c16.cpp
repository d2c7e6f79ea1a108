// C16: lg_read_window and lg_hit_context against independent decoding of the buffer.
#include "lg.h"
#include "re.h"
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
struct Case { std::string enc; int e, n, maxlen; };
static const size_t CTX[]={0,1,2,3,(size_t)-1}; static const uint64_t OFFS[]={0,42,1ull<<40}; static const uint32_t REPL[]={0xFFFD,'?',0x1F4A9};
static std::string num(long long v) { return std::to_string(v); }
static void run(void* v) {
  Case& c=*(Case*)v; int n=1+(int)sym_choice(c.n), hb=(int)sym_choice(n), he=hb+1+(int)sym_choice(n-hb); size_t pre=CTX[sym_choice(5)], post=CTX[sym_choice(5)]; uint64_t off=OFFS[sym_choice(2)*2]; uint32_t repl=REPL[0];
  unsigned char* t=sym_guarded(n); sym_make(t,n);
  LG_HDECODER d=lg_create_decoder(); LG_Window hit={off+hb,off+he}, dh={77,77}; int32_t* ch=nullptr; size_t *of=nullptr, len=0; LG_Error* err=nullptr;
  unsigned bad=lg_read_window(d,(const char*)t,(const char*)t+n,off,&hit,c.enc.c_str(),pre,post,&ch,&of,&len,&dh,&err);
  sym_check(!err,"reading a window fails"); sym_check(len>=1 && ch && of,"no window");
  auto note=[&]{ std::string s="n="+num(n)+" hit ["+num(hb)+","+num(he)+") pre "+num(pre)+" post "+num(post)+" ->"; for (size_t i=0;i<len;++i) s+=" "+num(ch[i])+"@"+num(of[i]); s+=" hit chars ["+num(dh.begin)+","+num(dh.end)+") bad "+num(bad); sym_note(s.c_str()); };
  CK(ch[len-1]==LG_WINDOW_END,"no terminator"); size_t m=len-1, nb=0;
  for (size_t i=0;i<len;++i) { CK(of[i]<=(size_t)n,"an offset outside the buffer"); if (i) CK(of[i]>of[i-1] ,"offsets do not increase"); sym_output(of[i]); sym_output((uint32_t)ch[i]); }
  CK(dh.begin<dh.end && dh.end<=m,"hit bounds outside the window"); CK(of[dh.begin]==(size_t)hb,"the window is not aligned on the hit"); CK(of[dh.end-1]<(size_t)he && of[dh.end]>=(size_t)he,"hit bounds do not delimit the hit");
  size_t lead=dh.begin, trail=m-dh.end; CK(lead<=pre && trail<=post,"more context than requested");
  CK(lead==pre || of[0]==0,"less leading context than there is"); CK(trail==post || of[m]==(size_t)n,"less trailing context than there is");
  for (size_t i=0;i<m;++i) {
    int a=of[i], b=of[i+1]; ref::Ch g=ref::decode(c.e,t,b,a);
    if (ch[i]>=0) { CK(sym_decide(g.len==b-a) && sym_decide((uint32_t)ch[i]==g.cp),"a character is not what its bytes decode to"); }
    else { ++nb; CK(b-a==1 && sym_decide(ch[i]==-(int32_t)t[a]-1),"a bad byte is reported wrongly"); }
  }
  // a bad byte in the hit or after it starts no character; in a hit that ends inside a character, none that the hit could hold
  bool aligned=false; { int p=hb; while (p<he) { ref::Ch g=ref::decode(c.e,t,n,p); p+= g.len?g.len:1; } aligned=p==he; }
  int lim= aligned && post? n: std::min<uint64_t>(n,post>(size_t)n? n: he+post*c.maxlen);
  for (size_t i=lead;i<m;++i) if (ch[i]<0) CK(ref::decode(c.e,t,lim,of[i]).len==0,"a character is reported as bad");
  // the good characters next to the hit: no other start gives a longer run
  size_t runl=0; while (runl<lead && ch[lead-1-runl]>=0) ++runl;
  size_t best=0; for (int l=hb-1;l>=0;--l) { int p=l; size_t k=0; while (p<hb) { ref::Ch g=ref::decode(c.e,t,hb,p); if (g.len) { ++k; p+=g.len; } else { k=0; ++p; } } if (k>pre) k=pre; if (k>best) best=k; }
  CK(runl==best,"the leading context is not aligned on the hit");
  CK(bad==nb,"the number of bad bytes is wrong"); sym_cover(nb?"bad bytes":"no bad bytes"); if (lead) sym_cover("leading"); if (trail) sym_cover("trailing");
  if (pre==post) { // the UTF-8 form
    repl=REPL[sym_choice(3)]; const char* u=nullptr; LG_Window out, dc; unsigned b2=lg_hit_context(d,(const char*)t,(const char*)t+n,off,&hit,c.enc.c_str(),pre,repl,&u,&out,&dc,&err);
    CK(!err && u,"reading a context fails"); CK(out.begin==off+of[0] && out.end==off+of[m],"the context covers other bytes than the window"); CK(b2==nb,"the number of bad bytes of the context is wrong");
    std::string w; size_t wb=0,we=0; for (size_t i=0;i<m;++i) { if (i==dh.begin) wb=w.size(); uint32_t x; if (sym_decide(ch[i]<=0)) x=repl; else x=ch[i]; w+=ref::encode(ref::U8,x); if (i+1==dh.end) we=w.size(); }
    CK(dc.begin==wb && dc.end==we,"the hit is elsewhere in the decoded text"); size_t k=0; while (k<w.size() && u[k] && u[k]==w[k]) ++k; CK(k==w.size() && !u[k],"the decoded text is wrong"); sym_cover("context");
    lg_free_hit_context_string(u);
  }
  lg_free_window_characters(ch); lg_free_window_offsets(of); lg_destroy_decoder(d);
}
void harness_main(int argc, char** argv) {
  int n8=argInt(argc,argv,"--n8",3), n16=argInt(argc,argv,"--n16",4), n32=argInt(argc,argv,"--n32",5), na=argInt(argc,argv,"--na",3);
  for (auto& x: std::vector<std::pair<std::string,int>>{{"ASCII",na},{"UTF-8",n8},{"UTF-16LE",n16},{"UTF-16BE",n16},{"UTF-32LE",n32},{"UTF-32BE",n32}}) {
    std::string inst=x.first+"/n"+std::to_string(x.second); if (!sym_want(inst.c_str())) continue; Case c{x.first,ref::encOf(x.first),x.second,x.first=="ASCII"?1:4}; sym_explore(inst.c_str(),run,&c); }
}
