// C09: reading an image: truncated, damaged or arbitrary bytes.
#include "sets.h"
struct Case { std::vector<unsigned char>* img; int len; int sym; };
static void inspect(LG_HPROGRAM p) { // everything that describes the program lies in the image
  unsigned k=lg_prog_pattern_count(p); sym_output(k); size_t n=0; for (unsigned i=0;i<k&&i<4;++i) { LG_PatternInfo* x=lg_prog_pattern_info(p,i); if (!x) sym_fail_("no pattern info"); for (const char* s=x->Pattern;*s;++s) ++n; for (const char* s=x->EncodingChain;*s;++s) ++n; n+=x->UserIndex&1; }
  unsigned size=lg_program_size(p); sym_output(size);
}
// every shorter length
static void cut(void* v) {
  Case& c=*(Case*)v; int n=c.img->size(); int len= c.len? n-c.len+(int)sym_choice(c.len+1): (int)sym_choice(std::min(n,300)+1); 
  unsigned char* b=sym_guarded(len); memcpy(b,c.img->data(),len);
  LG_HPROGRAM p=lg_read_program(b,len); sym_output(p!=nullptr);
  if (len<n) { sym_cover("cut"); sym_check(!p,"an image cut short is accepted"); } else { sym_cover("whole"); sym_check(p!=nullptr,"a whole image is refused"); }
  if (p) { inspect(p); lg_destroy_program(p); }
}
// symbolic size fields (and pattern part), the rest as in a valid image
static void damaged(void* v) {
  Case& c=*(Case*)v; int n=c.img->size(); uint64_t pm; memcpy(&pm,c.img->data(),8);
  unsigned char* b=sym_guarded(n); memcpy(b,c.img->data(),n);
  if (c.sym==0) { sym_make(b,8); uint64_t x; memcpy(&x,b,8); sym_assume(x<=pm+64 || x>=(uint64_t)n-24); } else if (c.sym==1) sym_make(b+8+pm,8); else if (c.sym==2) { int k=(int)std::min<uint64_t>(pm,14); sym_make(b+8+pm-k,k); } else { sym_make(b,8); uint64_t x; memcpy(&x,b,8); sym_assume(x<=pm+16); sym_make(b+8+pm,1); }
  LG_HPROGRAM p=lg_read_program(b,n); sym_output(p!=nullptr); sym_cover(p?"accepted":"refused");
  if (p) { inspect(p); lg_destroy_program(p); }
}
// wholly symbolic short images, and sizes that are no sizes
static void arbitrary(void* v) {
  Case& c=*(Case*)v; int n=(int)sym_choice(c.len+1); unsigned char* b=sym_guarded(n); sym_make(b,n);
  LG_HPROGRAM p=lg_read_program(b,n); sym_output(p!=nullptr); sym_cover(p?"accepted":"refused"); sym_check(!p,"bytes too short for any program are accepted");
  LG_HPROGRAM q=lg_read_program(b,-1-n); sym_check(!q,"a negative size is accepted");
}
void harness_main(int argc, char** argv) {
  int big=argInt(argc,argv,"--tail",48);
  std::vector<PatSet> m={mkset({"a"}),mkset({"ab","[b-e]+c"},"UTF-8"),mkset({"a+b","x","(ab|c)*d"},"UTF-16LE")};
  for (auto& s: m) {
    std::vector<unsigned char> img; auto load=[&]{ Built b=build(s); img.resize(lg_program_size(b.prog)); lg_write_program(b.prog,img.data()); drop(b); };
    std::string a="cut/head/"+setName(s), t="cut/tail/"+setName(s);
    if (sym_want(a.c_str())) { load(); Case c{&img,0,0}; sym_explore(a.c_str(),cut,&c); }
    if (sym_want(t.c_str())) { load(); Case c{&img,big,0}; sym_explore(t.c_str(),cut,&c); }
    for (int k=0;k<4;++k) { std::string d="damaged/"+std::to_string(k)+"/"+setName(s); if (sym_want(d.c_str())) { load(); Case c{&img,0,k}; sym_explore(d.c_str(),damaged,&c); } }
  }
  std::string x="arbitrary"; if (sym_want(x.c_str())) { Case c{nullptr,argInt(argc,argv,"--n",24),0}; sym_explore(x.c_str(),arbitrary,&c); }
}
