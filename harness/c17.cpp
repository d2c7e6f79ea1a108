// C17: what the command-line program prints with a hit, and what it counts, against its own description of lines, escapes and order.
#include "lg.h"
#include "re.h"
#include "hitwriter.h"
#include <climits>
#include <map>
#include <ostream>
#include <streambuf>
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
std::string escapeControlChars(const std::string& str);
// collects what is written, byte by byte
struct Sink: std::streambuf { std::string s; int overflow(int c) override { if (c!=EOF) s+=(char)c; return c; } std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p,n); return n; } };
static std::string num(long long v) { return std::to_string(v); }
static std::string hex(const void* p, size_t n) { static const char* d="0123456789abcdef"; std::string s; for (size_t i=0;i<n;++i) { unsigned char c=((const unsigned char*)p)[i]; s+=d[c>>4]; s+=d[c&15]; } return s; }
static bool same(const std::string& a, const std::string& b) { if (a.size()!=b.size()) return false; for (size_t i=0;i<a.size();++i) if (!sym_decide(a[i]==b[i])) return false; return true; }
// where the line starts that lies `lines` lines before the one with position p, and where the one ends that lies `lines` after
static size_t lineStart(const unsigned char* t, size_t p, size_t lines) { size_t k=0; while (p>0) { if (sym_decide(t[p-1]=='\n') && k++==lines) return p; --p; } return 0; }
static size_t lineEnd(const unsigned char* t, size_t n, size_t p, size_t lines) { size_t k=0, q=p; while (q<n) { if (sym_decide(t[q]=='\n') && k++==lines) return q>p && sym_decide(t[q-1]=='\r')? q-1: q; ++q; } return n; }
static const size_t LINES[]={0,1,2,3,INT_MAX,(size_t)INT_MAX+1,(size_t)-2,(size_t)-1};
struct Case { int n, part; Built* b; std::string sets; };
static void find(void* v) { // the two line searches
  Case& c=*(Case*)v; int n=1+(int)sym_choice(c.n); size_t lines=LINES[sym_choice(8)]; unsigned char* t=sym_guarded(n); sym_make(t,n); size_t p=sym_choice(n+1);
  auto note=[&]{ sym_note(("text "+hex(t,n)+" at "+num(p)+" lines "+num(lines)).c_str()); };
  const char* b=(const char*)t; size_t r=find_leading_context(b,b+p,lines)-b; CK(r==lineStart(t,p,lines),"the context starts elsewhere than at the start of the line");
  sym_cover(r?"later start":"start of the buffer"); sym_output(r); if (!p) return; r=find_trailing_context(b+p,b+n,lines)-b; CK(r==lineEnd(t,n,p,lines),"the context ends elsewhere than at the end of the line"); sym_output(r); sym_cover(r<(size_t)n?"earlier end":"end of the buffer");
}
// the decoded text of t[b..e): ASCII
static std::string shown(const unsigned char* t, size_t b, size_t e) { std::string s; for (size_t i=b;i<e;++i) { if (sym_decide(t[i]==0) || sym_decide(t[i]>=0x80)) s+="\xEF\xBF\xBD"; else s+=(char)t[i]; } return s; }
static std::string printed(const std::string& u) { std::string s; for (char ch: u) { if (sym_decide(ch=='\t')) s+="\\t"; else if (sym_decide(ch=='\n')) s+="\\n"; else if (sym_decide(ch=='\r')) s+="\\r"; else s+=ch; } return s; }
static std::string escaped(const std::string& u) { static const char E[]="abtnvfr"; static const char* W="\a\b\t\n\v\f\r"; std::string s; for (char ch: u) { int k=0; while (W[k] && !sym_decide(ch==W[k])) ++k; if (W[k]) { s+='\\'; s+=E[k]; } else s+=ch; } return s; }
static const int BA[][2]={{-1,-1},{0,0},{1,0},{0,2},{-1,1},{INT_MAX,INT_MAX}}; static const uint64_t OFFS[]={0,7,1ull<<40};
static size_t clip(int64_t x, int n) { return x<0? 0: x>n? n: x; }
static void context(void* v) { // the text shown with a hit
  Case& c=*(Case*)v; int n=1+(int)sym_choice(c.n); const int* ba=BA[sym_choice(6)]; uint64_t off=OFFS[sym_choice(3)]; unsigned char* t=sym_guarded(n); sym_make(t,n);
  int back= off? 2: 0, hs=(int)sym_choice(n+back+2)-back, he=hs+1+(int)sym_choice(n+3-hs); LG_SearchHit h{off+hs,off+he,(uint64_t)c.part};
  Sink sk; std::ostream os(&sk); HitOutputData d(os,c.b->prog,'\t',"--",ba[0],ba[1],false); d.setBuffer((const char*)t,n,off);
  size_t a=clip(hs,n), z=clip(he,n); HitBuffer hb=d.decodeContext(h);
  auto note=[&]{ sym_note(("buffer "+hex(t,n)+" at "+num(off)+", hit ["+num(h.Start)+","+num(h.End)+") lines "+num(ba[0])+" "+num(ba[1])+": '"+hex(hb.Context.data(),hb.Context.size())+"' at "+num(hb.DataOffset)+" hit ["+num(hb.HitWindow.begin)+","+num(hb.HitWindow.end)+")").c_str()); };
  CK(hb.HitWindow.begin<=hb.HitWindow.end && hb.HitWindow.end<=hb.Context.size(),"the hit is outside the text shown");
  if (a==z) { sym_cover("hit outside the buffer"); return; }
  size_t cb= ba[0]<0? a: lineStart(t,a,ba[0]), ce= ba[1]<0? z: lineEnd(t,n,z,ba[1]); if (hs<0||he>n) sym_cover("hit partly outside"); if (cb<a) sym_cover("leading lines"); if (ce>z) sym_cover("trailing lines");
  CK(hb.DataOffset==off+cb,"the offset printed is not that of the start of the text shown");
  if (!c.part) {
    std::string pre=shown(t,cb,a), mid=shown(t,a,z), post=shown(t,z,ce);
    CK(same(hb.Context,pre+mid+post),"the text shown is not that of the lines of the hit"); CK(hb.HitWindow.begin==pre.size() && hb.HitWindow.end==pre.size()+mid.size(),"the hit is elsewhere in the text shown"); CK(same(hb.hit(),mid),"the text of the hit is another");
  } else { // what C16 decides, over the lines of the hit
    LG_HDECODER dec=lg_create_decoder(); LG_Window in{off+a,off+z}, out, dh; const char* u=nullptr; LG_Error* err=nullptr; lg_hit_context(dec,(const char*)t+cb,(const char*)t+ce,off+cb,&in,c.part==1? "UTF-8": "UTF-16LE",ce-cb,0xFFFD,&u,&out,&dh,&err);
    CK(!err && u,"reading the context fails"); CK(same(hb.Context,std::string(u)),"the text shown is not that of the lines of the hit"); CK(hb.HitWindow.begin==dh.begin && hb.HitWindow.end==dh.end,"the hit is elsewhere in the text shown");
    lg_free_hit_context_string(u); lg_destroy_decoder(dec);
  }
}
static void write(void* v) { // a line of output for each of two hits
  Case& c=*(Case*)v; int n=1+(int)sym_choice(c.n); unsigned char* t=sym_guarded(n); sym_make(t,n); const int* ba=BA[1+sym_choice(2)]; uint64_t off=OFFS[sym_choice(2)]; int path=sym_choice(2), ctx=sym_choice(2), silent= !path&&!ctx? sym_choice(2): 0;
  Sink sk; std::ostream os(&sk); HitOutputData d(os,c.b->prog,'|',"~~",ba[0],ba[1],false); d.setPath("p/q"); d.setBuffer((const char*)t,n,off); std::string want;
  for (int i=0;i<2;++i) {
    int hs=(int)sym_choice(n), he=hs+1+(int)sym_choice(n-hs); LG_SearchHit h{off+hs,off+he,0};
    (silent? callbackFn<DoNotWritePath,NoContext,false>: path? ctx? callbackFn<WritePath,WriteContext,true>: callbackFn<WritePath,NoContext,true>: ctx? callbackFn<DoNotWritePath,WriteContext,true>: callbackFn<DoNotWritePath,NoContext,true>)(&d,&h);
    if (silent) continue; if (i && ctx) want+="~~\n"; if (path) want+="p/q|"; want+=num(h.Start)+"\t"+num(h.End)+"\t40\tx+\tASCII";
    if (ctx) { size_t cb=lineStart(t,hs,ba[0]), ce=lineEnd(t,n,he,ba[1]); want+="|"+num(off+cb)+"|"+printed(shown(t,cb,ce)); } want+="\n";
  }
  os.flush(); auto note=[&]{ sym_note(("buffer "+hex(t,n)+" printed "+hex(sk.s.data(),sk.s.size())+" expected "+hex(want.data(),want.size())).c_str()); };
  CK(same(sk.s,want),"the lines printed are wrong"); CK(d.NumHits==2,"the hits are counted wrongly"); sym_cover(silent?"nothing printed":"printed");
}
static void escape(void* v) { Case& c=*(Case*)v; int n=(int)sym_choice(c.n+1); unsigned char* t=sym_guarded(n+1); sym_make(t,n); std::string u((char*)t,n), e=escapeControlChars(u); auto note=[&]{ sym_note(("text "+hex(t,n)+" escaped "+hex(e.data(),e.size())).c_str()); }; CK(same(e,escaped(u)),"the text is escaped wrongly"); sym_cover("escaped"); }
static void order(void* v) { // of the histogram
  Case& c=*(Case*)v; struct { uint64_t cnt, idx; unsigned char n, s[2]; } x[2]; std::vector<LG_Histogram::value_type> e;
  for (int i=0;i<2;++i) { x[i].n=sym_choice(c.n+1); sym_make(&x[i].cnt,8); sym_make(&x[i].idx,8); sym_make(x[i].s,c.n); e.push_back({HistogramKey(std::string((char*)x[i].s,x[i].n),"p",x[i].idx),x[i].cnt}); }
  int cmp=0; { int k=0; while (!cmp && k<x[0].n && k<x[1].n) { cmp= sym_decide(x[0].s[k]<x[1].s[k])? -1: sym_decide(x[0].s[k]>x[1].s[k])? 1: 0; ++k; } if (!cmp) cmp=x[0].n<x[1].n? -1: x[0].n>x[1].n? 1: 0; }
  bool lt= sym_decide(x[0].cnt>x[1].cnt) || (sym_decide(x[0].cnt==x[1].cnt) && (sym_decide(x[0].idx<x[1].idx) || (sym_decide(x[0].idx==x[1].idx) && cmp<0)));
  auto note=[&]{ sym_note(("'"+hex(x[0].s,x[0].n)+"' index "+num(x[0].idx)+" count "+num(x[0].cnt)+" and '"+hex(x[1].s,x[1].n)+"' index "+num(x[1].idx)+" count "+num(x[1].cnt)).c_str()); };
  CK(sym_decide(histogramKeyComp(e[0],e[1]))==lt,"two entries of the histogram are ordered wrongly"); sym_cover(lt?"before":"not before"); sym_output(lt);
}
static void histogram(void* v) { // counts of a few hits
  Case& c=*(Case*)v; static const unsigned char AB[]={'a','\n',0xFF,'b'}; int n=1+(int)sym_choice(2); unsigned char* t=sym_guarded(n); for (int i=0;i<n;++i) t[i]=AB[sym_choice(4)];
  int m=1+(int)sym_choice(c.n), again=(int)sym_choice(2), off=0; Sink sk; std::ostream os(&sk); HitOutputData d(os,c.b->prog,'\t',"--",0,0,true); std::map<std::pair<std::string,uint64_t>,uint64_t> want; d.setBuffer((const char*)t,n,0);
  const LG_HITCALLBACK_FN fn= again? &callbackFn<DoNotWritePath,WriteContext,true>: &callbackFn<DoNotWritePath,NoContext,false>;
  for (int i=0;i<m;++i) { if (i==1 && sym_choice(2)) { off=5; t[0]=AB[sym_choice(4)]; d.setBuffer((const char*)t,n,off); } int k=sym_choice(2)*3, hs=(int)sym_choice(n), he=hs+1+(int)sym_choice(n-hs); LG_SearchHit h{(uint64_t)off+hs,(uint64_t)off+he,(uint64_t)k}; fn(&d,&h); ++want[{shown(t,hs,he),k?9:40}]; }
  sk.s.clear(); d.writeHistogram(os); os.flush(); std::vector<std::string> lines; for (size_t p=0;p<sk.s.size();) { size_t q=sk.s.find('\n',p); if (q==std::string::npos) q=sk.s.size(); lines.push_back(sk.s.substr(p,q-p)); p=q+1; }
  std::vector<std::pair<std::pair<std::string,uint64_t>,uint64_t>> w(want.begin(),want.end()); for (size_t i=1;i<w.size();++i) for (size_t j=i;j>0;--j) { auto &p=w[j-1], &q=w[j]; bool sw= q.second!=p.second? q.second>p.second: q.first.second!=p.first.second? q.first.second<p.first.second: q.first.first<p.first.first; if (sw) std::swap(p,q); }
  auto note=[&]{ sym_note(("buffer "+hex(t,n)+" histogram "+hex(sk.s.data(),sk.s.size())).c_str()); };
  CK(lines.size()==w.size(),"the histogram has another number of entries"); for (size_t i=0;i<w.size();++i) CK(lines[i]==num(w[i].second)+"\t"+escaped(w[i].first.first)+"\t"+num(w[i].first.second)+"\t"+(w[i].first.second==40?"x+":"y\\n"),"an entry of the histogram is wrong");
  sym_cover(w.size()>1?"several entries":"one entry"); if (off) sym_cover("second buffer");
}
void harness_main(int argc, char** argv) {
  int nf=argInt(argc,argv,"--nf",6), n=argInt(argc,argv,"--n",3), nw=argInt(argc,argv,"--nw",3), ne=argInt(argc,argv,"--ne",3), m=argInt(argc,argv,"--m",3);
  Built b; b.fsm=lg_create_fsm(0,0); int idx[]={40,41,42,9}; const char* pats[]={"x+","x+","x+","y\n"}; const char* encs[]={"ASCII","UTF-8","UTF-16LE","ASCII"};
  for (int i=0;i<4;++i) { LG_HPATTERN h=lg_create_pattern(); LG_KeyOptions ko{1,0,0}; ko.FixedString=i==3; LG_Error* err=nullptr; if (!lg_parse_pattern(h,pats[i],&ko,&err) || lg_add_pattern(b.fsm,h,encs[i],idx[i],&err)!=i) { sym_setup_fail("context/ASCII","a pattern is refused"); return; } lg_destroy_pattern(h); }
  LG_ProgramOptions po{10}; b.prog=lg_create_program(b.fsm,&po);
  auto go=[&](const std::string& inst, sym_fn f, int n, int part) { if (!sym_want(inst.c_str())) return; Case c{n,part,&b,""}; sym_explore(inst.c_str(),f,&c); };
  go("find",find,nf,0); go("context/ASCII",context,n,0); go("context/UTF-8",context,n,1); go("context/UTF-16LE",context,n,2); go("write",write,nw,0); go("escape",escape,ne,0); go("order",order,2,0); go("histogram",histogram,m,0); drop(b);
}
