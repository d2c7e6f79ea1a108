// C10: earlier use of a context, other contexts and the program's other users leave no trace.
#include "sets.h"
struct Case { LG_HCONTEXT a,b,c; LG_HPROGRAM prog; int n,m; };
static void feed(LG_HCONTEXT c, const unsigned char* t, int n, uint64_t off, Hits& h, uint64_t& r) { r=lg_search(c,(const char*)t,(const char*)t+n,off,&h,onHit); }
static void run(void* v) {
  Case& c=*(Case*)v; int kind=(int)sym_choice(4); int m=(int)sym_choice(c.m+1), n=(int)sym_choice(c.n+1);
  unsigned char* u=sym_guarded(m); sym_make(u,m); unsigned char* t=sym_guarded(n); sym_make(t,n);
  unsigned size=lg_program_size(c.prog); static std::vector<unsigned char> img, img2; img.assign(size,0); img2.assign(size,1); lg_write_program(c.prog,img.data());
  Hits old,g,w; uint64_t r0,r1,r2;
  // what a new context does
  LG_HCONTEXT nw=newContext(c.prog); feed(nw,t,n,100,w,r0); lg_closeout_search(nw,&w,onHit); lg_destroy_context(nw);
  LG_HCONTEXT x=c.a; lg_reset_context(x);
  if (kind==0) { feed(x,u,m,5,old,r1); lg_reset_context(x); }
  else if (kind==1) { feed(x,u,m,500,old,r1); lg_closeout_search(x,&old,onHit); lg_reset_context(x); }
  else if (kind==2) { lg_starts_with(x,(const char*)u,(const char*)u+m,500,&old,onHit); }
  else { // interleaved with another context of the program
    lg_reset_context(c.b); Hits other; int k=n/2, l=m/2; uint64_t q;
    feed(x,t,k,100,g,r1); feed(c.b,u,l,7,other,q); feed(x,t+k,n-k,100+k,g,r1); feed(c.b,u+l,m-l,7+l,other,q); lg_closeout_search(x,&g,onHit); lg_closeout_search(c.b,&other,onHit);
    std::vector<Hit> alone; lg_reset_context(c.c); Hits o2; feed(c.c,u,m,7,o2,r2); lg_closeout_search(c.c,&o2,onHit); 
    std::vector<Hit> s1=other.v, s2=o2.v; bool same=s1.size()==s2.size(); for (uint64_t key=0;key<8;++key) same=same&&ofKey(s1,key)==ofKey(s2,key);
    sym_check(same,"a context is affected by another one of the same program");
    same=g.v.size()==w.v.size(); for (uint64_t key=0;key<8;++key) same=same&&ofKey(g.v,key)==ofKey(w.v,key); sym_check(same,"a context is affected by another one of the same program");
    sym_check(r1==r0,"the returned offset is affected by another context"); 
  }
  if (kind<3) { feed(x,t,n,100,g,r1); size_t open=g.v.size(); lg_closeout_search(x,&g,onHit); size_t closed=g.v.size(); lg_closeout_search(x,&g,onHit); (void)open;
    sym_note(("new context "+showHits(w.v)+"used context "+showHits(g.v)).c_str());
    sym_check(closed==g.v.size(),"closing out twice reports hits twice");
    sym_check(g.v==w.v,"earlier use of a context changes the hits"); sym_check(r0==r1,"earlier use of a context changes the returned offset"); }
  lg_write_program(c.prog,img2.data()); sym_check(img==img2,"searching modifies the program"); outHits(g.v); sym_cover(g.v.empty()?"no hit":"hit"); if (!old.v.empty()) sym_cover("earlier hit");
}
void harness_main(int argc, char** argv) {
  int n=argInt(argc,argv,"--n",3), m=argInt(argc,argv,"--m",2);
  forSets(argc,argv,[&](const char* tag, const PatSet& s) {
    std::string inst=std::string(tag)+"/n"+std::to_string(n)+"/m"+std::to_string(m)+"/"+setName(s); if (!sym_want(inst.c_str())) return;
    Built b=build(s); if (!b.ctx) { sym_setup_fail(inst.c_str(),("refused: "+b.err).c_str()); drop(b); return; }
    Case c{b.ctx,newContext(b.prog),newContext(b.prog),b.prog,n,m}; sym_explore(inst.c_str(),run,&c); lg_destroy_context(c.b); lg_destroy_context(c.c); drop(b);
  });
}
