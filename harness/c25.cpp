// C25: instructions and transitions keep their operands, and programs are well-formed sequences of instructions.
#include "lg.h"
#include "gen.h"
#include "re.h"
#include "handles.h"
#include "program.h"
#include "instructions.h"
#include "transitionfactory.h"
#include <stdexcept>
#include <set>
#define CK(c, msg) do { if (!(c)) { note(); sym_fail_(msg); } } while (0)
struct Case { int what; std::string pat, enc; unsigned base; };
static uint32_t word(const Instruction* i) { uint32_t w; memcpy(&w,i,4); return w; }
static unsigned op(const Instruction* i) { return i->OpCode; }
// does the instruction written at p let byte b pass? (decoded here)
static bool passes(const Instruction* p, unsigned char b) {
  const unsigned char* q=(const unsigned char*)p; bool neg=q[1]&Instruction::NEGATE, r=false;
  switch (q[0]) { case BYTE_OP: r= b==q[2]; break; case EITHER_OP: r= (b==q[2])|(b==q[3]); break; case RANGE_OP: r= (b>=q[2])&(b<=q[3]); break; case ANY_OP: return true;
    case BIT_VECTOR_OP: return (q[4+b/8]>>(b%8))&1; default: sym_fail_("a transition becomes another kind of instruction"); } return r!=neg;
}
static void runMake(void* a) {
  int k=((Case*)a)->what; bool bad=((Case*)a)->base; /* formatting the operand of a refusal decides it: fewer of those */ uint8_t x=0,y=0,ng=0; uint32_t w=0; auto note=[&]{ sym_note(("kind "+std::to_string(k)+" "+std::to_string(x)+" "+std::to_string(y)+" "+std::to_string(w)).c_str()); };
  Instruction buf[4]; memset((void*)buf,0xA5,sizeof buf); Instruction& i=buf[1]; const unsigned char* q=(const unsigned char*)&i; bool thrown=false, range=false; unsigned code=99, words=1;
  auto mk=[&](auto f){ try { i=f(); } catch (const std::exception&) { thrown=true; } };
  switch (k) {
    case 0: sym_make(&x,1); sym_make(&ng,1); sym_assume(ng<2); mk([&]{ return Instruction::makeByte(x,sym_decide(ng)); }); code=BYTE_OP; CK(!thrown && q[2]==x && q[1]==ng,"a byte instruction loses its operand"); break;
    case 1: sym_make(&x,1); sym_make(&y,1); sym_make(&ng,1); sym_assume(ng<2); mk([&]{ return Instruction::makeEither(x,y,sym_decide(ng)); }); code=EITHER_OP; CK(!thrown && q[2]==x && q[3]==y && q[1]==ng,"an either instruction loses an operand"); break;
    case 2: case 3: sym_make(&x,1); sym_make(&y,1); if (bad) { sym_assume(x>y); sym_assume((x==y+1)|(y==0)); } else sym_assume(x<=y); if (k==2) { sym_make(&ng,1); sym_assume(ng<2); } mk([&]{ return k==2? Instruction::makeRange(x,y,sym_decide(ng)): Instruction::makeJumpTableRange(x,y); }); code= k==2?RANGE_OP:JUMP_TABLE_RANGE_OP; range=true;
      if (sym_decide(x>y)) { CK(thrown,"a reversed range is accepted"); sym_cover("refused"); return; } CK(!thrown,"a range is refused"); CK(q[2]==x && q[3]==y && q[1]==ng,"a range instruction loses an operand"); break;
    case 4: case 5: case 6: { sym_make(&w,4); if (bad) { sym_assume(w>0xffffff); sym_assume(((w&0xffffff)==0)|((w&0xffffff)==0xffffff)|((w>>24)==1)&((w&0xffff00)==0)); } else sym_assume(w<=0xffffff); mk([&]{ return k==4? Instruction::makeLabel(w): k==5? Instruction::makeCheckHalt(w): Instruction::makeAdjustStart(w); }); code= k==4?LABEL_OP:k==5?CHECK_HALT_OP:ADJUST_START_OP;
      if (sym_decide(w>0xffffff)) { CK(thrown,"an operand of more than 24 bits is accepted"); sym_cover("refused"); return; } CK(!thrown,"an operand of 24 bits is refused"); CK(sym_decide(i.Op.Offset==w),"an operand of 24 bits is changed"); CK(sym_decide(word(&i)==(w<<8|code)),"an operand of 24 bits is packed wrongly"); break; }
    case 7: case 8: { sym_make(&w,4); words=2; mk([&]{ return k==7? Instruction::makeJump(&i,w): Instruction::makeFork(&i,w); }); code= k==7?JUMP_OP:FORK_OP; CK(!thrown,"a jump is refused"); CK(sym_decide(word(&i+1)==w),"a jump loses its target"); CK(word(&i-1)==0xA5A5A5A5u && word(&i+2)==0xA5A5A5A5u,"a jump writes elsewhere"); break; }
    case 9: sym_make(&w,4); mk([&]{ return Instruction::makeRaw32(w); }); CK(!thrown && sym_decide(word(&i)==w),"a raw word is changed"); sym_cover("kept"); return;
    case 10: mk([]{ return Instruction::makeAny(); }); code=ANY_OP; break; case 11: mk([]{ return Instruction::makeMatch(); }); code=MATCH_OP; break; case 12: mk([]{ return Instruction::makeHalt(); }); code=HALT_OP; break; case 13: mk([]{ return Instruction::makeFinish(); }); code=FINISH_OP; break; case 14: mk([]{ return Instruction::makeBitVector(); }); code=BIT_VECTOR_OP; words=9; break;
  }
  (void)range; CK(!thrown && op(&i)==code,"an instruction has another operation"); CK(i.wordSize()==words && i.byteSize()==words*4,"an instruction reports another size"); Instruction j=i; CK(j==i,"an instruction differs from its copy"); sym_output(words); sym_cover("kept");
}
// what: 0 any subset of 12 bytes around base, 1 one range, 2 two bytes, 3 a range and a byte
static void runTrans(void* a) {
  Case& c=*(Case*)a; ByteSet s; uint16_t m=0; uint8_t lo=0,hi=0,z=0; auto note=[&]{ std::string t; for (int i=0;i<256;++i) if (s.test(i)) t+=std::to_string(i)+" "; sym_note(t.c_str()); };
  static const int scattered[]={0,1,62,63,64,65,127,128,254,255};
  switch (c.what) {
    case 0: sym_make(&m,2); sym_assume(m<1024); for (int i=0;i<10;++i) if (sym_decide((m>>i)&1)) s.set(c.base<256? c.base+i: scattered[i]); break;
    case 1: case 3: { lo=c.base+sym_choice(c.what==1?16:2); hi=sym_choice(256); sym_assume(lo<=hi); s.set(lo,hi+1,true); if (c.what==3) { z=sym_choice(256); s.set(z); } } break;
    case 2: lo=c.base+sym_choice(16); hi=sym_choice(256); s.set(lo); s.set(hi); break;
  }
  TransitionFactory f; Transition* t=f.getSmallest(s); ByteSet g; t->getBytes(g); CK(memcmp(&g,&s,32)==0,"a transition has other bytes than its set"); CK(f.getSmallest(s)==t,"the same set gives two transitions");
  size_t w=t->numInstructions(); unsigned char b=0; if (c.what) { const int bs[]={lo-1,lo,hi,hi+1,z,(lo+hi)/2,z-1,255}; b=bs[sym_choice(c.what==3?5:8)]; } else b= c.base<256? c.base-1+sym_choice(12): scattered[sym_choice(10)]; bool in=s.test(b);
  Instruction out[12]; memset((void*)out,0xA5,sizeof out); t->toInstruction(out+1); CK(word(out)==0xA5A5A5A5u && word(out+1+w)==0xA5A5A5A5u,"a transition writes outside its instructions"); CK(out[1].wordSize()==w,"a transition's instruction has another size");
  CK(sym_decide(passes(out+1,b))==in,"an instruction lets other bytes pass than its set"); const byte* e=t->allowed(&b,&b+1); CK((e==&b+1)==in,"a transition allows other bytes than its set"); CK(e==&b||e==&b+1,"a transition moves otherwise");
  { std::unique_ptr<Transition> d(t->clone()); ByteSet h; d->getBytes(h); CK(memcmp(&h,&s,32)==0,"a copied transition has other bytes"); }
  ByteSet u(s); u.flip(b); Transition* t2=f.getSmallest(u); CK(t2!=t,"two sets give one transition"); ByteSet g2; t2->getBytes(g2); CK(memcmp(&g2,&u,32)==0,"a transition has other bytes than its set"); CK(f.getSmallest(s)==t,"the same set gives two transitions");
  sym_output(w); sym_cover(w==9?"bit vector":"one instruction");
}
// programs: contiguous, known instructions, targets at instructions
static void runProg(void* a) {
  Case& c=*(Case*)a; std::string p=c.pat; int n=0; auto note=[&]{ sym_note(p.c_str()); }; for (char& ch: p) if (ch=='?' ) { uint8_t d; sym_make(&d,1); sym_assume(((d>='0')&(d<='9'))|((d>='a')&(d<='f'))); ch=d; ++n; } for (char& ch: p) if (ch==1) ch='?';
  Pat pt; pt.p=p; pt.enc=c.enc; Pat p2; p2.p="ab(c|d)"; std::vector<Pat> ps{pt}; if (c.what) ps.push_back(p2); Built b=build(ps,c.base); if (!b.prog) { sym_cover("refused"); sym_output(0); drop(b); return; }
  const Program& g=*b.prog->Prog; size_t N=g.size(); std::vector<int> kind(N,0); /* 1 instruction, 2 its operand, 3 table word */ std::vector<size_t> tg; CK(N>=2,"a program has no end"); size_t i=0; std::vector<std::pair<size_t,size_t>> tabs;
  while (i<N) { const Instruction& x=g[i]; CK(x.OpCode<=ADJUST_START_OP,"a program contains an unknown instruction"); kind[i]=1; size_t w=x.wordSize(); CK(i+w<=N,"an instruction runs out of the program");
    for (size_t j=1;j<w;++j) kind[i+j]=2;
    switch (x.OpCode) { case JUMP_OP: case FORK_OP: tg.push_back(word(&x+1)); break; case RANGE_OP: CK(x.Op.T2.First<=x.Op.T2.Last,"a program contains a reversed range"); break; case LABEL_OP: CK(x.Op.Offset<ps.size(),"a program labels an unknown keyword"); break; case CHECK_HALT_OP: CK(x.Op.Offset<=g.MaxCheck,"a program checks beyond its number of checks"); break;
      case JUMP_TABLE_RANGE_OP: { CK(x.Op.T2.First<=x.Op.T2.Last,"a jump table is reversed"); size_t k=x.Op.T2.Last-x.Op.T2.First+1; CK(i+1+k<=N,"a jump table runs out of the program"); for (size_t j=1;j<=k;++j) { kind[i+j]=3; uint32_t t=word(&x+j); if (t) tg.push_back(t); } w+=k; sym_cover("jump table"); } break; }
    i+=w; }
  for (size_t t: tg) { CK(t<N,"a jump leads out of the program"); CK(kind[t]==1,"a jump leads into an instruction"); }
  CK(g[N-1].OpCode==FINISH_OP && g[N-2].OpCode==HALT_OP && kind[N-1]==1 && kind[N-2]==1,"a program does not end with halt and finish"); sym_output(N); sym_output(tg.size()); sym_cover("program"); drop(b);
}
void harness_main(int argc, char** argv) {
  int gen=argInt(argc,argv,"--gen",60), seed=argInt(argc,argv,"--seed",1), step=argInt(argc,argv,"--step",4);
  auto go=[&](const std::string& nm, sym_fn f, Case c){ if (sym_want(nm.c_str())) sym_explore(nm.c_str(),f,&c); };
  for (int k=0;k<=14;++k) { go("instruction/"+std::to_string(k),runMake,{k,"","",0}); if (k>=2 && k<=6) go("instruction/"+std::to_string(k)+"/operand out of range",runMake,{k,"","",1}); }
  for (unsigned b: {1u,6u,27u,58u,120u,186u,245u,256u}) go("any subset at "+std::to_string(b),runTrans,{0,"","",b});
  for (int k=1;k<=3;++k) for (int b=0;b<256;b+= k==3?2:16) { if (k==3? (b/2)%(step*8): (b/16)%step && b!=240) continue; go((k==1?"range from ":k==2?"two bytes from ":"range and byte from ")+std::to_string(b),runTrans,{k,"","",(unsigned)b}); }
  static const char* ts[]={"[\\z?0-\\z?f]a","[\\z?f-\\zff]","[a\\z??]","[^\\z??]b","a\\z??","(\\z??|a|b|c|d)x","(a\\z?0|b|c|d|e)+x","(\\z?1|\\z?2|c|d)x","(a|b|c|d\\z?0)*[\\z80-\\z8?]","\\x{?0}x","\\x{1f?0?}","[\\x{?0}-\\x{2?0}]","(\\z1?|\\z0?)b","(a|a\\z??|a|a|b)c"};
  for (auto t: ts) for (auto e: {"UTF-8","ISO-8859-1","UTF-16LE"}) for (int d=0;d<2;++d) go(std::string("program/")+t+" "+e+" depth "+std::to_string(d),runProg,{1,t,e,d?0:0xffffffffu});
  std::vector<std::string> ps=curated(); PatGen pg((uint64_t)seed*31+7,"abcd"); for (int i=0;i<gen;++i) ps.push_back(pg.gen(3+i%6));
  int z=0; for (auto p: ps) { for (char& ch: p) if (ch=='?') ch=1; std::string nm="program "+std::to_string(z++)+"/"+p; for (char& ch: nm) if (ch==1) ch='?'; go(nm,runProg,{1,p,"UTF-8",(unsigned)(z%3?0xffffffffu:1)}); }
}
