// LLVM pass: instruments every function of a module so that, while the real code runs
// natively, each integer/pointer SSA value and memory byte carries a shadow symbolic
// expression (see runtime.cpp).
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <fstream>
#include <set>
#include <map>
#include <string>
using namespace llvm;

static cl::opt<std::string> DefsFile("sym-defs", cl::desc("file with symbols defined in instrumented code"));
static std::set<std::string> Defs;

enum OpCode { OP_ADD=1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR,
  OP_SHL, OP_LSHR, OP_ASHR, OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
  OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_USUBSAT, OP_UADDSAT, OP_UADDO, OP_USUBO, OP_UMULO, OP_SADDO, OP_SSUBO, OP_SMULO,
  OP_TRUNC, OP_ZEXT, OP_SEXT, OP_BSWAP, OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_ABS, OP_FSHL, OP_FSHR, OP_SCMP3 };

namespace {
struct Inst {
  Function& F; Module& M; LLVMContext& C; const DataLayout& DL;
  PointerType* PT; Type *I64,*I32,*I8,*Void;
  ConstantPointerNull* Null;
  DenseMap<Value*,Value*> Sh;
  std::vector<std::pair<PHINode*,PHINode*>> Phis;
  static unsigned SiteCounter;
  uint64_t ModHash;
  FunctionCallee fBin,fUn,fSel,fLoad,fStore,fBranch,fPin,fMemcpy,fMemset,fSwitch,fExtPtr,fClear,fFsh,fByval;
  GlobalVariable *gArg,*gCallee,*gRet,*gRetFn,*gFlag;

  Inst(Function& F, uint64_t h): F(F), M(*F.getParent()), C(F.getContext()), DL(M.getDataLayout()), ModHash(h) {
    PT=PointerType::get(C,0); I64=Type::getInt64Ty(C); I32=Type::getInt32Ty(C); I8=Type::getInt8Ty(C); Void=Type::getVoidTy(C);
    Null=ConstantPointerNull::get(PT);
    auto fn=[&](const char* n, Type* r, std::vector<Type*> a){ return M.getOrInsertFunction(n, FunctionType::get(r,a,false)); };
    fBin=fn("_sym_bin",PT,{I32,I32,PT,I64,PT,I64});
    fUn=fn("_sym_un",PT,{I32,I32,I32,PT,I64});
    fFsh=fn("_sym_fsh",PT,{I32,I32,PT,I64,PT,I64,PT,I64});
    fSel=fn("_sym_select",PT,{I32,PT,I64,PT,I64,PT,I64});
    fLoad=fn("_sym_load",PT,{PT,I32,I32,PT,I64,I64});
    fStore=fn("_sym_store",Void,{PT,I32,PT,I64,PT,I64});
    fBranch=fn("_sym_branch",Void,{PT,I64,I64});
    fPin=fn("_sym_pin",Void,{PT,I64,I64});
    fSwitch=fn("_sym_switch",Void,{PT,I64,I32,PT,I32,I64});
    fMemcpy=fn("_sym_memcpy",Void,{PT,PT,I64});
    fMemset=fn("_sym_memset",Void,{PT,PT,I64,I64});
    fExtPtr=fn("_sym_ext_ptr",Void,{PT,PT,I64});
    fClear=fn("_sym_clear",Void,{PT,I64});
    fByval=fn("_sym_memcpy",Void,{PT,PT,I64});
    auto gv=[&](const char* n, Type* t){ return cast<GlobalVariable>(M.getOrInsertGlobal(n,t)); };
    gArg=gv("__sym_arg",ArrayType::get(PT,64));
    gCallee=gv("__sym_callee",PT);
    gRet=gv("__sym_ret",ArrayType::get(PT,16));
    gRetFn=gv("__sym_retfn",PT);
    gFlag=gv("__sym_pageflag",ArrayType::get(I8,65536));
  }
  uint64_t site(){ return ModHash ^ (uint64_t)(++SiteCounter); }

  static bool isSym(Type* T){ // has a simple shadow
    if (T->isPointerTy()) return true;
    if (auto* I=dyn_cast<IntegerType>(T)) return I->getBitWidth()<=64;
    return false;
  }
  Type* shTy(Type* T){
    if (auto* S=dyn_cast<StructType>(T)) { std::vector<Type*> e; for (auto* t: S->elements()) e.push_back(shTy(t)); return StructType::get(C,e); }
    if (auto* A=dyn_cast<ArrayType>(T)) return ArrayType::get(shTy(A->getElementType()),A->getNumElements());
    return PT;
  }
  Constant* nullSh(Type* T){ return Constant::getNullValue(shTy(T)); }
  unsigned width(Type* T){ if (T->isPointerTy()) return 64; return cast<IntegerType>(T)->getBitWidth(); }
  Value* sh(Value* V){
    if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return nullSh(V->getType());
    auto it=Sh.find(V);
    if (it!=Sh.end()) return it->second;
    return nullSh(V->getType());
  }
  static bool isNull(Value* S){ return isa<Constant>(S) && cast<Constant>(S)->isNullValue(); }
  Value* to64(IRBuilder<>& B, Value* V){
    Type* T=V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V,I64);
    if (width(T)<64) return B.CreateZExt(V,I64);
    return V;
  }
  Value* anyNN(IRBuilder<>& B, ArrayRef<Value*> S){
    Value* c=nullptr;
    for (auto* s: S) if (!isNull(s)) { Value* x=B.CreateICmpNE(s,Null); c = c? B.CreateOr(c,x): x; }
    return c;
  }
  // guarded call: if any of the shadows S non-null, evaluate gen() else null. Inserted before IP
  template<class G> Value* guarded(Instruction* IP, ArrayRef<Value*> S, G gen, Value* extra=nullptr){
    IRBuilder<> B(IP);
    Value* c=anyNN(B,S);
    if (extra) c = c? B.CreateOr(c,extra): extra;
    if (!c) return Null;
    Instruction* T=SplitBlockAndInsertIfThen(c, IP, false, MDNode::get(C,{}) ? nullptr : nullptr);
    IRBuilder<> TB(T);
    Value* r=gen(TB);
    if (!r || r->getType()->isVoidTy()) return Null;
    BasicBlock* thenBB=cast<Instruction>(r)->getParent();
    IRBuilder<> PB(&IP->getParent()->front());
    // IP is first in its block (after split)
    PHINode* P=PHINode::Create(PT,2,"",&IP->getParent()->front());
    for (BasicBlock* pred: predecessors(IP->getParent())) {
      if (pred==thenBB) P->addIncoming(r,pred); else P->addIncoming(Null,pred);
    }
    return P;
  }
  Value* pageFlag(IRBuilder<>& B, Value* Addr){
    Value* a=B.CreatePtrToInt(Addr,I64);
    Value* ix=B.CreateAnd(B.CreateLShr(a,12),ConstantInt::get(I64,0xffff));
    Value* p=B.CreateInBoundsGEP(gFlag->getValueType(),gFlag,{ConstantInt::get(I64,0),ix});
    return B.CreateICmpNE(B.CreateLoad(I8,p),ConstantInt::get(I8,0));
  }
  ConstantInt* c32(uint64_t v){ return ConstantInt::get(Type::getInt32Ty(C),v); }
  ConstantInt* c64(uint64_t v){ return ConstantInt::get(Type::getInt64Ty(C),v); }

  Value* bin(Instruction* IP, unsigned op, unsigned w, Value* a, Value* b){
    Value *sa=sh(a), *sb=sh(b);
    if (isNull(sa)&&isNull(sb)) return Null;
    return guarded(IP,{sa,sb},[&](IRBuilder<>& B)->Value*{ return B.CreateCall(fBin,{c32(op),c32(w),sa,to64(B,a),sb,to64(B,b)}); });
  }
  void pin(Instruction* IP, Value* v){
    if (!isSym(v->getType())) return;
    Value* s=sh(v); if (isNull(s)) return;
    uint64_t id=site();
    guarded(IP,{s},[&](IRBuilder<>& B)->Value*{ B.CreateCall(fPin,{s,to64(B,v),c64(id)}); return nullptr; });
  }
  void flat(IRBuilder<>& B, Value* S, Type* T, std::vector<Value*>& out){
    if (auto* st=dyn_cast<StructType>(T)) { for (unsigned i=0;i<st->getNumElements();++i) flat(B, isa<Constant>(S)? (Value*)cast<Constant>(S)->getAggregateElement(i): B.CreateExtractValue(S,i), st->getElementType(i), out); return; }
    if (auto* at=dyn_cast<ArrayType>(T)) { for (unsigned i=0;i<at->getNumElements();++i) flat(B, isa<Constant>(S)? (Value*)cast<Constant>(S)->getAggregateElement(i): B.CreateExtractValue(S,i), at->getElementType(), out); return; }
    out.push_back(S);
  }
  Value* unflat(IRBuilder<>& B, Type* T, const std::vector<Value*>& in, unsigned& k){
    if (auto* st=dyn_cast<StructType>(T)) { Value* r=UndefValue::get(shTy(T)); for (unsigned i=0;i<st->getNumElements();++i) r=B.CreateInsertValue(r,unflat(B,st->getElementType(i),in,k),i); return r; }
    if (auto* at=dyn_cast<ArrayType>(T)) { Value* r=UndefValue::get(shTy(T)); for (unsigned i=0;i<at->getNumElements();++i) r=B.CreateInsertValue(r,unflat(B,at->getElementType(),in,k),i); return r; }
    return in[k++];
  }
  unsigned leaves(Type* T){
    if (auto* st=dyn_cast<StructType>(T)) { unsigned n=0; for (auto* t: st->elements()) n+=leaves(t); return n; }
    if (auto* at=dyn_cast<ArrayType>(T)) return at->getNumElements()*leaves(at->getElementType());
    return 1;
  }
  Value* gep(IRBuilder<>& B, GlobalVariable* G, unsigned i){ return B.CreateConstInBoundsGEP2_64(G->getValueType(),G,0,i); }

  void run(){
    // split invoke normal edges so that results can be handled
    std::vector<InvokeInst*> invs;
    for (auto& BB: F) if (auto* I=dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(I);
    for (auto* I: invs) {
      BasicBlock* N=I->getNormalDest();
      if (!N->getSinglePredecessor()) SplitEdge(I->getParent(),N);
    }
    std::vector<Instruction*> work;
    ReversePostOrderTraversal<Function*> RPOT(&F);
    for (auto* BB: RPOT) for (auto& I: *BB) work.push_back(&I);
    // entry: arguments
    {
      Instruction* IP=&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
      while (isa<AllocaInst>(IP)) IP=IP->getNextNode();
      bool any=false; unsigned n=0;
      for (auto& A: F.args()) { if (isSym(A.getType())) any=true; ++n; }
      if (any && n<=60) {
        IRBuilder<> B(IP);
        Value* m=B.CreateICmpEQ(B.CreateLoad(PT,gCallee),&F);
        unsigned i=0;
        for (auto& A: F.args()) {
          if (isSym(A.getType())) {
            Value* s=B.CreateSelect(m,B.CreateLoad(PT,gep(B,gArg,i)),Null);
            if (A.hasByValAttr()) {
              uint64_t sz=DL.getTypeAllocSize(A.getParamByValType());
              // s is the address of the caller's original object
              Value* has=B.CreateICmpNE(s,Null);
              Instruction* T=SplitBlockAndInsertIfThen(has,&*B.GetInsertPoint(),false);
              IRBuilder<> TB(T);
              TB.CreateCall(fByval,{&A,s,c64(sz)});
              B.SetInsertPoint(IP);
              Sh[&A]=Null;
            } else Sh[&A]=s;
          }
          ++i;
        }
        B.CreateStore(Null,gCallee);
      }
    }
    for (auto* I: work) visit(I);
    for (auto& [P,S]: Phis)
      for (unsigned i=0;i<P->getNumIncomingValues();++i) S->addIncoming(sh(P->getIncomingValue(i)),P->getIncomingBlock(i));
  }
  void pinAll(Instruction* I){ for (auto& o: I->operands()) if (!isa<BasicBlock>(o.get())) pin(I,o.get()); }

  void visit(Instruction* I){
    if (auto* P=dyn_cast<PHINode>(I)) {
      if (!isSym(P->getType()) && !P->getType()->isAggregateType()) return;
      PHINode* S=PHINode::Create(shTy(P->getType()),P->getNumIncomingValues(),"",P);
      Phis.push_back({P,S}); Sh[P]=S; return;
    }
    Instruction* Next=I->getNextNode();
    if (auto* B=dyn_cast<BinaryOperator>(I)) {
      if (!isSym(B->getType())) { pinAll(I); return; }
      unsigned op=0;
      switch (B->getOpcode()) {
        case Instruction::Add: op=OP_ADD; break; case Instruction::Sub: op=OP_SUB; break; case Instruction::Mul: op=OP_MUL; break;
        case Instruction::UDiv: op=OP_UDIV; break; case Instruction::SDiv: op=OP_SDIV; break; case Instruction::URem: op=OP_UREM; break;
        case Instruction::SRem: op=OP_SREM; break; case Instruction::And: op=OP_AND; break; case Instruction::Or: op=OP_OR; break;
        case Instruction::Xor: op=OP_XOR; break; case Instruction::Shl: op=OP_SHL; break; case Instruction::LShr: op=OP_LSHR; break;
        case Instruction::AShr: op=OP_ASHR; break; default: return;
      }
      Sh[I]=bin(Next,op,width(B->getType()),B->getOperand(0),B->getOperand(1)); return;
    }
    if (auto* Cm=dyn_cast<ICmpInst>(I)) {
      Type* T=Cm->getOperand(0)->getType();
      if (!isSym(T)) { pinAll(I); return; }
      unsigned op=0;
      switch (Cm->getPredicate()) {
        case CmpInst::ICMP_EQ: op=OP_EQ; break; case CmpInst::ICMP_NE: op=OP_NE; break; case CmpInst::ICMP_ULT: op=OP_ULT; break;
        case CmpInst::ICMP_ULE: op=OP_ULE; break; case CmpInst::ICMP_UGT: op=OP_UGT; break; case CmpInst::ICMP_UGE: op=OP_UGE; break;
        case CmpInst::ICMP_SLT: op=OP_SLT; break; case CmpInst::ICMP_SLE: op=OP_SLE; break; case CmpInst::ICMP_SGT: op=OP_SGT; break;
        case CmpInst::ICMP_SGE: op=OP_SGE; break; default: return;
      }
      Sh[I]=bin(Next,op,width(T),Cm->getOperand(0),Cm->getOperand(1)); return;
    }
    if (auto* Ca=dyn_cast<CastInst>(I)) {
      Value* o=Ca->getOperand(0);
      if (!isSym(Ca->getType()) || !isSym(o->getType())) { pinAll(I); return; }
      unsigned fw=width(o->getType()), tw=width(Ca->getType());
      Value* s=sh(o); if (isNull(s)) return;
      unsigned op= fw==tw? 0 : fw>tw? OP_TRUNC : isa<SExtInst>(Ca)? OP_SEXT : OP_ZEXT;
      if (!op) { Sh[I]=s; return; }
      Sh[I]=guarded(Next,{s},[&](IRBuilder<>& B)->Value*{ return B.CreateCall(fUn,{c32(op),c32(fw),c32(tw),s,to64(B,o)}); });
      return;
    }
    if (auto* S=dyn_cast<SelectInst>(I)) {
      Value* c=S->getCondition(); Value *t=S->getTrueValue(), *f=S->getFalseValue();
      if (c->getType()->isVectorTy()) { pinAll(I); return; }
      if (!isSym(S->getType())) { pin(I,c); if (S->getType()->isAggregateType()) { IRBuilder<> B(Next); Sh[I]=B.CreateSelect(c,sh(t),sh(f)); } return; }
      Value *sc=sh(c), *st=sh(t), *sf=sh(f);
      if (isNull(sc)) { if (isNull(st)&&isNull(sf)) return; IRBuilder<> B(Next); Sh[I]=B.CreateSelect(c,st,sf); return; }
      unsigned w=width(S->getType());
      IRBuilder<> B0(Next);
      Value* base=B0.CreateSelect(c,st,sf);
      Value* g=guarded(Next,{sc},[&](IRBuilder<>& B)->Value*{ return B.CreateCall(fSel,{c32(w),sc,to64(B,c),st,to64(B,t),sf,to64(B,f)}); });
      IRBuilder<> B1(Next);
      Sh[I]=B1.CreateSelect(B1.CreateICmpNE(sc,Null),g,base);
      return;
    }
    if (auto* G=dyn_cast<GetElementPtrInst>(I)) {
      if (G->getType()->isVectorTy()) return;
      // base + sum(idx*scale) + const
      unsigned bw=64; MapVector<Value*,APInt> VO; APInt CO(bw,0);
      bool any=!isNull(sh(G->getPointerOperand()));
      for (auto& ix: G->indices()) if (!isNull(sh(ix.get()))) any=true;
      if (!any) return;
      if (!G->collectOffset(DL,bw,VO,CO)) { pinAll(I); return; }
      // compute in IR with our own helper values so that shadows compose
      Value* cur=G->getPointerOperand(); Value* curS=sh(cur);
      IRBuilder<> B(Next); B.SetInsertPoint(Next);
      Value* curV=to64(B,cur);
      auto step=[&](unsigned op, Value* aV, Value* aS, Value* bV, Value* bS)->Value*{
        if (isNull(aS)&&isNull(bS)) return Null;
        return guarded(Next,{aS,bS},[&](IRBuilder<>& BB)->Value*{ return BB.CreateCall(fBin,{c32(op),c32(64),aS,aV,bS,bV}); });
      };
      for (auto& [v,sc]: VO) {
        IRBuilder<> B2(Next);
        unsigned w=width(v->getType());
        Value* iv=v; Value* is=sh(v);
        Value* iv64 = w<64? B2.CreateSExt(v,I64): v;
        if (w<64 && !isNull(is)) { Value* iz=to64(B2,v); is=guarded(Next,{is},[&](IRBuilder<>& BB)->Value*{ return BB.CreateCall(fUn,{c32(OP_SEXT),c32(w),c32(64),sh(v),iz}); }); }
        (void)iv;
        Value* k=c64(sc.getSExtValue());
        IRBuilder<> B3(Next);
        Value* mv=B3.CreateMul(iv64,k);
        Value* ms=step(OP_MUL,iv64,is,k,Null);
        Value* ns=step(OP_ADD,curV,curS,mv,ms);
        IRBuilder<> B4(Next);
        curV=B4.CreateAdd(curV,mv); curS=ns;
      }
      if (CO.getSExtValue()!=0) curS=step(OP_ADD,curV,curS,c64(CO.getSExtValue()),Null);
      Sh[I]=curS; return;
    }
    if (auto* L=dyn_cast<LoadInst>(I)) {
      Type* T=L->getType(); Value* p=L->getPointerOperand();
      if (!isSym(T)) {
        pin(I,p);
        if (L->isAtomic()) return;
        // float/vector/aggregate loads: pin the bytes
        IRBuilder<> B(I); uint64_t sz=DL.getTypeStoreSize(T);
        Value* fl=pageFlag(B,p);
        FunctionCallee fPinMem=M.getOrInsertFunction("_sym_pin_mem",FunctionType::get(Void,{PT,I64,I64},false));
        uint64_t id=site();
        guarded(I,{},[&](IRBuilder<>& BB)->Value*{ BB.CreateCall(fPinMem,{p,c64(sz),c64(id)}); return nullptr; },fl);
        return;
      }
      Value* sp=sh(p); uint64_t sz=DL.getTypeStoreSize(T); unsigned w=width(T);
      IRBuilder<> B(Next); Value* fl=pageFlag(B,p); uint64_t id=site();
      Sh[I]=guarded(Next,{sp},[&](IRBuilder<>& BB)->Value*{ return BB.CreateCall(fLoad,{p,c32(sz),c32(w),sp,to64(BB,L),c64(id)}); },fl);
      return;
    }
    if (auto* S=dyn_cast<StoreInst>(I)) {
      Value* v=S->getValueOperand(); Value* p=S->getPointerOperand(); Type* T=v->getType();
      uint64_t sz=DL.getTypeStoreSize(T); uint64_t id=site();
      if (!isSym(T)) { pinAll(I); IRBuilder<> B(I); Value* fl=pageFlag(B,p);
        guarded(I,{},[&](IRBuilder<>& BB)->Value*{ BB.CreateCall(fClear,{p,c64(sz)}); return nullptr; },fl); return; }
      Value *sv=sh(v), *sp=sh(p);
      IRBuilder<> B(I); Value* fl=pageFlag(B,p);
      guarded(I,{sv,sp},[&](IRBuilder<>& BB)->Value*{ BB.CreateCall(fStore,{p,c32(sz),sv,to64(BB,v),sp,c64(id)}); return nullptr; },fl);
      return;
    }
    if (isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I)) { pinAll(I); return; }
    if (auto* EV=dyn_cast<ExtractValueInst>(I)) {
      Value* s=sh(EV->getAggregateOperand()); if (isNull(s)) return;
      IRBuilder<> B(Next); Sh[I]=B.CreateExtractValue(s,EV->getIndices()); return;
    }
    if (auto* IV=dyn_cast<InsertValueInst>(I)) {
      Value *sa=sh(IV->getAggregateOperand()), *sv=sh(IV->getInsertedValueOperand());
      if (isNull(sa)&&isNull(sv)) return;
      IRBuilder<> B(Next); Sh[I]=B.CreateInsertValue(sa,sv,IV->getIndices()); return;
    }
    if (auto* Fr=dyn_cast<FreezeInst>(I)) { Sh[I]=sh(Fr->getOperand(0)); return; }
    if (auto* Br=dyn_cast<BranchInst>(I)) {
      if (!Br->isConditional()) return;
      Value* c=Br->getCondition(); Value* s=sh(c); if (isNull(s)) return; uint64_t id=site();
      guarded(I,{s},[&](IRBuilder<>& B)->Value*{ B.CreateCall(fBranch,{s,to64(B,c),c64(id)}); return nullptr; });
      return;
    }
    if (auto* Sw=dyn_cast<SwitchInst>(I)) {
      Value* c=Sw->getCondition(); Value* s=sh(c); if (isNull(s)) return; uint64_t id=site();
      // cases with one target are one branch (their phi values are the same); value and target follow each other
      std::vector<uint64_t> vals; std::map<BasicBlock*,uint64_t> tg; for (auto& cs: Sw->cases()) { if (cs.getCaseSuccessor()==Sw->getDefaultDest()) continue; auto k=tg.emplace(cs.getCaseSuccessor(),tg.size()).first->second; vals.push_back(cs.getCaseValue()->getZExtValue()); vals.push_back(k); }
      if (vals.empty()) return;
      Constant* arr=ConstantDataArray::get(C,vals);
      auto* g=new GlobalVariable(M,arr->getType(),true,GlobalValue::PrivateLinkage,arr,"__sym_sw");
      unsigned w=width(c->getType());
      guarded(I,{s},[&](IRBuilder<>& B)->Value*{ B.CreateCall(fSwitch,{s,to64(B,c),c32(w),g,c32(vals.size()/2),c64(id)}); return nullptr; });
      return;
    }
    if (auto* R=dyn_cast<ReturnInst>(I)) {
      Value* v=R->getReturnValue(); if (!v) return;
      Type* T=v->getType(); if (!isSym(T)&&!T->isAggregateType()) { pin(I,v); return; }
      if (leaves(T)>16) return;
      Value* s=sh(v); IRBuilder<> B(I);
      if (isNull(s)) { B.CreateStore(Null,gRetFn); return; }
      std::vector<Value*> fl; flat(B,s,T,fl);
      for (unsigned i=0;i<fl.size();++i) B.CreateStore(fl[i],gep(B,gRet,i));
      B.CreateStore(&F,gRetFn); return;
    }
    if (auto* CB=dyn_cast<CallBase>(I)) { visitCall(CB); return; }
    if (isa<IndirectBrInst>(I)) { pinAll(I); return; }
  }

  void visitCall(CallBase* CB){
    if (CB->isInlineAsm()) { pinAll(CB); return; }
    Instruction* After = isa<InvokeInst>(CB) ? &*cast<InvokeInst>(CB)->getNormalDest()->getFirstNonPHI() : CB->getNextNode();
    if (isa<InvokeInst>(CB)) After=&*cast<InvokeInst>(CB)->getNormalDest()->getFirstInsertionPt();
    Function* Cal=CB->getCalledFunction();
    Value* callee=CB->getCalledOperand();
    if (!Cal) if (auto* GA=dyn_cast<GlobalAlias>(callee->stripPointerCasts())) Cal=dyn_cast<Function>(GA->getAliaseeObject());
    if (Cal && Cal->isIntrinsic()) { visitIntrinsic(cast<IntrinsicInst>(CB),After); return; }
    if (Cal && Cal->getName().starts_with("_sym_")) return;
    bool external = Cal && Cal->isDeclaration() && !Defs.count(Cal->getName().str());
    if (external) {
      StringRef n=Cal->getName();
      static const std::map<std::string,std::string> redir={
        {"memcmp","__symm_memcmp"},{"bcmp","__symm_memcmp"},{"strlen","__symm_strlen"},{"strcmp","__symm_strcmp"},{"strncmp","__symm_strncmp"},
        {"memchr","__symm_memchr"},{"strchr","__symm_strchr"},{"memrchr","__symm_memrchr"},
        {"malloc","__sym_malloc"},{"calloc","__sym_calloc"},{"realloc","__sym_realloc"},{"free","__sym_free"},
        {"_Znwm","__sym_new"},{"_Znam","__sym_new"},{"_ZdlPv","__sym_free"},{"_ZdaPv","__sym_free"},{"_ZdlPvm","__sym_delete"},{"_ZdaPvm","__sym_delete"},
        {"isalnum","__symm_isalnum"},{"tolower","__symm_tolower"},{"toupper","__symm_toupper"},{"isdigit","__symm_isdigit"},{"isspace","__symm_isspace"},{"strdup","__symm_strdup"},{"strcpy","__symm_strcpy"},
      };
      if (n=="memcpy"||n=="memmove") { memcpyLike(CB,CB->getArgOperand(0),CB->getArgOperand(1),CB->getArgOperand(2)); return; }
      if (n=="memset") { memsetLike(CB,CB->getArgOperand(0),CB->getArgOperand(1),CB->getArgOperand(2)); return; }
      auto it=redir.find(n.str());
      if (it!=redir.end()) {
        FunctionCallee nf=M.getOrInsertFunction(it->second,Cal->getFunctionType());
        CB->setCalledFunction(nf); callee=nf.getCallee(); 
        if (it->second.compare(0,7,"__symm_")!=0) { for (auto& a: CB->args()) pin(CB,a.get()); return; }
        // falls through to the instrumented-call protocol
      } else if (n.starts_with("sym_") || n.starts_with("__cxa_") || n.starts_with("_Unwind") || n.starts_with("__sym_") || n.starts_with("__clang_call_terminate")) {
        if (n.starts_with("sym_")) { passArgs(CB,callee); }
        else return;
        if (n=="sym_branch_always") return;
        return;
      } else {
        // unknown native function: pin scalar arguments; runtime decides about pointed-to bytes
        Constant* nm=nullptr;
        for (auto& a: CB->args()) {
          Value* v=a.get();
          pin(CB,v);
          if (v->getType()->isPointerTy() && !isa<Function>(v) && !isa<ConstantPointerNull>(v)) {
            if (isa<GlobalVariable>(v) && cast<GlobalVariable>(v)->isConstant()) continue;
            if (!nm) { IRBuilder<> B(CB); nm=B.CreateGlobalStringPtr(n,"__sym_nm",0,&M); }
            IRBuilder<> B(CB); Value* fl=pageFlag(B,v); uint64_t id=site();
            guarded(CB,{},[&](IRBuilder<>& BB)->Value*{ BB.CreateCall(fExtPtr,{nm,v,c64(id)}); return nullptr; },fl);
          }
        }
        return;
      }
    } else if (!Cal) pin(CB,callee);
    passArgs(CB,callee);
    // result
    Type* T=CB->getType();
    if (T->isVoidTy() || (!isSym(T)&&!T->isAggregateType()) || leaves(T)>16) return;
    IRBuilder<> B(After);
    Value* ok=B.CreateICmpEQ(B.CreateLoad(PT,gRetFn),callee);
    std::vector<Value*> fl; unsigned n=leaves(T);
    for (unsigned i=0;i<n;++i) fl.push_back(B.CreateSelect(ok,B.CreateLoad(PT,gep(B,gRet,i)),Null));
    unsigned k=0; Sh[CB]=unflat(B,T,fl,k);
    B.CreateStore(Null,gRetFn);
  }
  void passArgs(CallBase* CB, Value* callee){
    unsigned n=CB->arg_size();
    IRBuilder<> B(CB);
    bool any=false;
    for (unsigned i=0;i<n && i<60;++i) { Value* a=CB->getArgOperand(i); if (CB->isByValArgument(i)) any=true; else if (isSym(a->getType()) && !isNull(sh(a))) any=true; }
    B.CreateStore(Null,gRetFn);
    if (!any) { B.CreateStore(Null,gCallee); return; }
    for (unsigned i=0;i<n && i<60;++i) {
      Value* a=CB->getArgOperand(i); Value* s = CB->isByValArgument(i)? a : isSym(a->getType())? sh(a): (Value*)Null;
      B.CreateStore(s,gep(B,gArg,i));
    }
    B.CreateStore(callee,gCallee);
  }
  void memcpyLike(CallBase* CB, Value* d, Value* s, Value* n){
    pin(CB,d); pin(CB,s); pin(CB,n);
    Instruction* IP=CB; IRBuilder<> B(IP);
    // before the copy, so that overlapping moves read the old shadow
    Value* len=to64(B,n);
    B.CreateCall(fMemcpy,{d,s,len});
  }
  void memsetLike(CallBase* CB, Value* d, Value* v, Value* n){
    pin(CB,d); pin(CB,n);
    IRBuilder<> B(CB); Value* s=sh(v);
    B.CreateCall(fMemset,{d,s,to64(B,v),to64(B,n)});
  }
  void visitIntrinsic(IntrinsicInst* I, Instruction* Next){
    unsigned op=0;
    switch (I->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memcpyLike(I,I->getArgOperand(0),I->getArgOperand(1),I->getArgOperand(2)); return;
      case Intrinsic::memset: case Intrinsic::memset_inline: memsetLike(I,I->getArgOperand(0),I->getArgOperand(1),I->getArgOperand(2)); return;
      case Intrinsic::umin: op=OP_UMIN; break; case Intrinsic::umax: op=OP_UMAX; break; case Intrinsic::smin: op=OP_SMIN; break; case Intrinsic::smax: op=OP_SMAX; break;
      case Intrinsic::usub_sat: op=OP_USUBSAT; break; case Intrinsic::uadd_sat: op=OP_UADDSAT; break;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        Value *a=I->getArgOperand(0), *b=I->getArgOperand(1); if (!isSym(a->getType())) { pinAll(I); return; }
        if (isNull(sh(a))&&isNull(sh(b))) return;
        unsigned w=width(a->getType()); auto id=I->getIntrinsicID();
        bool add=id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow, sub=id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow;
        unsigned o1=add?OP_ADD:sub?OP_SUB:OP_MUL;
        bool u=id==Intrinsic::uadd_with_overflow||id==Intrinsic::usub_with_overflow||id==Intrinsic::umul_with_overflow;
        unsigned o2=u?(add?OP_UADDO:sub?OP_USUBO:OP_UMULO):(add?OP_SADDO:sub?OP_SSUBO:OP_SMULO);
        Value* r=bin(Next,o1,w,a,b); Value* o=bin(Next,o2,w,a,b);
        IRBuilder<> B(Next);
        Value* s=UndefValue::get(shTy(I->getType())); s=B.CreateInsertValue(s,r,0); s=B.CreateInsertValue(s,o,1); Sh[I]=s; return; }
      case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::abs: {
        Value* a=I->getArgOperand(0); if (!isSym(a->getType())) { pinAll(I); return; } Value* s=sh(a); if (isNull(s)) return;
        unsigned w=width(a->getType()); auto id=I->getIntrinsicID();
        op= id==Intrinsic::bswap?OP_BSWAP: id==Intrinsic::ctpop?OP_CTPOP: id==Intrinsic::ctlz?OP_CTLZ: id==Intrinsic::cttz?OP_CTTZ:OP_ABS;
        Sh[I]=guarded(Next,{s},[&](IRBuilder<>& B)->Value*{ return B.CreateCall(fUn,{c32(op),c32(w),c32(w),s,to64(B,a)}); }); return; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        Value *a=I->getArgOperand(0),*b=I->getArgOperand(1),*c=I->getArgOperand(2); if (!isSym(a->getType())) { pinAll(I); return; }
        Value *sa=sh(a),*sb=sh(b),*sc=sh(c); if (isNull(sa)&&isNull(sb)&&isNull(sc)) return;
        unsigned w=width(a->getType()); op=I->getIntrinsicID()==Intrinsic::fshl?OP_FSHL:OP_FSHR;
        Sh[I]=guarded(Next,{sa,sb,sc},[&](IRBuilder<>& B)->Value*{ return B.CreateCall(fFsh,{c32(op),c32(w),sa,to64(B,a),sb,to64(B,b),sc,to64(B,c)}); }); return; }
      case Intrinsic::expect: Sh[I]=sh(I->getArgOperand(0)); return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::prefetch: return;
      default: for (auto& a: I->args()) if (!isa<MetadataAsValue>(a.get())) pin(I,a.get()); return;
    }
    if (!isSym(I->getType())) { pinAll(I); return; }
    Sh[I]=bin(Next,op,width(I->getType()),I->getArgOperand(0),I->getArgOperand(1));
  }
};
unsigned Inst::SiteCounter=0;

struct SymPass: PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    if (!DefsFile.empty()) { std::ifstream f(DefsFile); std::string s; while (std::getline(f,s)) Defs.insert(s); }
    uint64_t h=1469598103934665603ull; for (char c: M.getSourceFileName()) { h^=(unsigned char)c; h*=1099511628211ull; }
    h<<=24;
    std::vector<Function*> fs; std::vector<GlobalVariable*> gvs;
    for (auto& G: M.globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.") && !G.getName().starts_with("__sym") && G.getValueType()->isSized() && !G.isThreadLocal()) gvs.push_back(&G);
    for (auto& F: M) if (!F.isDeclaration()) fs.push_back(&F);
    for (auto* F: fs) {
      F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::NoRecurse);
      for (auto& A: F->args()) { A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::WriteOnly); A.removeAttr(Attribute::NoCapture); }
    }
    for (auto& F: M) if (F.isDeclaration() && !F.isIntrinsic()) { F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); }
    for (auto* F: fs) { Inst I(*F,h); I.run(); }
    // strip memory attributes from call sites
    for (auto* F: fs) for (auto& BB: *F) for (auto& I: BB) if (auto* CB=dyn_cast<CallBase>(&I)) { if (auto* c=CB->getCalledFunction()) if (c->isIntrinsic()) continue; CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::WillReturn); if (auto* CI=dyn_cast<CallInst>(CB)) if (!CI->isMustTailCall()) CI->setTailCall(false); }
    // shared libraries must not be given instrumented template instances
    for (auto* F: fs) if (F->hasLinkOnceLinkage() || F->hasWeakLinkage()) { F->setVisibility(GlobalValue::HiddenVisibility); F->setDSOLocal(true); }
    // register globals and functions
    {
      LLVMContext& C=M.getContext(); Type* I8=Type::getInt8Ty(C); Type* PT=PointerType::get(C,0); Type* V=Type::getVoidTy(C);
      FunctionCallee reg=M.getOrInsertFunction("_sym_register_fn",FunctionType::get(V,{PT,PT},false));
      Function* Ct=Function::Create(FunctionType::get(V,false),GlobalValue::InternalLinkage,"__sym_fctor",&M);
      IRBuilder<> B(BasicBlock::Create(C,"",Ct)); bool any=false;
      if (M.getSourceFileName().find("models.c")==std::string::npos) for (auto* F: fs) {
        StringRef n=F->getName(); if (n.starts_with("_ZNSt")||n.starts_with("_ZNKSt")||n.starts_with("_ZSt")||n.starts_with("_ZN5boost")||n.starts_with("_ZNK5boost")||n.starts_with("_ZN9__gnu_cxx")||n.starts_with("_GLOBAL")||n.starts_with("__cxx")||n.starts_with("__clang")) continue;
        auto* g=new GlobalVariable(M,I8,false,GlobalValue::PrivateLinkage,ConstantInt::get(I8,0),"__sym_fnf");
        Instruction* IP=&*F->getEntryBlock().getFirstInsertionPt(); while (isa<AllocaInst>(IP)) IP=IP->getNextNode();
        IRBuilder<> FB(IP); FB.CreateStore(ConstantInt::get(I8,1),g);
        B.CreateCall(reg,{g,B.CreateGlobalStringPtr(n,"__sym_fnn",0,&M)}); any=true;
      }
      B.CreateRetVoid(); if (any) appendToGlobalCtors(M,Ct,65535);
    }
    if (!gvs.empty()) {
      LLVMContext& C=M.getContext(); Type* V=Type::getVoidTy(C); Type* PT=PointerType::get(C,0); Type* I64=Type::getInt64Ty(C);
      Function* Ct=Function::Create(FunctionType::get(V,false),GlobalValue::InternalLinkage,"__sym_ctor",&M);
      IRBuilder<> B(BasicBlock::Create(C,"",Ct));
      FunctionCallee reg=M.getOrInsertFunction("_sym_register_global",FunctionType::get(V,{PT,I64},false));
      for (auto* G: gvs) { uint64_t sz=M.getDataLayout().getTypeAllocSize(G->getValueType()); if (sz<2) continue; B.CreateCall(reg,{G,ConstantInt::get(I64,sz)}); }
      B.CreateRetVoid();
      appendToGlobalCtors(M,Ct,65535);
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){ return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION,"sym","1",[](PassBuilder& PB){
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>){
      if (N=="sym") { MPM.addPass(SymPass()); return true; } return false; });
  }};
}
