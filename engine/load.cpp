// LLVM bitcode -> compact instruction arrays
#include "ir.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Linker/Linker.h>
#include <malloc.h>
using namespace llvm;
std::vector<Func*> funcs; std::unordered_map<std::string,Func*> fbyname; std::unordered_map<std::string,u64> globals;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue*,u64> gaddr;
static unsigned tw(Type*t){
  if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80;
  if(t->isFP128Ty()) return 128;
  if(auto*v=dyn_cast<FixedVectorType>(t)) return v->getNumElements()*tw(v->getElementType());
  return 0; }
static bool isfp(Type*t){ return t->isFloatingPointTy() || (t->isVectorTy()&&t->getScalarType()->isFloatingPointTy()); }
static void flat(Type*t,u64 off,AggInfo&a,std::vector<uint8_t>*fp=nullptr){
  if(auto*s=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flat(s->getElementType(i),off+L->getElementOffset(i),a,fp); }
  else if(auto*r=dyn_cast<ArrayType>(t)){ for(u64 i=0;i<r->getNumElements();i++) flat(r->getElementType(),off+i*DL->getTypeAllocSize(r->getElementType()),a,fp); }
  else { a.off.push_back(off); a.w.push_back(tw(t)); if(fp) fp->push_back(isfp(t)); } }
static int nslots(Type*t){ if(t->isVoidTy()) return 0; if(!t->isAggregateType()) return 1; AggInfo a; flat(t,0,a); return a.off.size(); }
static int slotOf(Type*t,ArrayRef<unsigned> idx){ int s=0; for(unsigned i:idx){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++) s+=nslots(st->getElementType(k)); t=st->getElementType(i);} else { auto*at=cast<ArrayType>(t); s+=i*nslots(at->getElementType()); t=at->getElementType(); } } return s; }

static u64 cint(const Constant*c); // scalar constant to bits (<=64)
static u128 apbits(const APInt&a){ u128 v=a.getRawData()[0]; if(a.getBitWidth()>64) v|=(u128)a.getRawData()[1]<<64; return v; }
static u64 funcAddr(const Function*f);
static u128 cbits(const Constant*c){
  if(auto*i=dyn_cast<ConstantInt>(c)) return apbits(i->getValue());
  if(auto*f=dyn_cast<ConstantFP>(c)) return apbits(f->getValueAPF().bitcastToAPInt());
  if(isa<UndefValue>(c)&&(c->getType()->isIntegerTy()||c->getType()->isPointerTy())&&tw(c->getType())>=8&&tw(c->getType())<=64) return 0xA5A5A5A5A5A5A5A5ULL&maskw(tw(c->getType())); // undefined value: arbitrary but fixed junk
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return 0;
  if(auto*v=dyn_cast<ConstantDataVector>(c)){ u128 r=0; unsigned ew=tw(v->getElementType()); for(unsigned i=0;i<v->getNumElements();i++) r|=cbits(v->getElementAsConstant(i))<<(i*ew); return r; }
  if(auto*v=dyn_cast<ConstantVector>(c)){ u128 r=0; unsigned ew=tw(v->getType()->getElementType()); for(unsigned i=0;i<v->getNumOperands();i++) r|=cbits(v->getOperand(i))<<(i*ew); return r; }
  if(auto*f=dyn_cast<Function>(c)) return funcAddr(f);
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return cbits(ga->getAliasee());
  if(auto*g=dyn_cast<GlobalVariable>(c)){ auto it=gaddr.find(g); if(it==gaddr.end()){ errs()<<"no addr for "<<g->getName()<<"\n"; return 0; } return it->second; }
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    switch(e->getOpcode()){
    case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(e); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) break; return (u64)(cbits(cast<Constant>(g->getPointerOperand()))+off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return cbits(e->getOperand(0))&maskw(tw(e->getType()));
    case Instruction::Trunc: return cbits(e->getOperand(0))&maskw(tw(e->getType()));
    case Instruction::Add: return (cbits(e->getOperand(0))+cbits(e->getOperand(1)))&maskw(tw(e->getType()));
    case Instruction::Sub: return (cbits(e->getOperand(0))-cbits(e->getOperand(1)))&maskw(tw(e->getType()));
    case Instruction::ICmp: { u64 a=cbits(e->getOperand(0)),b=cbits(e->getOperand(1)); switch(e->getPredicate()){ case CmpInst::ICMP_EQ: return a==b; case CmpInst::ICMP_NE: return a!=b; default: break; } break; }
    default: break; } }
  errs()<<"unhandled constant: "<<*c<<"\n"; return 0; }
static u64 cint(const Constant*c){ return (u64)cbits(c); }
static std::unordered_map<const Function*,Func*> fmap;
static Func *newFunc(const std::string&n){ auto it=fbyname.find(n); if(it!=fbyname.end()) return it->second; Func*f=new Func; f->name=n; f->idx=funcs.size(); f->addr=FN_BASE+16ull*f->idx; funcs.push_back(f); fbyname[n]=f; return f; }
static u64 funcAddr(const Function*f){ return fmap.at(f)->addr; }
static void initMem(u64 p,const Constant*c){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return; // zero-filled
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ unsigned es=DL->getTypeAllocSize(d->getElementType()); if(d->getElementType()->isIntegerTy()||d->getElementType()->isFloatTy()||d->getElementType()->isDoubleTy()){ memcpy((void*)p,d->getRawDataValues().data(),d->getRawDataValues().size()); return; } (void)es; }
  if(isa<ConstantStruct>(c)){ auto*s=cast<StructType>(t); auto*L=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) initMem(p+L->getElementOffset(i),cast<Constant>(c->getOperand(i))); return; }
  if(isa<ConstantArray>(c)){ auto*a=cast<ArrayType>(t); u64 es=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();i++) initMem(p+i*es,cast<Constant>(c->getOperand(i))); return; }
  u128 v=cbits(c); unsigned n=(tw(t)+7)/8; memcpy((void*)p,&v,n); }

struct FC { // function compiler
  Function*F; Func*f; std::unordered_map<const Value*,int> slot; std::unordered_map<const Value*,int> cidx; std::map<std::pair<u64,u64>,int> cpool; std::unordered_map<const BasicBlock*,u32> bbpc; std::vector<std::pair<u32,const BasicBlock*>> fix;
  int addConst(u128 v,unsigned w){ if(w>64){ f->consts.push_back({(u64)v,mkc(v,w)}); return -(int)f->consts.size(); }
    u64 x=(u64)v&mask64(w?w:64); auto k=std::make_pair(x,(u64)0); auto it=cpool.find(k); if(it!=cpool.end()) return it->second; f->consts.push_back({x,nullptr}); int r=-(int)f->consts.size(); cpool[k]=r; return r; }
  int op(const Value*v,int sub=0){
    if(auto*c=dyn_cast<Constant>(v)){
      if(c->getType()->isAggregateType()){ AggInfo a; std::vector<const Constant*> leaves; leaf(c,leaves); return addConst(cbits(leaves[sub]),tw(leaves[sub]->getType())); }
      return addConst(cbits(c),tw(c->getType())); }
    if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)) return addConst(0,64);
    return slot.at(v)+sub; }
  void leaf(const Constant*c,std::vector<const Constant*>&o){ Type*t=c->getType(); if(!t->isAggregateType()){ o.push_back(c); return; } unsigned n= isa<StructType>(t)?cast<StructType>(t)->getNumElements():cast<ArrayType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) leaf(c->getAggregateElement(i),o); }
  u32 cur_line=0;
  Inst &emit(int o,int w=0,int d=0,int a=0,int b=0,int c=0,int sub=0){ Inst i; i.op=o;i.sub=sub;i.w=w;i.dst=d;i.a=a;i.b=b;i.c=c; f->code.push_back(i); f->lines.push_back(cur_line); return f->code.back(); }
  u32 edge(const BasicBlock*from,const BasicBlock*to){ Edge e; e.mv=f->moves.size(); for(auto&p:to->phis()){ const Value*v=p.getIncomingValueForBlock(from); int n=nslots(p.getType()); for(int k=0;k<n;k++) f->moves.push_back({slot.at(&p)+k,op(v,k)}); } e.nmv=f->moves.size()-e.mv; e.pc=0; f->edges.push_back(e); fix.push_back({(u32)f->edges.size()-1,to}); return f->edges.size()-1; }
  void run();
  void inst(Instruction&I);
  void call(CallBase&C);
};
extern int builtinId(const std::string&n);
void FC::call(CallBase&C){
  if(C.isInlineAsm()){ if(C.getType()->isVoidTy()&&cast<InlineAsm>(C.getCalledOperand())->getAsmString().empty()) return;
      CallSite cs; cs.fnop=0; cs.dst=C.getType()->isVoidTy()?-1:slot.at(&C); cs.nret=nslots(C.getType()); cs.retw=tw(C.getType()); Func*as=newFunc("sx.asm:"+cast<InlineAsm>(C.getCalledOperand())->getAsmString()); cs.fn=as->addr; f->calls.push_back(cs); emit(I_CALL,0,0,f->calls.size()-1); return; }
  Function*callee=dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
  if(callee&&callee->isIntrinsic()){
    switch(callee->getIntrinsicID()){
    case Intrinsic::dbg_declare: case Intrinsic::dbg_assign: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: return;
    case Intrinsic::expect: emit(I_MOV,0,slot.at(&C),op(C.getArgOperand(0))); return;
    default: break; } }
  CallSite cs; cs.fn=0; cs.fnop=0; 
  if(callee) cs.fn=fmap.at(callee)->addr; else cs.fnop=op(C.getCalledOperand());
  for(unsigned i=0;i<C.arg_size();i++){ Value*v=C.getArgOperand(i); Type*t=v->getType();
    int n=nslots(t); AggInfo ag; std::vector<uint8_t> fps; flat(t,0,ag,&fps);
    u32 bv=0; if(C.isByValArgument(i)) { bv=DL->getTypeAllocSize(C.getParamByValType(i)); if(C.getParamAlign(i).valueOrOne()>llvm::Align(8)) bv|=1u<<31; }
    if(t->isMetadataTy()){ cs.args.push_back(op(v)); cs.argw.push_back(64); cs.byval.push_back(0); cs.isfp.push_back(0); continue; }
    for(int k=0;k<n;k++){ cs.args.push_back(op(v,k)); cs.argw.push_back(ag.w[k]); cs.byval.push_back(bv); cs.isfp.push_back(fps[k]|(t->isVectorTy()?1:0)); } }
  cs.dst=C.getType()->isVoidTy()?-1:slot.at(&C); cs.nret=nslots(C.getType()); cs.retw=tw(C.getType()); cs.retfp=isfp(C.getType());
  if(cs.nret){ AggInfo ag; std::vector<uint8_t> fps; flat(C.getType(),0,ag,&fps); cs.retws=ag.w; cs.retfps=fps; }
  f->calls.push_back(cs); emit(cs.fn?I_CALL:I_ICALL,0,0,f->calls.size()-1);
}
void FC::inst(Instruction&I){
  if(auto&dl=I.getDebugLoc()) cur_line=dl.getLine();
  Type*T=I.getType(); unsigned w=tw(T); int d=T->isVoidTy()?-1:(slot.count(&I)?slot[&I]:-1);
  if(T->isVectorTy()&&w>128){ emit(I_BAD); return; }
  bool vec=T->isVectorTy();
  switch(I.getOpcode()){
  case Instruction::Br: { auto*B=cast<BranchInst>(&I); if(B->isUnconditional()){ u32 e=edge(I.getParent(),B->getSuccessor(0)); emit(I_BR,0,0,e); } else { int c=op(B->getCondition()); u32 e1=edge(I.getParent(),B->getSuccessor(0)),e2=edge(I.getParent(),B->getSuccessor(1)); emit(I_CBR,0,0,c,e1,e2); } return; }
  case Instruction::Switch: { auto*S=cast<SwitchInst>(&I); SwitchInfo si; std::map<const BasicBlock*,u32> em; auto ge=[&](const BasicBlock*b){ auto it=em.find(b); if(it!=em.end()) return it->second; u32 e=edge(I.getParent(),b); em[b]=e; return e; };
      si.def=ge(S->getDefaultDest()); for(auto&c:S->cases()){ u64 v=c.getCaseValue()->getZExtValue(); u32 e=ge(c.getCaseSuccessor()); si.cases.push_back({v,e}); si.map[v]=e; }
      f->sw.push_back(si); emit(I_SWITCH,tw(S->getCondition()->getType()),0,op(S->getCondition()),f->sw.size()-1); return; }
  case Instruction::Ret: { auto*R=cast<ReturnInst>(&I); if(!R->getReturnValue()) emit(I_RET,0,0,0,0); else { int n=nslots(R->getReturnValue()->getType()); if(isa<Constant>(R->getReturnValue())&&n>1){ // copy to temp slots
          int t=f->nslots; f->nslots+=n; for(int k=0;k<n;k++) emit(I_MOV,0,t+k,op(R->getReturnValue(),k)); emit(I_RET,0,0,t,n); } else emit(I_RET,0,0,op(R->getReturnValue()),n); } return; }
  case Instruction::Unreachable: emit(I_UNREACH); return;
  case Instruction::Call: call(cast<CallBase>(I)); return;
  case Instruction::Alloca: { auto*A=cast<AllocaInst>(&I); u64 es=DL->getTypeAllocSize(A->getAllocatedType()); emit(I_ALLOCA,(u32)A->getAlign().value(),d,op(A->getArraySize()),addConst(es,64),0,isa<ConstantInt>(A->getArraySize())); return; }
  case Instruction::Load: { auto*L=cast<LoadInst>(&I); if(T->isAggregateType()){ AggInfo a; flat(T,0,a); f->aggs.push_back(a); emit(I_LOADA,0,d,op(L->getPointerOperand()),f->aggs.size()-1); } else emit(I_LOAD,w,d,op(L->getPointerOperand())); return; }
  case Instruction::Store: { auto*S=cast<StoreInst>(&I); Value*v=S->getValueOperand(); if(v->getType()->isAggregateType()){ AggInfo a; flat(v->getType(),0,a); f->aggs.push_back(a); std::vector<const Constant*> lv; if(isa<Constant>(v)){ int n=a.off.size(); int t=f->nslots; f->nslots+=n; for(int k=0;k<n;k++) emit(I_MOV,0,t+k,op(v,k)); emit(I_STOREA,0,0,op(S->getPointerOperand()),f->aggs.size()-1,t); } else emit(I_STOREA,0,0,op(S->getPointerOperand()),f->aggs.size()-1,op(v)); }
      else emit(I_STORE,tw(v->getType()),0,op(S->getPointerOperand()),op(v)); return; }
  case Instruction::GetElementPtr: { auto*G=cast<GetElementPtrInst>(&I); i64 off=0; std::vector<std::pair<int32_t,i64>> idx; std::vector<uint16_t> iw;
      for(auto it=gep_type_begin(G);it!=gep_type_end(G);++it){ Value*o=it.getOperand(); if(auto*s=it.getStructTypeOrNull()){ off+=DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(o)->getZExtValue()); } else { i64 sc=DL->getTypeAllocSize(it.getIndexedType()); if(auto*c=dyn_cast<ConstantInt>(o)) off+=c->getSExtValue()*sc; else { idx.push_back({op(o),sc}); iw.push_back(tw(o->getType())); } } }
      if(idx.empty()) emit(I_GEPC,0,d,op(G->getPointerOperand()),addConst(off,64)); else { f->geps.push_back({off,idx,iw}); emit(I_GEPN,0,d,op(G->getPointerOperand()),f->geps.size()-1); } return; }
  case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::Mul: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      if(vec&&I.getOpcode()!=Instruction::And&&I.getOpcode()!=Instruction::Or&&I.getOpcode()!=Instruction::Xor){ emit(I_BAD); return; }
      static const std::map<unsigned,Op> m={{Instruction::Add,E_ADD},{Instruction::Sub,E_SUB},{Instruction::And,E_AND},{Instruction::Or,E_OR},{Instruction::Xor,E_XOR},{Instruction::Shl,E_SHL},{Instruction::Mul,E_MUL},{Instruction::LShr,E_LSHR},{Instruction::AShr,E_ASHR},{Instruction::UDiv,E_UDIV},{Instruction::SDiv,E_SDIV},{Instruction::URem,E_UREM},{Instruction::SRem,E_SREM}};
      Op o=m.at(I.getOpcode()); int io=I_BIN; if(w<=64) switch(o){ case E_ADD: io=I_ADD; break; case E_SUB: io=I_SUB; break; case E_AND: io=I_AND; break; case E_OR: io=I_OR; break; case E_XOR: io=I_XOR; break; case E_MUL: io=I_MUL; break; default: break; }
      emit(io,w,d,op(I.getOperand(0)),op(I.getOperand(1)),0,o); return; }
  case Instruction::ICmp: { auto*C=cast<ICmpInst>(&I); unsigned ow=tw(C->getOperand(0)->getType()); if(vec){emit(I_BAD);return;} int io=I_ICMP; if(ow<=64&&C->getPredicate()==CmpInst::ICMP_EQ) io=I_EQ; if(ow<=64&&C->getPredicate()==CmpInst::ICMP_NE) io=I_NE; emit(io,ow,d,op(C->getOperand(0)),op(C->getOperand(1)),0,C->getPredicate()); return; }
  case Instruction::FCmp: { auto*C=cast<FCmpInst>(&I); if(vec){emit(I_BAD);return;} emit(I_FCMP,tw(C->getOperand(0)->getType()),d,op(C->getOperand(0)),op(C->getOperand(1)),0,C->getPredicate()); return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: if(vec){emit(I_BAD);return;} emit(I_FBIN,w,d,op(I.getOperand(0)),op(I.getOperand(1)),0,I.getOpcode()==Instruction::FAdd?E_FADD:I.getOpcode()==Instruction::FSub?E_FSUB:I.getOpcode()==Instruction::FMul?E_FMUL:E_FDIV); return;
  case Instruction::FNeg: if(vec){emit(I_BAD);return;} emit(I_FNEG,w,d,op(I.getOperand(0))); return;
  case Instruction::FPExt: case Instruction::FPTrunc: emit(I_FCVT,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType()),0,E_FPCVT); return;
  case Instruction::SIToFP: emit(I_FCVT,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType()),0,E_SITOFP); return;
  case Instruction::UIToFP: emit(I_FCVT,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType()),0,E_UITOFP); return;
  case Instruction::FPToSI: emit(I_FCVT,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType()),0,E_FPTOSI); return;
  case Instruction::FPToUI: emit(I_FCVT,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType()),0,E_FPTOUI); return;
  case Instruction::Select: { int n=nslots(T); if(n!=1){ emit(I_BAD); return;} emit(I_SELECT,w,d,op(I.getOperand(0)),op(I.getOperand(1)),op(I.getOperand(2))); return; }
  case Instruction::Trunc: emit(I_TRUNC,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType())); return;
  case Instruction::ZExt: emit(I_ZEXT,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType())); return;
  case Instruction::SExt: emit(I_SEXT,w,d,op(I.getOperand(0)),tw(I.getOperand(0)->getType())); return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned sw=tw(I.getOperand(0)->getType()); if(sw>w) emit(I_TRUNC,w,d,op(I.getOperand(0)),sw); else if(sw<w) emit(I_ZEXT,w,d,op(I.getOperand(0)),sw); else emit(I_MOV,w,d,op(I.getOperand(0))); return; }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: { int n=nslots(T); for(int k=0;k<n;k++) emit(I_MOV,w,d+k,op(I.getOperand(0),k)); return; }
  case Instruction::ExtractValue: { auto*E=cast<ExtractValueInst>(&I); int s=slotOf(E->getAggregateOperand()->getType(),E->getIndices()); int n=nslots(T); for(int k=0;k<n;k++) emit(I_MOV,0,d+k,op(E->getAggregateOperand(),s+k)); return; }
  case Instruction::InsertValue: { auto*E=cast<InsertValueInst>(&I); int n=nslots(T); for(int k=0;k<n;k++) emit(I_MOV,0,d+k,op(E->getAggregateOperand(),k)); int s=slotOf(T,E->getIndices()); int m=nslots(E->getInsertedValueOperand()->getType()); for(int k=0;k<m;k++) emit(I_MOV,0,d+s+k,op(E->getInsertedValueOperand(),k)); return; }
  case Instruction::ExtractElement: { auto*v=I.getOperand(0); auto*c=dyn_cast<ConstantInt>(I.getOperand(1)); if(!c){emit(I_BAD);return;} emit(I_EXTRELT,w,d,op(v),c->getZExtValue()*w,tw(v->getType())); return; }
  case Instruction::InsertElement: { auto*c=dyn_cast<ConstantInt>(I.getOperand(2)); if(!c){emit(I_BAD);return;} emit(I_INSELT,w,d,op(I.getOperand(0)),op(I.getOperand(1)),c->getZExtValue()*tw(I.getOperand(1)->getType()),tw(I.getOperand(1)->getType())); return; }
  case Instruction::AtomicRMW: { auto*A=cast<AtomicRMWInst>(&I); emit(I_ATOMICRMW,w,d,op(A->getPointerOperand()),op(A->getValOperand()),0,A->getOperation()); return; }
  case Instruction::AtomicCmpXchg: { auto*A=cast<AtomicCmpXchgInst>(&I); emit(I_CMPXCHG,tw(A->getCompareOperand()->getType()),d,op(A->getPointerOperand()),op(A->getCompareOperand()),op(A->getNewValOperand())); return; }
  case Instruction::Fence: return;
  case Instruction::PHI: return;
  default: emit(I_BAD); return;
  }
}
void FC::run(){
  f->decl=false; f->vararg=F->isVarArg();
  for(auto&A:F->args()){ int n=nslots(A.getType()); slot[&A]=f->nslots; AggInfo ag; std::vector<uint8_t> fps; flat(A.getType(),0,ag,&fps); u32 bv=A.hasByValAttr()?(u32)DL->getTypeAllocSize(A.getParamByValType())|(A.getParamAlign().valueOrOne()>llvm::Align(8)?1u<<31:0):0; for(int k=0;k<n;k++){ f->argslot.push_back(f->nslots+k); f->argw.push_back(ag.w[k]); f->argfp.push_back(fps[k]); f->argbyval.push_back(bv); } f->nslots+=n; }
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()&&!I.getType()->isTokenTy()&&!I.getType()->isMetadataTy()){ slot[&I]=f->nslots; f->nslots+=nslots(I.getType()); }
  f->nret=nslots(F->getReturnType()); f->retw=tw(F->getReturnType()); f->retfp=isfp(F->getReturnType());
  if(f->nret){ AggInfo ag; std::vector<uint8_t> fps; flat(F->getReturnType(),0,ag,&fps); f->retws=ag.w; f->retfps=fps; }
  if(auto*sp=F->getSubprogram()){ f->src=sp->getFilename().str(); cur_line=sp->getLine(); }
  for(auto&B:*F){ bbpc[&B]=f->code.size(); for(auto&I:B) inst(I); }
  for(auto&x:fix) f->edges[x.first].pc=bbpc.at(x.second);
}
void loadBitcode(const std::vector<std::string>&files){
  LLVMContext*ctx=new LLVMContext; SMDiagnostic err; std::unique_ptr<Module> M;
  for(auto&fn:files){ auto m=parseIRFile(fn,err,*ctx); if(!m){ err.print("symx",errs()); exit(2); } if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))){ errs()<<"link failed "<<fn<<"\n"; exit(2);} }
  DL=&M->getDataLayout();
  for(auto&F:*M) fmap[&F]=newFunc(F.getName().str());
  // globals
  std::vector<GlobalVariable*> gv; for(auto&G:M->globals()) gv.push_back(&G);
  for(auto*G:gv) if(G->hasInitializer()){ if(G->getName().starts_with("llvm.")) continue; u64 sz=DL->getTypeAllocSize(G->getValueType()); u64 al=std::max<u64>(16,G->getAlign().valueOrOne().value()); u64 p=galloc(sz?sz:1,al,false); gaddr[G]=p; globals[G->getName().str()]=p; }
  for(auto*G:gv) if(!G->hasInitializer()){ std::string n=G->getName().str(); auto it=globals.find("m_"+n); if(it!=globals.end()) gaddr[G]=it->second; else { u64 p=galloc(8,16,false); gaddr[G]=p; globals[n]=p; if(getenv("SX_DEBUG")) errs()<<"external global "<<n<<"\n"; } }
  // externals resolved to models
  for(auto&F:*M){ Func*f=fmap[&F]; if(!F.isDeclaration()){ FC c; c.F=&F; c.f=f; c.run(); } }
  for(auto*G:gv) if(G->hasInitializer()&&gaddr.count(G)){ initMem(gaddr[G],G->getInitializer()); if(G->isConstant()) memset(sh(gaddr[G]),SH_R,std::max<u64>(1,DL->getTypeAllocSize(G->getValueType()))); }
  for(size_t i=0;i<funcs.size();i++){ Func*f=funcs[i]; if(f->decl){ f->builtin=builtinId(f->name); auto it=fbyname.find("m_"+f->name); if(it!=fbyname.end()&&!it->second->decl) f->impl=it->second; } }
  M.reset(); delete ctx; malloc_trim(0);
}
