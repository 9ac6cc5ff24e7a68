// LLVM module -> compact bytecode.
#pragma once
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <map>
#include <set>
#include <deque>

using namespace llvm;

enum IOp : uint8_t { I_BIN, I_CMP, I_SEL, I_MOV, I_ZEXT, I_SEXT, I_TRUNC, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_JMP, I_SWITCH,
  I_CALL, I_RET, I_UNREACH, I_CMPXCHG, I_RMW, I_FENCE, I_INTR, I_FP, I_FCMP, I_FNEG, I_TLS, I_UNSUP };

struct Ins { IOp op; uint8_t w=0, w2=0, fl=0; uint8_t sub=0; int32_t dst=-1,a=0,b=0,c=0; int32_t x=0,n=0; uint64_t imm=0; const Instruction*src=nullptr; };
enum { FL_NEG=1, FL_ATOMIC=2, FL_NSW=4 };

struct Edge { int target=-1; const BasicBlock*bb; std::vector<std::pair<int,int>> cp; };
struct GepTerm { int slot; uint64_t scale; uint8_t w; };
struct SwCase { uint64_t v; int edge; };
struct Fn { std::string name; Function*F=nullptr; uint64_t addr=0; bool body=false, ignore=false; int native=-1; int nslots=0; std::vector<Ins> code; std::vector<int> argSlot; std::vector<Edge> edges; uint64_t calls=0; bool isReal=false; int id=0; };

enum Intr { N_none, N_memcpy, N_memmove, N_memset, N_nop, N_bswap, N_ctpop, N_ctlz, N_cttz, N_umin, N_umax, N_smin, N_smax, N_abs, N_fshl, N_fshr,
  N_uaddo, N_usubo, N_umulo, N_saddo, N_ssubo, N_smulo, N_uaddsat, N_usubsat, N_trap, N_objsize, N_isconst, N_fmuladd, N_fabs, N_expect };

struct IR {
  LLVMContext C; std::unique_ptr<Module> M; const DataLayout*DL=nullptr; ExprPool&P;
  std::vector<uint64_t> consts; std::unordered_map<uint64_t,int> constIx;
  std::vector<std::unique_ptr<Fn>> fns; std::unordered_map<const Function*,Fn*> fnOf; std::unordered_map<uint64_t,Fn*> fnAt; std::unordered_map<std::string,Fn*> fnByName;
  std::unordered_map<const GlobalVariable*,uint64_t> gaddr, tlsOff; uint64_t tlsSize=0;
  std::vector<GepTerm> terms; std::vector<int> args; std::vector<SwCase> sw;
  std::vector<std::pair<uint64_t,uint64_t>> granges; // valid global ranges
  std::map<uint64_t,std::string> gname;
  std::set<std::string> ignoreSet; std::map<std::string,std::string> wrap;
  IR(ExprPool&p):P(p){}

  static constexpr uint64_t GBASE=0x10000000, FBASE=0x1000000;

  bool load(const std::string&f){ SMDiagnostic e; M=parseIRFile(f,e,C); if(!M){ e.print("sphse",errs()); return false; } DL=&M->getDataLayout(); return true; }

  // ---- inline asm lowering: recognised x86 sequences become ordinary IR ----
  struct AsmErr{ std::string s; };
  void lowerAsm(){
    std::vector<CallInst*> w; for(auto&F:*M) for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallInst>(&I)) if(c->isInlineAsm()) w.push_back(c);
    for(auto*c:w) lowerOne(c);
  }
  void lowerOne(CallInst*ci){
    auto*ia=cast<InlineAsm>(ci->getCalledOperand()); std::string s=ia->getAsmString(); IRBuilder<> B(ci);
    auto cons=ia->ParseConstraints();
    struct Opd{ bool out=false,ind=false; int outIx=-1; Value*arg=nullptr; Type*ty=nullptr; Value*cur=nullptr; bool ax=false; Value*ptr=nullptr; int tie=-1; };
    std::vector<Opd> ops; int ai=0,oi=0; std::vector<Type*> outTys; if(auto*st=dyn_cast<StructType>(ci->getType())) for(auto*t:st->elements()) outTys.push_back(t); else if(!ci->getType()->isVoidTy()) outTys.push_back(ci->getType());
    Value*axIn=nullptr;
    for(auto&k:cons){ if(k.Type==InlineAsm::isClobber) continue; Opd o; if(k.Type==InlineAsm::isLabel) return;
      bool isax=false; for(auto&cd:k.Codes) if(cd=="{ax}") isax=true; o.ax=isax;
      if(k.Type==InlineAsm::isOutput){ o.out=true; if(k.isIndirect){ o.ind=true; o.ptr=ci->getArgOperand(ai); o.ty=ci->getParamElementType(ai); ai++; } else { o.outIx=oi; o.ty=outTys[oi++]; } }
      else { o.arg=ci->getArgOperand(ai); if(k.isIndirect){ o.ind=true; o.ptr=o.arg; o.ty=ci->getParamElementType(ai);} else { o.cur=o.arg; o.ty=o.arg->getType(); } ai++; 
        int tie=-1; for(auto&cd:k.Codes) if(!cd.empty()&&isdigit(cd[0])) tie=atoi(cd.c_str()); o.tie=tie; if(tie>=0&&tie<(int)ops.size()){ ops[tie].cur=o.arg; if(ops[tie].ax) axIn=o.arg; } if(isax) axIn=o.arg; }
      ops.push_back(o); }
    Type*i64=B.getInt64Ty(), *i8=B.getInt8Ty(); Value*ax=axIn; Value*zf=nullptr;
    auto toInt=[&](Value*v)->Value*{ return v->getType()->isPointerTy()?B.CreatePtrToInt(v,i64):v; };
    auto fit=[&](Value*v,Type*t)->Value*{ if(t->isPointerTy()) return B.CreateIntToPtr(B.CreateZExtOrTrunc(toInt(v),i64),t); return B.CreateZExtOrTrunc(toInt(v),t); };
    // split into instructions
    std::vector<std::string> ins; { std::string cur; for(char ch:s+";"){ if(ch==';'||ch=='\n'){ size_t a=cur.find_first_not_of(" \t"); if(a!=std::string::npos){ size_t b=cur.find_last_not_of(" \t"); ins.push_back(cur.substr(a,b-a+1)); } cur.clear(); } else cur+=ch; } }
    bool lock=false; bool okAll=true;
    try { for(auto&t:ins){
      size_t sp=t.find_first_of(" \t"); std::string mn=t.substr(0,sp); std::string rest=sp==std::string::npos?"":t.substr(sp);
      if(mn=="lock"){ lock=true; size_t a=rest.find_first_not_of(" \t"); if(a==std::string::npos) continue; t=rest.substr(a); sp=t.find_first_of(" \t"); mn=t.substr(0,sp); rest=sp==std::string::npos?"":t.substr(sp); }
      std::vector<std::string> av; { std::string c2; int par=0; for(char ch:rest+","){ if(ch=='(')par++; if(ch==')')par--; if(ch==','&&!par){ if(!c2.empty()) av.push_back(c2); c2.clear(); } else if(ch!=' '&&ch!='\t') c2+=ch; } }
      struct R{ int kind; int op; Value*v; }; // 0 reg op,1 mem(ptr value),2 imm,3 ax/al
      auto parse=[&](const std::string&x)->R{
        auto num=[&](std::string y)->int{ if(y.size()>1&&y[0]=='$'&&y[1]=='{') { return atoi(y.c_str()+2); } if(y.size()>1&&y[0]=='$'&&isdigit(y[1])) return atoi(y.c_str()+1); throw AsmErr{"operand "+x}; };
        if(x[0]=='('){ int n=num(x.substr(1,x.size()-2)); Value*p=ops[n].cur; if(!p) throw AsmErr{"mem "+x}; if(!p->getType()->isPointerTy()) p=B.CreateIntToPtr(p,PointerType::getUnqual(C)); return {1,n,p}; }
        if(x.rfind("$$",0)==0) return {2,-1,ConstantInt::get(i64,strtoll(x.c_str()+2,0,0))};
        if(x=="%al"||x=="%eax"||x=="%rax") return {3,-1,nullptr};
        int n=num(x); if(ops[n].ind) return {1,n,ops[n].ptr}; return {0,n,ops[n].cur}; };
      auto setReg=[&](R r,Value*v){ if(r.kind==0){ ops[r.op].cur=fit(v,ops[r.op].ty); if(ops[r.op].ax) ax=ops[r.op].cur; for(size_t i=0;i<ops.size();i++) if(ops[i].tie==r.op) ops[i].cur=ops[r.op].cur; } else if(r.kind==3) ax=v; else throw AsmErr{"set"}; };
      auto getv=[&](R r,Type*ty)->Value*{ Value*v=r.kind==3?ax:r.v; if(!v) throw AsmErr{"undef reg"}; return fit(v,ty); };
      auto sfx=[&](const std::string&base)->Type*{ if(mn==base) return nullptr; char q=mn.back(); return q=='l'?(Type*)B.getInt32Ty():q=='q'?(Type*)i64:q=='b'?i8:q=='w'?(Type*)B.getInt16Ty():nullptr; };
      auto is=[&](const std::string&base){ return mn==base||(mn.size()==base.size()+1&&mn.rfind(base,0)==0&&strchr("bwlq",mn.back())); };
      auto rmw=[&](AtomicRMWInst::BinOp op,Value*ptr,Value*v,bool lk)->Value*{ if(lk) return B.CreateAtomicRMW(op,ptr,v,MaybeAlign(),AtomicOrdering::SequentiallyConsistent);
        auto*ld=B.CreateLoad(v->getType(),ptr); ld->setVolatile(true); Value*n=op==AtomicRMWInst::Add?B.CreateAdd(ld,v):op==AtomicRMWInst::Sub?B.CreateSub(ld,v):op==AtomicRMWInst::And?B.CreateAnd(ld,v):op==AtomicRMWInst::Or?B.CreateOr(ld,v):op==AtomicRMWInst::Xor?B.CreateXor(ld,v):v; B.CreateStore(n,ptr)->setVolatile(true); return ld; };
      if(mn=="pause"){ B.CreateCall(M->getOrInsertFunction("se_pause",FunctionType::get(B.getVoidTy(),false))); }
      else if(mn=="rep"||mn=="nop"){ if(rest.find("nop")!=std::string::npos) B.CreateCall(M->getOrInsertFunction("se_pause",FunctionType::get(B.getVoidTy(),false))); }
      else if(mn=="mfence"||mn=="lfence"||mn=="sfence"){ B.CreateFence(AtomicOrdering::SequentiallyConsistent); }
      else if(mn=="rdtsc"){ // lo -> first out, hi -> second out
        Value*v=B.CreateCall(M->getOrInsertFunction("se_rdtsc",FunctionType::get(i64,false))); int n=0; for(auto&o:ops) if(o.out&&!o.ind){ if(o.ty->isIntegerTy(64)&&outTys.size()==1) o.cur=v; else o.cur=fit(n==0?B.CreateAnd(v,0xffffffffULL):B.CreateLShr(v,32),o.ty); n++; } }
      else if(is("xadd")&&av.size()==2){ R r=parse(av[0]),m=parse(av[1]); if(m.kind!=1) throw AsmErr{"xadd"}; Type*ty=sfx("xadd"); if(!ty) ty=ops[r.op].ty->isPointerTy()?i64:ops[r.op].ty; Value*v=getv(r,ty); setReg(r,rmw(AtomicRMWInst::Add,m.v,v,lock)); }
      else if(is("xchg")&&av.size()==2){ R r=parse(av[0]),m=parse(av[1]); if(m.kind!=1) std::swap(r,m); if(m.kind!=1) throw AsmErr{"xchg"}; Type*ty=sfx("xchg"); if(!ty) ty=ops[r.op].ty->isPointerTy()?i64:ops[r.op].ty; setReg(r,rmw(AtomicRMWInst::Xchg,m.v,getv(r,ty),true)); }
      else if(is("cmpxchg")&&av.size()==2){ R r=parse(av[0]),m=parse(av[1]); if(m.kind!=1) throw AsmErr{"cmpxchg"}; Type*ty=sfx("cmpxchg"); if(!ty) ty=ops[r.op].ty->isPointerTy()?i64:ops[r.op].ty; Value*old=fit(ax?ax:(Value*)ConstantInt::get(ty,0),ty),*nw=getv(r,ty);
        if(lock){ auto*cx=B.CreateAtomicCmpXchg(m.v,old,nw,MaybeAlign(),AtomicOrdering::SequentiallyConsistent,AtomicOrdering::SequentiallyConsistent); ax=B.CreateExtractValue(cx,0); zf=B.CreateExtractValue(cx,1); }
        else { auto*ld=B.CreateLoad(ty,m.v); ld->setVolatile(true); zf=B.CreateICmpEQ(ld,old); B.CreateStore(B.CreateSelect(zf,nw,ld),m.v)->setVolatile(true); ax=ld; } }
      else if((is("inc")||is("dec"))&&av.size()==1){ R m=parse(av[0]); Type*ty=sfx(mn.substr(0,3)); bool inc=mn[0]=='i'; if(m.kind==1){ if(!ty) ty=m.op>=0&&ops[m.op].ind&&ops[m.op].ty?ops[m.op].ty:i64; Value*o=rmw(inc?AtomicRMWInst::Add:AtomicRMWInst::Sub,m.v,ConstantInt::get(ty,1),lock); zf=B.CreateICmpEQ(o,ConstantInt::get(ty,inc?-1:1,true)); }
        else { Value*v=getv(m,ops[m.op].ty); setReg(m,inc?B.CreateAdd(v,ConstantInt::get(v->getType(),1)):B.CreateSub(v,ConstantInt::get(v->getType(),1))); } }
      else if((is("add")||is("sub")||is("and")||is("or")||is("xor")||is("mov"))&&av.size()==2){ R r=parse(av[0]),m=parse(av[1]); std::string base; for(auto q:{"add","sub","and","or","xor","mov"}) if(is(q)){ base=q; break; }
        Type*ty=sfx(base); if(!ty){ R&q=r.kind==0?r:m; ty=q.op>=0&&ops[q.op].ty&&!ops[q.op].ty->isPointerTy()?ops[q.op].ty:i64; }
        if(m.kind==1){ if(base=="mov"){ B.CreateStore(getv(r,ty),m.v)->setVolatile(true); } else { Value*v=getv(r,ty); auto op=base=="add"?AtomicRMWInst::Add:base=="sub"?AtomicRMWInst::Sub:base=="and"?AtomicRMWInst::And:base=="or"?AtomicRMWInst::Or:AtomicRMWInst::Xor; rmw(op,m.v,v,lock); zf=nullptr; } }
        else { Value*src; if(r.kind==1){ auto*ld=B.CreateLoad(ty,r.v); ld->setVolatile(true); src=ld; } else src=getv(r,ty);
          if(base=="mov") setReg(m,src); else { Value*d=getv(m,ty); setReg(m,base=="add"?B.CreateAdd(d,src):base=="sub"?B.CreateSub(d,src):base=="and"?B.CreateAnd(d,src):base=="or"?B.CreateOr(d,src):B.CreateXor(d,src)); } } }
      else if((mn=="sete"||mn=="setz"||mn=="setne"||mn=="setnz")&&av.size()==1){ if(!zf) throw AsmErr{"flags"}; R r=parse(av[0]); Value*v=B.CreateZExt(mn=="sete"||mn=="setz"?zf:B.CreateNot(zf),i8); if(r.kind==1) B.CreateStore(v,r.v); else setReg(r,v); }
      else throw AsmErr{"mnemonic "+mn};
      lock=false; } 
      for(auto&o:ops) if(o.out&&!o.ind&&o.ax&&!o.cur) o.cur=ax?fit(ax,o.ty):nullptr;
      for(auto&o:ops) if(o.out&&!o.ind&&!o.cur&&!ins.empty()) throw AsmErr{"output undefined"};
    } catch(AsmErr&e){ errs()<<"sphse: asm not lowered ("<<e.s<<"): "<<s<<"\n"; okAll=false; }
    if(!okAll) return; // stays as asm call -> unsupported when executed
    Value*res=nullptr; if(isa<StructType>(ci->getType())){ res=UndefValue::get(ci->getType()); for(auto&o:ops) if(o.outIx>=0&&o.cur) res=B.CreateInsertValue(res,o.cur,o.outIx); }
    else for(auto&o:ops) if(o.outIx==0) res=o.cur;
    if(!ci->getType()->isVoidTy()) ci->replaceAllUsesWith(res?res:UndefValue::get(ci->getType()));
    ci->eraseFromParent();
  }

  int cix(uint64_t v){ auto it=constIx.find(v); if(it!=constIx.end()) return ~it->second; int i=consts.size(); consts.push_back(v); constIx[v]=i; return ~i; }
  static unsigned tw(Type*t,const DataLayout&DL){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
  unsigned tw(Type*t){ return tw(t,*DL); }
  void flat(Type*t,std::vector<std::pair<Type*,uint64_t>>&o,uint64_t off=0){
    if(auto*s=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flat(s->getElementType(i),o,off+l->getElementOffset(i)); }
    else if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t sz=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();i++) flat(a->getElementType(),o,off+i*sz); }
    else if(!t->isVoidTy()) o.push_back({t,off}); }
  int nflat(Type*t){ std::vector<std::pair<Type*,uint64_t>> v; flat(t,v); return v.size(); }

  bool constVal(const Constant*c,uint64_t&v){
    if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64) return false; v=i->getZExtValue(); return true; }
    if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)){ v=0; return true; }
    if(auto*f=dyn_cast<ConstantFP>(c)){ v=f->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
    if(auto*f=dyn_cast<Function>(c)){ v=fnOf[f]->addr; return true; }
    if(auto*g=dyn_cast<GlobalVariable>(c)){ auto it=gaddr.find(g); if(it==gaddr.end()) return false; v=it->second; return true; }
    if(auto*a=dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee(),v);
    if(auto*e=dyn_cast<ConstantExpr>(c)){
      switch(e->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(e)->accumulateConstantOffset(*DL,off)) return false; if(!constVal(e->getOperand(0),v)) return false; v+=off.getZExtValue(); return true; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: if(!constVal(e->getOperand(0),v)) return false; v&=maskw(tw(e->getType())); return true;
      case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: { uint64_t a,b; if(!constVal(e->getOperand(0),a)||!constVal(e->getOperand(1),b)) return false; unsigned w=tw(e->getType()); bool ok;
        Op o=e->getOpcode()==Instruction::Add?O_ADD:e->getOpcode()==Instruction::Sub?O_SUB:e->getOpcode()==Instruction::And?O_AND:e->getOpcode()==Instruction::Or?O_OR:e->getOpcode()==Instruction::Mul?O_MUL:e->getOpcode()==Instruction::Shl?O_SHL:O_LSHR; v=ExprPool::fold2(o,a,b,w,ok); return true; }
      default: return false; } }
    return false; }

  void initGlobals(std::function<void(uint64_t,const uint8_t*,size_t)> wr, std::vector<uint8_t>&tlsInit){
    uint64_t fa=FBASE; for(auto&F:*M){ auto f=std::make_unique<Fn>(); f->name=F.getName().str(); f->F=&F; f->addr=fa; fa+=16; f->body=!F.isDeclaration(); f->id=fns.size(); fnOf[&F]=f.get(); fnAt[f->addr]=f.get(); fnByName[f->name]=f.get(); fns.push_back(std::move(f)); }
    uint64_t ga=GBASE;
    for(auto&G:M->globals()){ uint64_t sz=DL->getTypeAllocSize(G.getValueType()); uint64_t al=std::max<uint64_t>(16,G.getAlign()?G.getAlign()->value():16);
      if(G.isThreadLocal()){ tlsSize=(tlsSize+al-1)/al*al; tlsOff[&G]=tlsSize; tlsSize+=sz; continue; }
      ga=(ga+al-1)/al*al; gaddr[&G]=ga; granges.push_back({ga,ga+std::max<uint64_t>(sz,1)}); gname[ga]=G.getName().str(); ga+=sz+32; }
    tlsInit.assign(tlsSize,0);
    for(auto&G:M->globals()) if(G.hasInitializer()&&G.getName()!="llvm.global_ctors"&&!G.getName().starts_with("llvm.")){
      uint64_t sz=DL->getTypeAllocSize(G.getValueType()); std::vector<uint8_t> b(sz,0); fill(G.getInitializer(),b,0);
      if(G.isThreadLocal()) memcpy(tlsInit.data()+tlsOff[&G],b.data(),sz); else wr(gaddr[&G],b.data(),sz); } }
  void fill(const Constant*c,std::vector<uint8_t>&b,uint64_t off){
    Type*t=c->getType();
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
    if(auto*d=dyn_cast<ConstantDataSequential>(c)){ StringRef r=d->getRawDataValues(); memcpy(b.data()+off,r.data(),r.size()); return; }
    if(auto*s=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) fill(c->getAggregateElement(i),b,off+l->getElementOffset(i)); return; }
    if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t sz=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();i++) fill(c->getAggregateElement(i),b,off+i*sz); return; }
    uint64_t v; if(!constVal(c,v)) { errs()<<"unhandled global init\n"; return; } uint64_t n=DL->getTypeStoreSize(t); memcpy(b.data()+off,&v,n); }

  // ---- translation ----
  struct Ctx { Fn*f; std::unordered_map<const Value*,int> slot; int ns=0; std::unordered_map<const BasicBlock*,int> start; };
  int slotOf(Ctx&c,const Value*v){ auto it=c.slot.find(v); if(it!=c.slot.end()) return it->second; int n=nflat(v->getType()); int s=c.ns; c.ns+=std::max(n,1); c.slot[v]=s; return s; }
  bool bad=false;
  int opnd(Ctx&c,const Value*v,int ix=0){
    if(auto*k=dyn_cast<Constant>(v)){
      uint64_t x; Type*t=k->getType();
      if(t->isStructTy()||t->isArrayTy()){ std::vector<const Constant*> fl; flatC(k,fl); if(ix<(int)fl.size()&&constVal(fl[ix],x)) return cix(x); bad=true; return cix(0); }
      if(constVal(k,x)) return cix(x); bad=true; return cix(0); }
    return slotOf(c,v)+ix; }
  void flatC(const Constant*c,std::vector<const Constant*>&o){ Type*t=c->getType(); unsigned n=0; if(auto*s=dyn_cast<StructType>(t)) n=s->getNumElements(); else if(auto*a=dyn_cast<ArrayType>(t)) n=a->getNumElements(); else { o.push_back(c); return; } for(unsigned i=0;i<n;i++) flatC(c->getAggregateElement(i),o); }
  int edge(Ctx&c,const BasicBlock*from,const BasicBlock*to){ Edge e; e.bb=to; for(auto&phi:to->phis()){ const Value*v=phi.getIncomingValueForBlock(from); int n=std::max(1,nflat(phi.getType())); for(int i=0;i<n;i++){ e.cp.push_back({slotOf(c,&phi)+i,opnd(c,v,i)}); } } c.f->edges.push_back(e); return c.f->edges.size()-1; }
  static int intrId(Intrinsic::ID id){ switch(id){
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return N_memcpy; case Intrinsic::memmove: return N_memmove; case Intrinsic::memset: return N_memset;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::stacksave: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::vastart: return N_nop;
    case Intrinsic::bswap: return N_bswap; case Intrinsic::ctpop: return N_ctpop; case Intrinsic::ctlz: return N_ctlz; case Intrinsic::cttz: return N_cttz;
    case Intrinsic::umin: return N_umin; case Intrinsic::umax: return N_umax; case Intrinsic::smin: return N_smin; case Intrinsic::smax: return N_smax; case Intrinsic::abs: return N_abs;
    case Intrinsic::fshl: return N_fshl; case Intrinsic::fshr: return N_fshr; case Intrinsic::uadd_with_overflow: return N_uaddo; case Intrinsic::usub_with_overflow: return N_usubo; case Intrinsic::umul_with_overflow: return N_umulo;
    case Intrinsic::sadd_with_overflow: return N_saddo; case Intrinsic::ssub_with_overflow: return N_ssubo; case Intrinsic::smul_with_overflow: return N_smulo;
    case Intrinsic::uadd_sat: return N_uaddsat; case Intrinsic::usub_sat: return N_usubsat; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return N_trap;
    case Intrinsic::objectsize: return N_objsize; case Intrinsic::is_constant: return N_isconst; case Intrinsic::fmuladd: return N_fmuladd; case Intrinsic::fabs: return N_fabs; case Intrinsic::expect: return N_expect;
    default: return N_none; } }
  Fn*calleeFn(Function*F,Fn*from){ std::string n=F->getName().str(); auto it=wrap.find(n); if(it!=wrap.end()&&from->name!=it->second){ auto j=fnByName.find(it->second); if(j!=fnByName.end()) return j->second; } return fnOf[F]; }

  void translate(Fn&f){
    Ctx c; c.f=&f; std::vector<std::pair<size_t,const Instruction*>> fix;
    for(auto&a:f.F->args()) f.argSlot.push_back(slotOf(c,&a));
    for(auto&B:*f.F){ c.start[&B]=f.code.size();
      for(auto&I:B){ if(isa<PHINode>(I)) continue; bad=false; size_t n0=f.code.size(); tr(c,I,B); if(bad){ f.code.resize(n0); Ins u; u.op=I_UNSUP; u.src=&I; f.code.push_back(u); } } }
    for(auto&e:f.edges) e.target=c.start[e.bb];
    f.nslots=c.ns; }
  Ins&emit(Ctx&c,IOp op,const Instruction&I){ Ins x; x.op=op; x.src=&I; c.f->code.push_back(x); return c.f->code.back(); }
  void tr(Ctx&c,const Instruction&I,const BasicBlock&BB){
    unsigned w=tw(I.getType());
    if(auto*b=dyn_cast<BinaryOperator>(&I)){
      if(!w||w>64){ bad=true; return; }
      int o=-1; switch(b->getOpcode()){ case Instruction::Add:o=O_ADD;break; case Instruction::Sub:o=O_SUB;break; case Instruction::Mul:o=O_MUL;break; case Instruction::UDiv:o=O_UDIV;break; case Instruction::SDiv:o=O_SDIV;break; case Instruction::URem:o=O_UREM;break; case Instruction::SRem:o=O_SREM;break;
        case Instruction::And:o=O_AND;break; case Instruction::Or:o=O_OR;break; case Instruction::Xor:o=O_XOR;break; case Instruction::Shl:o=O_SHL;break; case Instruction::LShr:o=O_LSHR;break; case Instruction::AShr:o=O_ASHR;break;
        case Instruction::FAdd:o=O_FADD;break; case Instruction::FSub:o=O_FSUB;break; case Instruction::FMul:o=O_FMUL;break; case Instruction::FDiv:o=O_FDIV;break; default: bad=true; return; }
      int a=opnd(c,b->getOperand(0)),d=opnd(c,b->getOperand(1)); Ins&x=emit(c,o>=O_FOEQ?I_FP:I_BIN,I); x.sub=o; x.w=w; x.dst=slotOf(c,&I); x.a=a; x.b=d; return; }
    switch(I.getOpcode()){
    case Instruction::FNeg: { int a=opnd(c,I.getOperand(0)); Ins&x=emit(c,I_FNEG,I); x.w=w; x.a=a; x.dst=slotOf(c,&I); return; }
    case Instruction::ICmp: { auto&ic=cast<ICmpInst>(I); unsigned ow=tw(ic.getOperand(0)->getType()); if(!ow||ow>64){ bad=true; return; } int a=opnd(c,ic.getOperand(0)),b=opnd(c,ic.getOperand(1)); int o; bool neg=false,sw=false;
      switch(ic.getPredicate()){ case CmpInst::ICMP_EQ:o=O_EQ;break; case CmpInst::ICMP_NE:o=O_EQ;neg=true;break; case CmpInst::ICMP_ULT:o=O_ULT;break; case CmpInst::ICMP_ULE:o=O_ULE;break; case CmpInst::ICMP_UGT:o=O_ULT;sw=true;break; case CmpInst::ICMP_UGE:o=O_ULE;sw=true;break;
        case CmpInst::ICMP_SLT:o=O_SLT;break; case CmpInst::ICMP_SLE:o=O_SLE;break; case CmpInst::ICMP_SGT:o=O_SLT;sw=true;break; default:o=O_SLE;sw=true; }
      if(sw) std::swap(a,b); Ins&x=emit(c,I_CMP,I); x.sub=o; x.w=ow; x.fl=neg?FL_NEG:0; x.a=a; x.b=b; x.dst=slotOf(c,&I); return; }
    case Instruction::FCmp: { auto&fc=cast<FCmpInst>(I); unsigned ow=tw(fc.getOperand(0)->getType()); if(ow!=32&&ow!=64){bad=true;return;} int a=opnd(c,fc.getOperand(0)),b=opnd(c,fc.getOperand(1)); Ins&x=emit(c,I_FCMP,I); x.imm=fc.getPredicate(); x.w=ow; x.a=a; x.b=b; x.dst=slotOf(c,&I); return; }
    case Instruction::Select: { int n=std::max(1,nflat(I.getType())); std::vector<std::pair<Type*,uint64_t>> fl; flat(I.getType(),fl); if(I.getOperand(0)->getType()->isVectorTy()){bad=true;return;} for(int i=0;i<n;i++){ int cc=opnd(c,I.getOperand(0)),a=opnd(c,I.getOperand(1),i),b=opnd(c,I.getOperand(2),i); Ins&x=emit(c,I_SEL,I); x.w=tw(fl[i].first); if(!x.w) bad=true; x.a=cc; x.b=a; x.c=b; x.dst=slotOf(c,&I)+i; } return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { unsigned w2=tw(I.getOperand(0)->getType()); if(!w||!w2||w>64||w2>64){bad=true;return;} int a=opnd(c,I.getOperand(0)); Ins&x=emit(c,I.getOpcode()==Instruction::ZExt?I_ZEXT:I.getOpcode()==Instruction::SExt?I_SEXT:I_TRUNC,I); x.w=w; x.w2=w2; x.a=a; x.dst=slotOf(c,&I); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w2=tw(I.getOperand(0)->getType()); if(!w||w>64||!w2||w2>64){bad=true;return;} int a=opnd(c,I.getOperand(0)); Ins&x=emit(c,w<w2?I_TRUNC:w>w2?I_ZEXT:I_MOV,I); x.w=w; x.w2=w2; x.a=a; x.dst=slotOf(c,&I); return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { if(!w){bad=true;return;} if(tw(I.getOperand(0)->getType())!=w){bad=true;return;} int a=opnd(c,I.getOperand(0)); Ins&x=emit(c,I_MOV,I); x.w=w; x.a=a; x.dst=slotOf(c,&I); return; }
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: { unsigned w2=tw(I.getOperand(0)->getType()); if(!w||!w2){bad=true;return;} int a=opnd(c,I.getOperand(0)); Ins&x=emit(c,I_FP,I); x.w=w; x.w2=w2; x.a=a; x.b=INT32_MIN; x.dst=slotOf(c,&I);
      switch(I.getOpcode()){ case Instruction::SIToFP:x.sub=O_SITOFP;break; case Instruction::UIToFP:x.sub=O_UITOFP;break; case Instruction::FPToSI:x.sub=O_FPTOSI;break; case Instruction::FPToUI:x.sub=O_FPTOUI;break; default:x.sub=O_FPCVT; } return; }
    case Instruction::Load: { auto&l=cast<LoadInst>(I); std::vector<std::pair<Type*,uint64_t>> fl; flat(I.getType(),fl); int p=opnd(c,l.getPointerOperand()); int s=slotOf(c,&I); int i=0; for(auto&q:fl){ unsigned ww=tw(q.first); if(!ww||ww>64){bad=true;return;} Ins&x=emit(c,I_LOAD,I); x.w=ww; x.a=p; x.imm=q.second; x.dst=s+i++; x.fl=l.isAtomic()?FL_ATOMIC:0; x.n=DL->getTypeStoreSize(q.first); } return; }
    case Instruction::Store: { auto&l=cast<StoreInst>(I); std::vector<std::pair<Type*,uint64_t>> fl; flat(l.getValueOperand()->getType(),fl); int p=opnd(c,l.getPointerOperand()); int i=0; for(auto&q:fl){ unsigned ww=tw(q.first); if(!ww||ww>64){bad=true;return;} int v=opnd(c,l.getValueOperand(),i++); Ins&x=emit(c,I_STORE,I); x.w=ww; x.a=p; x.b=v; x.imm=q.second; x.fl=l.isAtomic()?FL_ATOMIC:0; x.n=DL->getTypeStoreSize(q.first); } return; }
    case Instruction::GetElementPtr: { uint64_t off=0; std::vector<GepTerm> ts; if(!I.getType()->isPointerTy()){bad=true;return;}
      for(auto gi=gep_type_begin(I),ge=gep_type_end(I);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
        else { uint64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*k=dyn_cast<ConstantInt>(ix)) off+=sz*(uint64_t)k->getSExtValue(); else ts.push_back({opnd(c,ix),sz,(uint8_t)tw(ix->getType())}); } }
      int a=opnd(c,I.getOperand(0)); Ins&x=emit(c,I_GEP,I); x.a=a; x.imm=off; x.x=terms.size(); x.n=ts.size(); for(auto&t:ts) terms.push_back(t); x.w=64; x.dst=slotOf(c,&I); return; }
    case Instruction::Alloca: { auto&al=cast<AllocaInst>(I); int n=opnd(c,al.getArraySize()); Ins&x=emit(c,I_ALLOCA,I); x.a=n; x.imm=DL->getTypeAllocSize(al.getAllocatedType()); x.x=std::max<int>(16,al.getAlign().value()); x.dst=slotOf(c,&I); return; }
    case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isConditional()){ int cc=opnd(c,b.getCondition()); int e1=edge(c,&BB,b.getSuccessor(0)),e2=edge(c,&BB,b.getSuccessor(1)); Ins&x=emit(c,I_BR,I); x.a=cc; x.b=e1; x.c=e2; } else { int e=edge(c,&BB,b.getSuccessor(0)); Ins&x=emit(c,I_JMP,I); x.b=e; } return; }
    case Instruction::Switch: { auto&s=cast<SwitchInst>(I); int v=opnd(c,s.getCondition()); std::vector<SwCase> cs; for(auto&k:s.cases()) cs.push_back({k.getCaseValue()->getZExtValue(),edge(c,&BB,k.getCaseSuccessor())}); int d=edge(c,&BB,s.getDefaultDest()); Ins&x=emit(c,I_SWITCH,I); x.a=v; x.w=tw(s.getCondition()->getType()); x.b=d; x.x=sw.size(); x.n=cs.size(); for(auto&k:cs) sw.push_back(k); return; }
    case Instruction::Ret: { auto&r=cast<ReturnInst>(I); int n=0; int x0=args.size(); std::vector<int> v; if(r.getReturnValue()){ n=nflat(r.getReturnValue()->getType()); for(int i=0;i<n;i++) v.push_back(opnd(c,r.getReturnValue(),i)); } for(int q:v) args.push_back(q); Ins&x=emit(c,I_RET,I); x.x=x0; x.n=n; return; }
    case Instruction::Unreachable: emit(c,I_UNREACH,I); return;
    case Instruction::Fence: emit(c,I_FENCE,I); return;
    case Instruction::ExtractValue: { auto&e=cast<ExtractValueInst>(I); int off=0; Type*t=e.getAggregateOperand()->getType(); for(unsigned ix:e.indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) off+=nflat(st->getElementType(k)); t=st->getElementType(ix); } else { auto*a=cast<ArrayType>(t); off+=ix*nflat(a->getElementType()); t=a->getElementType(); } } int n=nflat(t); for(int i=0;i<n;i++){ int a=opnd(c,e.getAggregateOperand(),off+i); Ins&x=emit(c,I_MOV,I); x.a=a; x.dst=slotOf(c,&I)+i; } return; }
    case Instruction::InsertValue: { auto&e=cast<InsertValueInst>(I); int off=0; Type*t=I.getType(); for(unsigned ix:e.indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) off+=nflat(st->getElementType(k)); t=st->getElementType(ix); } else { auto*a=cast<ArrayType>(t); off+=ix*nflat(a->getElementType()); t=a->getElementType(); } } int n=nflat(t),N=nflat(I.getType()); for(int i=0;i<N;i++){ int a= i>=off&&i<off+n? opnd(c,e.getInsertedValueOperand(),i-off):opnd(c,e.getAggregateOperand(),i); Ins&x=emit(c,I_MOV,I); x.a=a; x.dst=slotOf(c,&I)+i; } return; }
    case Instruction::AtomicCmpXchg: { auto&x0=cast<AtomicCmpXchgInst>(I); unsigned ww=tw(x0.getNewValOperand()->getType()); if(!ww||ww>64){bad=true;return;} int p=opnd(c,x0.getPointerOperand()),o=opnd(c,x0.getCompareOperand()),n=opnd(c,x0.getNewValOperand()); Ins&x=emit(c,I_CMPXCHG,I); x.w=ww; x.a=p; x.b=o; x.c=n; x.n=ww/8; x.fl=FL_ATOMIC; x.dst=slotOf(c,&I); return; }
    case Instruction::AtomicRMW: { auto&r=cast<AtomicRMWInst>(I); unsigned ww=tw(r.getValOperand()->getType()); if(!ww||ww>64||r.getType()->isFloatingPointTy()){bad=true;return;} int p=opnd(c,r.getPointerOperand()),v=opnd(c,r.getValOperand()); Ins&x=emit(c,I_RMW,I); x.w=ww; x.a=p; x.b=v; x.n=ww/8; x.imm=r.getOperation(); x.fl=FL_ATOMIC; x.dst=slotOf(c,&I); return; }
    case Instruction::Call: { auto&ci=cast<CallInst>(I);
      if(ci.isInlineAsm()){ auto*ia=cast<InlineAsm>(ci.getCalledOperand()); if(StringRef(ia->getAsmString()).trim().empty()&&ci.getType()->isVoidTy()) { emit(c,I_FENCE,I); return; } bad=true; return; }
      Function*F=ci.getCalledFunction();
      if(F&&F->isIntrinsic()){
        auto id=F->getIntrinsicID();
        if(id==Intrinsic::threadlocal_address){ auto*g=cast<GlobalVariable>(ci.getArgOperand(0)); Ins&x=emit(c,I_TLS,I); x.imm=tlsOff[g]; x.dst=slotOf(c,&I); return; }
        int k=intrId(id); if(k==N_none){ bad=true; return; } if(k==N_nop) { if(!I.getType()->isVoidTy()){ Ins&x=emit(c,I_MOV,I); x.a=cix(0); x.dst=slotOf(c,&I);} return; }
        std::vector<int> av; for(auto&a:ci.args()) av.push_back(a->getType()->isMetadataTy()?cix(0):opnd(c,a)); unsigned ow=ci.arg_size()?tw(ci.getArgOperand(0)->getType()):0; if(k>=N_bswap&&k<=N_usubsat&&(!ow||ow>64)){bad=true;return;}
        int x0=args.size(); for(int q:av) args.push_back(q); Ins&x=emit(c,I_INTR,I); x.sub=k; x.w=ow; x.x=x0; x.n=av.size(); x.dst=I.getType()->isVoidTy()?-1:slotOf(c,&I); return; }
      std::vector<int> av; for(unsigned i=0;i<ci.arg_size();i++){ Value*a=ci.getArgOperand(i); int n=nflat(a->getType());
        if(ci.paramHasAttr(i,Attribute::ByVal)){ uint64_t sz=DL->getTypeAllocSize(ci.getParamByValType(i)); int src=opnd(c,a); int tmp=c.ns++; { Ins&x=emit(c,I_ALLOCA,I); x.a=cix(1); x.imm=sz; x.x=16; x.dst=tmp; } int ax=args.size(); args.push_back(tmp); args.push_back(src); args.push_back(cix(sz)); args.push_back(cix(0)); { Ins&x=emit(c,I_INTR,I); x.sub=N_memcpy; x.w=64; x.x=ax; x.n=4; x.dst=-1; } av.push_back(tmp); continue; }
        for(int k=0;k<n;k++) av.push_back(opnd(c,a,k)); }
      int tgt=-1; Fn*cf=nullptr; if(F) cf=calleeFn(F,c.f); else tgt=opnd(c,ci.getCalledOperand());
      int x0=args.size(); for(int q:av) args.push_back(q);
      Ins&x=emit(c,I_CALL,I); x.x=x0; x.n=av.size(); x.a=tgt; x.imm=(uint64_t)cf; x.dst=I.getType()->isVoidTy()?-1:slotOf(c,&I); x.b=nflat(I.getType()); return; }
    default: bad=true; return; } }
};
