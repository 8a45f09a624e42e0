#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;

void loadIR(Engine&E,const std::string&path){
  auto*ctx=new LLVMContext; SMDiagnostic err; auto m=parseIRFile(path,err,*ctx); if(!m) throw EngineError("cannot parse "+path+": "+err.getMessage().str());
  E.M=m.release(); E.DL=&E.M->getDataLayout();
  for(auto&F:*E.M) if(!F.isDeclaration()){ u64 a=E.codeTop; E.codeTop+=16; E.gaddr[&F]=a; E.faddr[a]=&F; E.asmNames[a]=F.getName().str(); }
  for(auto&G:E.M->globals()) if(!G.isDeclaration()){ u64 al=std::max<u64>(16,G.getAlign()?G.getAlign()->value():1); u64 n=E.DL->getTypeAllocSize(G.getValueType()); E.dataTop=(E.dataTop+64+al-1)&~(al-1); E.gaddr[&G]=E.dataTop; E.dataTop+=n; }
}
void initGlobals(Engine&E){
  for(auto&G:E.M->globals()) if(!G.isDeclaration()){ u64 n=E.DL->getTypeAllocSize(G.getValueType()); std::vector<u8> b(n,0); if(G.hasInitializer()) E.constInit(G.getInitializer(),b,0); E.init.push_back({E.gaddr[&G],{b,!G.isConstant()}}); }
}
Opnd Engine::opnd(FInfo*fi,const Value*v,std::unordered_map<const Value*,int>&m){
  Opnd o; auto it=m.find(v); if(it!=m.end()){ o.slot=it->second; return o; }
  if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)) return o;
  if(auto*c=dyn_cast<Constant>(v)){ if(c->getType()->isStructTy()||c->getType()->isArrayTy()){ o.agg=std::make_shared<std::vector<V>>(); unsigned n=c->getType()->isStructTy()?c->getType()->getStructNumElements():c->getType()->getArrayNumElements(); for(unsigned i=0;i<n;i++) o.agg->push_back(constV(c->getAggregateElement(i))); } else o.c=constV(c); return o; }
  throw EngineError("operand"); }
FInfo* Engine::info(const Function*F){
  auto it=finfo.find(F); if(it!=finfo.end()) return it->second;
  FInfo*fi=new FInfo; fi->F=F; fi->name=F->getName().str(); fi->vararg=F->isVarArg(); fi->win=F->getCallingConv()==CallingConv::Win64;
  std::unordered_map<const Value*,int> m; std::unordered_map<const BasicBlock*,u32> bi;
  for(auto&a:F->args()){ m[&a]=fi->nslot; fi->argSlot.push_back(fi->nslot++); }
  u32 nb=0; for(auto&B:*F){ bi[&B]=nb++; for(auto&I:B) if(!I.getType()->isVoidTy()) m[&I]=fi->nslot++; }
  fi->b.resize(nb); nb=0;
  for(auto&B:*F){ Blk&bl=fi->b[nb++];
    for(auto&I:B){
      if(auto*ph=dyn_cast<PHINode>(&I)){ Phi p; p.dst=m[&I]; p.agg=I.getType()->isStructTy(); for(unsigned i=0;i<ph->getNumIncomingValues();i++) p.in.push_back({bi[ph->getIncomingBlock(i)],opnd(fi,ph->getIncomingValue(i),m)}); bl.phi.push_back(p); continue; }
      if(isa<DbgInfoIntrinsic>(&I)) continue;
      Ins n; n.I=&I; n.op=I.getOpcode(); if(!I.getType()->isVoidTy()){ n.dst=m[&I]; if(!I.getType()->isStructTy()&&!I.getType()->isArrayTy()) n.w=tw(I.getType()); }
      if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()) n.o.push_back(opnd(fi,a.get(),m)); 
        const Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*f=dyn_cast<Function>(cv)) n.callee=f; else if(auto*ga=dyn_cast<GlobalAlias>(cv)) n.callee=dyn_cast<Function>(ga->getAliaseeObject());
        if(!n.callee) n.o.push_back(opnd(fi,cb->getCalledOperand(),m)); }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ n.o.push_back(opnd(fi,br->getCondition(),m)); n.t0=bi[br->getSuccessor(0)]; n.t1=bi[br->getSuccessor(1)]; } else n.t0=bi[br->getSuccessor(0)]; }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ n.o.push_back(opnd(fi,sw->getCondition(),m)); n.t0=bi[sw->getDefaultDest()]; for(auto&c:sw->cases()) n.cases.push_back({constV(c.getCaseValue()).c,bi[c.getCaseSuccessor()]}); }
      else { for(auto&u:I.operands()) n.o.push_back(opnd(fi,u.get(),m)); }
      if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ unsigned k=1; for(gep_type_iterator gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi,++k){ if(StructType*ST=gi.getStructTypeOrNull()) n.off+=(s128)DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(g->getOperand(k))->getZExtValue()); else { s128 sc=(s128)DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(g->getOperand(k))) n.off+=sc*(s128)ci->getSExtValue(); else n.idx.push_back({(int)k,sc}); } } }
      if(auto*l=dyn_cast<LoadInst>(&I)) n.ld=l->getType()->isStructTy()?0:DL->getTypeStoreSize(l->getType());
      if(auto*s=dyn_cast<StoreInst>(&I)) n.ld=s->getValueOperand()->getType()->isStructTy()?0:DL->getTypeStoreSize(s->getValueOperand()->getType());
      if(auto*a=dyn_cast<AllocaInst>(&I)){ n.asz=DL->getTypeAllocSize(a->getAllocatedType()); n.aal=a->getAlign().value(); }
      if(auto*c=dyn_cast<CmpInst>(&I)) n.pred=c->getPredicate();
      if(auto*e=dyn_cast<ExtractValueInst>(&I)) n.ei.assign(e->idx_begin(),e->idx_end());
      if(auto*e=dyn_cast<InsertValueInst>(&I)) n.ei.assign(e->idx_begin(),e->idx_end());
      bl.ins.push_back(n);
    } }
  fi->lib=!F->hasFnAttribute("no-jump-tables"); finfo[F]=fi; return fi;
}
void Engine::enterIR(State&S,const Function*f,const std::vector<V>&args,const std::vector<V>&va,int ret,unsigned rw){
  FInfo*fi=info(f); funcs[fi->name]++; if(S.st.size()>200) throw EngineError("call depth");
  S.st.emplace_back(); Frame&F=S.st.back(); F.k=K_IR; F.f=fi; F.slot.resize(fi->nslot); F.retSlot=ret; F.retW=rw; F.saveSp=S.sp; F.win=fi->win;
  for(size_t i=0;i<fi->argSlot.size();i++){ V a=i<args.size()?args[i]:fresh(S,tw(f->getArg(i)->getType())); unsigned w=tw(f->getArg(i)->getType()); if(a.w!=w) a=vResize(a,w); F.slot[fi->argSlot[i]]=a; }
  for(size_t i=0;i<fi->argSlot.size();i++) if(f->getArg(i)->hasByValAttr()){ Type*T=f->getArg(i)->getParamByValType(); u64 n=DL->getTypeAllocSize(T); u64 a=(S.sp-n-32)&~15ull; S.sp=a; S.mem->setFlags(a,n,F_R|F_W|F_ALLOC); F.allocas.push_back({a,(u32)n}); copyBytes(S,a,F.slot[fi->argSlot[i]].u(),n,false); F.slot[fi->argSlot[i]]=V(a,64); }
  if(fi->vararg){ u64 n=va.size()*8+8; u64 a=(S.sp-n-32)&~15ull; S.sp=a; S.mem->setFlags(a,n,F_R|F_W|F_ALLOC); F.allocas.push_back({a,(u32)n}); F.vaArea=a; F.vaN=va.size(); for(size_t i=0;i<va.size();i++) store(S,a+8*i,va[i].w==64?va[i]:vResize(va[i],64),8); }
}
void Engine::jump(State&S,Frame&F,u32 to){
  Blk&b=F.f->b[to]; 
  if(!b.phi.empty()){ std::vector<V> t; std::vector<std::pair<int,std::vector<V>>> ta; for(auto&p:b.phi){ bool ok=false; for(auto&i:p.in) if(i.first==F.bb){ if(p.agg){ ta.push_back({p.dst,i.second.slot>=0?F.agg[i.second.slot]:*i.second.agg}); t.push_back(V()); } else t.push_back(get(F,i.second)); ok=true; break; } if(!ok) throw EngineError("phi"); }
    for(size_t i=0;i<t.size();i++) if(!b.phi[i].agg) F.slot[b.phi[i].dst]=t[i]; for(auto&x:ta){ if(F.agg.empty()) F.agg.resize(F.f->nslot); F.agg[x.first]=x.second; } }
  F.bb=to; F.ip=0;
}
static double asD(u64 b){ double d; memcpy(&d,&b,8); return d; } static u64 fromD(double d){ u64 b; memcpy(&b,&d,8); return b; } static float asF(u32 b){ float d; memcpy(&d,&b,4); return d; } static u32 fromF(float d){ u32 b; memcpy(&b,&d,4); return b; }
static void setAgg(Frame&F,int s,std::vector<V> v){ if(F.agg.empty()) F.agg.resize(F.f->nslot); F.agg[s]=std::move(v); }
void Engine::stepIR(State&S){
  Frame&F=S.st.back(); Ins&I=F.f->b[F.bb].ins[F.ip];
  auto G=[&](int i){ return get(F,I.o[i]); }; auto SET=[&](const V&v){ F.slot[I.dst]=v; F.ip++; };
  switch(I.op){
    case Instruction::Br: if(I.o.empty()) jump(S,F,I.t0); else { bool c=decide(S,G(0)); jump(S,F,c?I.t0:I.t1); } return;
    case Instruction::Switch: { V v=G(0); if(!v.e){ for(auto&c:I.cases) if(c.first==v.c){ jump(S,F,c.second); return; } jump(S,F,I.t0); return; }
      std::map<u32,V> by; for(auto&c:I.cases) if(c.second!=I.t0){ V q=vEq(v,V(c.first,v.w)); auto it=by.find(c.second); if(it==by.end()) by[c.second]=q; else it->second=vOr(it->second,q); }
      std::vector<u32> order; for(auto&c:I.cases) if(c.second!=I.t0&&std::find(order.begin(),order.end(),c.second)==order.end()) order.push_back(c.second);
      for(u32 t:order) if(decide(S,by[t])){ jump(S,F,t); return; } jump(S,F,I.t0); return; }
    case Instruction::Ret: doRet(S,&I); return;
    case Instruction::Unreachable: violation(S,"ub","execution reached an unreachable point",nullptr); throw PathEnd{"unreachable"};
    case Instruction::Call: callIR(S,F,I); return;
    case Instruction::Alloca: { V n=G(0); u64 k=conc(S,n,"alloca size")*I.asz; if(k>(1<<20)){ violation(S,"memory","stack allocation of more than 1 MiB",nullptr); throw PathEnd{"alloca"}; } u64 al=std::max<u64>(I.aal,16); u64 a=(S.sp-k-48)&~(al-1); if(a<STK_LO+65536){ violation(S,"memory","stack overflow",nullptr); throw PathEnd{"stack"}; } S.sp=a; S.mem->setFlags(a,k,F_R|F_W|F_ALLOC); F.allocas.push_back({a,(u32)k}); SET(V(a,64)); return; }
    case Instruction::Load: { if(auto*ST=dyn_cast<StructType>(I.I->getType())){ auto*sl=DL->getStructLayout(ST); u64 a=conc(S,G(0),"load addr"); std::vector<V> v; for(unsigned i=0;i<ST->getNumElements();i++){ unsigned w=tw(ST->getElementType(i)); v.push_back(vExtract(load(S,a+sl->getElementOffset(i),(w+7)/8),0,w)); } setAgg(F,I.dst,v); F.ip++; return; }
      if(cast<LoadInst>(I.I)->isAtomic()&&S.accs){ auto*li=cast<LoadInst>(I.I); atom=true; V p=G(0); u64 a=conc(S,p,"atomic"); V v=load(S,a,I.ld); atom=false; if(isAcquireOrStronger(li->getOrdering())) hb(S,true,a|1ull<<63); SET(vExtract(v,0,I.w)); return; }
      V v=loadV(S,G(0),I.ld); SET(vExtract(v,0,I.w)); return; }
    case Instruction::Store: { if(auto*ST=dyn_cast<StructType>(I.I->getOperand(0)->getType())){ auto*sl=DL->getStructLayout(ST); u64 a=conc(S,G(1),"store addr"); auto&ag=I.o[0].slot>=0?F.agg[I.o[0].slot]:*I.o[0].agg; for(unsigned i=0;i<ST->getNumElements();i++){ V x=ag[i]; store(S,a+sl->getElementOffset(i),vZext(x,(x.w+7)/8*8),(x.w+7)/8); } F.ip++; return; }
      if(cast<StoreInst>(I.I)->isAtomic()&&S.accs){ auto*si=cast<StoreInst>(I.I); u64 a=conc(S,G(1),"atomic"); if(isReleaseOrStronger(si->getOrdering())) hb(S,false,a|1ull<<63); atom=true; store(S,a,vZext(G(0),I.ld*8),I.ld); atom=false; F.ip++; return; }
      V v=G(0); storeV(S,G(1),vZext(v,I.ld*8),I.ld); F.ip++; return; }
    case Instruction::GetElementPtr: { V b=G(0); if(I.off) b=vAdd(b,V((u128)I.off,64)); for(auto&x:I.idx){ V i=G(x.first); i=vSext(vResize(i,std::min<unsigned>(i.w,64)),64); b=vAdd(b,vBin(O_MUL,i,V((u128)x.second,64))); } SET(b); return; }
    case Instruction::Add: SET(vAdd(G(0),G(1))); return; case Instruction::Sub: SET(vSub(G(0),G(1))); return; case Instruction::Mul: SET(vBin(O_MUL,G(0),G(1))); return;
    case Instruction::And: SET(vAnd(G(0),G(1))); return; case Instruction::Or: SET(vOr(G(0),G(1))); return; case Instruction::Xor: SET(vXor(G(0),G(1))); return;
    case Instruction::Shl: SET(vBin(O_SHL,G(0),G(1))); return; case Instruction::LShr: SET(vBin(O_LSHR,G(0),G(1))); return; case Instruction::AShr: SET(vBin(O_ASHR,G(0),G(1))); return;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { V d=G(1); if(decide(S,vEq(d,V(0,d.w)))){ violation(S,"ub","division by zero",nullptr); throw PathEnd{"div0"}; } SET(vBin(I.op==Instruction::UDiv?O_UDIV:I.op==Instruction::SDiv?O_SDIV:I.op==Instruction::URem?O_UREM:O_SREM,G(0),d)); return; }
    case Instruction::ICmp: { V a=G(0),b=G(1),r; switch(I.pred){ case CmpInst::ICMP_EQ:r=vEq(a,b);break; case CmpInst::ICMP_NE:r=vNot(vEq(a,b));break; case CmpInst::ICMP_ULT:r=vUlt(a,b);break; case CmpInst::ICMP_UGT:r=vUlt(b,a);break; case CmpInst::ICMP_ULE:r=vNot(vUlt(b,a));break; case CmpInst::ICMP_UGE:r=vNot(vUlt(a,b));break; case CmpInst::ICMP_SLT:r=vSlt(a,b);break; case CmpInst::ICMP_SGT:r=vSlt(b,a);break; case CmpInst::ICMP_SLE:r=vNot(vSlt(b,a));break; case CmpInst::ICMP_SGE:r=vNot(vSlt(a,b));break; default: throw EngineError("icmp"); } SET(r); return; }
    case Instruction::Select: { V c=G(0); if(I.I->getType()->isStructTy()) throw EngineError("select agg"); if(c.w!=1) throw EngineError("vector select"); SET(vIte(c,G(1),G(2))); return; }
    case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: { if(I.I->getType()->isVectorTy()) throw EngineError("vector cast"); SET(vResize(G(0),I.w)); return; }
    case Instruction::SExt: if(I.I->getType()->isVectorTy()) throw EngineError("vector cast"); SET(vSext(G(0),I.w)); return;
    case Instruction::Trunc: if(I.I->getType()->isVectorTy()) throw EngineError("vector cast"); SET(vExtract(G(0),0,I.w)); return;
    case Instruction::BitCast: case Instruction::Freeze: SET(G(0)); return;
    case Instruction::ExtractValue: { if(I.ei.size()!=1) throw EngineError("nested extractvalue"); auto&ag=I.o[0].slot>=0?F.agg[I.o[0].slot]:*I.o[0].agg; SET(ag[I.ei[0]]); return; }
    case Instruction::InsertValue: { if(I.ei.size()!=1) throw EngineError("nested insertvalue"); std::vector<V> ag=I.o[0].slot>=0?F.agg[I.o[0].slot]:*I.o[0].agg; ag[I.ei[0]]=G(1); setAgg(F,I.dst,ag); F.ip++; return; }
    case Instruction::ExtractElement: { V v=G(0); u64 i=conc(S,G(1),"lane"); SET(vExtract(v,i*I.w,I.w)); return; }
    case Instruction::InsertElement: { V v=G(0),e=G(1); u64 i=conc(S,G(2),"lane"); V r; for(unsigned k=0;k*e.w<v.w;k++){ V x=k==i?e:vExtract(v,k*e.w,e.w); r=k?vConcat(x,r):x; } SET(r); return; }
    case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(I.I); unsigned ew=tw(cast<VectorType>(sv->getType())->getElementType()); V a=G(0),b=G(1),r; unsigned n=a.w/ew; auto mk=sv->getShuffleMask(); for(size_t k=0;k<mk.size();k++){ int q=mk[k]; V x=q<0?V(0,ew):q<(int)n?vExtract(a,q*ew,ew):vExtract(b,(q-n)*ew,ew); r=k?vConcat(x,r):x; } SET(r); return; }
    case Instruction::Fence: F.ip++; return;
    case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(I.I); V p=G(0),v=G(1); u64 a=conc(S,p,"atomic"); hb(S,true,a|1ull<<63); atom=true; V o=load(S,a,v.w/8),r; atom=false; switch(rm->getOperation()){ case AtomicRMWInst::Xchg:r=v;break; case AtomicRMWInst::Add:r=vAdd(o,v);break; case AtomicRMWInst::Sub:r=vSub(o,v);break; case AtomicRMWInst::And:r=vAnd(o,v);break; case AtomicRMWInst::Or:r=vOr(o,v);break; case AtomicRMWInst::Xor:r=vXor(o,v);break; default: throw EngineError("atomicrmw"); } atom=true; store(S,a,r,v.w/8); atom=false; hb(S,false,a|1ull<<63); SET(o); return; }
    case Instruction::AtomicCmpXchg: { u64 a=conc(S,G(0),"cmpxchg"); hb(S,true,a|1ull<<63); V ex=G(1),nw=G(2); atom=true; V o=load(S,a,ex.w/8); V eq=vEq(o,ex); store(S,a,vIte(eq,nw,o),ex.w/8); atom=false; hb(S,false,a|1ull<<63); setAgg(F,I.dst,{o,eq}); F.ip++; return; }
    case Instruction::FNeg: SET(vXor(G(0),V((u128)1<<(I.w-1),I.w))); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { V a=G(0),b=G(1); if(a.e||b.e) { SET(fresh(S,I.w)); return; } if(I.w==64){ double x=asD(a.u()),y=asD(b.u()); double r=I.op==Instruction::FAdd?x+y:I.op==Instruction::FSub?x-y:I.op==Instruction::FMul?x*y:x/y; SET(V(fromD(r),64)); } else if(I.w==32){ float x=asF(a.u()),y=asF(b.u()); float r=I.op==Instruction::FAdd?x+y:I.op==Instruction::FSub?x-y:I.op==Instruction::FMul?x*y:x/y; SET(V(fromF(r),32)); } else throw EngineError("fp80 arithmetic"); return; }
    case Instruction::FPExt: { V a=G(0); if(!a.e&&a.w==32&&I.w==64){ SET(V(fromD(asF(a.u())),64)); return; } SET(fresh(S,I.w)); return; }
    case Instruction::FPTrunc: { V a=G(0); if(!a.e&&a.w==64&&I.w==32){ SET(V(fromF(asD(a.u())),32)); return; } SET(fresh(S,I.w)); return; }
    case Instruction::SIToFP: case Instruction::UIToFP: { V a=G(0); if(!a.e&&I.w==64){ SET(V(fromD(I.op==Instruction::SIToFP?(double)(int64_t)sx(a.c,a.w):(double)a.u()),64)); return; } SET(fresh(S,I.w)); return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { V a=G(0); if(!a.e&&a.w==64){ SET(V((u128)(s128)(int64_t)asD(a.u()),I.w)); return; } SET(fresh(S,I.w)); return; }
    case Instruction::FCmp: { V a=G(0),b=G(1); if(a.e||b.e){ SET(fresh(S,1)); return; } double x=a.w==64?asD(a.u()):asF(a.u()),y=a.w==64?asD(b.u()):asF(b.u()); bool r=false; switch(I.pred){ case CmpInst::FCMP_OEQ: r=x==y;break; case CmpInst::FCMP_UNE: r=x!=y;break; case CmpInst::FCMP_OLT:r=x<y;break; case CmpInst::FCMP_OGT:r=x>y;break; case CmpInst::FCMP_OLE:r=x<=y;break; case CmpInst::FCMP_OGE:r=x>=y;break; default: throw EngineError("fcmp"); } SET(V(r,1)); return; }
    default: throw EngineError(std::string("IR opcode ")+I.I->getOpcodeName());
  }
}
void Engine::doRet(State&S,const Ins*I){
  Frame&F=S.st.back(); V rv; bool has=false; std::vector<V> ag; bool hasAgg=false; bool fp=false;
  if(!I->o.empty()){ Type*T=I->I->getOperand(0)->getType(); if(T->isStructTy()){ hasAgg=true; ag=I->o[0].slot>=0?F.agg[I->o[0].slot]:*I->o[0].agg; } else { rv=get(F,I->o[0]); has=true; fp=T->isFloatingPointTy(); } }
  freeAllocas(S,F,0); S.sp=F.saveSp; bool toAsm=F.toAsm; int rs=F.retSlot; bool win=F.win;
  if(toAsm){ if(hasAgg) throw EngineError("aggregate return to assembly"); 
    u64 back=F.saveRip; auto opened=F.opened; static const int cr[6]={3,5,12,13,14,15}; for(int i=0;i<6;i++) S.cpu.r[cr[i]]=F.cs[i]; S.cpu.r[4]=V(F.entry_rsp,64); S.cpu.nst=0; if(win){ S.cpu.r[6]=F.csx[0]; S.cpu.r[7]=F.csx[1]; for(int i=6;i<16;i++) S.cpu.x[i]=F.csx[2+i-6]; } S.st.pop_back(); for(auto&o:opened){ S.mem->orFlags(o.first,o.second,0,F_R|F_W); }
    clobber(S,win); if(has){ if(fp){ if(rv.w>64) throw EngineError("fp80 return to asm"); S.cpu.x[0]=vConcat(fresh(S,128-rv.w),rv); } else { S.cpu.r[0]=rv.w<64?vConcat(fresh(S,64-rv.w),rv):rv; } }
    S.cpu.rip=back; S.cpu.r[4]=vAdd(S.cpu.r[4],V(8,64)); 
    // a tail call from assembly: return address belongs to the asm caller chain
    Frame&A=S.st.back(); if(A.k==K_ASM&&!A.sc.empty()&&A.sc.back().ret==back&&A.sc.back().entry_rsp+8==S.cpu.r[4].u()&&A.sc.size()>1) A.sc.pop_back();
    if((back&~0xffffull)==RETMAGIC) asmReturn(S); return; }
  S.st.pop_back(); if(S.st.empty()) throw PathEnd{"done"};
  Frame&C=S.st.back(); if(rs>=0){ if(hasAgg) setAgg(C,rs,ag); else if(has) C.slot[rs]=rv; else C.slot[rs]=fresh(S,1); } C.ip++;
}
static std::string fname(const Ins&I){ return I.callee?I.callee->getName().str():std::string(); }
void Engine::callIR(State&S,Frame&F,const Ins&I){
  const CallBase*cb=cast<CallBase>(I.I);
  if(cb->isInlineAsm()){ auto*ia=cast<InlineAsm>(cb->getCalledOperand()); if(ia->getAsmString().empty()||ia->getAsmString().find_first_not_of(" \t\n")==std::string::npos){ if(I.dst>=0&&cb->arg_size()>0) F.slot[I.dst]=get(F,I.o[0]); F.ip++; return; } throw EngineError("inline asm: "+ia->getAsmString()); }
  unsigned na=cb->arg_size(); std::vector<V> a; for(unsigned i=0;i<na;i++) a.push_back(I.o[i].agg?V(0,64):get(F,I.o[i]));
  const Function*f=I.callee; u64 addr=0;
  if(!f){ V t=get(F,I.o[na]); addr=conc(S,t,"call target"); auto it=faddr.find(addr); if(it!=faddr.end()) f=it->second; }
  if(f&&f->isDeclaration()){
    std::string n=f->getName().str();
    if(n.compare(0,5,"llvm.")==0){ if(intrinsic(S,n,I,a,F)) return; throw EngineError("intrinsic "+n); }
    u64 ad=symAddr(n); if(!ad) ad=symAddr("vp_os_"+n); if(ad){ auto it=faddr.find(ad); if(it!=faddr.end()){ f=it->second; } else { f=nullptr; addr=ad; } }
    else { V r; if(builtin(S,n,I,a,r,F)){ Frame&F2=S.st.back(); if(&F2!=nullptr&&I.dst>=0){ F2.slot[I.dst]=r.w==I.w?r:vResize(r,I.w); } F2.ip++; return; } throw EngineError("call to function the engine has no model for: "+n); }
  }
  if(f){ std::vector<V> va; unsigned np=f->arg_size(); if(f->isVarArg()) for(unsigned i=np;i<na;i++) va.push_back(a[i]); a.resize(std::min<size_t>(a.size(),np)); enterIR(S,f,a,va,I.dst,I.w); return; }
  if(addr==0x500000) throw EngineError("call to unresolved symbol");
  std::vector<Type*> ty; auto*FT=cb->getFunctionType(); for(unsigned i=0;i<na;i++) ty.push_back(cb->getArgOperand(i)->getType());
  for(unsigned i=0;i<na;i++) if(cb->isByValArgument(i)) throw EngineError("byval argument to assembly");
  enterAsm(S,addr,a,ty,cb->getCallingConv()==CallingConv::Win64,{},I.dst,I.w,FT->getReturnType(),FT->isVarArg());
}
bool Engine::intrinsic(State&S,const std::string&n,const Ins&I,std::vector<V>&a,Frame&F){
  auto pre=[&](const char*p){ return n.compare(0,strlen(p),p)==0; }; auto SET=[&](const V&v){ if(I.dst>=0) F.slot[I.dst]=v; F.ip++; return true; };
  if(pre("llvm.memcpy")||pre("llvm.memmove")){ u64 k=conc(S,a[2],"memcpy length"); u64 d=conc(S,a[0],"memcpy dst"); 
    if(a[1].e){ u128 kv; if(!tryKnown(S,a[1].e,kv)&&k<=16&&k>0&&a[1].e->citree){ V v=loadV(S,a[1],k); store(S,d,v,k); F.ip++; return true; } }
    u64 s=conc(S,a[1],"memcpy src"); if(k) copyBytes(S,d,s,k,false); F.ip++; return true; }
  if(pre("llvm.memset")){ u64 k=conc(S,a[2],"memset length"); u64 d=conc(S,a[0],"memset dst"); if(k){ acc(S,d,k,true,false); if(S.accs) race(S,d,k,true); for(u64 i=0;i<k;i++) storeByte(S,d+i,a[1]); } F.ip++; return true; }
  if(pre("llvm.lifetime")||pre("llvm.dbg")||pre("llvm.prefetch")||pre("llvm.donothing")||pre("llvm.clear_cache")||pre("llvm.experimental.noalias")||pre("llvm.var.annotation")||pre("llvm.va_end")){ F.ip++; return true; }
  if(pre("llvm.assume")){ if(!assume(S,a[0])){ violation(S,"ub","compiler assumption violated",nullptr); throw PathEnd{"assume"}; } F.ip++; return true; }
  if(pre("llvm.expect")) return SET(a[0]);
  if(pre("llvm.stacksave")) return SET(V(S.sp,64));
  if(pre("llvm.stackrestore")){ u64 t=a[0].u(); while(!F.allocas.empty()&&F.allocas.back().first<t) freeAllocas(S,F,F.allocas.size()-1); S.sp=t; F.ip++; return true; }
  if(pre("llvm.umin")) return SET(vIte(vUlt(a[0],a[1]),a[0],a[1])); if(pre("llvm.umax")) return SET(vIte(vUlt(a[0],a[1]),a[1],a[0]));
  if(pre("llvm.smin")) return SET(vIte(vSlt(a[0],a[1]),a[0],a[1])); if(pre("llvm.smax")) return SET(vIte(vSlt(a[0],a[1]),a[1],a[0]));
  if(pre("llvm.abs")) return SET(vIte(vSlt(a[0],V(0,a[0].w)),vSub(V(0,a[0].w),a[0]),a[0]));
  if(pre("llvm.uadd.sat")){ V s=vAdd(a[0],a[1]); return SET(vIte(vUlt(s,a[0]),V(~(u128)0,s.w),s)); } if(pre("llvm.usub.sat")) return SET(vIte(vUlt(a[0],a[1]),V(0,a[0].w),vSub(a[0],a[1])));
  if(pre("llvm.uadd.with.overflow")){ V s=vAdd(a[0],a[1]); setAgg(F,I.dst,{s,vUlt(s,a[0])}); F.ip++; return true; }
  if(pre("llvm.usub.with.overflow")){ V s=vSub(a[0],a[1]); setAgg(F,I.dst,{s,vUlt(a[0],a[1])}); F.ip++; return true; }
  if(pre("llvm.umul.with.overflow")){ unsigned w=a[0].w; if(w>64) throw EngineError("umulo"); V s=vBin(O_MUL,vZext(a[0],2*w),vZext(a[1],2*w)); setAgg(F,I.dst,{vExtract(s,0,w),vNot(vEq(vExtract(s,w,w),V(0,w)))}); F.ip++; return true; }
  if(pre("llvm.smul.with.overflow")){ unsigned w=a[0].w; if(w>64) throw EngineError("smulo"); V s=vBin(O_MUL,vSext(a[0],2*w),vSext(a[1],2*w)); V lo=vExtract(s,0,w); setAgg(F,I.dst,{lo,vNot(vEq(vSext(lo,2*w),s))}); F.ip++; return true; }
  if(pre("llvm.sadd.with.overflow")){ unsigned w=a[0].w; V s=vAdd(vSext(a[0],w+1),vSext(a[1],w+1)); V lo=vExtract(s,0,w); setAgg(F,I.dst,{lo,vNot(vEq(vSext(lo,w+1),s))}); F.ip++; return true; }
  if(pre("llvm.ctpop")){ V r(0,a[0].w); for(unsigned i=0;i<a[0].w;i++) r=vAdd(r,vZext(vExtract(a[0],i,1),a[0].w)); return SET(r); }
  if(pre("llvm.cttz")){ V r(a[0].w,a[0].w); for(int i=a[0].w-1;i>=0;i--) r=vIte(vExtract(a[0],i,1),V(i,a[0].w),r); return SET(r); }
  if(pre("llvm.ctlz")){ V r(a[0].w,a[0].w); for(unsigned i=0;i<a[0].w;i++) r=vIte(vExtract(a[0],i,1),V(a[0].w-1-i,a[0].w),r); return SET(r); }
  if(pre("llvm.bswap")){ V r=vExtract(a[0],0,8); for(unsigned i=8;i<a[0].w;i+=8) r=vConcat(r,vExtract(a[0],i,8)); return SET(r); }
  if(pre("llvm.fshl")||pre("llvm.fshr")){ bool l=pre("llvm.fshl"); unsigned w=a[0].w; if(2*w>128) throw EngineError("fsh"); u64 k=conc(S,a[2],"funnel")%w; V c=vConcat(a[0],a[1]); return SET(l?vExtract(c,w-k,w):vExtract(c,k,w)); }
  if(pre("llvm.va_start")){ u64 p=conc(S,a[0],"va"); store(S,p,V(48,32),4); store(S,p+4,V(176,32),4); store(S,p+8,V(F.vaArea,64),8); store(S,p+16,V(0,64),8); F.ip++; return true; }
  if(pre("llvm.va_copy")){ copyBytes(S,conc(S,a[0],"va"),conc(S,a[1],"va"),24,false); F.ip++; return true; }
  if(pre("llvm.trap")||pre("llvm.debugtrap")||pre("llvm.ubsantrap")){ violation(S,"abort","the library aborts",nullptr); throw PathEnd{"trap"}; }
  if(pre("llvm.objectsize")) return SET(V(~(u128)0,I.w));
  if(pre("llvm.is.constant")) return SET(V(0,1));
  if(pre("llvm.load.relative")){ V o=loadV(S,vAdd(a[0],vSext(a[1],64)),4); return SET(vAdd(a[0],vSext(o,64))); }
  if(pre("llvm.ptrmask")) return SET(vAnd(a[0],a[1]));
  if(pre("llvm.threadlocal.address")) return SET(a[0]);
  if(pre("llvm.frameaddress")||pre("llvm.returnaddress")||pre("llvm.sponentry")) return SET(fresh(S,64));
  if(pre("llvm.fabs")) return SET(vAnd(a[0],V(maskw(a[0].w-1),a[0].w)));
  if(pre("llvm.copysign")) return SET(vOr(vAnd(a[0],V(maskw(a[0].w-1),a[0].w)),vAnd(a[1],V((u128)1<<(a[0].w-1),a[0].w))));
  return false;
}
bool Engine::builtin(State&S,const std::string&n,const Ins&I,std::vector<V>&a,V&ret,Frame&F){
  ret=V(0,I.w?I.w:64);
  if(n=="memcpy"||n=="memmove"||n=="memset"){ u32 ip=F.ip; intrinsic(S,"llvm."+n,I,a,F); S.st.back().ip=ip; ret=a[0]; return true; }
  if(n.compare(0,3,"vp_")){ 
    if(n=="abort"||n=="__assert_fail"||n=="exit"||n=="_exit"){ violation(S,"abort","the library aborts",nullptr); throw PathEnd{"abort"}; }
    if(n=="__cxa_guard_acquire"||n=="__cxa_atexit") return true;
    return false; }
  auto addRec=[&](u32 cnt,const std::string&nm){ if(replay) return; SymRec r; r.first=S.nsym; r.count=cnt; r.name=nm; S.recs.push_back(r); };
  auto nextIn=[&](u32 cnt,const std::string&nm)->const std::vector<u8>&{ static std::vector<u8> none; if(S.inIdx>=replayIn.size()){ none.assign(cnt,0); return none; } auto&r=replayIn[S.inIdx++]; if(r.first!=nm||r.second.size()!=cnt) throw EngineError("replay input mismatch at "+nm); return r.second; };
  auto bytes=[&](u32 k){ V v; if(replay){ auto&b=nextIn(k,cstr(S,a[n=="vp_sym"?2:0].u())); u128 x=0; for(u32 i=0;i<k;i++) x|=(u128)b[i]<<(8*i); return V(x,8*k); } for(u32 i=0;i<k;i++){ V b=fresh(S,8); v=i?vConcat(b,v):b; } return v; };
  if(n=="vp_engine"){ ret=V(1,32); return true; }
  if(n=="vp_sym"){ u64 p=conc(S,a[0],"vp_sym"),k=conc(S,a[1],"vp_sym"); if(!k) return true; acc(S,p,k,true,false); addRec(k,cstr(S,a[2].u())); if(replay){ auto&b=nextIn(k,cstr(S,a[2].u())); for(u64 i=0;i<k;i++) storeByte(S,p+i,V(b[i],8)); return true; } for(u64 i=0;i<k;i++) storeByte(S,p+i,fresh(S,8)); return true; }
  if(n=="vp_havoc"){ u64 p=conc(S,a[0],"havoc"),k=conc(S,a[1],"havoc"); for(u64 i=0;i<k;i++) storeByte(S,p+i,fresh(S,8)); return true; }
  if(n=="vp_u64"){ addRec(8,cstr(S,a[0].u())); ret=bytes(8); return true; }
  if(n=="vp_u32"){ addRec(4,cstr(S,a[0].u())); ret=bytes(4); return true; }
  if(n=="vp_u8"){ addRec(1,cstr(S,a[0].u())); ret=bytes(1); return true; }
  if(n=="vp_range"){ u64 lo=conc(S,a[1],"range"),hi=conc(S,a[2],"range"); if(lo>hi) throw PathEnd{"empty range"}; u32 k=hi<256?1:hi<65536?2:hi<(1ull<<32)?4:8; addRec(k,cstr(S,a[0].u())); V v=bytes(k); if(replay){ u64 x=v.u(); if(x<lo||x>hi) throw EngineError("replay input out of range"); ret=V(x,64); return true; }
    // the freshly created symbols are unconstrained, so the range is satisfiable: extend the model directly
    auto m=std::make_shared<Model>(*S.model); growModel(*m,S.nsym); for(u32 i=0;i<k;i++) (*m)[S.nsym-k+i]=(lo>>(8*i))&255; S.model=m;
    if(lo==hi){ addC(S,X(vEq(v,V(lo,8*k)))); ret=V(lo,64); return true; }
    V c1=vNot(vUlt(v,V(lo,8*k))); if(c1.e) addC(S,c1.e); if(hi!=(k==8?~0ull:(1ull<<(8*k))-1)){ V c2=vNot(vUlt(V(hi,8*k),v)); if(c2.e) addC(S,c2.e); } ret=vZext(v,64); return true; }
  if(n=="vp_assume"){ V c=vNot(vEq(a[0],V(0,a[0].w))); if(!assume(S,c)){ st.killed++; throw PathEnd{"assume"}; } return true; }
  if(n=="vp_assert"){ V c=vNot(vEq(a[0],V(0,a[0].w))); check_assert(S,c,"assert",cstr(S,a[1].u())); return true; }
  if(n=="vp_fail"){ check_assert(S,V(0,1),"assert",cstr(S,a[0].u())); return true; }
  if(n=="vp_assert_eq"){ u64 p=conc(S,a[0],"eq"),q=conc(S,a[1],"eq"),k=conc(S,a[2],"eq"); V r(1,1); for(u64 i=0;i<k;i+=8){ u64 m=std::min<u64>(8,k-i); V x=load(S,p+i,m),y=load(S,q+i,m); r=vAnd(r,vEq(x,y)); } check_assert(S,r,"assert",cstr(S,a[3].u())); return true; }
  if(n=="vp_memeq"){ u64 p=conc(S,a[0],"eq"),q=conc(S,a[1],"eq"),k=conc(S,a[2],"eq"); V r(1,1); for(u64 i=0;i<k;i++) r=vAnd(r,vEq(load(S,p+i,1),load(S,q+i,1))); ret=vZext(r,32); return true; }
  if(n=="vp_cover"){ std::string s=cstr(S,a[0].u()); static std::set<std::string> pool; S.covers.push_back(pool.insert(s).first->c_str()); return true; }
  if(n=="vp_note"){ char b[200]; if(a[1].e){ newEpoch(); u128 v=eval(a[1].e,*S.model); snprintf(b,sizeof b,"%s=%llu (in this model)",cstr(S,a[0].u()).c_str(),(unsigned long long)v); } else snprintf(b,sizeof b,"%s=%llu",cstr(S,a[0].u()).c_str(),(unsigned long long)a[1].u()); S.notes.push_back(b); return true; }
  if(n=="vp_end") throw PathEnd{"done"};
  if(n=="vp_alloc"){ u64 k=conc(S,a[0],"alloc"),al=conc(S,a[1],"alloc"); ret=V(allocObj(S,k,al,false),64); return true; }
  if(n=="vp_objsize"){ u64 p=a[0].u(); ret=V(~0ull,64); for(auto&o:S.objs) if(o.first==p) ret=V(o.second,64); return true; }
  if(n=="vp_free"){ u64 p=conc(S,a[0],"free"); for(size_t i=0;i<S.objs.size();i++) if(S.objs[i].first==p){ S.mem->setFlags(p,S.objs[i].second,0); S.objs.erase(S.objs.begin()+i); return true; } violation(S,"memory","invalid or double free",nullptr); throw PathEnd{"free"}; }
  if(n=="vp_protect"){ u64 p=conc(S,a[0],"protect"),k=conc(S,a[1],"protect"),m=conc(S,a[2],"protect"); S.mem->orFlags(p,k,(u8)((m&1?F_R:0)|(m&2?F_W:0)|(m&4?F_POISON:0)),F_R|F_W|F_POISON); return true; }
  if(n=="vp_share"){ u64 p=conc(S,a[0],"share"),k=conc(S,a[1],"share"); S.mem->orFlags(p,k,F_SHARED,0); return true; }
  if(n=="vp_accessible"){ u64 p=conc(S,a[0],"acc"),k=conc(S,a[1],"acc"),m=conc(S,a[2],"acc"); ret=V(accOk(S,p,k,m&2,false)?1:0,32); return true; }
  if(n=="vp_conc"){ ret=V(conc(S,a[0],"vp_conc"),a[0].w); return true; }
  if(n=="vp_select"){ ret=vIte(vNot(vEq(a[0],V(0,a[0].w))),a[1],a[2]); return true; }
  if(n=="vp_mapraw"||n=="vp_mapshared"){ u64 k=(conc(S,a[0],"map")+4095)&~4095ull; u64 f=n=="vp_mapshared"?3:conc(S,a[1],"map"); u64&t=S.vars[1]; if(!t) t=MMAP0; u64 p=t; t+=k+0x10000; S.mem->map(p,k,(u8)(F_INIT|F_ALLOC|(f&1?F_R:0)|(f&2?F_W:0))); ret=V(p,64); return true; }
  if(n=="vp_unmapraw"){ u64 p=conc(S,a[0],"unmap"),k=(conc(S,a[1],"unmap")+4095)&~4095ull; if(k){ S.unalias(p,k); S.mem->unmap(p,k); } return true; }
  if(n=="vp_setperm"){ u64 p=conc(S,a[0],"perm"),k=conc(S,a[1],"perm"),f=conc(S,a[2],"perm"); S.mem->orFlags(p,k,(u8)((f&1?F_R:0)|(f&2?F_W:0)),F_R|F_W); return true; }
  if(n=="vp_copyraw"){ u64 d=conc(S,a[0],"copyraw"),s=conc(S,a[1],"copyraw"),k=conc(S,a[2],"copyraw");
    for(u64 i=0;i<k;){ u64 td=S.tr(d+i); u64 c=std::min<u64>(k-i,PS-td%PS); bool blank=false;
      if(S.tr(d+i+c-1)==td+c-1&&!S.mem->m.count(td/PS)){ blank=true; for(auto&r:S.mem->reg) if(r.a<=td&&td+c<=r.a+r.n&&!(r.f&F_INIT)) blank=false; bool cov=false; for(auto&r:S.mem->reg) if(r.a<=td&&td+c<=r.a+r.n) cov=true; blank=blank&&cov; }
      if(blank){ u64 ts=S.tr(s+i); bool zs=false; if(S.tr(s+i+c-1)==ts+c-1&&ts/PS==(ts+c-1)/PS&&!S.mem->m.count(ts/PS)) for(auto&r:S.mem->reg) if(r.a<=ts&&ts+c<=r.a+r.n&&(r.f&F_INIT)) zs=true; if(!zs){ zs=true; for(u64 q=0;q<c&&zs;q++){ if(!(S.mem->flags(S.tr(s+i+q))&F_INIT)) continue; V b=loadByte(S,s+i+q); if(b.e||b.c) zs=false; } } if(zs){ i+=c; continue; } }
      for(u64 q=0;q<c;q++,i++){ V b=(S.mem->flags(S.tr(s+i))&F_INIT)?loadByte(S,s+i):V(0,8); storeByte(S,d+i,b); } } return true; }
  if(n=="vp_alias"){ u64 p=conc(S,a[0],"alias"),k=conc(S,a[1],"alias"),t=conc(S,a[2],"alias"); S.unalias(p,k); S.alias.push_back({p,k,t}); return true; }
  if(n=="vp_max"){ u64 lo; { newEpoch(); lo=a[0].e?(u64)eval(a[0].e,*S.model):a[0].u(); } if(!a[0].e||replay){ ret=a[0]; return true; } u128 kn; if(tryKnown(S,a[0].e,kn)){ ret=V(kn,64); return true; } u64 hi=~0ull; // largest feasible value
    for(u64 g=16;g;g=g<<4){ Model m; V c=vUlt(V(lo+g<lo?~0ull:lo+g,64),a[0]); if(lo+g<lo||!(c.e?check(S,{c.e},&m):(int)(c.c&1))){ if(lo+g>=lo) hi=lo+g; break; } newEpoch(); lo=(u64)eval(a[0].e,m); }
    while(lo<hi){ u64 mid=lo+(hi-lo)/2; Model m; V c=vUlt(V(mid,64),a[0]); bool y=c.e?check(S,{c.e},&m):(c.c&1); if(!y) hi=mid; else if(c.e){ newEpoch(); lo=(u64)eval(a[0].e,m); } else lo=mid+1; } ret=V(lo,64); return true; }
  if(n=="vp_threads"){ S.accs=std::make_shared<AccMap>(); S.thr.resize(MAXT); S.vc.assign(MAXT,VC{}); for(int t=0;t<MAXT;t++) S.vc[t][t]=1; S.cur=0; S.rel.clear(); return true; }
  if(n=="vp_unthread"){ S.accs.reset(); return true; }
  if(n=="vp_thread"){ u64 t=conc(S,a[0],"thread"),fn=conc(S,a[1],"thread"); auto it=faddr.find(fn); if(it==faddr.end()||t<1||t>=(u64)MAXT) throw EngineError("vp_thread"); Thread keep; keep.st.swap(S.st); keep.cpu=S.cpu; keep.sp=S.sp; S.sp=STK_LO+t*0x80000; V arg=a[2]; enterIR(S,it->second,{arg},{},-1,0); S.st.back().ip=(u32)-1; // vp_switch steps over the call it returns from
    Thread&T=S.thr[t]; T.st.swap(S.st); T.cpu=S.cpu; T.sp=S.sp; S.st.swap(keep.st); S.cpu=keep.cpu; S.sp=keep.sp; return true; }
  if(n=="vp_switch"){ u64 t=conc(S,a[0],"switch"); if(t>=(u64)MAXT) throw EngineError("vp_switch"); if((int)t!=S.cur){ Thread&T=S.thr[S.cur]; T.st.swap(S.st); T.cpu=S.cpu; T.sp=S.sp; Thread&N=S.thr[t]; if(N.st.empty()) throw EngineError("switch to no thread"); S.st.swap(N.st); N.st.clear(); S.cpu=N.cpu; S.sp=N.sp; S.cur=(int)t; } return true; }
  if(n=="vp_hb"){ hb(S,conc(S,a[0],"hb")!=0,conc(S,a[1],"hb")); return true; }
  if(n=="vp_tracef"){ if(verbose) fprintf(stderr,"[trace %u] %s %llx\n",S.id,cstr(S,a[0].u()).c_str(),(unsigned long long)a[1].c); return true; }
  return false;
}
// Happens-before race detection: vector clocks advance at releases; two accesses to a byte, one of them a
// write, neither ordered by the locks taken so far, are a race whatever values are involved.
void Engine::hb(State&S,bool acq,u64 key){ if(!S.accs) return; VC&c=S.vc[S.cur]; if(acq){ auto it=S.rel.find(key); if(it!=S.rel.end()) for(int i=0;i<MAXT;i++) c[i]=std::max(c[i],it->second[i]); } else { VC&r=S.rel[key]; for(int i=0;i<MAXT;i++) r[i]=std::max(r[i],c[i]); c[S.cur]++; } }
void Engine::race(State&S,u64 a,u64 n,bool wr){ bool atomic=atom;
  if(a>=STK_LO&&a<STK_HI) return; Frame&F=S.st.back(); const char*fn="?"; bool map=a>=MMAP0&&a<STK_LO;
  if(F.k==K_IR){ if(!F.f->lib&&(!map||F.f->name.compare(0,6,"vp_os_")==0)) return; fn=F.f->name.c_str(); }
  else { if(isHarness(S.cpu.rip)) return; auto q=asmNames.upper_bound(S.cpu.rip); if(q!=asmNames.begin()){ --q; fn=q->second.c_str(); } }
  if(S.accs.use_count()>1) S.accs=std::make_shared<AccMap>(*S.accs);
  VC&c=S.vc[S.cur]; 
  for(u64 i=0;i<n;i++){ Acc&x=(*S.accs)[S.tr(a+i)]; const char*other=nullptr; const char*how="";
    if(x.wc&&x.wt!=S.cur&&x.wc>c[x.wt]&&!(atomic&&x.wat)){ other=x.wf; how=wr?"write and write":"write and read"; }
    if(wr&&!other) for(int t=0;t<MAXT;t++) if(t!=S.cur&&x.rc[t]&&x.rc[t]>c[t]){ other=x.rf[t]; how="read and write"; }
    if(other){ char b[120]; snprintf(b,sizeof b,"address 0x%llx",(unsigned long long)(a+i)); S.notes.push_back(b); std::string m="data race: unordered "; m+=how; m+=" in "; m+=other; m+=" and "; m+=fn; violation(S,"race",m,nullptr); S.notes.pop_back(); }
    if(wr){ x.wt=(u8)S.cur; x.wat=atomic; x.wc=c[S.cur]; x.wf=fn; } else if(!atomic){ x.rc[S.cur]=c[S.cur]; x.rf[S.cur]=fn; } }
}
