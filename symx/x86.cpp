#include "engine.h"
#include <llvm/MC/MCDisassembler/MCDisassembler.h>
#include <llvm/MC/MCAsmInfo.h>
#include <llvm/MC/MCContext.h>
#include <llvm/MC/MCInst.h>
#include <llvm/MC/MCInstrInfo.h>
#include <llvm/MC/MCRegisterInfo.h>
#include <llvm/MC/MCSubtargetInfo.h>
#include <llvm/MC/MCTargetOptions.h>
#include <llvm/MC/TargetRegistry.h>
#include <llvm/Support/TargetSelect.h>
#include <llvm/IR/CallingConv.h>
#include <llvm/IR/DerivedTypes.h>
using namespace llvm;
enum Kind { XK_NONE, XK_MOV, XK_MOVZX, XK_MOVSX, XK_LEA, XK_PUSH, XK_POP, XK_CALL, XK_JMP, XK_JCC, XK_RET, XK_LEAVE, XK_NOP, XK_TRAP,
  XK_ADD, XK_SUB, XK_AND, XK_OR, XK_XOR, XK_CMP, XK_TEST, XK_ADC, XK_SBB, XK_INC, XK_DEC, XK_NEG, XK_NOT, XK_SHL, XK_SHR, XK_SAR, XK_IMUL, XK_CMOV, XK_SETCC, XK_XCHG, XK_CLD, XK_STD, XK_MOVS, XK_STOS, XK_REP,
  XK_VMOV /*128*/, XK_VMOVS /*scalar w*/, XK_VMOVLP, XK_VMOVHP, XK_VMOVQ, XK_VXOR, XK_VAND, XK_VOR, XK_PUNPCKL, XK_PUNPCKH, XK_FLD, XK_FST, XK_FLDC, XK_FXCH, XK_BSWAP, XK_CDQE, XK_BT, XK_MUL1, XK_DIV1, XK_CQO, XK_SHUFPD, XK_FSTREG, XK_FLDREG };
struct Dec { int k=0; unsigned w=0, w2=0; int dir=0; std::string name; MCInst in; unsigned size=0; int mem=-1; bool st=false; int imm=-1; int cc=-1; bool pop=false; int n=0; bool rep=false; bool cl=false; };
struct RegI { int kind=0; int idx=0; unsigned off=0,w=64; }; // kind 1 gpr 2 xmm 3 rip 4 st
struct Engine::X86 { const Target*T; std::unique_ptr<MCRegisterInfo> MRI; std::unique_ptr<MCAsmInfo> MAI; std::unique_ptr<MCSubtargetInfo> STI; std::unique_ptr<MCInstrInfo> MII; std::unique_ptr<MCContext> C; std::unique_ptr<MCDisassembler> D; std::vector<RegI> regs; std::unordered_map<u64,Dec*> cache; std::map<std::string,Dec*> dyn;
  struct Row { bool ok=false; bool expr=false; int cfaReg=-1; int64_t cfaOff=0; std::map<int,std::pair<int,int64_t>> r; std::vector<u8> cfaExpr; std::map<int,std::vector<u8>> rexpr; }; std::unordered_map<u64,Row> rows; };
static int dw2g(int d){ static const int t[16]={0,2,1,3,6,7,5,4,8,9,10,11,12,13,14,15}; return d<16?t[d]:-1; }
const int CSR[6]={3,5,12,13,14,15};
void Engine::x86init(){
  LLVMInitializeX86TargetInfo(); LLVMInitializeX86TargetMC(); LLVMInitializeX86Disassembler();
  x=new X86; std::string err,tt="x86_64-unknown-linux-gnu"; x->T=TargetRegistry::lookupTarget(tt,err); if(!x->T) throw EngineError(err);
  x->MRI.reset(x->T->createMCRegInfo(tt)); MCTargetOptions o; x->MAI.reset(x->T->createMCAsmInfo(*x->MRI,tt,o)); x->STI.reset(x->T->createMCSubtargetInfo(tt,"","")); x->MII.reset(x->T->createMCInstrInfo()); x->C.reset(new MCContext(Triple(tt),x->MAI.get(),x->MRI.get(),x->STI.get())); x->D.reset(x->T->createMCDisassembler(*x->STI,*x->C));
  x->regs.resize(x->MRI->getNumRegs()); const char*g[16]={"AX","CX","DX","BX","SP","BP","SI","DI"};
  for(unsigned i=1;i<x->MRI->getNumRegs();i++){ std::string n=x->MRI->getName(i); RegI r; 
    for(int k=0;k<8;k++){ std::string b=g[k]; if(n=="R"+b) r={1,k,0,64}; else if(n=="E"+b) r={1,k,0,32}; else if(n==b) r={1,k,0,16}; else if(k<4&&n==b.substr(0,1)+"L") r={1,k,0,8}; else if(k<4&&n==b.substr(0,1)+"H") r={1,k,8,8}; else if(k>=4&&n==b+"L") r={1,k,0,8}; }
    if(n.size()>=2&&n[0]=='R'&&isdigit(n[1])){ int k=atoi(n.c_str()+1); std::string s=n.substr(k>=10?3:2); if(k>=8&&k<16){ if(s=="") r={1,k,0,64}; else if(s=="D") r={1,k,0,32}; else if(s=="W") r={1,k,0,16}; else if(s=="B") r={1,k,0,8}; } }
    if(n.compare(0,3,"XMM")==0){ int k=atoi(n.c_str()+3); if(k<16) r={2,k,0,128}; }
    if(n=="RIP"||n=="EIP") r={3,0,0,64}; if(n.compare(0,2,"ST")==0&&n.size()==3) r={4,n[2]-'0',0,80};
    x->regs[i]=r; }
}
static bool st(const std::string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }
static void classify(Dec&d){
  std::string n=d.name; auto full=[&](std::initializer_list<const char*> l){ for(auto p:l) if(n==p) return true; return false; };
  int nop=d.in.getNumOperands();
  auto memLast=[&](int tail){ d.mem=nop-5-tail; };
  if(full({"ENDBR64","NOOP","NOOPL","NOOPW","NOOPQ","NOOPLr","NOOPWr","NOOPQr","PAUSE","LFENCE","SFENCE","MFENCE","WAIT","ENDBR32"})){ d.k=XK_NOP; return; }
  if(st(n,"PREFETCH")){ d.k=XK_NOP; return; }
  if(full({"INT3","TRAP","UD1","HLT"})){ d.k=XK_TRAP; return; }
  if(full({"REP_PREFIX"})){ d.k=XK_REP; return; }
  if(full({"JMP_1","JMP_4","JMP_2"})){ d.k=XK_JMP; d.n=0; return; } if(full({"JMP64r","JMP64r_NT"})){ d.k=XK_JMP; d.n=1; return; } if(full({"JMP64m","JMP64m_NT"})){ d.k=XK_JMP; d.n=2; d.mem=0; return; }
  if(full({"JCC_1","JCC_4","JCC_2"})){ d.k=XK_JCC; d.cc=1; return; }
  if(full({"CALL64pcrel32"})){ d.k=XK_CALL; d.n=0; return; } if(full({"CALL64r","CALL64r_NT"})){ d.k=XK_CALL; d.n=1; return; } if(full({"CALL64m","CALL64m_NT"})){ d.k=XK_CALL; d.n=2; d.mem=0; return; }
  if(full({"RET64"})){ d.k=XK_RET; d.n=0; return; } if(full({"RETI64"})){ d.k=XK_RET; d.n=1; return; }
  if(full({"LEAVE64"})){ d.k=XK_LEAVE; return; } if(full({"CLD"})){ d.k=XK_CLD; return; } if(full({"STD"})){ d.k=XK_STD; return; }
  if(full({"CDQE"})){ d.k=XK_CDQE; return; } if(full({"CQO"})){ d.k=XK_CQO; d.w=64; return; } if(full({"CDQ"})){ d.k=XK_CQO; d.w=32; return; }
  if(full({"MOVSB","MOVSW","MOVSL","MOVSQ"})){ d.k=XK_MOVS; d.w=n=="MOVSB"?8:n=="MOVSW"?16:n=="MOVSL"?32:64; return; }
  if(full({"STOSB","STOSW","STOSL","STOSQ"})){ d.k=XK_STOS; d.w=n=="STOSB"?8:n=="STOSW"?16:n=="STOSL"?32:64; return; }
  if(st(n,"MOVAPS")||st(n,"MOVUPS")||st(n,"MOVAPD")||st(n,"MOVUPD")||st(n,"MOVDQA")||st(n,"MOVDQU")||st(n,"LDDQU")||st(n,"MOVNTPS")||st(n,"MOVNTDQ")){ d.k=XK_VMOV; d.w=128; d.n=(n.find("APS")!=std::string::npos||n.find("APD")!=std::string::npos||n.find("DQA")!=std::string::npos||n.find("NT")!=std::string::npos); std::string f=n.substr(6); if(n.find("mr")!=std::string::npos){ d.mem=0; d.st=true; } else if(n.find("rm")!=std::string::npos) d.mem=1; return; }
  if(st(n,"MOVSSmr")||st(n,"MOVSDmr")){ d.k=XK_VMOVS; d.w=n[4]=='S'&&n[3]=='S'?32:64; d.w=st(n,"MOVSS")?32:64; d.mem=0; d.st=true; return; }
  if(st(n,"MOVSSrm")||st(n,"MOVSDrm")){ d.k=XK_VMOVS; d.w=st(n,"MOVSS")?32:64; d.mem=1; return; }
  if(st(n,"MOVSSrr")||st(n,"MOVSDrr")){ d.k=XK_VMOVS; d.w=st(n,"MOVSS")?32:64; return; }
  if(st(n,"MOVLPS")||st(n,"MOVLPD")){ d.k=XK_VMOVLP; if(n.find("mr")!=std::string::npos){ d.mem=0; d.st=true; } else memLast(0); return; }
  if(st(n,"MOVHPS")||st(n,"MOVHPD")){ d.k=XK_VMOVHP; if(n.find("mr")!=std::string::npos){ d.mem=0; d.st=true; } else memLast(0); return; }
  if(full({"MOVHLPSrr"})){ d.k=XK_PUNPCKH; d.n=1; return; } if(full({"MOVLHPSrr"})){ d.k=XK_PUNPCKL; return; }
  if(full({"MOV64toPQIrr","MOVDI2PDIrr","MOV64toSDrr","MOVDI2SSrr"})){ d.k=XK_VMOVQ; d.n=0; d.w=st(n,"MOV64")?64:32; return; }
  if(full({"MOV64toPQIrm","MOVDI2PDIrm","MOVQI2PQIrm"})){ d.k=XK_VMOVQ; d.n=1; d.w=st(n,"MOVDI")?32:64; d.mem=1; return; }
  if(full({"MOVPQIto64rr","MOVPDI2DIrr","MOVSDto64rr","MOVSS2DIrr"})){ d.k=XK_VMOVQ; d.n=2; d.w=n.find("64")!=std::string::npos?64:32; return; }
  if(full({"MOVPQIto64mr","MOVPDI2DImr","MOVPQI2QImr"})){ d.k=XK_VMOVQ; d.n=3; d.w=st(n,"MOVPDI")?32:64; d.mem=0; d.st=true; return; }
  if(full({"MOVZPQILo2PQIrr","MOVPQI2QIrr"})){ d.k=XK_VMOVQ; d.n=4; d.w=64; return; }
  if(st(n,"XORPSr")||st(n,"XORPDr")||st(n,"PXORr")){ d.k=XK_VXOR; if(n.find("rm")!=std::string::npos) memLast(0); return; }
  if(st(n,"ANDPSr")||st(n,"ANDPDr")||st(n,"PANDr")){ d.k=XK_VAND; if(n.find("rm")!=std::string::npos) memLast(0); return; }
  if(st(n,"ORPSr")||st(n,"ORPDr")||st(n,"PORr")){ d.k=XK_VOR; if(n.find("rm")!=std::string::npos) memLast(0); return; }
  if(full({"PUNPCKLQDQrr","UNPCKLPDrr"})){ d.k=XK_PUNPCKL; return; } if(full({"PUNPCKHQDQrr","UNPCKHPDrr"})){ d.k=XK_PUNPCKH; return; }
  if(full({"SHUFPDrri"})){ d.k=XK_SHUFPD; return; }
  if(full({"LD_F80m"})){ d.k=XK_FLD; d.w=80; d.mem=0; return; } if(full({"LD_F64m"})){ d.k=XK_FLD; d.w=64; d.mem=0; return; } if(full({"LD_F32m"})){ d.k=XK_FLD; d.w=32; d.mem=0; return; }
  if(full({"ST_FP80m"})){ d.k=XK_FST; d.w=80; d.mem=0; d.pop=true; return; } if(full({"ST_FP64m","ST_F64m"})){ d.k=XK_FST; d.w=64; d.mem=0; d.pop=n=="ST_FP64m"; return; } if(full({"ST_FP32m","ST_F32m"})){ d.k=XK_FST; d.w=32; d.mem=0; d.pop=n=="ST_FP32m"; return; }
  if(full({"LD_F0","LD_F1"})){ d.k=XK_FLDC; d.n=n=="LD_F1"; return; } if(full({"XCH_F"})){ d.k=XK_FXCH; return; } if(full({"ST_FPrr","ST_Frr"})){ d.k=XK_FSTREG; d.pop=n=="ST_FPrr"; return; } if(full({"LD_Frr"})){ d.k=XK_FLDREG; return; }
  if(full({"SETCCr"})){ d.k=XK_SETCC; d.w=8; d.cc=1; return; } if(full({"SETCCm"})){ d.k=XK_SETCC; d.w=8; d.mem=0; d.st=true; d.cc=5; return; }
  // generic integer forms
  size_t i=0; while(i<n.size()&&isupper(n[i])) i++; size_t j=i; while(j<n.size()&&isdigit(n[j])) j++; if(i==j) return; std::string base=n.substr(0,i),f=n.substr(j); unsigned w=atoi(n.substr(i,j-i).c_str()); d.w=w;
  size_t us=f.find('_'); std::string fsuf=us==std::string::npos?"":f.substr(us); if(us!=std::string::npos&&!st(f,"_")) f=f.substr(0,us);
  static const std::map<std::string,int> alu={{"ADD",XK_ADD},{"SUB",XK_SUB},{"AND",XK_AND},{"OR",XK_OR},{"XOR",XK_XOR},{"CMP",XK_CMP},{"TEST",XK_TEST},{"ADC",XK_ADC},{"SBB",XK_SBB},{"MOV",XK_MOV}};
  auto it=alu.find(base);
  if(it!=alu.end()){ d.k=it->second; bool two=(d.k!=XK_CMP&&d.k!=XK_TEST&&d.k!=XK_MOV); d.dir=two;
    if(f=="rr"){ d.n=0; return; } if(f=="rm"){ d.n=1; memLast(0); return; } if(f=="mr"){ d.n=2; d.mem=0; d.st=true; return; }
    if(f=="ri"||f=="ri8"||f=="ri32"){ d.n=3; d.imm=nop-1; return; } if(f=="mi"||f=="mi8"||f=="mi32"){ d.n=4; d.mem=0; d.st=true; d.imm=5; return; }
    if(f=="i32"||f=="i8"||f=="i16"){ d.n=5; d.imm=0; return; } d.k=0; return; }
  if(base=="MOVZX"||base=="MOVSX"){ d.k=base=="MOVZX"?XK_MOVZX:XK_MOVSX; size_t q=f.find_first_of("0123456789"); if(q==std::string::npos){ d.k=0; return; } d.w2=atoi(f.c_str()+q); if(f[1]=='m') d.mem=1; return; }
  if(base=="LEA"){ if(w==64&&st(f,"_32")) w=32; d.w=st(n,"LEA64_32")?32:w; d.k=XK_LEA; d.mem=1; return; }
  if(base=="PUSH"&&w==64){ d.k=XK_PUSH; if(f=="r"||f=="rmr") d.n=0; else if(f=="rmm"){ d.n=1; d.mem=0; } else { d.n=2; d.imm=0; } return; }
  if(base=="POP"&&w==64){ d.k=XK_POP; if(f=="r"||f=="rmr") d.n=0; else { d.n=1; d.mem=0; d.st=true; } return; }
  static const std::map<std::string,int> un={{"INC",XK_INC},{"DEC",XK_DEC},{"NEG",XK_NEG},{"NOT",XK_NOT}};
  it=un.find(base); if(it!=un.end()){ d.k=it->second; if(f=="m"){ d.mem=0; d.st=true; } return; }
  static const std::map<std::string,int> sh={{"SHL",XK_SHL},{"SHR",XK_SHR},{"SAR",XK_SAR}};
  it=sh.find(base); if(it!=sh.end()){ d.k=it->second; bool m=f[0]=='m'; if(m){ d.mem=0; d.st=true; } std::string t=f.substr(1); if(t=="i"){ d.imm=m?5:2; } else if(t=="CL") d.cl=true; else if(t=="1") d.n=1; else d.k=0; return; }
  if(base=="IMUL"){ if(f=="rr"){ d.k=XK_IMUL; d.n=0; } else if(f=="rm"){ d.k=XK_IMUL; d.n=1; memLast(0); } else if(st(f,"rri")){ d.k=XK_IMUL; d.n=2; d.imm=2; } else if(st(f,"rmi")){ d.k=XK_IMUL; d.n=3; d.mem=1; d.imm=6; } else if(f=="r"){ d.k=XK_MUL1; d.n=1; } return; }
  if(base=="MUL"&&f=="r"){ d.k=XK_MUL1; return; }
  if(base=="CMOV"){ d.k=XK_CMOV; if(f=="rm") d.mem=2; d.cc=nop-1; return; }
  if(base=="XCHG"){ d.k=XK_XCHG; if(f=="rm"){ d.n=1; memLast(0); d.st=true; } else if(f=="ar") d.n=2; return; }
  if(base=="BSWAP"){ d.k=XK_BSWAP; return; }
  if(base=="BT"&&(f=="ri8")){ d.k=XK_BT; d.imm=1; return; }
}
static V fl(State&S,const V&v){ return v; }
V Engine::flagCF(State&S){ CPU&c=S.cpu; switch(c.fk){ case 1: return vUlt(c.fr,c.fa); case 2: return vUlt(c.fa,c.fb); case 3: return V(0,1); case 4: return c.CF; default: return fresh(S,1); } }
V Engine::flagZF(State&S){ CPU&c=S.cpu; if(c.fk==4) return c.ZF; if(!c.fk) return fresh(S,1); if(c.fk==2) return vEq(c.fa,c.fb); return vEq(c.fr,V(0,c.fr.w)); }
V Engine::flagSF(State&S){ CPU&c=S.cpu; if(c.fk==4) return c.SF; if(!c.fk) return fresh(S,1); return vExtract(c.fr,c.fr.w-1,1); }
V Engine::flagOF(State&S){ CPU&c=S.cpu; unsigned w=c.fr.w; switch(c.fk){ case 1: return vExtract(vAnd(vXor(c.fa,c.fr),vXor(c.fb,c.fr)),w-1,1); case 2: return vExtract(vAnd(vXor(c.fa,c.fb),vXor(c.fa,c.fr)),w-1,1); case 3: return V(0,1); case 4: return c.OF; default: return fresh(S,1); } }
V Engine::flagPF(State&S){ CPU&c=S.cpu; if(c.fk==4) return c.PF; if(!c.fk) return fresh(S,1); V p(1,1); for(int i=0;i<8;i++) p=vXor(p,vExtract(c.fr,i,1)); return p; }
V Engine::cond(State&S,unsigned cc){ V r; CPU&c=S.cpu; switch(cc>>1){ case 0: r=flagOF(S); break; case 1: r=flagCF(S); break; case 2: r=flagZF(S); break; case 3: r=vOr(flagCF(S),flagZF(S)); break; case 4: r=flagSF(S); break; case 5: r=flagPF(S); break; case 6: r=c.fk==2?vSlt(c.fa,c.fb):vXor(flagSF(S),flagOF(S)); break; case 7: r=c.fk==2?vNot(vSlt(c.fb,c.fa)):vOr(flagZF(S),vXor(flagSF(S),flagOF(S))); break; default: throw EngineError("cc"); } return cc&1?vNot(r):r; }
void Engine::clobber(State&S,bool win){ static const int sv[]={0,1,2,6,7,8,9,10,11}; for(int i:sv){ if(win&&(i==6||i==7)) continue; S.cpu.r[i]=fresh(S,64); } for(int i=0;i<(win?6:16);i++) S.cpu.x[i]=fresh(S,128); S.cpu.fk=0; }
void Engine::enterAsm(State&S,u64 addr,const std::vector<V>&a,const std::vector<Type*>&ty,bool win,const std::vector<V>&va,int ret,unsigned rw,Type*rt,bool vararg){
  CPU&c=S.cpu; Frame F; F.k=K_ASM; F.retSlot=ret; F.retW=rw; F.retFp=rt&&(rt->isFloatTy()||rt->isDoubleTy()); F.retX87=rt&&rt->isX86_FP80Ty(); F.win=win; F.saveSp=S.sp;
  for(int i=0;i<16;i++){ c.r[i]=fresh(S,64); c.x[i]=fresh(S,128); } c.nst=0; c.fk=0; c.df=false;
  static const int gs[6]={7,6,2,1,8,9}, gw[4]={1,2,8,9}; unsigned gi=0,xi=0; std::vector<V> stk;
  for(size_t i=0;i<a.size();i++){ bool fp=ty[i]->isFloatingPointTy(); if(ty[i]->isX86_FP80Ty()){ stk.push_back(vExtract(a[i],0,64)); stk.push_back(vZext(vExtract(a[i],64,16),64)); continue; } if(ty[i]->isVectorTy()) throw EngineError("vector argument to assembly");
    V v=a[i]; if(v.w>64) throw EngineError("wide argument to assembly"); V v64=v.w<64?vConcat(fresh(S,64-v.w),v):v;
    if(win){ if(i<4){ if(fp) c.x[i]=vConcat(fresh(S,64),v64); else c.r[gw[i]]=v64; } else stk.push_back(v64); }
    else if(fp){ if(xi<8) c.x[xi++]=vConcat(fresh(S,64),v64); else stk.push_back(v64); }
    else { if(gi<6) c.r[gs[gi++]]=v64; else stk.push_back(v64); } }
  if(vararg&&!win) c.r[0]=vConcat(fresh(S,56),V(xi,8));
  u64 sp=(S.sp-32)&~15ull; u64 n=stk.size()*8+(win?32:0); sp-=(n+15)&~15ull; for(size_t i=0;i<stk.size();i++) for(int k=0;k<8;k++) storeByte(S,sp+(win?32:0)+8*i+k,vExtract(stk[i],8*k,8));
  sp-=8; u64 magic=RETMAGIC+S.st.size(); for(int k=0;k<8;k++) storeByte(S,sp+k,V((magic>>(8*k))&255,8));
  c.r[4]=V(sp,64); c.rip=addr; F.entry_rsp=sp; F.fbase=0; for(int i=0;i<6;i++) F.cs[i]=c.r[CSR[i]]; if(win){ F.csx.push_back(c.r[6]); F.csx.push_back(c.r[7]); for(int i=6;i<16;i++) F.csx.push_back(c.x[i]); }
  ShadowCall sc; sc.entry_rsp=sp; sc.ret=magic; for(int i=0;i<6;i++) sc.cs[i]=c.r[CSR[i]]; sc.func=addr; F.sc.push_back(sc);
  auto q=asmNames.find(addr); funcs["asm:"+(q==asmNames.end()?std::string("dynamic code"):q->second)]++;
  S.st.push_back(std::move(F));
}
void Engine::asmReturn(State&S){
  Frame F=S.st.back(); if(F.k!=K_ASM) throw EngineError("asm return without frame"); CPU&c=S.cpu; u64 id=c.rip-RETMAGIC; 
  if(id!=S.st.size()-1){ violation(S,"abi","assembly returned to a wrong address",nullptr); throw PathEnd{"bad return"}; }
  static const char*nm[6]={"rbx","rbp","r12","r13","r14","r15"};
  for(int i=0;i<6;i++) check_assert(S,vEq(c.r[CSR[i]],F.cs[i]),"state",std::string("callee-saved register ")+nm[i]+" not preserved");
  if(F.win){ check_assert(S,vEq(c.r[6],F.csx[0]),"state","callee-saved register rsi not preserved"); check_assert(S,vEq(c.r[7],F.csx[1]),"state","callee-saved register rdi not preserved"); for(int i=6;i<16;i++) check_assert(S,vEq(c.x[i],F.csx[2+i-6]),"state","callee-saved xmm register not preserved"); }
  if(c.df){ violation(S,"state","direction flag left set",nullptr); }
  u64 rsp=c.r[4].u(); Frame&C=S.st[S.st.size()-2];
  if(rsp!=F.entry_rsp+8){ bool ok=false; if(C.k==K_IR&&!C.allocas.empty()){ auto&al=C.allocas.back(); if(rsp>F.entry_rsp&&rsp<=al.first+al.second) ok=true; } if(!ok){ violation(S,"state","stack pointer not restored on return",nullptr); throw PathEnd{"rsp"}; } }
  int left=c.nst-(F.retX87?1:0); if(left!=0){ violation(S,"state","x87 register stack not balanced on return",nullptr); if(left<0) throw PathEnd{"x87"}; }
  // stale contents below the caller's frame are unpredictable afterwards
  { u64 lo=std::min(rsp,F.entry_rsp)-1024; for(u64 k=lo/PS;k<=(F.entry_rsp+7)/PS;k++){ Page*p=S.mem->rd(k); if(!p) continue; p=S.mem->wr(k); for(unsigned o=0;o<PS;o++){ u64 y=k*PS+o; if(y<F.entry_rsp+8&&!(p->f[o]&F_ALLOC)) p->f[o]=0; } } }
  V rv; bool has=F.retSlot>=0; if(has){ if(F.retX87) rv=c.st[0]; else if(F.retFp) rv=vExtract(c.x[0],0,F.retW); else rv=vExtract(c.r[0],0,std::min(64u,F.retW)); }
  c.nst=0; S.st.pop_back(); Frame&D=S.st.back(); S.sp=F.saveSp; if(has) D.slot[F.retSlot]=rv; D.ip++;
}
void Engine::asmCallIR(State&S,const Function*f,u64 retaddr,bool tail){
  CPU&c=S.cpu; Frame&A=S.st.back(); u64 rsp=c.r[4].u(); bool win=f->getCallingConv()==CallingConv::Win64;
  if((rsp+8)%16)stateBad(S,"stack misaligned at a call made by the assembly code");
  if(c.df)stateBad(S,"direction flag set at call"); if(c.nst)stateBad(S,"x87 registers in use at call");
  if(f->isDeclaration()){ u64 ad=symAddr(f->getName().str()); auto it=faddr.find(ad); if(f->getName()=="abort"){ violation(S,"abort","the library aborts",nullptr); throw PathEnd{"abort"}; } if(it==faddr.end()) throw EngineError("assembly calls undefined "+f->getName().str()); f=it->second; }
  static const int gs[6]={7,6,2,1,8,9}, gw[4]={1,2,8,9}; unsigned gi=0,xi=0,si=0; std::vector<V> args; unsigned idx=0;
  for(auto&a:f->args()){ Type*T=a.getType(); bool fp=T->isFloatTy()||T->isDoubleTy(); unsigned w=tw(T); V v; if(w>64||a.hasByValAttr()) throw EngineError("unsupported argument from assembly"); 
    if(win){ if(idx<4) v=fp?c.x[idx]:c.r[gw[idx]]; else v=load(S,rsp+0x28+8*(idx-4),8,true); }
    else if(fp){ v=xi<8?c.x[xi++]:load(S,rsp+8+8*si++,8,true); } else if(a.hasNestAttr()) v=c.r[10]; else v=gi<6?c.r[gs[gi++]]:load(S,rsp+8+8*si++,8,true);
    args.push_back(vExtract(v,0,w)); idx++; }
  std::vector<std::pair<u64,u32>> opened; 
  if(win) for(u64 y=rsp+8;y<rsp+40;y++){ if(accOk(S,y,1,true,true)) storeByte(S,y,fresh(S,8)); }
  u64 hi=A.saveSp; if(rsp<A.entry_rsp+8){ hi=std::min(hi,A.entry_rsp+64); for(u64 y=rsp+8;y<hi;y++){ u8 fl=S.mem->flags(y); if(!(fl&F_ALLOC)&&!(fl&(F_R|F_W))){ if(!opened.empty()&&opened.back().first+opened.back().second==y) opened.back().second++; else opened.push_back({y,1}); } } }
  A.saveRip=c.rip; u64 oldSp=S.sp; S.sp=std::min<u64>(rsp,A.saveSp)&~15ull; for(auto&o:opened) S.mem->orFlags(o.first,o.second,F_R|F_W,0);
  enterIR(S,f,args,{},-1,0); Frame&N=S.st.back(); N.toAsm=true; N.saveSp=oldSp; N.saveRip=retaddr; N.opened=opened; N.win=win; N.entry_rsp=rsp; for(int i=0;i<6;i++) N.cs[i]=c.r[CSR[i]]; if(win){ N.csx.push_back(c.r[6]); N.csx.push_back(c.r[7]); for(int i=6;i<16;i++) N.csx.push_back(c.x[i]); }
}
void Engine::cfiCheck(State&S,Frame&F){
  u64 pc=S.cpu.rip; auto rit=x->rows.find(pc);
  if(rit==x->rows.end()){ X86::Row row; const Fde*fd=nullptr; for(auto&f:fdes) if(pc>=f.lo&&pc<f.hi){ fd=&f; break; }
    if(fd){ row.ok=true; std::vector<X86::Row> stack; std::map<int,std::pair<int,int64_t>> initR; u64 loc=fd->lo; 
      auto U=[&](const u8*&p){ u64 r=0; int s=0; u8 b; do{ b=*p++; r|=(u64)(b&127)<<s; s+=7; }while(b&128); return r; };
      auto SL=[&](const u8*&p){ int64_t r=0; int s=0; u8 b; do{ b=*p++; r|=(int64_t)(b&127)<<s; s+=7; }while(b&128); if(s<64&&(b&64)) r|=-((int64_t)1<<s); return r; };
      bool done=false; auto run=[&](const std::vector<u8>&ins,bool isc){ const u8*p=ins.data(),*e=p+ins.size(); while(p<e&&!done){ u8 o=*p++; u8 lowb=o&63; 
          auto adv=[&](u64 d){ loc+=d*(u64)fd->caf; if(loc>pc) done=true; };
          switch(o&0xc0){ case 0x40: adv(lowb); continue; case 0x80:{ int64_t off=(int64_t)U(p)*(int64_t)fd->daf; row.r[lowb]={1,off}; continue; } case 0xc0: { auto q=initR.find(lowb); if(q!=initR.end()) row.r[lowb]=q->second; else row.r.erase(lowb); continue; } }
          switch(o){ case 0: break; case 2: adv(*p++); break; case 3:{ u16 d; memcpy(&d,p,2); p+=2; adv(d); break; } case 4:{ u32 d; memcpy(&d,p,4); p+=4; adv(d); break; }
            case 5:{ int r=U(p); int64_t off=(int64_t)U(p)*(int64_t)fd->daf; row.r[r]={1,off}; break; } case 6:{ int r=U(p); auto q=initR.find(r); if(q!=initR.end()) row.r[r]=q->second; else row.r.erase(r); break; }
            case 7:{ int r=U(p); row.r[r]={3,0}; break; } case 8:{ int r=U(p); row.r.erase(r); break; } case 9:{ int r=U(p); int r2=U(p); row.r[r]={2,r2}; break; }
            case 10: stack.push_back(row); break; case 11: if(!stack.empty()){ row=stack.back(); stack.pop_back(); } break;
            case 12: row.cfaReg=U(p); row.cfaOff=U(p); row.expr=false; break; case 13: row.cfaReg=U(p); break; case 14: row.cfaOff=U(p); break;
            case 15:{ u64 n=U(p); row.expr=true; row.cfaExpr.assign(p,p+n); p+=n; break; } case 16:{ int r=U(p); u64 n=U(p); row.r[r]={4,0}; row.rexpr[r].assign(p,p+n); p+=n; break; }
            case 0x11:{ int r=U(p); int64_t off=SL(p)*(int64_t)fd->daf; row.r[r]={1,off}; break; } case 0x12: row.cfaReg=U(p); row.cfaOff=SL(p)*(int64_t)fd->daf; break; case 0x13: row.cfaOff=SL(p)*(int64_t)fd->daf; break; case 0x2e: U(p); break;
            default: throw EngineError("CFI opcode"); } } if(isc) initR=row.r; };
      run(fd->cie,true); run(fd->ins,false); row.ok=true; }
    rit=x->rows.emplace(pc,row).first; }
  X86::Row&R=rit->second;
  if(!R.ok&&!F.sc.empty()){ // code without unwind information: only forwarding stubs, which have none at all and call nothing
    auto q=asmNames.upper_bound(pc); u64 hi=q==asmNames.end()?~0ull:q->first, lo=q==asmNames.begin()?pc:(--q)->first; std::string nm=q->second; bool some=false; for(auto&f:fdes) if(f.lo<hi&&f.hi>lo) some=true; u8 op=0; V b=load(S,pc,1,true,false); if(!b.e) op=(u8)b.u(); V b1=load(S,pc+1,1,true,false);
    bool call=op==0xe8||(op==0xff&&!b1.e&&((b1.u()>>3)&7)==2)||(op==0x41&&!b1.e&&b1.u()==0xff);
    if(some||call){ violation(S,"cfi","no unwind information for an instruction of "+nm,nullptr); throw PathEnd{"cfi"}; } }
  if(!R.ok||F.sc.empty()) return; st.cfi++;
  ShadowCall&sc=F.sc.back(); 
  auto evalx=[&](const std::vector<u8>&ex)->V{ std::vector<V> stk; const u8*p=ex.data(),*e=p+ex.size(); auto SL=[&](){ int64_t r=0; int s=0; u8 b; do{ b=*p++; r|=(int64_t)(b&127)<<s; s+=7; }while(b&128); if(s<64&&(b&64)) r|=-((int64_t)1<<s); return r; };
    while(p<e){ u8 o=*p++; if(o>=0x70&&o<=0x8f){ int g=dw2g(o-0x70); stk.push_back(vAdd(S.cpu.r[g],V((u128)(s128)SL(),64))); } else if(o==0x06){ V a=stk.back(); stk.pop_back(); if(a.e||!accOk(S,a.u(),8,false,true)){ violation(S,"cfi","unwind expression reads invalid memory",nullptr); throw PathEnd{"cfi"}; } stk.push_back(load(S,a.u(),8,true,false)); } else if(o==0x23){ int64_t v=0; int s=0; u8 b; do{ b=*p++; v|=(int64_t)(b&127)<<s; s+=7; }while(b&128); stk.back()=vAdd(stk.back(),V((u64)v,64)); } else if(o==0x22){ V b=stk.back(); stk.pop_back(); stk.back()=vAdd(stk.back(),b); } else if(o>=0x30&&o<=0x4f) stk.push_back(V(o-0x30,64)); else throw EngineError("CFI expression opcode"); } return stk.back(); };
  V cfa; if(R.expr) cfa=evalx(R.cfaExpr); else { int g=dw2g(R.cfaReg); if(g<0) throw EngineError("CFA register"); cfa=vAdd(S.cpu.r[g],V((u128)(s128)R.cfaOff,64)); }
  auto bad=[&](const std::string&m){ std::string n="?"; auto q=asmNames.upper_bound(sc.func); if(q!=asmNames.begin()) n=(--q)->second; violation(S,"cfi",m+" (in "+n+")",nullptr); throw PathEnd{"cfi"}; };
  if(cfa.e) bad("unwind information computes a frame address from a clobbered register");
  auto val=[&](int dw,const V&cur)->V{ auto it=R.r.find(dw); if(it==R.r.end()) return cur; if(it->second.first==1){ u64 a=cfa.u()+it->second.second; if(!accOk(S,a,8,false,true)) bad("unwind information points outside the stack frame"); return load(S,a,8,true,false); } if(it->second.first==2) return S.cpu.r[dw2g(it->second.second)]; if(it->second.first==4){ V a=evalx(R.rexpr[dw]); if(a.e) bad("unwind expression"); return load(S,a.u(),8,true,false); } return cur; };
  V ra=val(16,V(0,64)); if(ra.e||ra.u()!=sc.ret) bad("unwind information gives a wrong return address");
  static const int dws[6]={3,6,12,13,14,15};
  for(int i=0;i<6;i++){ V v=val(dws[i],S.cpu.r[CSR[i]]); V eq=vEq(v,sc.cs[i]); if(eq.e||!eq.c){ if(eq.e&&!check(S,{eNot(eq.e)},nullptr)) continue; static const char*nm[6]={"rbx","rbp","r12","r13","r14","r15"}; bad(std::string("unwind information does not restore ")+nm[i]); } }
  if(cfa.u()!=sc.entry_rsp+8) F.cfis.push_back({pc,cfa.u(),F.sc.size()});
}
static Dec* decodeAt(Engine&E,Engine::X86*x,State&S,u64 a);
void Engine::stepAsm(State&S){
  CPU&c=S.cpu; Frame&F=S.st.back();
  if((c.rip&~0xffffull)==RETMAGIC){ if(!F.cfis.empty()){ for(auto&q:F.cfis) if(q.cfa!=c.r[4].u()){ violation(S,"cfi","unwind information gives a wrong caller stack pointer",nullptr); throw PathEnd{"cfi"}; } } asmReturn(S); return; }
  if(c.rip>=0x600000&&c.rip<codeTop){ auto it=faddr.find(c.rip); if(it!=faddr.end()){ V ra=load(S,c.r[4].u(),8,true); if(ra.e) { violation(S,"abi","jump to a function without a return address",nullptr); throw PathEnd{"tail"}; } asmCallIR(S,it->second,ra.u(),true); return; } }
  if(cats.count("cfi")&&inAsm(c.rip)&&!isHarness(c.rip)) cfiCheck(S,F);
  Dec*d=decodeAt(*this,x,S,c.rip); st.asmsteps++; const MCInst&in=d->in; u64 next=c.rip+d->size;
  auto R=[&](unsigned r)->V{ RegI&q=x->regs[r]; if(q.kind==1){ return q.w==64?c.r[q.idx]:vExtract(c.r[q.idx],q.off,q.w); } if(q.kind==2) return c.x[q.idx]; if(q.kind==3) return V(next,64); if(r==0) return V(0,64); throw EngineError(std::string("register ")+x->MRI->getName(r)); };
  auto WR=[&](unsigned r,const V&v){ RegI&q=x->regs[r]; if(q.kind==1){ if(q.w==64) c.r[q.idx]=v; else if(q.w==32) c.r[q.idx]=vZext(v,64); else { V o=c.r[q.idx]; V t=q.off?vConcat(v,vExtract(o,0,8)):v; c.r[q.idx]=vConcat(vExtract(o,q.off+q.w,64-q.off-q.w),t); } } else if(q.kind==2) c.x[q.idx]=v.w==128?v:vConcat(vExtract(c.x[q.idx],v.w,128-v.w),v); else throw EngineError("write register"); if(q.kind==1&&q.idx==4){} };
  auto op=[&](int i)->const MCOperand&{ return in.getOperand(i); };
  auto rop=[&](int i){ return R(op(i).getReg()); }; auto imm=[&](int i,unsigned w){ return V((u128)(s128)op(i).getImm(),w); };
  auto EA=[&]()->V{ int m=d->mem; V b=op(m).getReg()?R(op(m).getReg()):V(0,64); if(op(m+2).getReg()){ V i=R(op(m+2).getReg()); u64 s=op(m+1).getImm(); b=vAdd(b,vBin(O_MUL,i,V(s,64))); } if(!op(m+3).isImm()) throw EngineError("displacement"); b=vAdd(b,V((u128)(s128)op(m+3).getImm(),64)); if(op(m+4).getReg()) throw EngineError("segment override"); return b; };
  auto LD=[&](unsigned w){ return loadV(S,EA(),w/8,true); };
  auto logicF=[&](const V&r){ c.fk=3; c.fr=r; }; 
  auto rspC=[&]()->u64{ if(c.r[4].e) c.r[4]=V(conc(S,c.r[4],"rsp"),64); return c.r[4].u(); };
  auto push=[&](const V&v){ u64 sp=rspC()-8; acc(S,sp,8,true,true); c.r[4]=V(sp,64); store(S,sp,v,8,true,false); };
  unsigned w=d->w;
  switch(d->k){
    case XK_NOP: break;
    case XK_TRAP: violation(S,"abort","the library executes a trap instruction",nullptr); throw PathEnd{"trap"};
    case XK_MOV: switch(d->n){ case 0: WR(op(0).getReg(),rop(1)); break; case 1: { V v=LD(w); WR(op(0).getReg(),v); break; } case 2: { V v=rop(5); storeV(S,EA(),v,w/8,true); break; } case 3: WR(op(0).getReg(),imm(1,w)); break; case 4: storeV(S,EA(),imm(5,w),w/8,true); break; default: throw EngineError("mov form "+d->name); } break;
    case XK_MOVZX: case XK_MOVSX: { V v=d->mem>=0?LD(d->w2):rop(1); WR(op(0).getReg(),d->k==XK_MOVZX?vZext(v,w):vSext(v,w)); break; }
    case XK_CDQE: c.r[0]=vSext(vExtract(c.r[0],0,32),64); break;
    case XK_CQO: { V s=vExtract(c.r[0],w-1,1); V h=vSext(s,w); c.r[2]=vZext(h,64); break; }
    case XK_LEA: { V a=EA(); WR(op(0).getReg(),vExtract(a,0,w)); break; }
    case XK_PUSH: { V v=d->n==0?rop(0):d->n==1?LD(64):imm(0,64); push(v); break; }
    case XK_POP: { u64 sp=rspC(); V v=load(S,sp,8,true); if(d->n==0){ c.r[4]=V(sp+8,64); WR(op(0).getReg(),v); } else { V a=EA(); c.r[4]=V(sp+8,64); storeV(S,a,v,8,true); } break; }
    case XK_LEAVE: { V b=c.r[5]; u64 a=conc(S,b,"leave"); V v=load(S,a,8,true); c.r[4]=V(a+8,64); c.r[5]=v; break; }
    case XK_CALL: { V t=d->n==0?V(next+op(0).getImm(),64):d->n==1?rop(0):LD(64); u64 a=conc(S,t,"call target"); u64 sp=rspC(); 
        if(sp%16)stateBad(S,"stack misaligned at a call made by the assembly code");
        push(V(next,64)); c.rip=next; auto it=faddr.find(a); if(it!=faddr.end()){ asmCallIR(S,it->second,next,false); return; }
        ShadowCall sc; sc.entry_rsp=sp-8; sc.ret=next; for(int i=0;i<6;i++) sc.cs[i]=c.r[CSR[i]]; sc.func=a; F.sc.push_back(sc); auto q=asmNames.find(a); funcs["asm:"+(q==asmNames.end()?std::string("dynamic code"):q->second)]++; c.rip=a; return; }
    case XK_JMP: { V t=d->n==0?V(next+op(0).getImm(),64):d->n==1?rop(0):LD(64); if(d->n==2&&op(0).getReg()&&0) {} u64 a=conc(S,t,"jump target"); c.rip=a; if(d->n&&!F.sc.empty()&&!(inAsm(a)&&inAsm(next-d->size)&&0)) {} return; }
    case XK_JCC: { V q=cond(S,op(1).getImm()); u64 t=next+op(0).getImm(); c.rip=decide(S,q)?t:next; return; }
    case XK_RET: { u64 sp=rspC(); V ra=load(S,sp,8,true); if(ra.e){ violation(S,"abi","return through a corrupted return address",nullptr); throw PathEnd{"ret"}; } u64 a=ra.u(); c.r[4]=V(sp+8+(d->n?op(0).getImm():0),64); 
        if(!F.sc.empty()&&F.sc.size()>1&&F.sc.back().ret==a){ 
          for(size_t i=0;i<F.cfis.size();){ if(F.cfis[i].depth==F.sc.size()){ if(F.cfis[i].cfa!=c.r[4].u()){ violation(S,"cfi","unwind information gives a wrong caller stack pointer",nullptr); throw PathEnd{"cfi"}; } F.cfis.erase(F.cfis.begin()+i); } else i++; }
          F.sc.pop_back(); }
        bool known=(a&~0xffffull)==RETMAGIC||inAsm(a)||faddr.count(a); if(!known){ u8 f=S.mem->flags(a); if(!(f&F_R)){ violation(S,"abi","return to an invalid address",nullptr); throw PathEnd{"ret"}; } }
        c.rip=a; return; }
    case XK_ADD: case XK_SUB: case XK_AND: case XK_OR: case XK_XOR: case XK_CMP: case XK_TEST: case XK_ADC: case XK_SBB: {
        V a,b; bool two=d->dir; u64 ma=0; int fo=two?1:0; V av;
        switch(d->n){ case 0: a=rop(fo); b=rop(fo+1); break; case 1: a=rop(fo); b=LD(w); break; case 2: av=EA(); ma=conc(S,av,"rmw"); a=load(S,ma,w/8,true); b=rop(5); break; case 3: a=rop(fo); b=imm(d->imm,w); break; case 4: av=EA(); ma=conc(S,av,"rmw"); a=load(S,ma,w/8,true); b=imm(5,w); break; case 5: a=vExtract(c.r[0],0,w); b=imm(0,w); break; }
        V r; switch(d->k){ case XK_ADD: r=vAdd(a,b); break; case XK_SUB: case XK_CMP: r=vSub(a,b); break; case XK_AND: case XK_TEST: r=vAnd(a,b); break; case XK_OR: r=vOr(a,b); break; case XK_XOR: r=(d->n==0&&op(1).getReg()==op(2).getReg())?V(0,w):vXor(a,b); break;
          case XK_ADC: case XK_SBB: { V cf=vZext(flagCF(S),w+1); V A=vZext(a,w+1),B=vZext(b,w+1); V s=d->k==XK_ADC?vAdd(vAdd(A,B),cf):vSub(vSub(A,B),cf); r=vExtract(s,0,w); c.CF=vExtract(s,w,1); c.OF=fresh(S,1); break; } }
        if(d->k!=XK_CMP&&d->k!=XK_TEST){ if(d->n==2||d->n==4) store(S,ma,r,w/8,true); else if(d->n==5){ if(w==64) c.r[0]=r; else if(w==32) c.r[0]=vZext(r,64); else c.r[0]=vConcat(vExtract(c.r[0],w,64-w),r); } else WR(op(0).getReg(),r); }
        if(d->k==XK_ADC||d->k==XK_SBB){ c.fk=4; c.ZF=vEq(r,V(0,w)); c.SF=vExtract(r,w-1,1); c.PF=fresh(S,1); }
        else { c.fk=(d->k==XK_ADD)?1:(d->k==XK_SUB||d->k==XK_CMP)?2:3; c.fa=a; c.fb=b; c.fr=r; }
        break; }
    case XK_INC: case XK_DEC: { V a; u64 ma=0; if(d->mem>=0){ ma=conc(S,EA(),"rmw"); a=load(S,ma,w/8,true); } else a=rop(1); V cf=flagCF(S); V r=d->k==XK_INC?vAdd(a,V(1,w)):vSub(a,V(1,w)); if(d->mem>=0) store(S,ma,r,w/8,true); else WR(op(0).getReg(),r); c.fk=4; c.CF=cf; c.ZF=vEq(r,V(0,w)); c.SF=vExtract(r,w-1,1); c.OF=vEq(r,d->k==XK_INC?V((u128)1<<(w-1),w):V(((u128)1<<(w-1))-1,w)); c.PF=fresh(S,1); break; }
    case XK_NEG: { V a=d->mem>=0?LD(w):rop(1); V r=vSub(V(0,w),a); if(d->mem>=0) storeV(S,EA(),r,w/8,true); else WR(op(0).getReg(),r); c.fk=2; c.fa=V(0,w); c.fb=a; c.fr=r; break; }
    case XK_NOT: { V a=d->mem>=0?LD(w):rop(1); V r=vNot(a); if(d->mem>=0) storeV(S,EA(),r,w/8,true); else WR(op(0).getReg(),r); break; }
    case XK_SHL: case XK_SHR: case XK_SAR: { V a=d->mem>=0?LD(w):rop(1); V n=d->cl?vExtract(c.r[1],0,8):d->imm>=0?imm(d->imm,8):V(1,8); n=vAnd(n,V(w==64?63:31,8)); V nn=vResize(n,w); V r=vBin(d->k==XK_SHL?O_SHL:d->k==XK_SHR?O_LSHR:O_ASHR,a,nn); if(d->mem>=0) storeV(S,EA(),r,w/8,true); else WR(op(0).getReg(),r);
        if(!n.e&&n.c==0) break; V cf; if(!n.e){ unsigned k=(unsigned)n.c; cf=d->k==XK_SHL?(k<=w?vExtract(a,w-k,1):V(0,1)):(k<=w?vExtract(a,k-1,1):V(0,1)); } else cf=fresh(S,1); c.fk=4; c.CF=cf; c.ZF=vEq(r,V(0,w)); c.SF=vExtract(r,w-1,1); c.OF=fresh(S,1); c.PF=fresh(S,1); break; }
    case XK_IMUL: { V a,b; switch(d->n){ case 0: a=rop(1); b=rop(2); break; case 1: a=rop(1); b=LD(w); break; case 2: a=rop(1); b=imm(2,w); break; default: a=LD(w); b=imm(6,w); } WR(op(0).getReg(),vBin(O_MUL,a,b)); c.fk=0; break; }
    case XK_CMOV: { V q=cond(S,op(d->cc).getImm()); V s=d->mem>=0?LD(w):rop(2); WR(op(0).getReg(),vIte(q,s,rop(1))); break; }
    case XK_SETCC: { V q=vZext(cond(S,op(d->cc).getImm()),8); if(d->mem>=0) storeV(S,EA(),q,1,true); else WR(op(0).getReg(),q); break; }
    case XK_XCHG: { if(d->n==0){ V a=rop(0),b=rop(1); WR(op(0).getReg(),b); WR(op(1).getReg(),a); } else if(d->n==1){ V a=rop(0); u64 ma=conc(S,EA(),"xchg"); V m=load(S,ma,w/8,true); store(S,ma,a,w/8,true); WR(op(0).getReg(),m); } else { V a=rop(0); V b=vExtract(c.r[0],0,w); WR(op(0).getReg(),b); if(w==64) c.r[0]=a; else c.r[0]=vZext(a,64); } break; }
    case XK_CLD: c.df=false; break; case XK_STD: c.df=true; break;
    case XK_MOVS: { if(c.df) throw EngineError("movs with DF"); u64 n=1; if(d->rep) n=conc(S,c.r[1],"rep count"); u64 s=conc(S,c.r[6],"movs"),t=conc(S,c.r[7],"movs"); u64 b=n*(w/8); if(b>(1<<20)){ violation(S,"memory","huge block move",nullptr); throw PathEnd{"movs"}; } if(b){ acc(S,s,b,false,true); acc(S,t,b,true,true); for(u64 i=0;i<b;i++) storeByte(S,t+i,loadByte(S,s+i)); } c.r[6]=V(s+b,64); c.r[7]=V(t+b,64); if(d->rep) c.r[1]=V(0,64); break; }
    case XK_STOS: { if(c.df) throw EngineError("stos with DF"); u64 n=1; if(d->rep) n=conc(S,c.r[1],"rep count"); u64 t=conc(S,c.r[7],"stos"); u64 b=n*(w/8); if(b>(1<<20)) throw EngineError("stos"); if(b) acc(S,t,b,true,true); for(u64 i=0;i<b;i++) storeByte(S,t+i,vExtract(c.r[0],8*(i%(w/8)),8)); c.r[7]=V(t+b,64); if(d->rep) c.r[1]=V(0,64); break; }
    case XK_VMOV: { if(d->mem>=0&&d->n){ u64 a=conc(S,EA(),"aligned move"); if(a%16){ violation(S,"abi","misaligned 16-byte vector access",nullptr); throw PathEnd{"misaligned"}; } } if(d->st) storeV(S,EA(),rop(5),16,true); else if(d->mem>=0){ V v=LD(128); WR(op(0).getReg(),v); } else WR(op(0).getReg(),rop(1)); break; }
    case XK_VMOVS: { if(d->st) storeV(S,EA(),vExtract(rop(5),0,w),w/8,true); else if(d->mem>=0){ V v=LD(w); WR(op(0).getReg(),vZext(v,128)); } else { V v=vExtract(rop(2),0,w); V o=rop(1); WR(op(0).getReg(),vConcat(vExtract(o,w,128-w),v)); } break; }
    case XK_VMOVLP: { if(d->st) storeV(S,EA(),vExtract(rop(5),0,64),8,true); else { V v=LD(64); WR(op(0).getReg(),vConcat(vExtract(rop(1),64,64),v)); } break; }
    case XK_VMOVHP: { if(d->st) storeV(S,EA(),vExtract(rop(5),64,64),8,true); else { V v=LD(64); WR(op(0).getReg(),vConcat(v,vExtract(rop(1),0,64))); } break; }
    case XK_VMOVQ: switch(d->n){ case 0: WR(op(0).getReg(),vZext(rop(1),128)); break; case 1: { V v=LD(w); WR(op(0).getReg(),vZext(v,128)); break; } case 2: WR(op(0).getReg(),vExtract(rop(1),0,w)); break; case 3: storeV(S,EA(),vExtract(rop(5),0,w),w/8,true); break; case 4: WR(op(0).getReg(),vZext(vExtract(rop(1),0,64),128)); break; } break;
    case XK_VXOR: { if(d->mem<0&&op(1).getReg()==op(2).getReg()){ WR(op(0).getReg(),V(0,128)); break; } V b=d->mem>=0?LD(128):rop(2); WR(op(0).getReg(),vXor(rop(1),b)); break; }
    case XK_VAND: { V b=d->mem>=0?LD(128):rop(2); WR(op(0).getReg(),vAnd(rop(1),b)); break; }
    case XK_VOR: { V b=d->mem>=0?LD(128):rop(2); WR(op(0).getReg(),vOr(rop(1),b)); break; }
    case XK_PUNPCKL: WR(op(0).getReg(),vConcat(vExtract(rop(2),0,64),vExtract(rop(1),0,64))); break;
    case XK_PUNPCKH: if(d->n) WR(op(0).getReg(),vConcat(vExtract(rop(1),64,64),vExtract(rop(2),64,64))); else WR(op(0).getReg(),vConcat(vExtract(rop(2),64,64),vExtract(rop(1),64,64))); break;
    case XK_SHUFPD: { u64 k=op(3).getImm(); V a=rop(1),b=rop(2); WR(op(0).getReg(),vConcat(vExtract(b,k&2?64:0,64),vExtract(a,k&1?64:0,64))); break; }
    case XK_FLD: { if(c.nst>=8){ violation(S,"abi","x87 register stack overflow",nullptr); throw PathEnd{"x87"}; } V v=LD(w); if(w<80){ // conversion to extended precision: an injective, exact operation, kept symbolic by tagging
          V t=vConcat(V(w,80-w),v); v=t; } for(int i=c.nst;i>0;i--) c.st[i]=c.st[i-1]; c.st[0]=v; c.nst++; break; }
    case XK_FST: { if(c.nst<1){ violation(S,"abi","x87 register stack underflow",nullptr); throw PathEnd{"x87"}; } V v=c.st[0]; if(w<80){ V tag=vExtract(v,w,80-w); if(!tag.e&&tag.c==w) v=vExtract(v,0,w); else v=fresh(S,w); } storeV(S,EA(),v,w/8,true); if(d->pop){ for(int i=0;i+1<c.nst;i++) c.st[i]=c.st[i+1]; c.nst--; } break; }
    case XK_FLDC: { if(c.nst>=8) throw EngineError("x87"); for(int i=c.nst;i>0;i--) c.st[i]=c.st[i-1]; c.st[0]=d->n?V(((u128)0x3fff<<64)|((u128)1<<63),80):V(0,80); c.nst++; break; }
    case XK_FXCH: { int i=x->regs[op(0).getReg()].idx; if(i>=c.nst) throw EngineError("fxch"); std::swap(c.st[0],c.st[i]); break; }
    case XK_FSTREG: { int i=x->regs[op(0).getReg()].idx; if(i>=c.nst) throw EngineError("fst"); c.st[i]=c.st[0]; if(d->pop){ for(int k=0;k+1<c.nst;k++) c.st[k]=c.st[k+1]; c.nst--; } break; }
    case XK_FLDREG: { int i=x->regs[op(0).getReg()].idx; if(i>=c.nst||c.nst>=8) throw EngineError("fld"); V v=c.st[i]; for(int k=c.nst;k>0;k--) c.st[k]=c.st[k-1]; c.st[0]=v; c.nst++; break; }
    case XK_BSWAP: { V a=rop(1); V r=vExtract(a,0,8); for(unsigned i=8;i<w;i+=8) r=vConcat(r,vExtract(a,i,8)); WR(op(0).getReg(),r); break; }
    case XK_BT: { V a=rop(0); unsigned k=op(1).getImm()&(w-1); c.fk=4; c.CF=vExtract(a,k,1); c.ZF=fresh(S,1); c.SF=fresh(S,1); c.OF=fresh(S,1); c.PF=fresh(S,1); break; }
    case XK_MUL1: { V a=vExtract(c.r[0],0,w),b=rop(0); if(w<32) throw EngineError("mul8"); V p=d->n?vBin(O_MUL,vSext(a,2*w),vSext(b,2*w)):vBin(O_MUL,vZext(a,2*w),vZext(b,2*w)); c.r[0]=vZext(vExtract(p,0,w),64); c.r[2]=vZext(vExtract(p,w,w),64); c.fk=0; break; }
    default: throw EngineError("x86 instruction "+d->name);
  }
  c.rip=next;
}
static Dec* decodeAt(Engine&E,Engine::X86*x,State&S,u64 a){
  bool stat=E.inAsm(a); if(stat){ auto it=x->cache.find(a); if(it!=x->cache.end()) return it->second; }
  if(!(S.mem->flags(a)&F_R)||(a>=0x600000&&a<E.codeTop)){ E.violation(S,"abi","control transferred to an invalid address",nullptr); throw PathEnd{"bad jump"}; }
  u8 b[15]; unsigned n=0; for(;n<15;n++){ if(!(S.mem->flags(a+n)&F_R)) break; V v=E.loadByte(S,a+n); if(v.e){ u128 k; if(!E.tryKnown(S,v.e,k)){ if(n==0){ E.violation(S,"abi","control transferred to memory that does not hold code",nullptr); throw PathEnd{"bad jump"}; } break; } v=V(k,8); } b[n]=(u8)v.c; }
  Dec*d=nullptr; std::string key((char*)b,n); if(!stat){ auto it=x->dyn.find(key); if(it!=x->dyn.end()) return it->second; }
  d=new Dec; uint64_t sz=0; auto r=x->D->getInstruction(d->in,sz,ArrayRef<u8>(b,n),a,nulls()); if(r==MCDisassembler::Fail){ E.violation(S,"abi","control transferred to bytes that are not an instruction",nullptr); throw PathEnd{"bad opcode"}; }
  d->size=sz; d->name=x->MII->getName(d->in.getOpcode()).str();
  if(d->name=="REP_PREFIX"){ delete d; d=new Dec; uint64_t s2=0; r=x->D->getInstruction(d->in,s2,ArrayRef<u8>(b+1,n-1),a+1,nulls()); d->size=1+s2; d->name=x->MII->getName(d->in.getOpcode()).str(); d->rep=true; }
  if(d->in.getFlags()&8) d->rep=true;
  classify(*d); if(!d->k){ throw EngineError("x86 instruction "+d->name); }
  if(stat) x->cache[a]=d; else x->dyn[key]=d; return d;
}
