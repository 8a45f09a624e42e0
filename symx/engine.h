#pragma once
#include "state.h"
#include <deque>
#include <atomic>
struct Opnd { int slot=-1; V c; std::shared_ptr<std::vector<V>> agg; };
struct Ins { const llvm::Instruction*I; unsigned op; int dst=-1; unsigned w=0; std::vector<Opnd> o;
  // aux
  s128 off=0; std::vector<std::pair<int,s128>> idx; // gep: (operand number, scale)
  unsigned ld=0; bool sh=false; u32 t0=0,t1=0; std::vector<std::pair<u128,u32>> cases; int fn=-1; const llvm::Function*callee=nullptr; u64 caddr=0; u64 asz=0,aal=1; unsigned pred=0; std::vector<unsigned> ei; bool x87=false; };
struct Phi { int dst; bool agg; std::vector<std::pair<u32,Opnd>> in; };
struct Blk { std::vector<Phi> phi; std::vector<Ins> ins; };
struct FInfo { const llvm::Function*F; std::string name; unsigned nslot=0; std::vector<Blk> b; std::vector<int> argSlot; bool vararg=false; bool win=false; bool lib=true; };

struct PathEnd { std::string why; };
struct Violation { std::string msg; std::string kind; std::vector<std::pair<std::string,std::vector<u8>>> in; std::vector<std::string> notes; std::string where; u32 path; };
struct AsmSym { u64 addr; u64 size; bool func; };
struct Cie; struct Fde { u64 lo,hi; std::vector<u8> cie, ins; s128 caf,daf; unsigned ra; };

struct Cover { std::map<std::string,u64> n; };

// arbitrary but fixed value of a symbol no constraint mentions, so that sample inputs are diverse
static inline u128 dflt(u64 o){ u64 x=(o+1)*0x9E3779B97F4A7C15ull; x^=x>>29; x*=0xBF58476D1CE4E5B9ull; x^=x>>32; return (u128)x|((u128)x<<64); }
static inline void growModel(Model&m,size_t n){ size_t k=m.size(); m.resize(n); for(;k<n;k++) m[k]=dflt(k); }
struct Engine {
  llvm::Module*M=nullptr; const llvm::DataLayout*DL=nullptr;
  std::unordered_map<const llvm::Value*,u64> gaddr; std::unordered_map<u64,const llvm::Function*> faddr; std::unordered_map<const llvm::Function*,FInfo*> finfo;
  std::map<std::string,AsmSym> asyms; std::vector<std::pair<u64,u64>> asmText; std::vector<Fde> fdes; std::map<u64,std::string> asmNames;
  u64 codeTop=0x600000, dataTop=0x20000000, asmTop=0x10000000;
  static constexpr u64 STK_LO=0x7ffe00000000ull, STK_HI=0x7ffe00400000ull, HEAP0=0x7f3200010000ull, MMAP0=0x7f5a00000000ull, RETMAGIC=0x7deadbee0000ull;
  // solver
  Z3_context z=nullptr; Z3_solver zs=nullptr,zs0=nullptr; std::vector<const Expr*> zstack;
  u64 epoch=0;
  // stats
  struct Stats { u64 queries=0,sat=0,unsat=0; double ztime=0; double zmax=0; u64 paths=0,completed=0,killed=0,forks=0,steps=0,asmsteps=0; u64 asserts=0,assertsSolver=0,memchk=0; u64 cfi=0; u64 viol=0; u64 maxdepth=0; u64 unknown=0; } st;
  std::map<std::string,u64> covers; std::map<std::string,u64> funcs; std::map<std::string,std::vector<std::pair<std::string,std::vector<u8>>>> coverWit; std::map<std::string,std::vector<std::string>> coverNotes;
  std::vector<Violation> viols; std::map<std::string,int> violCount;
  std::deque<State*> work; int hard=0; bool genFirst=false; bool unsatGeneral(const Expr*e); bool tick=false; bool stop=false; int maxViol=8, perMsg=3; std::atomic<u64>*firstViol=nullptr; std::set<std::string> cats; bool verbose=false; u64 maxSteps=20000000; u32 nextId=1;
  std::map<std::string,u64> prof; std::map<std::string,bool> msgSeen; bool replay=false; std::vector<std::pair<std::string,std::vector<u8>>> replayIn;
  Engine();
  // expr helpers
  Z3_ast zbv(const Expr*e); Z3_ast zbool(const Expr*e);
  u128 eval(const Expr*e,const Model&m); void newEpoch(){ epoch++; }
  bool evalB(State&S,const Expr*e){ newEpoch(); return eval(e,*S.model)&1; }
  V fresh(State&S,unsigned w);
  int check(State&S,const std::vector<const Expr*>&extra,Model*out); // 1 sat 0 unsat
  void addC(State&S,const Expr*e);
  bool tryKnown(State&S,const Expr*e,u128&out);
  int evalPart(State&S,const Expr*e,u128&out);
  bool decide(State&S,V c); u64 conc(State&S,const V&v,const char*what,unsigned limit=512);
  void enumerate(State&S,const V&v,std::vector<u128>&out,unsigned limit);
  bool assume(State&S,V c);
  void violation(State&S,const std::string&kind,const std::string&msg,const Model*m);
  void check_assert(State&S,V c,const std::string&kind,const std::string&msg);
  std::string where(State&S);
  void stateBad(State&S,const char*m){ violation(S,"state",m,nullptr); if(!ignored("state",m)) throw PathEnd{m}; }
  std::string prop; // property being decided: failures that belong to other properties are not reported
  bool ignored(const std::string&kind,const std::string&msg){ if(prop.empty()) return false; { size_t i=0; bool mine=false; while(msg.size()>i+4&&msg[i]=='C'&&isdigit(msg[i+1])&&isdigit(msg[i+2])){ if(!msg.compare(i,3,prop)) mine=true; if(msg[i+3]==':') return !mine; if(msg[i+3]!=',') break; i+=4; } } if(kind=="state") return prop!="C17"; if(kind=="race") return prop!="C21"; if(kind=="unwind") return prop!="C22"; return false; }
  State* fork(State&S);
  // memory
  void acc(State&S,u64 a,u64 n,bool wr,bool asmctx);
  bool accOk(State&S,u64 a,u64 n,bool wr,bool asmctx);
  V load(State&S,u64 a,unsigned n,bool asmctx=false,bool chk=true);
  void store(State&S,u64 a,const V&v,unsigned n,bool asmctx=false,bool chk=true);
  V loadV(State&S,const V&a,unsigned n,bool asmctx=false);
  void storeV(State&S,const V&a,const V&v,unsigned n,bool asmctx=false);
  V loadByte(State&S,u64 a); void storeByte(State&S,u64 a,const V&v);
  void copyBytes(State&S,u64 d,u64 s,u64 n,bool asmctx);
  u64 allocObj(State&S,u64 n,u64 al,bool init);
  void freeAllocas(State&S,Frame&F,size_t keep);
  void race(State&S,u64 a,u64 n,bool wr); bool atom=false; void hb(State&S,bool acquire,u64 key);
  std::string cstr(State&S,u64 a);
  // module
  void loadModule(const std::string&path); void loadObj(const std::string&path); void initState(State&S); std::vector<std::string> objs;
  struct Sec { std::string name; u64 addr; std::vector<u8> data; u64 size; u64 flags; int idx; }; std::vector<std::pair<u64,std::pair<std::vector<u8>,bool>>> init; // addr, bytes, writable
  std::vector<std::pair<u64,std::pair<u64,u8>>> bss;
  void parseEH(const std::vector<u8>&d,u64 base,bool dbg);
  V constV(const llvm::Constant*C); void constInit(const llvm::Constant*C,std::vector<u8>&out,u64 off);
  FInfo* info(const llvm::Function*F); Opnd opnd(FInfo*,const llvm::Value*,std::unordered_map<const llvm::Value*,int>&);
  unsigned tw(llvm::Type*T);
  u64 symAddr(const std::string&n);
  // exec
  void run(State*S); void step(State&S); void stepIR(State&S); void stepAsm(State&S);
  V get(Frame&F,const Opnd&o){ return o.slot>=0?F.slot[o.slot]:o.c; }
  void jump(State&S,Frame&F,u32 to);
  void enterIR(State&S,const llvm::Function*f,const std::vector<V>&args,const std::vector<V>&va,int ret,unsigned rw);
  void callIR(State&S,Frame&F,const Ins&I); void doRet(State&S,const Ins*I);
  bool builtin(State&S,const std::string&n,const Ins&I,std::vector<V>&a,V&ret,Frame&F);
  bool intrinsic(State&S,const std::string&n,const Ins&I,std::vector<V>&a,Frame&F);
  void enterAsm(State&S,u64 addr,const std::vector<V>&a,const std::vector<llvm::Type*>&ty,bool win,const std::vector<V>&va,int ret,unsigned rw,llvm::Type*rt,bool vararg);
  void asmReturn(State&S); void asmCallIR(State&S,const llvm::Function*f,u64 retaddr,bool tail);
  void asmToIRRet(State&S,const V&rv,bool hasv,bool fp);
  void clobber(State&S,bool win);
  void finish(State*S,const std::string&why);
  // x86
  void x86init(); struct X86; X86*x=nullptr;
  V flagCF(State&S),flagZF(State&S),flagSF(State&S),flagOF(State&S),flagPF(State&S); V cond(State&S,unsigned cc);
  void cfiCheck(State&S,Frame&F); void cfiReturn(State&S,Frame&F,u64 finalRsp);
  bool inAsm(u64 a){ for(auto&t:asmText) if(a>=t.first&&a<t.second) return true; return false; }
  std::set<std::string> harnessObjs; std::vector<std::pair<u64,u64>> harnessText; bool isHarness(u64 a){ for(auto&t:harnessText) if(a>=t.first&&a<t.second) return true; return false; }
};
