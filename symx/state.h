// Machine state: flat memory with per-byte shadow, path condition, control stack.
#pragma once
#include "expr.h"
#include <array>
#include <map>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>

enum : u8 { F_R=1, F_W=2, F_INIT=4, F_POISON=8, F_ALLOC=16, F_SHARED=32 };
static const unsigned PS=256;
struct Page { int ref=1; u8 c[PS]; u8 f[PS]; const Expr** s=nullptr;
  Page(){ memset(c,0,PS); memset(f,0,PS); }
  Page(const Page&o){ memcpy(c,o.c,PS); memcpy(f,o.f,PS); if(o.s){ s=(const Expr**)malloc(PS*sizeof(*s)); memcpy(s,o.s,PS*sizeof(*s)); } }
  ~Page(){ free(s); } };
struct Region { u64 a,n; u8 f; }; // backing for pages not materialised yet (zero-filled if F_INIT)
struct Mem {
  std::unordered_map<u64,Page*> m; std::vector<Region> reg; u64 lastk=~0ull; Page*lastp=nullptr;
  Mem(){}
  Mem(const Mem&o):m(o.m),reg(o.reg){ for(auto&k:m) k.second->ref++; }
  Mem& operator=(const Mem&)=delete;
  ~Mem(){ for(auto&k:m) if(--k.second->ref==0) delete k.second; }
  Page* rd(u64 k){ if(k==lastk) return lastp; auto it=m.find(k); Page*p; if(it!=m.end()) p=it->second; else { p=mat(k); if(!p) return nullptr; } lastk=k; lastp=p; return p; }
  Page* mat(u64 k){ u64 a=k*PS; Page*p=nullptr; for(auto&r:reg) if(r.a<a+PS&&a<r.a+r.n){ if(!p) p=new Page; u64 lo=std::max(r.a,a),hi=std::min(r.a+r.n,a+PS); for(u64 x=lo;x<hi;x++) p->f[x-a]=r.f; } if(p) m[k]=p; return p; }
  Page* wr(u64 k){ Page*p=rd(k); if(!p){ p=new Page; m[k]=p; lastk=k; lastp=p; return p; } if(p->ref>1){ p->ref--; p=new Page(*p); m[k]=p; lastk=k; lastp=p; } return p; }
  u8 flags(u64 a){ Page*p=rd(a/PS); return p?p->f[a%PS]:0; }
  void setFlags(u64 a,u64 n,u8 f){ // overwrite all flags; contents kept
    for(u64 i=0;i<n;){ Page*p=wr((a+i)/PS); u64 o=(a+i)%PS; u64 k=std::min<u64>(n-i,PS-o); memset(p->f+o,f,k); i+=k; } }
  void orFlags(u64 a,u64 n,u8 set,u8 clr){ for(u64 i=0;i<n;i++){ Page*p=wr((a+i)/PS); u8&f=p->f[(a+i)%PS]; f=(f&~clr)|set; } }
  void map(u64 a,u64 n,u8 f){ // fresh mapping, zero-filled
    u64 k0=a/PS,k1=(a+n-1)/PS; if(n<4096||a%PS||n%PS){ for(u64 i=0;i<n;){ Page*p=wr((a+i)/PS); u64 o=(a+i)%PS,k=std::min<u64>(n-i,PS-o); memset(p->f+o,f,k); memset(p->c+o,0,k); if(p->s) memset(p->s+o,0,k*sizeof(*p->s)); i+=k; } return; }
    unmap(a,n); (void)k0;(void)k1; reg.push_back({a,n,f}); }
  void unmap(u64 a,u64 n){ std::vector<Region> nr; for(auto&r:reg){ if(r.a+r.n<=a||r.a>=a+n){ nr.push_back(r); continue; } if(r.a<a) nr.push_back({r.a,a-r.a,r.f}); if(r.a+r.n>a+n) nr.push_back({a+n,r.a+r.n-a-n,r.f}); } 
    // materialised pages
    bool whole=(a%PS==0&&n%PS==0);
    if(whole&&n/PS>m.size()*2){ std::vector<u64> ks; for(auto&k:m) if(k.first*PS>=a&&k.first*PS<a+n) ks.push_back(k.first); for(u64 k:ks){ Page*p=m[k]; if(--p->ref==0) delete p; m.erase(k);} reg=nr; lastk=~0ull; return; }
    std::vector<Region> old=reg; 
    for(u64 x=a;x<a+n;){ u64 o=x%PS,k=std::min<u64>(a+n-x,PS-o); if(o==0&&k==PS){ auto it=m.find(x/PS); if(it!=m.end()){ if(--it->second->ref==0) delete it->second; m.erase(it); } } else { Page*p=wr(x/PS); memset(p->f+o,0,k); memset(p->c+o,0,k); if(p->s) memset(p->s+o,0,k*sizeof(*p->s)); } x+=k; lastk=~0ull; }
    reg=nr; lastk=~0ull; }
};

struct PC { const Expr*e; std::shared_ptr<PC> up; u32 depth; };
typedef std::shared_ptr<PC> PCp;
typedef std::vector<u128> Model;

struct SymRec { u32 first,count; std::string name; }; // one entry per vp_sym call: `count` bytes starting at ordinal `first`

struct FInfo;
struct CPU { V r[16]; V x[16]; V st[8]; int nst=0; u64 rip=0; bool df=false;
  // lazily evaluated flags: kind 0 unknown, 1 add, 2 sub, 3 logic(result), 4 explicit
  int fk=0; V fa,fb,fr; V CF,ZF,SF,OF,PF; };
struct ShadowCall { u64 entry_rsp; u64 ret; V cs[6]; u64 func; };
struct CfiRec { u64 pc; u64 cfa; size_t depth; };
enum FrameKind : u8 { K_IR, K_ASM };
struct Frame { FrameKind k; bool toAsm=false; // toAsm: IR function called from assembly
  // IR
  FInfo*f=nullptr; u32 bb=0,ip=0; std::vector<V> slot; std::vector<std::vector<V>> agg; std::vector<std::pair<u64,u32>> allocas; u64 saveSp=0; u64 vaArea=0; u32 vaN=0;
  bool win=false; int retSlot=-1; unsigned retW=0; bool retFp=false; bool retX87=false;
  // asm segment
  u64 entry_rsp=0; V cs[6]; std::vector<V> csx; u64 saveRip=0; std::vector<ShadowCall> sc; u64 fbase=0,fend=0; std::vector<std::pair<u64,u32>> opened;
  std::vector<CfiRec> cfis; std::vector<u64> ctx; int st0=0; };
struct Thread { std::vector<Frame> st; CPU cpu; u64 sp=0; };
static const int MAXT=4; typedef std::array<u32,MAXT> VC;
struct Acc { u8 wt=0; bool wat=false; u32 wc=0; VC rc{}; const char*wf=nullptr; const char*rf[MAXT]={0}; }; // last write and last reads of a byte
typedef std::unordered_map<u64,Acc> AccMap;
struct State {
  std::vector<Frame> st; CPU cpu; u64 sp; // control stack
  std::unique_ptr<Mem> mem; PCp pc; std::shared_ptr<Model> model; u32 nsym=0;
  std::vector<SymRec> recs; std::unordered_map<const Expr*,u128> known; u64 heap; std::vector<std::string> notes;
  std::vector<std::pair<u64,u64>> objs; // vp_alloc objects
  u64 steps=0; u32 forks=0; u32 id=0; std::vector<const char*> covers; 
  // preemption support
  int preMode=0; int preK=0; int preArm=-1; bool inPre=false;
  std::unordered_map<u64,u64> vars; u32 inIdx=0; struct Alias { u64 a,n,to; }; std::vector<Alias> alias; // views of other memory
  u64 tr(u64 a)const{ if(alias.empty()) return a; for(auto&x:alias) if(a-x.a<x.n) return x.to+(a-x.a); return a; }
  void unalias(u64 a,u64 n){ std::vector<Alias> o; for(auto&x:alias){ if(x.a+x.n<=a||x.a>=a+n){ o.push_back(x); continue; } if(x.a<a) o.push_back({x.a,a-x.a,x.to}); if(x.a+x.n>a+n) o.push_back({a+n,x.a+x.n-a-n,x.to+(a+n-x.a)}); } alias=o; }
  bool dead=false; std::string why;
  std::vector<Thread> thr; int cur=0; std::vector<VC> vc; std::map<u64,VC> rel; std::shared_ptr<AccMap> accs; // threads, their clocks, those of the last release of each lock
  State(){ mem.reset(new Mem); sp=0; heap=0; }
  State(const State&o):st(o.st),cpu(o.cpu),sp(o.sp),mem(new Mem(*o.mem)),pc(o.pc),model(o.model),nsym(o.nsym),recs(o.recs),known(o.known),heap(o.heap),notes(o.notes),objs(o.objs),steps(o.steps),forks(o.forks),id(o.id),covers(o.covers),preMode(o.preMode),preK(o.preK),preArm(o.preArm),inPre(o.inPre),vars(o.vars),inIdx(o.inIdx),alias(o.alias),dead(false),thr(o.thr),cur(o.cur),vc(o.vc),rel(o.rel),accs(o.accs){}
};
