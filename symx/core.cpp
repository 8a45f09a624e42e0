#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <elf.h>
#include <time.h>
#include <cxxabi.h>
using namespace llvm;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

Engine::Engine(){
  Z3_config c=Z3_mk_config(); Z3_set_param_value(c,"model","true"); z=Z3_mk_context(c); Z3_del_config(c);
  Z3_set_error_handler(z,[](Z3_context c,Z3_error_code e){ throw EngineError(std::string("z3: ")+Z3_get_error_msg(c,e)); });
  zs=Z3_mk_simple_solver(z); Z3_solver_inc_ref(z,zs); zs0=Z3_mk_simple_solver(z); Z3_solver_inc_ref(z,zs0);
  Z3_params p=Z3_mk_params(z); Z3_params_inc_ref(z,p); Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),200); Z3_solver_set_params(z,zs,p); Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),1000); Z3_solver_set_params(z,zs0,p); Z3_params_dec_ref(z,p);
}
static Z3_ast keep(Z3_context z,Z3_ast a){ Z3_inc_ref(z,a); return a; }
Z3_ast Engine::zbool(const Expr*e){
  if(e->w!=1) throw EngineError("zbool width");
  if(e->zb) return e->zb; Z3_ast r;
  switch(e->op){
    case O_CONST: r=e->val?Z3_mk_true(z):Z3_mk_false(z); break;
    case O_NOT: r=Z3_mk_not(z,zbool(e->a)); break;
    case O_AND: { Z3_ast x[2]={zbool(e->a),zbool(e->b)}; r=Z3_mk_and(z,2,x); break; }
    case O_OR: { Z3_ast x[2]={zbool(e->a),zbool(e->b)}; r=Z3_mk_or(z,2,x); break; }
    case O_XOR: case O_ADD: case O_SUB: r=Z3_mk_xor(z,zbool(e->a),zbool(e->b)); break;
    case O_EQ: if(e->a->w==1) r=Z3_mk_iff(z,zbool(e->a),zbool(e->b)); else r=Z3_mk_eq(z,zbv(e->a),zbv(e->b)); break;
    case O_ULT: r=Z3_mk_bvult(z,zbv(e->a),zbv(e->b)); break;
    case O_SLT: r=Z3_mk_bvslt(z,zbv(e->a),zbv(e->b)); break;
    case O_ITE: r=Z3_mk_ite(z,zbool(e->a),zbool(e->b),zbool(e->c)); break;
    default: r=Z3_mk_eq(z,zbv(e),keep(z,Z3_mk_unsigned_int64(z,1,Z3_mk_bv_sort(z,1)))); break;
  }
  e->zb=keep(z,r); return r;
}
Z3_ast Engine::zbv(const Expr*e){
  if(e->zv) return e->zv; Z3_ast r=nullptr;
  auto bs=[&](unsigned w){return Z3_mk_bv_sort(z,w);};
  if(e->w==1&&(e->op==O_EQ||e->op==O_ULT||e->op==O_SLT||e->op==O_NOT||e->op==O_AND||e->op==O_OR||e->op==O_ITE))
    r=Z3_mk_ite(z,zbool(e),keep(z,Z3_mk_unsigned_int64(z,1,bs(1))),keep(z,Z3_mk_unsigned_int64(z,0,bs(1))));
  else switch(e->op){
    case O_CONST: if(e->w<=64) r=Z3_mk_unsigned_int64(z,(u64)e->val,bs(e->w)); else r=Z3_mk_concat(z,keep(z,Z3_mk_unsigned_int64(z,(u64)(e->val>>64),bs(e->w-64))),keep(z,Z3_mk_unsigned_int64(z,(u64)e->val,bs(64)))); break;
    case O_SYM: r=Z3_mk_const(z,Z3_mk_int_symbol(z,(int)((u64)e->val*256+e->w)),bs(e->w)); break;
    case O_NOT: r=Z3_mk_bvnot(z,zbv(e->a)); break;
    case O_AND: r=Z3_mk_bvand(z,zbv(e->a),zbv(e->b)); break; case O_OR: r=Z3_mk_bvor(z,zbv(e->a),zbv(e->b)); break; case O_XOR: r=Z3_mk_bvxor(z,zbv(e->a),zbv(e->b)); break;
    case O_ADD: r=Z3_mk_bvadd(z,zbv(e->a),zbv(e->b)); break; case O_SUB: r=Z3_mk_bvsub(z,zbv(e->a),zbv(e->b)); break; case O_MUL: r=Z3_mk_bvmul(z,zbv(e->a),zbv(e->b)); break;
    case O_UDIV: r=Z3_mk_bvudiv(z,zbv(e->a),zbv(e->b)); break; case O_SDIV: r=Z3_mk_bvsdiv(z,zbv(e->a),zbv(e->b)); break;
    case O_UREM: r=Z3_mk_bvurem(z,zbv(e->a),zbv(e->b)); break; case O_SREM: r=Z3_mk_bvsrem(z,zbv(e->a),zbv(e->b)); break;
    case O_SHL: r=Z3_mk_bvshl(z,zbv(e->a),zbv(e->b)); break; case O_LSHR: r=Z3_mk_bvlshr(z,zbv(e->a),zbv(e->b)); break; case O_ASHR: r=Z3_mk_bvashr(z,zbv(e->a),zbv(e->b)); break;
    case O_CONCAT: r=Z3_mk_concat(z,zbv(e->a),zbv(e->b)); break;
    case O_EXTRACT: r=Z3_mk_extract(z,(unsigned)e->val+e->w-1,(unsigned)e->val,zbv(e->a)); break;
    case O_ZEXT: r=Z3_mk_zero_ext(z,e->w-e->a->w,zbv(e->a)); break; case O_SEXT: r=Z3_mk_sign_ext(z,e->w-e->a->w,zbv(e->a)); break;
    case O_ITE: r=Z3_mk_ite(z,zbool(e->a),zbv(e->b),zbv(e->c)); break;
    default: throw EngineError("zbv op");
  }
  e->zv=keep(z,r); return r;
}
u128 Engine::eval(const Expr*e,const Model&m){
  if(e->op==O_CONST) return e->val;
  if(e->epoch==epoch) return e->ev;
  u128 r=0; u128 M=maskw(e->w);
  switch(e->op){
    case O_SYM: r=(e->val<m.size()?m[(size_t)e->val]:dflt((u64)e->val))&M; break;
    case O_NOT: r=~eval(e->a,m)&M; break;
    case O_CONCAT: r=(eval(e->a,m)<<e->b->w)|eval(e->b,m); break;
    case O_EXTRACT: r=(eval(e->a,m)>>(unsigned)e->val)&M; break;
    case O_ZEXT: r=eval(e->a,m); break; case O_SEXT: r=(u128)sx(eval(e->a,m),e->a->w)&M; break;
    case O_ITE: r=eval(e->a,m)?eval(e->b,m):eval(e->c,m); break;
    default: r=foldBin(e->op,eval(e->a,m),eval(e->b,m),e->a->w);
  }
  e->epoch=epoch; e->ev=r; return r;
}
V Engine::fresh(State&S,unsigned w){ const Expr*e=ET.get(O_SYM,w,0,0,0,S.nsym++); return W(e); }
void Engine::addC(State&S,const Expr*e){ if(e->op==O_CONST){ return; } if(e->op==O_AND){ addC(S,e->a); addC(S,e->b); return; }
  auto p=std::make_shared<PC>(); p->e=e; p->up=S.pc; p->depth=S.pc?S.pc->depth+1:1; S.pc=p; if(p->depth>st.maxdepth) st.maxdepth=p->depth;
  S.known[e]=1; if(e->op==O_NOT) S.known[e->a]=0; if(e->op==O_EQ){ if(e->b->op==O_CONST) S.known[e->a]=e->b->val; else if(e->a->op==O_CONST) S.known[e->b]=e->a->val; } }
// Is e unsatisfiable even when every sum it mentions more than once is replaced by an arbitrary value?
// (a stronger statement than unsatisfiability of e, and much easier for the solver)
bool Engine::unsatGeneral(const Expr*e){
  std::unordered_map<const Expr*,int> uses; std::vector<const Expr*> todo{e}; 
  while(!todo.empty()){ const Expr*x=todo.back(); todo.pop_back(); for(const Expr*k:{x->a,x->b,x->c}) if(k&&uses[k]++==0) todo.push_back(k); }
  std::unordered_map<const Expr*,const Expr*> memo; u64 nf=0;
  std::function<const Expr*(const Expr*)> sub=[&](const Expr*x)->const Expr*{ auto it=memo.find(x); if(it!=memo.end()) return it->second; const Expr*r=x;
    if(x!=e&&x->w>1&&(x->op==O_ADD||x->op==O_SUB||x->op==O_OR)&&uses[x]>1) r=ET.get(O_SYM,x->w,0,0,0,4000000+nf++);
    else if(x->op!=O_CONST&&x->op!=O_SYM) r=ET.get(x->op,x->w,x->a?sub(x->a):0,x->b?sub(x->b):0,x->c?sub(x->c):0,x->val);
    return memo[x]=r; };
  const Expr*g=sub(e); if(!nf) return false;
  static std::unordered_set<const Expr*> proven; if(proven.count(g)) return true; // the very same general statement was decided before
  Z3_solver_push(z,zs0); Z3_solver_assert(z,zs0,zbool(g)); double t=now(); Z3_lbool r=Z3_solver_check(z,zs0); st.ztime+=now()-t; st.queries++; Z3_solver_pop(z,zs0,1); if(r==Z3_L_FALSE) proven.insert(g); return r==Z3_L_FALSE; }
int Engine::check(State&S,const std::vector<const Expr*>&extra,Model*out){
  if(verbose){ std::string w=where(S); size_t k=w.find(" < "); if(k!=std::string::npos){ size_t k2=w.find(" < ",k+3); w=w.substr(0,k2);} prof[w]++; }
  std::vector<const Expr*> want; for(PC*p=S.pc.get();p;p=p->up.get()) want.push_back(p->e); std::reverse(want.begin(),want.end());
  size_t i=0; while(i<want.size()&&i<zstack.size()&&want[i]==zstack[i]) i++;
  if(zstack.size()>i){ Z3_solver_pop(z,zs,zstack.size()-i); zstack.resize(i); }
  for(;i<want.size();i++){ Z3_solver_push(z,zs); Z3_solver_assert(z,zs,zbool(want[i])); zstack.push_back(want[i]); }
  Z3_solver_push(z,zs); for(auto e:extra) Z3_solver_assert(z,zs,zbool(e));
  double t=now(); Z3_lbool r=Z3_L_UNDEF; if(hard>0) hard--; else { r=Z3_solver_check(z,zs); if(r==Z3_L_UNDEF) hard=16; } double d=now()-t; st.queries++; st.ztime+=d; if(d>st.zmax) st.zmax=d;
  Z3_solver fs=0; if(r==Z3_L_UNDEF){ tick=true; if(extra.size()==1&&unsatGeneral(extra[0])){ genFirst=true; hard=0; st.unsat++; Z3_solver_pop(z,zs,1); return 0; } // hard for the incremental core: bit-blast the whole query afresh
    Z3_tactic tt=Z3_mk_tactic(z,"qfbv"); Z3_tactic_inc_ref(z,tt); fs=Z3_mk_solver_from_tactic(z,tt); Z3_solver_inc_ref(z,fs); Z3_tactic_dec_ref(z,tt);
    Z3_params p=Z3_mk_params(z); Z3_params_inc_ref(z,p); Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),120000); Z3_solver_set_params(z,fs,p); Z3_params_dec_ref(z,p);
    for(auto e:want) Z3_solver_assert(z,fs,zbool(e)); for(auto e:extra) Z3_solver_assert(z,fs,zbool(e));
    t=now(); r=Z3_solver_check(z,fs);  d=now()-t; st.ztime+=d; if(d>st.zmax) st.zmax=d; }
  if(r==Z3_L_UNDEF){ Z3_solver_dec_ref(z,fs); Z3_solver_pop(z,zs,1); st.unknown++; throw EngineError("solver answered unknown (timeout)"); }
  if(r==Z3_L_TRUE){ st.sat++; if(out){ out->clear(); growModel(*out,S.nsym); Z3_model m=Z3_solver_get_model(z,fs?fs:zs); Z3_model_inc_ref(z,m); unsigned n=Z3_model_get_num_consts(z,m);
      for(unsigned k=0;k<n;k++){ Z3_func_decl d=Z3_model_get_const_decl(z,m,k); Z3_symbol sy=Z3_get_decl_name(z,d); if(Z3_get_symbol_kind(z,sy)!=Z3_INT_SYMBOL) continue; int id=Z3_get_symbol_int(z,sy); unsigned w=id&255,ord=id>>8; if(ord>=out->size()) continue;
        Z3_ast v=Z3_model_get_const_interp(z,m,d); if(!v) continue; u64 x=0; u128 val=0;
        if(w<=64){ if(Z3_get_numeral_uint64(z,v,&x)) val=x; } else { Z3_inc_ref(z,v); Z3_string s=Z3_get_numeral_string(z,v); for(const char*q=s;*q;q++) val=val*10+(*q-'0'); }
        (*out)[ord]=val; }
      Z3_model_dec_ref(z,m); } }
  else st.unsat++;
  if(fs) Z3_solver_dec_ref(z,fs);
  Z3_solver_pop(z,zs,1); return r==Z3_L_TRUE;
}
// three-valued evaluation over facts already fixed on this path
int Engine::evalPart(State&S,const Expr*e,u128&out){
  if(e->op==O_CONST){ out=e->val; return 1; }
  if(e->uepoch==epoch){ if(e->ustat){ out=e->ev; } return e->ustat; }
  auto it=S.known.find(e); int r=0; u128 v=0;
  if(it!=S.known.end()){ r=1; v=it->second; }
  else { u128 a=0,b=0,c=0; u128 M=maskw(e->w);
   switch(e->op){ case O_SYM: break;
    case O_NOT: if((r=evalPart(S,e->a,a))) v=~a&M; break;
    case O_CONCAT: if(evalPart(S,e->a,a)&&evalPart(S,e->b,b)){ r=1; v=(a<<e->b->w)|b; } break;
    case O_EXTRACT: if((r=evalPart(S,e->a,a))) v=(a>>(unsigned)e->val)&M; break;
    case O_ZEXT: if((r=evalPart(S,e->a,a))) v=a; break; case O_SEXT: if((r=evalPart(S,e->a,a))) v=(u128)sx(a,e->a->w)&M; break;
    case O_ITE: if(evalPart(S,e->a,a)){ if((r=evalPart(S,a?e->b:e->c,c))) v=c; } break;
    case O_AND: { int ra=evalPart(S,e->a,a); if(ra&&!a){ r=1; v=0; break; } int rb=evalPart(S,e->b,b); if(rb&&!b){ r=1; v=0; break; } if(ra&&rb){ r=1; v=a&b; } break; }
    case O_OR: { int ra=evalPart(S,e->a,a); if(ra&&a==M){ r=1; v=M; break; } int rb=evalPart(S,e->b,b); if(rb&&b==M){ r=1; v=M; break; } if(ra&&rb){ r=1; v=a|b; } break; }
    default: if(evalPart(S,e->a,a)&&evalPart(S,e->b,b)){ r=1; v=foldBin(e->op,a,b,e->a->w); } break; } }
  e->uepoch=epoch; e->ustat=r; e->ev=v; e->epoch=0; out=v; return r;
}
bool Engine::tryKnown(State&S,const Expr*e,u128&out){ auto it=S.known.find(e); if(it!=S.known.end()){ out=it->second; return true; } if(S.known.empty()) return false; newEpoch(); return evalPart(S,e,out); }
State* Engine::fork(State&S){ State*n=new State(S); n->id=nextId++; n->forks++; st.forks++; return n; }
bool Engine::decide(State&S,V c){
  if(!c.e) return c.c&1;
  bool inv=false; const Expr*e=c.e; if(e->op==O_NOT){ inv=true; e=e->a; }
  u128 k; if(tryKnown(S,e,k)) return (k&1)^inv;
  bool mv=evalB(S,e); Model m2; const Expr*other=mv?eNot(e):e;
  if(!check(S,{other},&m2)){ S.known[e]=mv; return mv^inv; }
  State*n=fork(S); addC(*n,other); n->known[e]=!mv; n->model=std::make_shared<Model>(std::move(m2)); work.push_back(n);
  addC(S,mv?e:eNot(e)); S.known[e]=mv; return mv^inv;
}
void Engine::enumerate(State&S,const V&v,std::vector<u128>&out,unsigned limit){
  std::vector<const Expr*> ex; newEpoch(); u128 x=eval(v.e,*S.model); 
  while(1){ out.push_back(x); if(out.size()>limit){ violation(S,"memory","an address, length or jump target depends on unconstrained data",nullptr); throw PathEnd{"unconstrained address"}; }
    if(out.size()==8&&v.w==64){ Model m; if(check(S,{eEq(v.e,mkc(0x0badc0de0badc0d0ull,v.w))},&m)){ violation(S,"memory","an address, length or jump target depends on unconstrained data",&m); throw PathEnd{"unconstrained address"}; } }
    ex.push_back(eNot(eEq(v.e,mkc(x,v.w)))); if(ex.back()->op==O_CONST&&!ex.back()->val) break; Model m; if(!check(S,ex,&m)) break; newEpoch(); x=eval(v.e,m); }
}
u64 Engine::conc(State&S,const V&v,const char*what,unsigned limit){
  if(!v.e) return (u64)v.c;
  u128 k; if(tryKnown(S,v.e,k)) return (u64)k;
  std::vector<u128> vals; enumerate(S,v,vals,limit);
  if(vals.size()==1){ S.known[v.e]=vals[0]; return (u64)vals[0]; }
  newEpoch(); u128 mine=eval(v.e,*S.model);
  for(u128 x:vals) if(x!=mine){ const Expr*q=eEq(v.e,mkc(x,v.w)); Model m; if(!check(S,{q},&m)) continue; State*n=fork(S); addC(*n,q); n->known[v.e]=x; n->model=std::make_shared<Model>(std::move(m)); work.push_back(n); }
  addC(S,eEq(v.e,mkc(mine,v.w))); S.known[v.e]=mine; return (u64)mine;
}
bool Engine::assume(State&S,V c){ if(!c.e) return c.c&1; u128 k; if(tryKnown(S,c.e,k)) return k&1; if(!evalB(S,c.e)){ Model m; if(!check(S,{c.e},&m)) return false; S.model=std::make_shared<Model>(std::move(m)); } addC(S,c.e); return true; }
void Engine::violation(State&S,const std::string&kind,const std::string&msg,const Model*m){
  if(ignored(kind,msg)) return;
  st.viol++; int&c=violCount[kind+":"+msg]; if(c++>=perMsg) return;
  Violation v; v.kind=kind; v.msg=msg; v.where=where(S); v.path=S.id; const Model&M=m?*m:*S.model;
  for(auto&r:S.recs){ std::vector<u8> b; for(u32 i=0;i<r.count;i++) b.push_back((u8)(r.first+i<M.size()?M[r.first+i]:dflt(r.first+i))); v.in.push_back({r.name,b}); }
  v.notes=S.notes; viols.push_back(v); if(firstViol) firstViol->fetch_add(1); if((int)viols.size()>=maxViol) stop=true;
}
void Engine::check_assert(State&S,V c,const std::string&kind,const std::string&msg){
  if(ignored(kind,msg)) return;
  st.asserts++; if(!c.e){ if(c.c&1) return; violation(S,kind,msg,nullptr); throw PathEnd{"assert failed: "+msg}; }
  u128 k; if(tryKnown(S,c.e,k)){ if(k&1) return; violation(S,kind,msg,nullptr); throw PathEnd{"assert failed: "+msg}; }
  st.assertsSolver++;
  if(!evalB(S,c.e)){ violation(S,kind,msg,nullptr); Model m; if(!check(S,{c.e},&m)) throw PathEnd{"assert failed: "+msg}; S.model=std::make_shared<Model>(std::move(m)); addC(S,c.e); return; }
  if(genFirst&&unsatGeneral(eNot(c.e))){ st.unsat++; S.known[c.e]=1; return; }
  Model m; if(check(S,{eNot(c.e)},&m)){ violation(S,kind,msg,&m); addC(S,c.e); return; }
  S.known[c.e]=1;
}
// ---------------- memory
bool Engine::accOk(State&S,u64 a,u64 n,bool wr,bool asmctx){
  u8 need=wr?F_W:F_R; Mem&m=*S.mem; u64 i=0;
  while(i<n){ u64 x=a+i; Page*p=m.rd(x/PS); u64 o=x%PS, e=std::min<u64>(PS,o+n-i); 
    for(;o<e;o++,i++){ u8 f=p?p->f[o]:0; if((f&need)&&!(f&F_POISON)) continue; if(f&F_POISON) return false;
      if(asmctx&&!S.st.empty()&&S.st.back().k==K_ASM){ u64 y=a+i; u64 rsp=S.cpu.r[4].u(); if(y>=STK_LO&&y<STK_HI&&y+128>=rsp&&y<S.st.back().saveSp&&!(f&F_ALLOC)) continue; }
      return false; } }
  return true;
}
void Engine::acc(State&S,u64 a,u64 n,bool wr,bool asmctx){
  st.memchk++;
  if(accOk(S,a,n,wr,asmctx)) return;
  char b[200]; const char*cls=a<4096?"null":a>=STK_LO&&a<STK_HI?"stack":a>=HEAP0&&a<MMAP0?"heap":a>=MMAP0&&a<STK_LO?"mapping":"other";
  bool poison=false; for(u64 i=0;i<n;i++) if(S.mem->flags(a+i)&F_POISON) poison=true;
  snprintf(b,sizeof b,"invalid %s of %s memory%s",wr?"write":"read",cls,poison?" (guarded bytes)":""); char c2[64]; snprintf(c2,sizeof c2,"address 0x%llx size %llu",(unsigned long long)a,(unsigned long long)n); S.notes.push_back(c2);
  violation(S,"memory",b,nullptr); throw PathEnd{b};
}
V Engine::loadByte(State&S,u64 a){ a=S.tr(a); Page*p=S.mem->rd(a/PS); u64 o=a%PS; if(!p||!(p->f[o]&F_INIT)){ V f=fresh(S,8); p=S.mem->wr(a/PS); if(!p->s){ p->s=(const Expr**)calloc(PS,sizeof(Expr*)); } p->s[o]=f.e; p->f[o]|=F_INIT; return f; }
  if(p->s&&p->s[o]) return W(p->s[o]); return V(p->c[o],8); }
void Engine::storeByte(State&S,u64 a,const V&v){ a=S.tr(a); Page*p=S.mem->wr(a/PS); u64 o=a%PS; p->f[o]|=F_INIT; if(v.e){ if(!p->s) p->s=(const Expr**)calloc(PS,sizeof(Expr*)); p->s[o]=v.e; } else { p->c[o]=(u8)v.c; if(p->s) p->s[o]=nullptr; } }
V Engine::load(State&S,u64 a,unsigned n,bool asmctx,bool chk){
  if(chk) acc(S,a,n,false,asmctx);
  Page*p=S.mem->rd(a/PS); u64 o=a%PS;
  if(p&&o+n<=PS&&!p->s&&S.tr(a)==a){ bool ok=true; u128 v=0; for(unsigned i=0;i<n;i++){ if(!(p->f[o+i]&F_INIT)){ ok=false; break; } v|=(u128)p->c[o+i]<<(8*i); } if(ok){ if(chk&&S.accs) race(S,a,n,false); return V(v,n*8); } }
  if(chk&&S.accs) race(S,a,n,false);
  V r=loadByte(S,a); for(unsigned i=1;i<n;i++) r=vConcat(loadByte(S,a+i),r); return r;
}
void Engine::store(State&S,u64 a,const V&v,unsigned n,bool asmctx,bool chk){
  if(chk) acc(S,a,n,true,asmctx);
  if(v.w!=n*8) throw EngineError("store width");
  if(chk&&S.accs) race(S,a,n,true);
  for(unsigned i=0;i<n;i++) storeByte(S,a+i,vExtract(v,8*i,8));
}
static void leaves(const Expr*e,const Expr*c,std::vector<std::pair<const Expr*,u128>>&out){ if(e->op==O_CONST){ out.push_back({c,e->val}); return; } const Expr*n=e->a; leaves(e->b,c?eBin(O_AND,c,n):n,out); leaves(e->c,c?eBin(O_AND,c,eNot(n)):eNot(n),out); }
V Engine::loadV(State&S,const V&a,unsigned n,bool asmctx){
  if(!a.e) return load(S,a.u(),n,asmctx);
  u128 k; if(tryKnown(S,a.e,k)) return load(S,(u64)k,n,asmctx);
  std::vector<u128> vals;
  if(a.e->citree){ std::vector<std::pair<const Expr*,u128>> lv; leaves(a.e,nullptr,lv); std::set<u128> seen; for(auto&l:lv) if(seen.insert(l.second).second){ 
      if(accOk(S,(u64)l.second,n,false,asmctx)) { vals.push_back(l.second); continue; }
      const Expr*q=eEq(a.e,mkc(l.second,64)); Model m; if(check(S,{q},&m)) vals.push_back(l.second); } }
  else enumerate(S,a,vals,512);
  if(vals.empty()) throw EngineError("no feasible address");
  V r; bool first=true;
  for(u128 x:vals){ u64 ad=(u64)x; if(!accOk(S,ad,n,false,asmctx)){ // feasible invalid address
      const Expr*q=eEq(a.e,mkc(ad,64)); State T(S); Model m; if(!check(S,{q},&m)) continue; T.model=std::make_shared<Model>(m); try{ acc(T,ad,n,false,asmctx); }catch(PathEnd&){} if(!assume(S,vNot(W(q)))) throw PathEnd{"only invalid addresses"}; continue; }
    V l=load(S,ad,n,asmctx); if(first){ r=l; first=false; } else r=vIte(W(eEq(a.e,mkc(ad,64))),l,r); }
  if(first) throw PathEnd{"no valid address"};
  return r;
}
void Engine::storeV(State&S,const V&a,const V&v,unsigned n,bool asmctx){ u64 ad=conc(S,a,"store address"); store(S,ad,v,n,asmctx); }
void Engine::copyBytes(State&S,u64 d,u64 s,u64 n,bool asmctx){ if(!n) return; acc(S,s,n,false,asmctx); acc(S,d,n,true,asmctx); if(S.accs){ race(S,s,n,false); race(S,d,n,true); }
  std::vector<V> t; t.reserve(n); for(u64 i=0;i<n;i++){ u64 x=s+i; t.push_back(loadByte(S,x)); } for(u64 i=0;i<n;i++) storeByte(S,d+i,t[i]); }
u64 Engine::allocObj(State&S,u64 n,u64 al,bool init){ if(al<16) al=16; u64 a=(S.heap+64+al-1)&~(al-1); u64 m=n?n:1; S.heap=a+m+64; S.mem->orFlags(a,n,F_R|F_W|F_ALLOC,F_INIT); if(init) for(u64 i=0;i<n;i++) storeByte(S,a+i,V(0,8)); S.objs.push_back({a,n}); return a; }
void Engine::freeAllocas(State&S,Frame&F,size_t keep){ while(F.allocas.size()>keep){ auto&p=F.allocas.back(); S.mem->setFlags(p.first,p.second,0); F.allocas.pop_back(); } }
std::string Engine::cstr(State&S,u64 a){ std::string s; for(int i=0;i<400;i++){ u8 f=S.mem->flags(a+i); if(!(f&F_R)) break; V b=loadByte(S,a+i); if(b.e){ s+='?'; continue; } if(!b.c) break; s+=(char)b.c; } return s; }
std::string Engine::where(State&S){ std::string s; char b[64]; for(auto it=S.st.rbegin();it!=S.st.rend();++it){ if(!s.empty()) s+=" < "; if(it->k==K_IR) s+=it->f->name; else { u64 pc=(it==S.st.rbegin())?S.cpu.rip:it->saveRip; auto q=asmNames.upper_bound(pc); std::string n="?"; u64 base=0; if(q!=asmNames.begin()){ --q; n=q->second; base=q->first; } snprintf(b,sizeof b,"+0x%llx",(unsigned long long)(pc-base)); s+="asm:"+n+b; } if(s.size()>400) break; } return s; }

// ---------------- module
unsigned Engine::tw(Type*T){ if(T->isPointerTy()) return 64; if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isFloatTy()) return 32; if(T->isDoubleTy()) return 64; if(T->isX86_FP80Ty()) return 80; if(T->isFP128Ty()) return 128; if(T->isVectorTy()){ auto*VT=cast<FixedVectorType>(T); unsigned w=VT->getNumElements()*tw(VT->getElementType()); if(w>128) throw EngineError("vector too wide"); return w; } if(T->isVoidTy()) return 0; std::string s; raw_string_ostream os(s); T->print(os); throw EngineError("type width: "+s); }
u64 Engine::symAddr(const std::string&n){
  if(M){ if(auto*gv=M->getNamedValue(n)) if(!gv->isDeclaration()){ auto it=gaddr.find(gv); if(it!=gaddr.end()) return it->second; if(auto*ga=dyn_cast<GlobalAlias>(gv)) return gaddr[ga->getAliaseeObject()]; } }
  auto a=asyms.find(n); if(a!=asyms.end()) return a->second.addr;
  return 0; }
V Engine::constV(const Constant*C){
  if(auto*ci=dyn_cast<ConstantInt>(C)){ const APInt&v=ci->getValue(); u128 x=v.getRawData()[0]; if(v.getNumWords()>1) x|=(u128)v.getRawData()[1]<<64; return V(x,v.getBitWidth()); }
  if(auto*cf=dyn_cast<ConstantFP>(C)){ APInt v=cf->getValueAPF().bitcastToAPInt(); u128 x=v.getRawData()[0]; if(v.getNumWords()>1) x|=(u128)v.getRawData()[1]<<64; return V(x,v.getBitWidth()); }
  if(isa<ConstantPointerNull>(C)) return V(0,64);
  if(isa<UndefValue>(C)) return V(0,tw(C->getType()));
  if(isa<ConstantAggregateZero>(C)) return V(0,tw(C->getType()));
  if(auto*ga=dyn_cast<GlobalAlias>(C)) return constV(ga->getAliasee());
  if(isa<GlobalValue>(C)){ auto it=gaddr.find(C); if(it!=gaddr.end()) return V(it->second,64); 
    u64 a=symAddr(C->getName().str()); if(!a) a=symAddr("vp_os_"+C->getName().str()); if(a){ return V(a,64); } 
    // unresolved: give it an address nothing is mapped at
    if(auto*f=dyn_cast<Function>(C)){ u64 ad=codeTop; codeTop+=16; gaddr[C]=ad; faddr[ad]=f; return V(ad,64); }
    throw EngineError("unresolved global "+C->getName().str()); }
  if(C->getType()->isVectorTy()){ auto*VT=cast<FixedVectorType>(C->getType()); V r; for(unsigned i=0;i<VT->getNumElements();i++){ V x=constV(C->getAggregateElement(i)); r=i?vConcat(x,r):x; } return r; }
  if(auto*ce=dyn_cast<ConstantExpr>(C)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr:{ APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) throw EngineError("const gep"); V b=constV(ce->getOperand(0)); return V(b.c+(u128)(s128)off.getSExtValue(),64); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { V v=constV(ce->getOperand(0)); return vResize(v,tw(ce->getType())); }
      case Instruction::Add: return vAdd(constV(ce->getOperand(0)),constV(ce->getOperand(1)));
      case Instruction::Sub: return vSub(constV(ce->getOperand(0)),constV(ce->getOperand(1)));
      case Instruction::Trunc: return vExtract(constV(ce->getOperand(0)),0,tw(ce->getType()));
      case Instruction::And: return vAnd(constV(ce->getOperand(0)),constV(ce->getOperand(1)));
      case Instruction::Xor: return vXor(constV(ce->getOperand(0)),constV(ce->getOperand(1)));
      case Instruction::ICmp: { V a=constV(ce->getOperand(0)),b=constV(ce->getOperand(1)); switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: return vEq(a,b); case CmpInst::ICMP_NE: return vNot(vEq(a,b)); case CmpInst::ICMP_ULT: return vUlt(a,b); case CmpInst::ICMP_UGT: return vUlt(b,a); default: break; } break; }
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); throw EngineError("constant: "+s);
}
void Engine::constInit(const Constant*C,std::vector<u8>&out,u64 off){
  Type*T=C->getType(); u64 n=DL->getTypeAllocSize(T);
  if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)) return;
  if(auto*cds=dyn_cast<ConstantDataSequential>(C)){ StringRef d=cds->getRawDataValues(); memcpy(&out[off],d.data(),d.size()); return; }
  if(auto*ca=dyn_cast<ConstantArray>(C)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) constInit(ca->getOperand(i),out,off+i*es); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(C)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) constInit(cs->getOperand(i),out,off+sl->getElementOffset(i)); return; }
  V v=constV(C); u64 st=DL->getTypeStoreSize(T); for(u64 i=0;i<st&&i<n;i++) out[off+i]=(u8)(v.c>>(8*i));
}
void Engine::loadModule(const std::string&){ }
static const u8 zero16[16]={0};
void Engine::loadObj(const std::string&path){
  FILE*f=fopen(path.c_str(),"rb"); if(!f) throw EngineError("cannot open "+path); std::vector<u8> d; u8 buf[65536]; size_t k; while((k=fread(buf,1,sizeof buf,f))>0) d.insert(d.end(),buf,buf+k); fclose(f);
  Elf64_Ehdr*eh=(Elf64_Ehdr*)d.data(); if(memcmp(eh->e_ident,ELFMAG,4)||eh->e_ident[4]!=ELFCLASS64) throw EngineError("not an ELF64 object: "+path);
  Elf64_Shdr*sh=(Elf64_Shdr*)(d.data()+eh->e_shoff); const char*sn=(char*)d.data()+sh[eh->e_shstrndx].sh_offset;
  std::vector<u64> sa(eh->e_shnum,0); std::vector<std::vector<u8>> sd(eh->e_shnum);
  bool harness=harnessObjs.count(path); auto dbgf=[&](int i){ return !strcmp(sn+sh[i].sh_name,".debug_frame")&&!harness; };
  for(int i=0;i<eh->e_shnum;i++) if(dbgf(i)) sd[i].assign(d.data()+sh[i].sh_offset,d.data()+sh[i].sh_offset+sh[i].sh_size);
  for(int i=0;i<eh->e_shnum;i++) if(sh[i].sh_flags&SHF_ALLOC){ u64 al=std::max<u64>(sh[i].sh_addralign,16); asmTop=(asmTop+al-1)&~(al-1); sa[i]=asmTop; sd[i].assign(sh[i].sh_size,0); if(sh[i].sh_type!=SHT_NOBITS&&sh[i].sh_size) memcpy(sd[i].data(),d.data()+sh[i].sh_offset,sh[i].sh_size); asmTop+=sh[i].sh_size+64;
      if(sh[i].sh_flags&SHF_EXECINSTR&&sh[i].sh_size){ asmText.push_back({sa[i],sa[i]+sh[i].sh_size}); if(harness) harnessText.push_back({sa[i],sa[i]+sh[i].sh_size}); } }
  // symbols
  std::vector<std::pair<u64,bool>> sv; std::vector<std::string> und;
  struct Pend{int sec; Elf64_Rela r;}; 
  int symsec=-1; for(int i=0;i<eh->e_shnum;i++) if(sh[i].sh_type==SHT_SYMTAB) symsec=i;
  Elf64_Sym*sy=symsec>=0?(Elf64_Sym*)(d.data()+sh[symsec].sh_offset):nullptr; size_t ns=symsec>=0?sh[symsec].sh_size/sizeof(Elf64_Sym):0; const char*str=symsec>=0?(char*)d.data()+sh[sh[symsec].sh_link].sh_offset:"";
  std::vector<u64> val(ns,0); 
  for(size_t i=0;i<ns;i++){ std::string n=str+sy[i].st_name; if(sy[i].st_shndx==SHN_UNDEF) continue; if(sy[i].st_shndx==SHN_ABS){ val[i]=sy[i].st_value; } else if(sy[i].st_shndx<eh->e_shnum) val[i]=sa[sy[i].st_shndx]+sy[i].st_value; 
    if(n.empty()||ELF64_ST_TYPE(sy[i].st_info)==STT_SECTION) continue; 
    if(ELF64_ST_BIND(sy[i].st_info)!=STB_LOCAL){ asyms[n]={val[i],sy[i].st_size,ELF64_ST_TYPE(sy[i].st_info)==STT_FUNC}; }
    if(sy[i].st_shndx<eh->e_shnum&&(sh[sy[i].st_shndx].sh_flags&SHF_EXECINSTR)) asmNames[val[i]]=n; }
  std::map<u64,u64> got;
  for(int i=0;i<eh->e_shnum;i++) if(sh[i].sh_type==SHT_RELA&&((sh[sh[i].sh_info].sh_flags&SHF_ALLOC)||dbgf(sh[i].sh_info))){ int t=sh[i].sh_info; Elf64_Rela*r=(Elf64_Rela*)(d.data()+sh[i].sh_offset); size_t n=sh[i].sh_size/sizeof(*r);
    for(size_t j=0;j<n;j++){ u32 ty=ELF64_R_TYPE(r[j].r_info), si=ELF64_R_SYM(r[j].r_info); u64 Sv=val[si]; if(sy[si].st_shndx==SHN_UNDEF&&si){ std::string nm=str+sy[si].st_name; Sv=symAddr(nm); if(!Sv&&M){ if(auto*fn=M->getFunction(nm)) Sv=constV(fn).u(); } if(!Sv&&ELF64_ST_BIND(sy[si].st_info)!=STB_WEAK){ Sv=0x500000; asmNames[0x500000]="unresolved "+nm; } }
      u64 P=sa[t]+r[j].r_offset; s128 A=r[j].r_addend; u8*loc=&sd[t][r[j].r_offset]; u64 v;
      switch(ty){ case R_X86_64_64: v=Sv+A; memcpy(loc,&v,8); break; case R_X86_64_PC32: case R_X86_64_PLT32: v=Sv+A-P; memcpy(loc,&v,4); break; case R_X86_64_PC64: v=Sv+A-P; memcpy(loc,&v,8); break; case R_X86_64_32: case R_X86_64_32S: v=Sv+A; memcpy(loc,&v,4); break;
        case R_X86_64_GOTPCREL: case R_X86_64_GOTPCRELX: case R_X86_64_REX_GOTPCRELX: { u64&g=got[Sv]; if(!g){ g=dataTop; dataTop+=8; std::vector<u8> b(8); memcpy(b.data(),&Sv,8); init.push_back({g,{b,false}}); } v=g+A-P; memcpy(loc,&v,4); break; }
        default: throw EngineError("relocation type "+std::to_string(ty)+" in "+path); } } }
  for(int i=0;i<eh->e_shnum;i++) if(sa[i]&&sh[i].sh_size){ init.push_back({sa[i],{sd[i],(sh[i].sh_flags&SHF_WRITE)!=0}}); if(!strcmp(sn+sh[i].sh_name,".eh_frame")&&!harness) parseEH(sd[i],sa[i],false); }
  for(int i=0;i<eh->e_shnum;i++) if(dbgf(i)&&!sd[i].empty()) parseEH(sd[i],0,true);
}
static u64 uleb(const u8*&p){ u64 r=0; int s=0; u8 b; do{ b=*p++; r|=(u64)(b&127)<<s; s+=7; }while(b&128); return r; }
static int64_t sleb(const u8*&p){ int64_t r=0; int s=0; u8 b; do{ b=*p++; r|=(int64_t)(b&127)<<s; s+=7; }while(b&128); if(s<64&&(b&64)) r|=-((int64_t)1<<s); return r; }
void Engine::parseEH(const std::vector<u8>&d,u64 base,bool dbg){
  struct C{ std::vector<u8> ins; s128 caf,daf; unsigned ra; u8 enc; }; std::map<size_t,C> cies; size_t o=0;
  while(o+4<=d.size()){ u32 len; memcpy(&len,&d[o],4); if(!len) break; size_t body=o+4,end=body+len; if(end>d.size()) break; u32 id; memcpy(&id,&d[body],4); const u8*p=&d[body+4],*e=&d[0]+end;
    if(dbg?id==0xffffffffu:id==0){ C c; c.enc=0; u8 ver=*p++; (void)ver; std::string aug=(const char*)p; p+=aug.size()+1; c.caf=uleb(p); c.daf=sleb(p); c.ra=uleb(p); if(!aug.empty()&&aug[0]=='z'){ u64 al=uleb(p); const u8*q=p; p+=al; for(size_t i=1;i<aug.size();i++){ if(aug[i]=='R') c.enc=*q++; else if(aug[i]=='L') q++; else if(aug[i]=='P'){ u8 pe=*q++; q+=((pe&7)==3||(pe&7)==0xb)?4:8; } } } c.ins.assign(p,e); cies[o]=c; }
    else { size_t co=dbg?id:body-id; auto it=cies.find(co); if(it!=cies.end()){ C&c=it->second; u64 lo,n; u64 fa=base+(p-&d[0]); switch(c.enc&0x0f){ case 0x0b: case 3:{ int32_t x; memcpy(&x,p,4); lo=(u64)(int64_t)x; u32 y; memcpy(&y,p+4,4); n=y; p+=8; break; } default:{ int64_t x; memcpy(&x,p,8); lo=x; memcpy(&n,p+8,8); p+=16; } } if((c.enc&0x70)==0x10) lo+=fa; if(!dbg){ u64 al=uleb(p); p+=al; } Fde f; f.lo=lo; f.hi=lo+n; f.cie=c.ins; f.ins.assign(p,e); f.caf=c.caf; f.daf=c.daf; f.ra=c.ra; fdes.push_back(f); } }
    o=end; }
}
void Engine::initState(State&S){
  for(auto&i:init){ u64 a=i.first; auto&b=i.second.first; for(size_t k=0;k<b.size();k++) storeByte(S,a+k,V(b[k],8)); S.mem->orFlags(a,b.size(),(u8)(F_R|F_ALLOC|(i.second.second?F_W:0)),0); }
  S.sp=STK_HI-4096; S.heap=HEAP0; S.model=std::make_shared<Model>();
}
