// Hash-consed bit-vector expressions (width 1..128) with local rewriting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <z3.h>
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

enum Op : u8 { O_CONST, O_SYM, O_NOT, O_AND, O_OR, O_XOR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_EQ, O_ULT, O_SLT, O_ITE };

struct Expr {
  Op op; u16 w; bool citree; u16 cin; // citree: ITE tree whose leaves are constants; cin: number of leaves
  u32 hash;
  const Expr *a, *b, *c;
  u128 val;            // constant value, symbol ordinal, extract offset
  mutable u64 epoch; mutable u128 ev;
  mutable Z3_ast zb, zv; // cached translations: boolean / bit-vector
  mutable u64 uepoch; mutable u8 ustat;
};

static inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
static inline s128 sx(u128 v, unsigned w){ if(w>=128) return (s128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (s128)((v^m)-m); }

struct V { const Expr *e; u128 c; u16 w;
  V():e(nullptr),c(0),w(0){}
  V(u128 c_,unsigned w_):e(nullptr),c(c_&maskw(w_)),w((u16)w_){}
  bool sym() const { return e!=nullptr; }
  u64 u() const { return (u64)c; }
};

struct ExprTab {
  std::vector<Expr*> tab; size_t n=0; std::vector<Expr*> chunks; size_t cpos=0; static const size_t CH=8192;
  ExprTab(){ tab.assign(1<<16,nullptr); }
  static u32 h(Op op,u16 w,const Expr*a,const Expr*b,const Expr*c,u128 v){
    u64 x=op*0x9E3779B97F4A7C15ull ^ w*0xC2B2AE3D27D4EB4Full; 
    auto mix=[&](u64 y){ x^=y; x*=0xff51afd7ed558ccdull; x^=x>>32; };
    mix((u64)a); mix((u64)b); mix((u64)c); mix((u64)v); mix((u64)(v>>64)); return (u32)(x^(x>>29)); }
  const Expr* get(Op op,unsigned w,const Expr*a,const Expr*b,const Expr*c,u128 v){
    u32 hh=h(op,w,a,b,c,v); size_t m=tab.size()-1, i=hh&m;
    while(tab[i]){ Expr*e=tab[i]; if(e->hash==hh&&e->op==op&&e->w==w&&e->a==a&&e->b==b&&e->c==c&&e->val==v) return e; i=(i+1)&m; }
    if(chunks.empty()||cpos==CH){ chunks.push_back((Expr*)calloc(CH,sizeof(Expr))); cpos=0; }
    Expr*e=chunks.back()+cpos++; e->op=op;e->w=w;e->hash=hh;e->a=a;e->b=b;e->c=c;e->val=v;
    if(op==O_CONST){e->citree=true;e->cin=1;} else if(op==O_ITE&&b->citree&&c->citree&&b->cin+c->cin<=64){e->citree=true;e->cin=b->cin+c->cin;}
    tab[i]=e; if(++n*2>tab.size()) grow(); return e; }
  void grow(){ std::vector<Expr*> o; o.swap(tab); tab.assign(o.size()*2,nullptr); size_t m=tab.size()-1;
    for(auto e:o) if(e){ size_t i=e->hash&m; while(tab[i]) i=(i+1)&m; tab[i]=e; } }
};
extern ExprTab ET;

static inline const Expr* mkc(u128 v,unsigned w){ return ET.get(O_CONST,w,0,0,0,v&maskw(w)); }
static inline const Expr* X(const V&v){ return v.e?v.e:mkc(v.c,v.w); }
static inline V W(const Expr*e){ V v; v.w=e->w; if(e->op==O_CONST) v.c=e->val; else v.e=e; return v; }

const Expr* eExtract(const Expr*a,unsigned off,unsigned w);
const Expr* eConcat(const Expr*hi,const Expr*lo);
const Expr* eZext(const Expr*a,unsigned w);
const Expr* eSext(const Expr*a,unsigned w);
const Expr* eBin(Op op,const Expr*a,const Expr*b);
const Expr* eNot(const Expr*a);
extern bool gKeepEq;
const Expr* eEq(const Expr*a,const Expr*b);
const Expr* eIte(const Expr*c,const Expr*a,const Expr*b);

u128 foldBin(Op op,u128 a,u128 b,unsigned w);

// V-level operations (fast path for concrete values)
static inline V vBin(Op op,const V&a,const V&b){
  if(!a.e&&!b.e){ unsigned rw=(op==O_EQ||op==O_ULT||op==O_SLT)?1:a.w; return V(foldBin(op,a.c,b.c,a.w),rw); }
  return W(op==O_EQ?eEq(X(a),X(b)):eBin(op,X(a),X(b))); }
static inline V vAdd(const V&a,const V&b){ if(!a.e&&!b.e) return V(a.c+b.c,a.w); return vBin(O_ADD,a,b);} 
static inline V vSub(const V&a,const V&b){ if(!a.e&&!b.e) return V(a.c-b.c,a.w); return vBin(O_SUB,a,b);} 
static inline V vAnd(const V&a,const V&b){ return vBin(O_AND,a,b);} 
static inline V vOr(const V&a,const V&b){ return vBin(O_OR,a,b);} 
static inline V vXor(const V&a,const V&b){ return vBin(O_XOR,a,b);} 
static inline V vNot(const V&a){ if(!a.e) return V(~a.c,a.w); return W(eNot(a.e)); }
static inline V vEq(const V&a,const V&b){ return vBin(O_EQ,a,b);} 
static inline V vUlt(const V&a,const V&b){ return vBin(O_ULT,a,b);} 
static inline V vSlt(const V&a,const V&b){ return vBin(O_SLT,a,b);} 
static inline V vUle(const V&a,const V&b){ return vNot(vUlt(b,a));} 
static inline V vSle(const V&a,const V&b){ return vNot(vSlt(b,a));} 
static inline V vZext(const V&a,unsigned w){ if(w==a.w) return a; if(!a.e) return V(a.c,w); return W(eZext(a.e,w)); }
static inline V vSext(const V&a,unsigned w){ if(w==a.w) return a; if(!a.e) return V((u128)sx(a.c,a.w),w); return W(eSext(a.e,w)); }
static inline V vExtract(const V&a,unsigned off,unsigned w){ if(off==0&&w==a.w) return a; if(!a.e) return V(a.c>>off,w); return W(eExtract(a.e,off,w)); }
static inline V vConcat(const V&hi,const V&lo){ if(!hi.e&&!lo.e) return V((hi.c<<lo.w)|lo.c,hi.w+lo.w); return W(eConcat(X(hi),X(lo))); }
static inline V vIte(const V&c,const V&a,const V&b){ if(!c.e) return c.c?a:b; if(!a.e&&!b.e&&a.c==b.c) return a; return W(eIte(c.e,X(a),X(b))); }
static inline V vResize(const V&a,unsigned w){ return w<=a.w?vExtract(a,0,w):vZext(a,w); }

std::string estr(const Expr*e,int depth=6);
