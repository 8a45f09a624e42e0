#include "expr.h"
ExprTab ET;
u128 foldBin(Op op,u128 a,u128 b,unsigned w){
  u128 m=maskw(w); a&=m;b&=m;
  switch(op){
    case O_AND:return a&b; case O_OR:return a|b; case O_XOR:return a^b; case O_ADD:return (a+b)&m; case O_SUB:return (a-b)&m; case O_MUL:return (a*b)&m;
    case O_UDIV:return b?a/b:m; case O_UREM:return b?a%b:a;
    case O_SDIV:{ s128 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
    case O_SREM:{ s128 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
    case O_SHL:return b>=w?0:(a<<(unsigned)b)&m; case O_LSHR:return b>=w?0:a>>(unsigned)b;
    case O_ASHR:{ s128 x=sx(a,w); return (u128)(x>>(b>=w?(w>=128?127:w-1):(unsigned)b))&m; }
    case O_EQ:return a==b; case O_ULT:return a<b; case O_SLT:return sx(a,w)<sx(b,w);
    default: throw EngineError("foldBin");
  }
}
static const Expr* N(Op op,unsigned w,const Expr*a,const Expr*b=nullptr,const Expr*c=nullptr,u128 v=0){ return ET.get(op,w,a,b,c,v); }
static inline bool isC(const Expr*e){ return e->op==O_CONST; }
static inline bool isOnes(const Expr*e){ return isC(e)&&e->val==maskw(e->w); }
static inline bool isZ(const Expr*e){ return isC(e)&&e->val==0; }

static std::pair<u128,u128> range(const Expr*e,int depth=40);
template<class F> static const Expr* mapLeaves(const Expr*t,F f){
  if(isC(t)) return f(t);
  const Expr*x=mapLeaves(t->b,f),*y=mapLeaves(t->c,f); return eIte(t->a,x,y);
}
const Expr* eExtract(const Expr*a,unsigned off,unsigned w){
  if(off+w>a->w) throw EngineError("extract out of range");
  if(off==0&&w==a->w) return a;
  switch(a->op){
    case O_CONST: return mkc(a->val>>off,w);
    case O_EXTRACT: return eExtract(a->a,off+(unsigned)a->val,w);
    case O_CONCAT: { unsigned lw=a->b->w; if(off+w<=lw) return eExtract(a->b,off,w); if(off>=lw) return eExtract(a->a,off-lw,w);
      return eConcat(eExtract(a->a,0,off+w-lw),eExtract(a->b,off,lw-off)); }
    case O_ZEXT: { unsigned iw=a->a->w; if(off>=iw) return mkc(0,w); if(off+w<=iw) return eExtract(a->a,off,w); return eZext(eExtract(a->a,off,iw-off),w); }
    case O_SEXT: { unsigned iw=a->a->w; if(off+w<=iw) return eExtract(a->a,off,w); if(off==0) return eSext(a->a,w); break; }
    case O_ITE: if(a->citree) return mapLeaves(a,[&](const Expr*l){return mkc(l->val>>off,w);}); 
      if(w>=8||w==1) return eIte(a->a,eExtract(a->b,off,w),eExtract(a->c,off,w)); break;
    case O_AND: case O_OR: case O_XOR: if(isC(a->b)||isC(a->a)) return eBin(a->op,eExtract(a->a,off,w),eExtract(a->b,off,w)); break;
    case O_NOT: return eNot(eExtract(a->a,off,w));
    case O_ADD: if(off&&off+w==a->w&&a->w>=16){ auto r=range(a); if(r.first>>off==r.second>>off&&r.first>>off) return mkc(r.first>>off,w); } /* fallthrough */
    case O_SUB: case O_MUL: if(off==0) return eBin(a->op,eExtract(a->a,0,w),eExtract(a->b,0,w)); break;
    default: break;
  }
  return N(O_EXTRACT,w,a,nullptr,nullptr,off);
}
const Expr* eConcat(const Expr*hi,const Expr*lo){
  unsigned w=hi->w+lo->w; if(w>128) throw EngineError("concat too wide");
  if(isC(hi)&&isC(lo)) return mkc((hi->val<<lo->w)|lo->val,w);
  if(isZ(hi)) return eZext(lo,w);
  if(hi->op==O_EXTRACT){ unsigned k=(unsigned)hi->val; const Expr*S=hi->a;
    if(lo->w<=k && eExtract(S,k-lo->w,lo->w)==lo) return eExtract(S,k-lo->w,w);
    if(lo->op==O_CONCAT && lo->a->w<=k && eExtract(S,k-lo->a->w,lo->a->w)==lo->a) return eConcat(eExtract(S,k-lo->a->w,hi->w+lo->a->w),lo->b);
  }
  if(hi->op==O_ITE&&lo->op==O_ITE&&hi->a==lo->a) return eIte(hi->a,eConcat(hi->b,lo->b),eConcat(hi->c,lo->c));
  if(hi->op==O_ITE&&hi->citree&&isC(lo)) return mapLeaves(hi,[&](const Expr*l){return mkc((l->val<<lo->w)|lo->val,w);});
  if(lo->op==O_ITE&&lo->citree&&isC(hi)) return mapLeaves(lo,[&](const Expr*l){return mkc((hi->val<<lo->w)|l->val,w);});
  if(lo->op==O_CONCAT&&isC(hi)&&isC(lo->a)) return eConcat(eConcat(hi,lo->a),lo->b);
  if(lo->op==O_ZEXT&&isC(hi)) { const Expr*z=mkc(0,lo->w-lo->a->w); return N(O_CONCAT,w,eConcat(hi,z),lo->a); }
  if(hi->op==O_ZEXT) return eZext(eConcat(hi->a,lo),w);
  if(hi->op==O_CONCAT) return eConcat(hi->a,eConcat(hi->b,lo));
  return N(O_CONCAT,w,hi,lo);
}
const Expr* eZext(const Expr*a,unsigned w){
  if(a->w==w) return a; if(isC(a)) return mkc(a->val,w);
  if(a->op==O_ZEXT) return eZext(a->a,w);
  if(a->op==O_ITE&&a->citree) return mapLeaves(a,[&](const Expr*l){return mkc(l->val,w);});
  return N(O_ZEXT,w,a);
}
const Expr* eSext(const Expr*a,unsigned w){
  if(a->w==w) return a; if(isC(a)) return mkc((u128)sx(a->val,a->w),w);
  if(a->op==O_SEXT) return eSext(a->a,w);
  if(a->op==O_ZEXT) return eZext(a->a,w);
  if(a->op==O_CONCAT&&isC(a->a)&&!((a->a->val>>(a->a->w-1))&1)) return eZext(a,w);
  if(a->op==O_ITE&&a->citree) return mapLeaves(a,[&](const Expr*l){return mkc((u128)sx(l->val,l->w),w);});
  return N(O_SEXT,w,a);
}
const Expr* eNot(const Expr*a){
  if(isC(a)) return mkc(~a->val,a->w);
  if(a->op==O_NOT) return a->a;
  if(a->op==O_ITE&&a->citree) return mapLeaves(a,[&](const Expr*l){return mkc(~l->val,l->w);});
  if(a->op==O_CONCAT) return eConcat(eNot(a->a),eNot(a->b));
  return N(O_NOT,a->w,a);
}
// known-zero upper bound: number of significant low bits
static unsigned sigbits(const Expr*e){ switch(e->op){ case O_CONST:{unsigned n=0;u128 v=e->val;while(v){n++;v>>=1;}return n;} case O_ZEXT: return sigbits(e->a);
  case O_CONCAT: { unsigned s=sigbits(e->a); return s? s+e->b->w : sigbits(e->b);} case O_ITE: return std::max(sigbits(e->b),sigbits(e->c)); case O_AND: return std::min(sigbits(e->a),sigbits(e->b)); default: return e->w; } }

const Expr* eBin(Op op,const Expr*a,const Expr*b){
  if(op==O_EQ) return eEq(a,b);
  if(a->w!=b->w) throw EngineError("width mismatch in binop");
  unsigned w=a->w; bool cmp=(op==O_ULT||op==O_SLT); unsigned rw=cmp?1:w;
  if(isC(a)&&isC(b)) return mkc(foldBin(op,a->val,b->val,w),rw);
  bool comm=(op==O_AND||op==O_OR||op==O_XOR||op==O_ADD||op==O_MUL);
  if(comm&&(isC(a)||(!isC(b)&&a->hash>b->hash))) std::swap(a,b);
  if(isC(b)&&a->op==O_ITE&&a->citree) return mapLeaves(a,[&](const Expr*l){return mkc(foldBin(op,l->val,b->val,w),rw);});
  if(isC(a)&&b->op==O_ITE&&b->citree) return mapLeaves(b,[&](const Expr*l){return mkc(foldBin(op,a->val,l->val,w),rw);});
  if(a->citree&&b->citree&&!isC(a)&&!isC(b)&&a->cin*b->cin<=64&&a->op==O_ITE&&b->op==O_ITE&&a->a==b->a) return eIte(a->a,eBin(op,a->b,b->b),eBin(op,a->c,b->c));
  switch(op){
    case O_AND:
      if(a==b) return a; if(isZ(b)) return b; if(isOnes(b)) return a;
      if(a->op==O_NOT&&a->a==b) return mkc(0,w); if(b->op==O_NOT&&b->a==a) return mkc(0,w);
      if(isC(b)){ u128 m=b->val; 
        // contiguous mask: bits [lo,hi)
        unsigned lo=0; while(!((m>>lo)&1)) lo++; unsigned n=0; while(lo+n<w&&((m>>(lo+n))&1)) n++;
        if(((m>>lo)>>n)==0||lo+n==w){ const Expr*x=eExtract(a,lo,n); if(lo+n<w) x=eZext(x,w-lo); if(lo) x=eConcat(x,mkc(0,lo)); return x; }
        if(a->op==O_AND&&isC(a->b)) return eBin(O_AND,a->a,mkc(a->b->val&m,w));
        if(a->op==O_ZEXT) return eZext(eBin(O_AND,a->a,eExtract(b,0,a->a->w)),w);
        if(a->op==O_CONCAT){ unsigned lw=a->b->w; return eConcat(eBin(O_AND,a->a,eExtract(b,lw,w-lw)),eBin(O_AND,a->b,eExtract(b,0,lw))); }
      }
      break;
    case O_OR:
      if(a==b) return a; if(isZ(b)) return a; if(isOnes(b)) return b;
      if(a->op==O_NOT&&a->a==b) return mkc(maskw(w),w); if(b->op==O_NOT&&b->a==a) return mkc(maskw(w),w);
      if(a->op==O_ZEXT&&b->op==O_CONCAT&&isZ(b->b)&&a->a->w<=b->b->w) return eConcat(b->a,eZext(a->a,b->b->w));
      if(b->op==O_ZEXT&&a->op==O_CONCAT&&isZ(a->b)&&b->a->w<=a->b->w) return eConcat(a->a,eZext(b->a,a->b->w));
      if(isC(b)&&w>1){ if(a->op==O_CONCAT){ unsigned lw=a->b->w; return eConcat(eBin(O_OR,a->a,eExtract(b,lw,w-lw)),eBin(O_OR,a->b,eExtract(b,0,lw))); }
        if(a->op==O_ZEXT){ unsigned lw=a->a->w; return eConcat(eExtract(b,lw,w-lw),eBin(O_OR,a->a,eExtract(b,0,lw))); } }
      if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->b->w==b->b->w) return eConcat(eBin(O_OR,a->a,b->a),eBin(O_OR,a->b,b->b));
      if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned m=std::max(a->a->w,b->a->w); if(m<w) return eZext(eBin(O_OR,eZext(a->a,m),eZext(b->a,m)),w); }
      if(w>1&&a->op==O_ZEXT&&b->op==O_CONCAT){ unsigned lw=b->b->w; return eConcat(eBin(O_OR,eExtract(a,lw,w-lw),b->a),eBin(O_OR,eExtract(a,0,lw),b->b)); }
      if(w>1&&b->op==O_ZEXT&&a->op==O_CONCAT){ unsigned lw=a->b->w; return eConcat(eBin(O_OR,eExtract(b,lw,w-lw),a->a),eBin(O_OR,eExtract(b,0,lw),a->b)); }
      break;
    case O_XOR:
      if(a==b) return mkc(0,w); if(isZ(b)) return a; if(isOnes(b)) return eNot(a);
      if(isC(b)&&a->op==O_XOR&&isC(a->b)) return eBin(O_XOR,a->a,mkc(a->b->val^b->val,w));
      break;
    case O_ADD:
      if(isZ(b)) return a;
      if(isC(b)&&a->op==O_ADD&&isC(a->b)) return eBin(O_ADD,a->a,mkc(a->b->val+b->val,w));
      if(isC(b)&&a->op==O_SUB&&isC(a->a)) return eBin(O_SUB,mkc(a->a->val+b->val,w),a->b);
      if(!isC(b)&&a->op==O_ADD&&isC(a->b)) return eBin(O_ADD,eBin(O_ADD,a->a,b),a->b);
      if(!isC(b)&&b->op==O_ADD&&isC(b->b)) return eBin(O_ADD,eBin(O_ADD,a,b->a),b->b);
      if(a->op==O_SUB&&a->b==b) return a->a; if(b->op==O_SUB&&b->b==a) return b->a;
      // disjoint: low zero bits + small value
      if(isC(b)&&a->op==O_CONCAT&&isZ(a->b)&&b->val<=maskw(a->b->w)) return eConcat(a->a,mkc(b->val,a->b->w));
      break;
    case O_SUB:
      if(a==b) return mkc(0,w); if(isZ(b)) return a;
      if(isC(b)) return eBin(O_ADD,a,mkc((u128)0-b->val,w));
      if(a->op==O_ADD&&a->a==b) return a->b; if(a->op==O_ADD&&a->b==b) return a->a;
      if(a->op==O_ADD&&b->op==O_ADD&&a->a==b->a) return eBin(O_SUB,a->b,b->b);
      if(a->op==O_ADD&&isC(a->b)&&!isC(b)) { const Expr*d=eBin(O_SUB,a->a,b); return eBin(O_ADD,d,a->b); }
      break;
    case O_MUL:
      if(isZ(b)) return b; if(isC(b)&&b->val==1) return a;
      if(isC(b)&&(b->val&(b->val-1))==0){ unsigned k=0; while(!((b->val>>k)&1)) k++; return eBin(O_SHL,a,mkc(k,w)); }
      break;
    case O_UDIV: if(isC(b)&&b->val&&(b->val&(b->val-1))==0){ unsigned k=0; while(!((b->val>>k)&1)) k++; return eBin(O_LSHR,a,mkc(k,w)); } break;
    case O_UREM: if(isC(b)&&b->val&&(b->val&(b->val-1))==0) return eBin(O_AND,a,mkc(b->val-1,w)); break;
    case O_SHL: if(isC(b)){ if(b->val>=w) return mkc(0,w); unsigned k=(unsigned)b->val; if(!k) return a; return eConcat(eExtract(a,0,w-k),mkc(0,k)); } break;
    case O_LSHR: if(isC(b)){ if(b->val>=w) return mkc(0,w); unsigned k=(unsigned)b->val; if(!k) return a; return eZext(eExtract(a,k,w-k),w); } break;
    case O_ASHR: if(isC(b)){ unsigned k=b->val>=w?w-1:(unsigned)b->val; if(!k) return a; return eSext(eExtract(a,k,w-k),w); } break;
    case O_ULT:
      if(w>=16&&((isC(b)&&(a->op==O_ADD||a->op==O_OR))||(isC(a)&&(b->op==O_ADD||b->op==O_OR)))){ auto p=range(a),q=range(b); if(p.second<q.first) return mkc(1,1); if(p.first>=q.second) return mkc(0,1); }
      if(a==b||isZ(b)) return mkc(0,1); if(isOnes(a)) return mkc(0,1);
      if(isC(b)&&b->val==1) return eEq(a,mkc(0,w));
      if(isZ(a)) return eNot(eEq(b,mkc(0,w)));
      if(isC(b)){ unsigned s=sigbits(a); if(s<128&&s<w&&(b->val>>s)) return mkc(1,1); if(a->op==O_ZEXT) return eBin(O_ULT,a->a,mkc(b->val,a->a->w)); }
      if(isC(a)){ unsigned s=sigbits(b); if(s<w&&a->val>=maskw(s)) return mkc(0,1); if(b->op==O_ZEXT) return eBin(O_ULT,mkc(a->val,b->a->w),b->a); }
      if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned m=std::max(a->a->w,b->a->w); return eBin(O_ULT,eZext(a->a,m),eZext(b->a,m)); }
      break;
    case O_SLT:
      if(a==b) return mkc(0,1);
      if(sigbits(a)<w&&sigbits(b)<w) return eBin(O_ULT,a,b);
      break;
    default: break;
  }
  return N(op,rw,a,b);
}
bool gKeepEq=false;
// unsigned bounds of an expression
static std::unordered_map<const Expr*,std::pair<u128,u128>> rangeMemo;
static std::pair<u128,u128> range(const Expr*e,int depth){
  u128 M=maskw(e->w); if(e->op==O_CONST) return {e->val,e->val}; if(e->op==O_SYM||depth==0) return {0,M};
  auto it=rangeMemo.find(e); if(it!=rangeMemo.end()) return it->second;
  std::pair<u128,u128> r{0,M}; auto pow2m1=[](u128 x){ u128 y=0; while(y<x) y=y*2+1; return y; };
  auto ra=[&]{ return range(e->a,depth-1); }; auto rb=[&]{ return range(e->b,depth-1); };
  switch(e->op){
    case O_ZEXT: r=ra(); break;
    case O_CONCAT: { auto p=ra(),q=rb(); r={(p.first<<e->b->w)|q.first,(p.second<<e->b->w)|q.second}; break; }
    case O_ADD: if(e->w<=64){ auto p=ra(),q=rb(); if(p.second+q.second<=M) r={p.first+q.first,p.second+q.second}; else if(isC(e->b)&&p.first+e->b->val>M) r={(p.first+e->b->val)&M,(p.second+e->b->val)&M}; } break;
    case O_OR: { auto p=ra(),q=rb(); r={std::max(p.first,q.first),pow2m1(p.second|q.second)}; break; }
    case O_AND: { auto p=ra(),q=rb(); r={0,std::min(p.second,q.second)}; break; }
    case O_EXTRACT: { auto p=ra(); if(e->val==0&&p.second<=M) r=p; else if(e->val+e->w==e->a->w) r={p.first>>(unsigned)e->val,p.second>>(unsigned)e->val}; break; }
    case O_ITE: { auto p=rb(),q=range(e->c,depth-1); r={std::min(p.first,q.first),std::max(p.second,q.second)}; break; }
    default: break; }
  rangeMemo[e]=r; return r; }
const Expr* eEq(const Expr*a,const Expr*b){
  if(a->w!=b->w) throw EngineError("width mismatch in eq");
  if(a==b) return gKeepEq&&a->w>=8&&!isC(a)?N(O_EQ,1,a,b):mkc(1,1); unsigned w=a->w;  // gKeepEq: leave the verdict to the solver
  if(isC(a)&&isC(b)) return mkc(a->val==b->val,1);
  if(isC(a)) std::swap(a,b);
  if(isC(b)){
    if(w==1) return b->val?a:eNot(a);
    if(w>=16&&(a->op==O_ADD||a->op==O_OR||a->op==O_CONCAT)){ auto r=range(a); if(b->val<r.first||b->val>r.second) return mkc(0,1); }
    switch(a->op){
      case O_ZEXT: if(b->val>>a->a->w) return mkc(0,1); return eEq(a->a,mkc(b->val,a->a->w));
      case O_SEXT: if((u128)(sx(b->val,a->a->w))!=(u128)sx(b->val,w)) return mkc(0,1); return eEq(a->a,mkc(b->val,a->a->w));
      case O_CONCAT: { const Expr*h=eEq(a->a,mkc(b->val>>a->b->w,a->a->w)); if(isZ(h)) return h; return eBin(O_AND,h,eEq(a->b,mkc(b->val,a->b->w))); }
      case O_ADD: if(isC(a->b)) return eEq(a->a,mkc(b->val-a->b->val,w)); break;
      case O_SUB: if(isC(a->a)) return eEq(a->b,mkc(a->a->val-b->val,w)); if(isZ(b)) return eEq(a->a,a->b); break;
      case O_XOR: if(isC(a->b)) return eEq(a->a,mkc(a->b->val^b->val,w)); break;
      case O_NOT: return eEq(a->a,mkc(~b->val,w));
      case O_ITE: if(a->citree) return mapLeaves(a,[&](const Expr*l){return mkc(l->val==b->val,1);});
        if(isC(a->b)||isC(a->c)) return eIte(a->a,eEq(a->b,b),eEq(a->c,b)); break;
      default: break;
    }
  } else {
    if(a->hash>b->hash) std::swap(a,b);
    if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->b->w==b->b->w) return eBin(O_AND,eEq(a->a,b->a),eEq(a->b,b->b));
    if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned m=std::max(a->a->w,b->a->w); if(m<w) return eEq(eZext(a->a,m),eZext(b->a,m)); }
    if(a->op==O_ADD&&isC(a->b)&&a->a==b) return mkc(0,1); if(b->op==O_ADD&&isC(b->b)&&b->a==a) return mkc(0,1);
    if(a->op==O_ADD&&b->op==O_ADD&&isC(a->b)&&isC(b->b)) return eEq(a->a,eBin(O_ADD,b->a,mkc(b->b->val-a->b->val,w)));
    if(w==1){ if(a->op==O_NOT&&a->a==b) return mkc(0,1); if(b->op==O_NOT&&b->a==a) return mkc(0,1); }
  }
  return N(O_EQ,1,a,b);
}
const Expr* eIte(const Expr*c,const Expr*a,const Expr*b){
  if(isC(c)) return c->val?a:b; if(a==b) return a;
  if(a->w!=b->w) throw EngineError("width mismatch in ite");
  if(c->op==O_NOT) return eIte(c->a,b,a);
  if(a->w==1){ if(isC(a)&&isC(b)) return a->val?c:eNot(c); if(isC(a)) return a->val?eBin(O_OR,c,b):eBin(O_AND,eNot(c),b); if(isC(b)) return b->val?eBin(O_OR,eNot(c),a):eBin(O_AND,c,a); }
  if(a->op==O_ITE&&a->a==c) a=a->b; if(b->op==O_ITE&&b->a==c) b=b->c; if(a==b) return a;
  if(b->op==O_ITE&&b->b==a) return eIte(eBin(O_OR,c,b->a),a,b->c);
  return N(O_ITE,a->w,c,a,b);
}
std::string estr(const Expr*e,int d){
  static const char*nm[]={"c","s","~","&","|","^","+","-","*","u/","s/","u%","s%","<<",">>u",">>s","++","ext","zx","sx","==","<u","<s","?"};
  char buf[96];
  if(e->op==O_CONST){ snprintf(buf,sizeof buf,"0x%llx:%d",(unsigned long long)e->val,e->w); return buf; }
  if(e->op==O_SYM){ snprintf(buf,sizeof buf,"s%llu:%d",(unsigned long long)e->val,e->w); return buf; }
  if(d<=0) return "...";
  std::string s="("; s+=nm[e->op]; if(e->op==O_EXTRACT){ snprintf(buf,sizeof buf,"[%d,%d)",(int)e->val,(int)e->val+e->w); s+=buf; }
  for(auto p:{e->a,e->b,e->c}) if(p) s+=" "+estr(p,d-1);
  return s+")";
}
