/* Calls and closures over chosen signatures: shared by the harnesses for calls, closures, static-chain
   calls/closures, raw interfaces and both calling conventions. */
#ifndef SIG_H
#define SIG_H
#include "abi.h"
#include "os.h"
#include <ffi.h>
enum { M_CALL,M_GOCALL,M_VARCALL,M_RAWCALL,M_JRAWCALL, M_CLO=16,M_CLODYN,M_GOCLO,M_RAWCLO,M_JRAWCLO };
#define MAXN 264
#define SCAL(q,a) t_scalar(q,a)
static struct T ty[MAXN]; static const struct T*tp[MAXN]; static ffi_type*at[MAXN+1]; static void*val[MAXN]; static void*av[MAXN+1]; static void*bak[MAXN]; static void*avbak[MAXN+1];
static struct T rt; static struct sysv S; static int n,mode,abi,nfixed; static int calls; static ffi_cif*cif; static void*rbuf; static u64 chain;
static u8 retv0[512] __attribute__((aligned(16))); static u8*retv=retv0;   /* the value the callee or handler returns */
static int depth,maxdepth,repeat,nullret,jraw,noscalar16,keep_args,retimg_used;
static int win(void){ return abi!=FFI_UNIX64; }
static int okfor(const struct T*t){ if(abi==FFI_WIN64){ for(int i=0;i<t->n;i++) if(t->at[i].atom==A_LD) return 0; } if(jraw&&(t->kind==K_STRUCT||t->kind==K_COMPLEX||(t->kind==K_SCALAR&&t->at[0].atom==A_LD))) return 0; return 1; }
/* ---- signature families */
static const u8 qa[]={0,4,5,6},qb[]={0,6,7,8,9};
static void pick_type(struct T*t,int ncompp){ int q=(int)vp_conc(vp_range("type",0,(u64)(NATOM+ncompp-1))); if(q<NATOM) t_scalar(t,q); else t_build(t,comp_types[q-NATOM]); vp_assume(okfor(t)); }
static void pick_few(struct T*t){ static const char*const few[]={"g","y","l","b","{gy}","{yg}","{yy}","{gg}","{ggg}","{l}","L","{xxx}"}; t_build(t,few[vp_conc(vp_range("type2",0,11))]); vp_assume(okfor(t)); }
static void prefix(int a,int b){ for(int i=0;i<a;i++) t_scalar(&ty[n++],A_U64); for(int i=0;i<b;i++) t_scalar(&ty[n++],A_F64); }
/* A: a integers, b doubles, then k types out of everything */
static void famA(int k,int full){
  int a,b; if(full){ a=(int)vp_conc(vp_range("ints",0,7)); b=(int)vp_conc(vp_range("dbls",0,9)); } else { a=qa[vp_conc(vp_range("ints",0,3))]; b=qb[vp_conc(vp_range("dbls",0,4))]; }
  prefix(a,b); for(int i=0;i<k;i++) if(i&&!full&&!jraw) pick_few(&ty[n++]); else pick_type(&ty[n++],jraw?0:ncomp); }
/* Aw: Windows: a arguments of alternating kind first (0..5), then k types */
static void famW(int k){ int a=(int)vp_conc(vp_range("first",0,5)); int d=(int)vp_conc(vp_range("kind",0,1)); for(int i=0;i<a;i++) t_scalar(&ty[n++],((i^d)&1)?A_F64:A_S64); for(int i=0;i<k;i++) if(i&&VP_TIER<2&&!jraw) pick_few(&ty[n++]); else pick_type(&ty[n++],jraw?0:ncomp); }
/* B: one structure built from up to m members and a nesting shape */
static char desc[40];
static void build_struct(struct T*t,int m,int shapes){ static const char at8[]="acfgxylb"; char*o=desc; int k=(int)vp_conc(vp_range("members",1,(u64)m)); int sh=(int)vp_conc(vp_range("shape",0,(u64)(shapes-1))); char c[8]; for(int i=0;i<k;i++) c[i]=at8[vp_conc(vp_range("member",0,7))];
  *o++='{';
  switch(sh){ case 0: for(int i=0;i<k;i++) *o++=c[i]; break;
    case 1: *o++='{'; *o++=c[0]; *o++='}'; for(int i=1;i<k;i++) *o++=c[i]; break;
    case 2: *o++=c[0]; if(k>1){ *o++='{'; for(int i=1;i<k;i++) *o++=c[i]; *o++='}'; } break;
    case 3: for(int i=0;i<k;i++){ *o++='{'; *o++=c[i]; *o++='a'; *o++='}'; } break;
    default: for(int i=0;i<k;i++) *o++=c[i]; for(int i=0;i<k;i++) *o++=c[i]; break; }
  *o++='}'; *o=0; t_build(t,desc); vp_assume(okfor(t)); }
static void famB(int m,int shapes,int full){ static const u8 pa[]={0,5,6,4},pb[]={0,7,8,6}; int a,b; if(win()){ a=(int)vp_conc(vp_range("first",0,full?5:4)); b=0; for(int i=0;i<a;i++) t_scalar(&ty[n++],(i&1)?A_F64:A_S64); } else { if(full){ a=pa[vp_conc(vp_range("ints",0,3))]; b=pb[vp_conc(vp_range("dbls",0,3))]; } else { int q=(int)vp_conc(vp_range("pre",0,3)); a=pa[q]; b=pb[(q*3+1)&3]; if(!q) b=0; } prefix(a,b); }
  build_struct(&ty[n++],m,shapes); t_build(&ty[n++],"{gy}"); vp_assume(okfor(&ty[n-1])); t_scalar(&ty[n++],A_S32); t_scalar(&ty[n++],A_F64); }
/* C: k arguments, each of five kinds that compete for registers differently */
static void famC(int k){ static const char*const ct[]={"f","y","{gy}","{ggg}","l"}; static const char*const cj[]={"f","y","x","h","b"}; if(!win()) prefix(4,6); for(int i=0;i<k;i++){ t_build(&ty[n++],(jraw?cj:ct)[vp_conc(vp_range("kind",0,4))]); vp_assume(okfor(&ty[n-1])); } }
/* D: many arguments, cycling through kinds */
static void famD(int full){ static const u8 cnt[]={10,11,13,16,17,19,24,31,33,64,130,255}; static const char*const cy[][4]={{"g","g","g","g"},{"y","y","y","y"},{"b","x","{gy}","d"},{"{ggg}","f","l","{aaa}"},{"{yl}","y","{gggggggggggggggggggggggggggggggggggggggga}","g"}}; static const char*const cj[][4]={{"g","g","g","g"},{"y","y","y","y"},{"b","x","h","d"},{"a","f","p","y"},{"c","y","e","g"}};
  int c=cnt[vp_conc(vp_range("count",0,full?11:9))]; int k=(int)vp_conc(vp_range("cycle",0,4)); if(k==4&&c>64) c=64; const char*const*d=(jraw?cj:cy)[k]; for(int i=0;i<c;i++){ if(i<4) t_build(&ty[n],d[i]); else ty[n]=ty[n-4]; n++; } for(int i=0;i<4;i++) vp_assume(okfor(&ty[i])); }
/* F: structures too large for 16-bit offsets, between others */
static void famF(void){ int a=(int)vp_conc(vp_range("prefix",0,2)),w=(int)vp_conc(vp_range("large",0,2)); if(a==1) prefix(6,8); if(a==2) t_build(&ty[n++],"{ggg}"); t_big(&ty[n++],w); t_build(&ty[n++],"{gy}"); t_scalar(&ty[n++],A_F32); if(vp_conc(vp_range("second",0,1))) t_big(&ty[n++],0); t_build(&ty[n++],"b"); t_build(&ty[n++],abi==FFI_WIN64?"{ggg}":"{l}"); if(vp_conc(vp_range("ret",0,1))){ t_big(&rt,2-w); retv=vp_alloc(rt.size,16); } else t_build(&rt,"y"); }
/* ---- return types */
static const char*const scal_ret[]={"v","a","b","c","d","e","f","g","h","p","x","y","l"};
enum { R_VOID,R_FEW,R_ALL,R_BUILD,R_TWO };
static void choose_ret(int r){
  if(r==R_VOID){ t_build(&rt,"v"); return; }
  if(r==R_TWO){ t_build(&rt,vp_conc(vp_range("ret",0,1))?(jraw?"b":"{ggg}"):"v"); return; }
  if(r==R_FEW){ static const char*const few[]={"v","{ggg}","b","y","{yg}","l"}; t_build(&rt,(jraw?scal_ret+1:few)[vp_conc(vp_range("ret",0,jraw?1:5))]); vp_assume(okfor(&rt)); return; }
  if(r==R_ALL){ int q=(int)vp_conc(vp_range("ret",0,(u64)(12+(jraw?0:ncomp)))); t_build(&rt,q<13?scal_ret[q]:comp_types[q-13]); }
  else build_struct(&rt,VP_TIER==2?4:3,VP_TIER==2?5:3);
  vp_assume(okfor(&rt)); if(abi==FFI_WIN64&&rt.kind==K_SCALAR) vp_assume(rt.at[0].atom!=A_LD); }
static int is_int(const struct T*t){ return t->kind==K_SCALAR&&t->at[0].atom<=A_PTR; }
static u64 widen(const struct T*t,u64 v){ switch(t->at[0].atom){ case A_U8:return (u8)v; case A_S8:return (u64)(int64_t)(int8_t)v; case A_U16:return (u16)v; case A_S16:return (u64)(int64_t)(int16_t)v; case A_U32:return (u32)v; case A_S32:return (u64)(int64_t)(int32_t)v; default:return v; } }
static int retmem(void){ return win()?win_retmem(&rt):S.retmem; }
static u64 rsize(void){ return rt.size?(is_int(&rt)?8:rt.size):0; }
/* ---- values */
static void symt(const struct T*t,void*p,const char*nm){ if(t->size<=512){ vp_sym(p,t->size,nm); return; } __builtin_memset(p,0,t->size); for(int i=0;i<t->n;i++) vp_sym((u8*)p+t->at[i].off,8,nm); }
static void mkval(int i){ val[i]=vp_alloc(ty[i].size,ty[i].align); symt(&ty[i],val[i],"v"); }
static void backup(void){ for(int i=0;i<n;i++){ bak[i]=vp_alloc(ty[i].size,16); __builtin_memcpy(bak[i],val[i],ty[i].size); avbak[i]=av[i]; } }
static int disjoint(const void*a,u64 x,const void*b,u64 y){ u64 p=(u64)a,q=(u64)b; return p+x<=q||q+y<=p; }
#endif
