/* Interface preparation: layout (C01), malformed descriptions (C02), variadic promotions (C03). */
#include "abi.h"
#include "os.h"
#include <ffi.h>
#include <complex.h>
#define FULL (VP_TIER==2)
static ffi_type*leafs[16]; static u64 lsz[16]; static u64 lal[16];
/* ---- C01: members of arbitrary size and alignment */
static ffi_type*mkleaf(int i,int kmax){ ffi_type*t=vp_alloc(sizeof*t,8); static const u8 few[]={0,2,4}; u64 k=kmax==2?few[vp_conc(vp_range("align",0,2))]:vp_conc(vp_range("log2 align",0,(u64)kmax)); lal[i]=1ull<<k; u16 c; vp_sym(&c,2,"size"); lsz[i]=((u64)c+1)<<k; t->size=lsz[i]; t->alignment=(unsigned short)lal[i]; t->type=FFI_TYPE_UINT8; t->elements=0; leafs[i]=t; return t; }
static ffi_type*mkstruct(ffi_type**m,int n){ ffi_type*t=vp_alloc(sizeof*t,8); ffi_type**e=vp_alloc(8*(u64)(n+1),8); for(int i=0;i<n;i++) e[i]=m[i]; e[n]=0; vp_protect(e,8*(u64)(n+1),VP_R); t->size=0; t->alignment=0; t->type=FFI_TYPE_STRUCT; t->elements=e; return t; }
/* x rounded up to a multiple of al is the one value r with: al divides r, r-x is in [0,al) */
static int is_up(u64 r,u64 x,u64 al){ return (int)((r&(al-1))==0)&(int)(r-x<al); }
static int theabi; static int getoff(ffi_type*t,size_t*o){ if(!theabi) theabi=(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)); return (int)ffi_get_struct_offsets((ffi_abi)theabi,t,o); }
/* t has n members; s0 and a0: size and alignment it was given earlier */
static void check_layout(ffi_type*t,int n,u64 s0,u64 a0){ size_t*o=vp_alloc(8*(u64)n,8); int st=getoff(t,o); vp_assert(st==FFI_OK,"the layout of a valid aggregate is refused"); vp_assert(t->size==s0&&t->alignment==a0,"the layout of an aggregate changes when it is asked for again");
  u64 x=0,a=1; for(int i=0;i<n;i++){ ffi_type*m=t->elements[i]; if(m->alignment>a) a=m->alignment; vp_assert(is_up(o[i],x,m->alignment),"member offset differs from the C layout"); x=o[i]+m->size; } vp_assert(t->alignment==a,"alignment differs from the C layout"); vp_assert(is_up(t->size,x,a),"size differs from the C layout"); }
static int first_touch(ffi_type*t,int n){ int how=(int)vp_conc(vp_range("first asked",0,2)); struct T big; ffi_cif*c; int st; ffi_type*ar[1]; switch(how){ case 0: st=getoff(t,0); vp_cover("no offsets"); break; case 1: st=getoff(t,vp_alloc(8*(u64)n,8)); vp_cover("offsets"); break; default: (void)big; c=vp_alloc(sizeof*c,8); ar[0]=t; vp_cover("interface"); st=(int)ffi_prep_cif(c,FFI_WIN64,1,&ffi_type_void,ar); } return st; }
void c01_flat(void){ int n=(int)vp_conc(vp_range("n",1,FULL?5:4)); for(int i=0;i<n;i++) mkleaf(i,4); ffi_type*t=mkstruct(leafs,n); vp_assert(first_touch(t,n)==FFI_OK,"a valid aggregate is rejected"); check_layout(t,n,t->size,t->alignment); }
void c01_nest(void){ /* outer: a leaf, an inner aggregate of n members holding an innermost one, a leaf */
  int n=(int)vp_conc(vp_range("n",1,2)),m=(int)vp_conc(vp_range("m",1,2)); int pre=(int)vp_conc(vp_range("pre",0,1)),post=(int)vp_conc(vp_range("post",0,1)); ffi_type*e[8]; int K=FULL?4:2;
  for(int i=0;i<m;i++) e[i]=mkleaf(i,K); ffi_type*t2=mkstruct(e,m); for(int i=0;i<n-1;i++) e[i]=mkleaf(4+i,K); e[n-1]=t2; ffi_type*t1=mkstruct(e,n);
  int k=0; if(pre) e[k++]=mkleaf(8,K); e[k++]=t1; if(post) e[k++]=mkleaf(9,K); ffi_type*t0=mkstruct(e,k);
  vp_assert(first_touch(t0,k)==FFI_OK,"a valid aggregate is rejected"); u64 s[3]={t0->size,t1->size,t2->size},a[3]={t0->alignment,t1->alignment,t2->alignment}; check_layout(t0,k,s[0],a[0]); check_layout(t1,n,s[1],a[1]); check_layout(t2,m,s[2],a[2]); }
/* the layouts computed while preparing interfaces, against the reference layout of abi.c */
static char d[64];
static void gen(char**o,int depth,int*left){ static const char at[]="agylXcfxpL"; int nk=FULL?10:5; int k=(int)vp_conc(vp_range("members",1,2)); *(*o)++='{'; for(int i=0;i<k&&*left>0;i++){ int c=(int)vp_conc(vp_range("member",0,(u64)(depth?nk:nk-1))); if(c==nk) gen(o,depth-1,left); else { *(*o)++=at[c]; --*left; } } if((*o)[-1]=='{') *(*o)++='a'; *(*o)++='}'; }
void c01_prep(void){ char*o=d; int left=3; t_reset(); gen(&o,2,&left); *o=0; struct T t; t_build(&t,d); ffi_type*f=t.ft,*args[3]; ffi_cif*c=vp_alloc(sizeof*c,8); int ab=(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)); int how=(int)vp_conc(vp_range("how",0,3));
  args[0]=&ffi_type_sint32; args[1]=f; args[2]=0; int st;
  if(how==0) st=ffi_prep_cif(c,(ffi_abi)ab,2,&ffi_type_void,args); else if(how==1) st=ffi_prep_cif(c,(ffi_abi)ab,1,f,args); else if(how==2) st=ffi_prep_cif_var(c,(ffi_abi)ab,1,2,f,args); else { ffi_cif*c2=vp_alloc(sizeof*c2,8); st=ffi_prep_cif(c,(ffi_abi)ab,2,f,args); vp_assert(st==FFI_OK,"a valid interface is rejected"); st=ffi_prep_cif(c2,(ffi_abi)ab,2,f,args); }
  vp_assert(st==FFI_OK,"a valid interface is rejected"); vp_assert(f->size==t.size,"size differs from the C layout"); vp_assert(f->alignment==t.align,"alignment differs from the C layout");
  vp_assert(c->abi==(ffi_abi)ab&&c->nargs==(how==1?1u:2u)&&c->arg_types==args&&c->rtype==(how?f:&ffi_type_void),"the interface does not describe what was submitted");
  int n=0; while(f->elements[n]) n++; size_t*off=vp_alloc(8*(u64)n,8); st=ffi_get_struct_offsets((ffi_abi)ab,f,off); vp_assert(st==FFI_OK,"the layout of a valid aggregate is refused"); vp_assert(f->size==t.size&&f->alignment==t.align,"asking for offsets changes the layout"); u64 x=0; for(int i=0;i<n;i++){ u64 al=f->elements[i]->alignment; x=(x+al-1)/al*al; vp_assert(off[i]==x,"member offset differs from the C layout"); x+=f->elements[i]->size; } vp_cover("prep"); }
#define CK(t,ty) vp_assert(t.size==sizeof(ty)&&t.alignment==_Alignof(ty),"size or alignment of ffi_type for " #ty)
void c01_base(void){ CK(ffi_type_uint8,uint8_t); CK(ffi_type_sint8,int8_t); CK(ffi_type_uint16,uint16_t); CK(ffi_type_sint16,int16_t); CK(ffi_type_uint32,uint32_t); CK(ffi_type_sint32,int32_t); CK(ffi_type_uint64,uint64_t); CK(ffi_type_sint64,int64_t); CK(ffi_type_float,float); CK(ffi_type_double,double); CK(ffi_type_longdouble,long double); CK(ffi_type_pointer,void*); CK(ffi_type_uchar,unsigned char); CK(ffi_type_schar,signed char); CK(ffi_type_ushort,unsigned short); CK(ffi_type_sshort,short); CK(ffi_type_uint,unsigned int); CK(ffi_type_sint,int); CK(ffi_type_ulong,unsigned long); CK(ffi_type_slong,long); CK(ffi_type_complex_float,float _Complex); CK(ffi_type_complex_double,double _Complex); CK(ffi_type_complex_longdouble,long double _Complex);
  static const struct { ffi_type*t; int code; } k[]={ {&ffi_type_uint8,FFI_TYPE_UINT8},{&ffi_type_sint8,FFI_TYPE_SINT8},{&ffi_type_uint16,FFI_TYPE_UINT16},{&ffi_type_sint16,FFI_TYPE_SINT16},{&ffi_type_uint32,FFI_TYPE_UINT32},{&ffi_type_sint32,FFI_TYPE_SINT32},{&ffi_type_uint64,FFI_TYPE_UINT64},{&ffi_type_sint64,FFI_TYPE_SINT64},{&ffi_type_float,FFI_TYPE_FLOAT},{&ffi_type_double,FFI_TYPE_DOUBLE},{&ffi_type_longdouble,FFI_TYPE_LONGDOUBLE},{&ffi_type_pointer,FFI_TYPE_POINTER},{&ffi_type_void,FFI_TYPE_VOID},{&ffi_type_complex_float,FFI_TYPE_COMPLEX},{&ffi_type_complex_double,FFI_TYPE_COMPLEX},{&ffi_type_complex_longdouble,FFI_TYPE_COMPLEX} };
  int i=(int)vp_conc(vp_range("type",0,15)); vp_assert(k[i].t->type==k[i].code,"type code of a predefined type"); ffi_type**e=k[i].t->elements; if(i>=13) vp_assert(e&&e[0]==(i==13?&ffi_type_float:i==14?&ffi_type_double:&ffi_type_longdouble)&&!e[1],"element of a predefined complex type"); else vp_assert(!e,"a scalar type has elements"); vp_cover("base"); }
/* ---- C02 */
static int known_abi(u32 a){ return (a==FFI_UNIX64)|(a==FFI_WIN64)|(a==FFI_GNUW64); }
static void h0(ffi_cif*c,void*r,void**a,void*u){ (void)c;(void)r;(void)a;(void)u; } static void h1(ffi_cif*c,void*r,ffi_raw*a,void*u){ (void)c;(void)r;(void)a;(void)u; } static void h2(ffi_cif*c,void*r,ffi_java_raw*a,void*u){ (void)c;(void)r;(void)a;(void)u; }
void c02_abi(void){ struct T t; t_reset(); t_build(&t,"{gy}"); ffi_type*args[2]={&ffi_type_sint32,t.ft}; ffi_cif*c=vp_alloc(sizeof*c,8); u32 ab=vp_u32("abi"); int f=(int)vp_conc(vp_range("function",0,2)); int ok=known_abi(ab),st; size_t off[2];
  st=f==0?(int)ffi_prep_cif(c,(ffi_abi)ab,2,&ffi_type_double,args):f==1?(int)ffi_prep_cif_var(c,(ffi_abi)ab,1,2,&ffi_type_double,args):(int)ffi_get_struct_offsets((ffi_abi)ab,t.ft,off);
  if(ok) vp_assert(st==FFI_OK,"a supported ABI is rejected"); else vp_assert(st==FFI_BAD_ABI,"an unsupported ABI is not reported as such"); if(vp_conc((u64)ok)) vp_cover("supported"); else { vp_note("unsupported",1); vp_cover("unsupported"); } }
/* interfaces whose ABI field is not supported reach closure preparation */
static void clo(int lo,int hi){ ffi_type*args[2]={&ffi_type_sint32,&ffi_type_sint64}; ffi_cif*c=vp_alloc(sizeof*c,8); int f=(int)vp_conc(vp_range("function",(u64)lo,(u64)hi)); void*code; u64 sz[]={sizeof(ffi_closure),sizeof(ffi_go_closure),sizeof(ffi_raw_closure),sizeof(ffi_java_raw_closure),sizeof(ffi_closure)}; void*p;
  if(f==1) p=vp_alloc(sz[1],8); else p=f==4?vp_exec_alloc(4096):ffi_closure_alloc(sz[f],&code); vp_assert(p!=0,"closure allocation fails"); if(f==4) code=p;
  int st=ffi_prep_cif(c,FFI_UNIX64,2,&ffi_type_void,args); vp_assert(st==FFI_OK,"a valid interface is rejected"); u32 ab=vp_u32("abi"); c->abi=(ffi_abi)ab; int ok=known_abi(ab);
  switch(f){ case 1: st=ffi_prep_go_closure(p,c,h0); break; case 2: st=ffi_prep_raw_closure_loc(p,c,h1,0,code); break; case 3: st=ffi_prep_java_raw_closure_loc(p,c,h2,0,code); break; default: st=ffi_prep_closure_loc(p,c,h0,0,code); }
  if(ok) vp_assert(st==FFI_OK,"a supported ABI is rejected"); else vp_assert(st==FFI_BAD_ABI,f==1?"an unsupported ABI is not reported when preparing a static-chain closure":"an unsupported ABI is not reported when preparing a closure"); if(vp_conc((u64)ok)) vp_cover("supported"); else { vp_note("unsupported",1); vp_cover("unsupported"); } }
void c02_clo(void){ clo(0,4); } void c23_abi(void){ clo(1,1); }
/* trees of types with defects at any position; every node remembers whether it is well formed */
static ffi_type nodes[24]; static ffi_type*els[80]; static int nn,nel; static int good[24];
static int tree(int depth,int*left,ffi_type**out){ /* 0 scalar 1 complex 2 no member list 3 empty 4.. aggregate, 5 a node made before */
  int hi=depth>0?4:3; int prev=nn>0&&!FULL?0:nn>0; int c=(int)vp_conc(vp_range("node",0,(u64)(hi+(prev&&depth<3?1:0))));
  if(c==0){ *out=&ffi_type_sint16; return 1; } if(c==1){ *out=&ffi_type_complex_double; return 1; }
  if(c==hi+1){ int k=(int)vp_conc(vp_range("earlier",0,(u64)(nn-1))); vp_assume(good[k]>=0); *out=&nodes[k]; return good[k]; }
  int me=nn++; ffi_type*t=&nodes[me]; good[me]=-1; t->size=0; t->alignment=0; t->type=FFI_TYPE_STRUCT; *out=t;
  if(c==2){ t->elements=0; return good[me]=0; }
  ffi_type*m[4]; int k=0,ok=1; if(c==4){ int w=(int)vp_conc(vp_range("width",1,FULL?3:2)); for(;k<w&&*left>0;k++){ --*left; ok&=tree(depth-1,left,&m[k]); } vp_assume(k>0); } else ok=0;
  t->elements=&els[nel]; for(int i=0;i<k;i++) els[nel++]=m[i]; els[nel++]=0; return good[me]=ok; }
static int submit(ffi_cif*c,int how,int ab,ffi_type*x){ ffi_type*a[4]={&ffi_type_sint32,&ffi_type_sint32,&ffi_type_sint32,0}; static ffi_type*keep[4]; size_t off[8];
  switch(how){ case 0: break; case 1: a[0]=x; break; case 2: a[2]=x; break; case 3: a[1]=x; break; case 4: return (int)ffi_get_struct_offsets((ffi_abi)ab,x,off); }
  for(int i=0;i<4;i++) keep[i]=a[i]; return how==3?(int)ffi_prep_cif_var(c,(ffi_abi)ab,1,3,&ffi_type_void,keep):(int)ffi_prep_cif(c,(ffi_abi)ab,3,how?&ffi_type_void:x,keep); }
static void c02_tree_(int depth,int total,int subs,int allab){ ffi_type*x; int left=total; nn=nel=0; int ok=tree(depth,&left,&x); vp_assume(x->type==FFI_TYPE_STRUCT); ffi_cif*c=vp_alloc(sizeof*c,8); int ab=allab?(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)):FFI_UNIX64;
  for(int i=0;i<subs;i++){ int how=(int)vp_conc(vp_range("submitted as",0,4)); int st=submit(c,how,ab,x); if(ok) vp_assert(st==FFI_OK,"a well-formed description is rejected"); else vp_assert(st==FFI_BAD_TYPEDEF,i?"a malformed description is accepted when submitted again":"a malformed description is not reported as a bad type"); }
  /* its parts keep their own verdict */
  if(nn>1){ int k=(int)vp_conc(vp_range("part",0,(u64)(nn-1))); int st=submit(c,(int)vp_conc(vp_range("part as",0,1)),ab,&nodes[k]); vp_assert(st==(good[k]?FFI_OK:FFI_BAD_TYPEDEF),"a part of a description changes its verdict"); }
  vp_cover(ok?"well-formed":"malformed"); }
void c02_tree(void){ c02_tree_(FULL?3:2,FULL?4:3,2,1); }
void c02_deep(void){ c02_tree_(3,FULL?4:3,3,0); }
/* two descriptions that share nodes: the verdict does not depend on what was submitted before */
void c02_two(void){ ffi_type*x,*y; int left=FULL?3:2; nn=nel=0; int okx=tree(2,&left,&x); vp_assume(x->type==FFI_TYPE_STRUCT); left=2; int n0=nn; int oky; { int me=nn++; ffi_type*t=&nodes[me]; good[me]=-1; ffi_type*m; oky=1; t->size=0; t->alignment=0; t->type=FFI_TYPE_STRUCT; t->elements=&els[nel]; int e0=nel; nel+=3; int k=(int)vp_conc(vp_range("shares",0,(u64)(n0-1))); m=&nodes[k]; oky=good[k]; int pos=(int)vp_conc(vp_range("place",0,1)); els[e0+pos]=m; els[e0+1-pos]=&ffi_type_double; els[e0+2]=0; good[me]=oky; y=t; }
  ffi_cif*c=vp_alloc(sizeof*c,8); int ab=(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64));
  for(int i=0;i<3;i++){ int w=i==2?0:(int)vp_conc(vp_range("which",0,1)); static const u8 hw[]={0,1,4,2,3}; int st=submit(c,hw[vp_conc(vp_range("submitted as",0,FULL?4:2))],ab,w?y:x); int ok=w?oky:okx; vp_assert(st==(ok?FFI_OK:FFI_BAD_TYPEDEF),ok?"a well-formed description is rejected after another submission":"a malformed description is accepted after another submission"); }
  vp_cover(okx?"well-formed":"malformed"); }
/* argument lists with one malformed type at any position; the malformed type itself or a structure with it among many members */
static const u8 many[]={9,12,16,17,20,32,33,64,65,127,128,129,255};
void c02_pos(void){ static ffi_type*a[256],*m[260]; int q=(int)vp_conc(vp_range("n",1,8+sizeof many)); int n=q<=8?q:many[q-9]; int at; if(n<=20) at=(int)vp_conc(vp_range("at",0,(u64)n)); else { int k[]={0,1,7,8,15,16,31,n/2,n-2,n-1,n}; at=k[vp_conc(vp_range("at",0,10))]; }
  struct T t; t_reset(); t_build(&t,"{gy}"); static ffi_type bad,outer; static ffi_type*none[1]; bad.size=0; bad.alignment=0; bad.type=FFI_TYPE_STRUCT; bad.elements=vp_conc(vp_range("empty",0,1))?none:0; none[0]=0; ffi_type*x=&bad;
  int memb=(int)vp_conc(vp_range("as a member",0,1)); int an=n,aat=at; ffi_type*r=&ffi_type_double;
  if(memb){ vp_assume(at<n); for(int i=0;i<n;i++) m[i]=i&1?t.ft:&ffi_type_uint8; m[at]=&bad; m[n]=0; outer.size=0; outer.alignment=0; outer.type=FFI_TYPE_STRUCT; outer.elements=m; x=&outer; an=2; aat=1; }
  for(int i=0;i<an;i++) a[i]=i&1?t.ft:&ffi_type_sint32; if(aat==an) r=x; else a[aat]=x;
  ffi_cif*c=vp_alloc(sizeof*c,8); int ab=(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)); int how=(int)vp_conc(vp_range("how",0,memb?2:1)); size_t*off=vp_alloc(8*256,8); for(int i=0;i<2;i++){ int st=how==2?(int)ffi_get_struct_offsets((ffi_abi)ab,x,off):how?(int)ffi_prep_cif_var(c,(ffi_abi)ab,1,(unsigned)an,r,a):(int)ffi_prep_cif(c,(ffi_abi)ab,(unsigned)an,r,a); vp_assert(st==FFI_BAD_TYPEDEF,"a malformed argument or result type is not reported as a bad type"); } vp_cover(memb?"member":"malformed"); }
/* ---- C03 */
static int promotes(const struct T*t){ return t->kind==K_SCALAR&&(t->at[0].atom<=A_S16||t->at[0].atom==A_F32); }
static void c03_(int free_,int all){ static struct T ty[8]; ffi_type*a[9]; t_reset(); int n=(int)vp_conc(vp_range("args",0,5)); int nf=(int)vp_conc(vp_range("fixed",0,(u64)n)); int at=n>free_?(int)vp_conc(vp_range("free from",0,(u64)(n-free_))):0; int bad=0;
  static const char*const some[]={"a","b","c","d","e","f","g","h","p","x","y","l","X","{a}","{x}","{c}","C","{gy}","{aaa}","I"};
  for(int i=0;i<n;i++){ if(i>=at&&i<at+free_){ int q=(int)vp_conc(vp_range("type",0,all?(u64)(NATOM+ncomp-1):19)); if(!all) t_build(&ty[i],some[q]); else if(q<NATOM) t_scalar(&ty[i],q); else t_build(&ty[i],comp_types[q-NATOM]); } else t_build(&ty[i],i<nf?"x":"f"); if(i>=nf&&promotes(&ty[i])) bad=1; a[i]=ty[i].ft; } a[n]=0;
  ffi_cif*c=vp_alloc(sizeof*c,8); int ab=(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)); int st=ffi_prep_cif_var(c,(ffi_abi)ab,(unsigned)nf,(unsigned)n,&ffi_type_sint32,a);
  if(bad) vp_assert(st==FFI_BAD_ARGTYPE,"a variadic argument subject to promotion is not reported as a bad argument type"); else vp_assert(st==FFI_OK,"a valid variadic interface is rejected"); if(!bad) vp_assert(c->nargs==(unsigned)n,"the number of arguments is not recorded"); vp_cover(bad?"rejected":"accepted"); }
void c03_rej(void){ c03_(2,0); } void c03_one(void){ c03_(1,1); } void c03_rej3(void){ c03_(3,0); }
/* long variadic lists: one argument of any kind at any position, the number of fixed ones anywhere */
void c03_many(void){ static struct T ty[256]; static ffi_type*a[257]; t_reset(); static const u8 cnt[]={6,7,8,9,12,16,17,20,33,64,128,255}; int n=cnt[vp_conc(vp_range("args",0,11))]; int nf; if(n<=12) nf=(int)vp_conc(vp_range("fixed",0,(u64)n)); else { int k[]={0,1,2,8,n/2,n-2,n-1,n}; nf=k[vp_conc(vp_range("fixed",0,7))]; }
  int at; if(n<=12) at=(int)vp_conc(vp_range("at",0,(u64)(n-1))); else { int k[]={0,nf-1,nf,nf+1,n/2,7,8,n-2,n-1}; at=k[vp_conc(vp_range("at",0,8))]; vp_assume(at>=0&&at<n); }
  static const char*const some[]={"a","b","c","d","x","f","{a}","X","I"}; for(int i=0;i<n;i++) t_build(&ty[i],i==at?some[vp_conc(vp_range("type",0,8))]:i<nf?(i&1?"x":"a"):i%3==0?"f":i%3==1?"y":"p"); int bad=at>=nf&&promotes(&ty[at]); for(int i=0;i<n;i++) a[i]=ty[i].ft; a[n]=0;
  ffi_cif*c=vp_alloc(sizeof*c,8); int ab=(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)); int st=ffi_prep_cif_var(c,(ffi_abi)ab,(unsigned)nf,(unsigned)n,&ffi_type_sint32,a);
  if(bad) vp_assert(st==FFI_BAD_ARGTYPE,"a variadic argument subject to promotion is not reported as a bad argument type"); else vp_assert(st==FFI_OK,"a valid variadic interface is rejected"); if(!bad) vp_assert(c->nargs==(unsigned)n,"the number of arguments is not recorded"); vp_cover(bad?"rejected":"accepted"); }
/* aggregates of many members: two of arbitrary size anywhere, the others of fixed kinds */
void c01_many(void){ static ffi_type*e[301]; static const u16 cnt[]={6,8,9,15,16,17,31,32,33,64,65,128,256,300}; int n=cnt[vp_conc(vp_range("n",0,FULL?13:11))]; int p=(int)vp_conc(vp_range("place",0,4)); int at[]={0,1,n/2,n-2,n-1}; ffi_type*few[]={&ffi_type_uint8,&ffi_type_sint32,&ffi_type_uint16,&ffi_type_double,&ffi_type_uint8}; int per=(int)vp_conc(vp_range("mix",0,1)); for(int i=0;i<n;i++) e[i]=few[per?i%5:0];
  if(!FULL) theabi=FFI_UNIX64; e[at[p]]=mkleaf(0,FULL?4:2); if(FULL) e[at[(p+2)%5]]=mkleaf(1,4); ffi_type*t=mkstruct(e,n); int nested=(int)vp_conc(vp_range("nested",0,1)); ffi_type*o=t; if(nested){ ffi_type*m[3]={&ffi_type_uint8,t,&ffi_type_uint8}; o=mkstruct(m,3); }
  vp_assert(first_touch(o,nested?3:n)==FFI_OK,"a valid aggregate is rejected"); u64 s=t->size,al=t->alignment; if(nested) check_layout(o,3,o->size,o->alignment); check_layout(t,n,s,al); }
/* chains: aggregates nested up to 24 deep, alone or beside scalars at every level */
static ffi_type*chain(int depth,ffi_type*in,int beside,ffi_type**lv){ for(int i=0;i<depth;i++){ ffi_type*m[3]; int k=0; if(beside&1) m[k++]=i&1?&ffi_type_sint32:&ffi_type_uint8; m[k++]=in; if(beside&2) m[k++]=i%3?&ffi_type_uint16:&ffi_type_double; in=lv[i]=mkstruct(m,k); } return in; }
void c01_chain(void){ static ffi_type*lv[24]; static const u8 few[]={3,4,5,6,8}; int dp=FULL?(int)vp_conc(vp_range("depth",3,24)):few[vp_conc(vp_range("depth",0,4))]; int b=(int)vp_conc(vp_range("beside",0,3)); theabi=FFI_UNIX64; ffi_type*t=chain(dp,mkleaf(0,FULL?4:2),b,lv); int k=1+(b&1)+(b>>1); vp_assert(first_touch(t,k)==FFI_OK,"a valid aggregate is rejected"); u64 s[24],a[24]; for(int i=0;i<dp;i++){ s[i]=lv[i]->size; a[i]=lv[i]->alignment; } for(int i=dp;i--;) check_layout(lv[i],k,s[i],a[i]); }
void c02_chain(void){ static ffi_type*lv[24]; static ffi_type bad; static ffi_type*none[1]; int dp=(int)vp_conc(vp_range("depth",3,FULL?24:16)); int b=(int)vp_conc(vp_range("beside",0,3)); int in=(int)vp_conc(vp_range("innermost",0,3)); bad.size=0; bad.alignment=0; bad.type=FFI_TYPE_STRUCT; bad.elements=in==3?none:0; none[0]=0; ffi_type*t=chain(dp,in==0?&ffi_type_sint64:in==1?&ffi_type_complex_float:&bad,b,lv); int ok=in<2; ffi_cif*c=vp_alloc(sizeof*c,8); int ab=FULL?(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)):dp%3+FFI_UNIX64;
  int how=(int)vp_conc(vp_range("submitted as",0,4)); int at=(int)vp_conc(vp_range("level",0,3)); int ls[]={0,dp/2,dp-2,dp-1}; for(int i=0;i<3;i++){ int st=submit(c,how,ab,i==1?t:lv[ls[at]]); vp_assert(st==(ok?FFI_OK:FFI_BAD_TYPEDEF),ok?"a well-formed description is rejected":"a malformed description is not reported as a bad type"); } vp_cover(ok?"well-formed":"malformed"); }
