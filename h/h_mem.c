/* Closure memory: histories of allocation, use and release under every configuration of the system. */
#include "mem.h"
static void hist(int m,int ops,int nband){ conf(m); for(int i=0;i<ops;i++) op(nband,1); use_all(); vp_cover(nb?"live":"empty"); cycle(3); drain(); cycle(2); }
void c14_tr(void){ hist(TR,4,FULL?9:5); }
void c14_long(void){ hist(TR,FULL?8:6,FULL?3:2); }
void c14_wx(void){ hist(WX,FULL?4:3,FULL?9:5); }
/* any size at all: a closure of that size or null, and the heap stays usable */
void c14_any(void){ mkcifs(); os.allow_wx=0; alloc(56); prep(&b[0]); may_fail=1; u64 n=vp_u64("size"); int k=(int)vp_conc(vp_range("range",0,3)); if(k==0) vp_assume(n>=0x8000000000000000ull); else if(k==1) vp_assume(n>=0xfffffffffffff000ull); else if(k==2) vp_assume(n>0x40000000&&n<0x8000000000000000ull); else vp_assume(n>=100000&&n<100400); os.maxlen=0x4000000; 
  void*c=0; u8*p=ffi_closure_alloc(n,&c); if(k!=3) vp_assert(p==0,"C14: an impossible allocation succeeds"); if(p){ vp_cover("large"); p=(u8*)vp_conc((u64)p); u64 mx=vp_max(n); int pw=os_prot(p,mx); vp_assert(pw>=0&&(pw&3)==3,"C14: closure memory is not readable and writable"); ffi_closure_free(p); } else vp_cover("impossible"); inv(); vp_assert(ffi_closure_alloc(56,0)==0,"C14: closure without place for the code address"); may_fail=0; vp_assert(alloc(56),"x"); prep(&b[1]); use_all(); cycle(2); }
/* many free blocks of neighbouring and equal sizes: every shape of the allocator's trees of free memory that this number can form */
void c14_tree(void){ static const u16 sets[3][7]={{272,304,272,336,368,304,288},{520,272,616,744,520,680,1000},{2056,2568,2312,2184,2824,2056,2440}}; conf(TR); const u16*z=sets[vp_conc(vp_range("set",0,2))]; int n=FULL?7:6; u8*l[7]; for(int i=0;i<n;i++){ alloc(z[i]); l[i]=b[nb-1].p; alloc(24); } inv();
  int left=n; for(int i=0;i<5;i++){ int j=(int)vp_conc(vp_range("release",0,(u64)left-1)); int k=0; while(b[k].p!=l[j]) k++; freei(k); l[j]=l[--left]; } inv();
  for(int i=0;i<(FULL?3:2);i++){ int j=(int)vp_conc(vp_range("size",0,3)); alloc(j<3?(u64)z[2*j]:24); } inv(); if(nb>n+n-5) vp_cover("reused"); prep(&b[nb-1]); if(b[nb-1].prep) call(&b[nb-1]); drain(); cycle_(2,sizeof(ffi_closure)); }
/* free blocks of one size: some are merged with a neighbour that becomes free, the others are used again */
void c14_chain(void){ static const u16 sets[3]={272,600,2312}; conf(TR); u64 z=sets[vp_conc(vp_range("set",0,2))]; int n=FULL?6:5; u8*l[7],*g[7]; for(int i=0;i<=n;i++){ alloc(i==n?z+48:z); l[i]=b[nb-1].p; alloc(24); g[i]=b[nb-1].p; } inv();
#define FR(q) do{ int k_=0; while(b[k_].p!=(q)) k_++; freei(k_); }while(0)
  int h=(int)vp_conc(vp_range("first",0,(u64)n-1)); FR(l[h]); int up=(int)vp_conc(vp_range("order",0,1)); for(int i=0;i<n;i++){ int j=up?i:n-1-i; if(j!=h) FR(l[j]); } if(vp_conc(vp_range("other",0,1))) FR(l[n]); inv();
  int m=(int)vp_conc(vp_range("merged",0,(u64)n-1)),m2=(int)vp_conc(vp_range("merged too",0,(u64)n-1)); FR(g[m]); if(m2!=m) FR(g[m2]); inv();
  for(int i=0;i<(FULL?4:3);i++){ int j=(int)vp_conc(vp_range("size",0,1)); alloc(j?z+48:z); } inv(); vp_cover("merged"); prep(&b[nb-1]); call(&b[nb-1]); drain(); cycle_(2,sizeof(ffi_closure)); }
/* any operations on a heap that holds a few blocks of different kinds: small and large bins, the designated victim, the top */
void c14_frag(void){ static const u16 in[2][6]={{272,24,272,600,24,272},{24,24,56,24,2312,24}}; static const u16 sz[2][3]={{24,272,600},{24,56,2280}}; conf(TR); int w=(int)vp_conc(vp_range("set",0,1)); for(int i=0;i<6;i++) alloc(in[w][i]); inv();
  int n=FULL?6:5; for(int i=0;i<n;i++){ int c=(int)vp_conc(vp_range("op",0,(u64)nb+2)); if(c<3) alloc(sz[w][c]); else { int k=c-3; chk(&b[k]); ffi_closure_free(b[k].p); for(nb--;k<nb;k++) b[k]=b[k+1]; } inv(); } vp_cover("fragments"); if(nb){ prep(&b[nb-1]); if(b[nb-1].prep) call(&b[nb-1]); } drain(); cycle_(2,sizeof(ffi_closure)); }
/* segments placed next to each other, apart, or in between */
static void places(void){ os.place_w=(int)vp_conc(vp_range("data placement",0,2)); os.place_x=(int)vp_conc(vp_range("code placement",0,2)); }
static void seg(int m,int ops){ os_cap=0x28000; conf(m); places(); static const u32 sz[]={3000,5000,56}; for(int i=0;i<ops;i++){ int c=(int)vp_conc(vp_range("op",0,(u64)nb)); if(c==0){ alloc(sz[vp_conc(vp_range("size",0,2))]); prep(&b[nb-1]); } else freei(c-1); inv(); } use_all(); drain(); cycle(2); vp_cover("segments"); }
void c14_seg(void){ seg(TR,FULL?6:5); }
void c24_seg(void){ seg(DU,FULL?5:4); }
void c24_hist(void){ hist(DU,FULL?4:3,FULL?9:5); }
void c24_wx(void){ seg(WX,FULL?5:4); }
/* large closures: the heap returns memory to the system */
static void trim(int m){ os_cap=0x780000; if(m==TR) { mkcifs(); os.allow_wx=0; } else conf(m); places(); int order=(int)vp_conc(vp_range("order",0,5)); int two=(int)vp_conc(vp_range("sizes",0,2)); static const u32 s0[]={2600000,100000,2200000},s1[]={56,2300000,2200000}; u64 k0=os_live_bytes(); (void)k0;
  alloc(56); prep(&b[0]); alloc(s0[two]); prep(&b[1]); inv(); if(order&1){ alloc(s1[two]); prep(&b[nb-1]); inv(); } if(order>=2) { alloc(56); prep(&b[nb-1]); }
  u64 before=os_live_bytes(); freei(1); inv(); if(nb>1){ freei(order>=4?1:nb-1); inv(); } u64 after=os_live_bytes(); if(after<before) vp_cover("memory returned"); vp_assert(after<=before,"C14,C24: releasing memory grows the address space"); use_all(); cycle(2); drain(); if(os_live_bytes()<before) vp_cover("memory returned"); alloc(56); prep(&b[0]); use_all(); alloc(2300000); inv(); drain(); cycle(2); }
void c14_trim(void){ trim(TR); } void c24_trim(void){ trim(DU); } void c24_trimwx(void){ trim(WX); }
/* ---- C16: closures in every slot of real tables, with a signature that takes arguments from everywhere */
#define NI 8
#define ND 9
static ffi_cif*cf[3]; static struct vp_regs rs; static u64 sstk[16] __attribute__((aligned(16)));
struct X { u8*p; void*code; int kind; }; static struct X xs[3]; static struct X*xcur; static u64 xret;
static void mk16(void){ static ffi_type*a[NI+ND],*i8[NI]; for(int i=0;i<NI+ND;i++) a[i]=i<NI?&ffi_type_uint64:&ffi_type_double; for(int i=0;i<NI;i++) i8[i]=&ffi_type_sint64; for(int k=0;k<3;k++) cf[k]=vp_alloc(sizeof(ffi_cif),8); int ok=ffi_prep_cif(cf[0],FFI_UNIX64,NI+ND,&ffi_type_uint64,a)==FFI_OK; ok&=ffi_prep_cif(cf[1],FFI_UNIX64,NI,&ffi_type_uint64,i8)==FFI_OK; ok&=ffi_prep_cif(cf[2],FFI_WIN64,NI+1,&ffi_type_uint64,a)==FFI_OK; vp_assert(ok,"a valid interface is rejected"); }
static u64 lo64(const u8*x){ return *(const u64*)x; }
static void h16(ffi_cif*c,void*ret,void**a,void*ud){ ran++; struct vp_regs*r=&rs; struct X*x=xcur; vp_assert(ud==(void*)x,"C15,C16: the handler of another closure runs, or with other user data"); vp_assert(c==cf[x->kind],"C16: the handler gets another call interface"); u64 e[NI+ND]; int n;
  if(x->kind==2){ u64 f[4]={r->rcx,r->rdx,r->r8,r->r9}; n=NI+1; for(int i=0;i<n;i++) e[i]=i<4?f[i]:sstk[i]; }
  else { u64 f[8]={r->rdi,r->rsi,r->rdx,r->rcx,r->r8,r->r9,sstk[0],sstk[1]}; n=x->kind?NI:NI+ND; for(int i=0;i<n;i++) e[i]=i<NI?f[i]:i-NI<8?lo64(r->xmm[i-NI]):sstk[2]; }
  int same=1; for(int i=0;i<n;i++) same&=*(u64*)a[i]==e[i]; vp_assert(same,"C16: the arguments are changed on the way to the handler"); *(u64*)ret=xret; }
static void call16(struct X*x){ xcur=x; ran=0; vp_sym(&rs,offsetof(struct vp_regs,orax),"regs"); rs.onx87=0; rs.rax=8; vp_sym(sstk,sizeof sstk,"stack"); xret=vp_u64("result"); vp_invoke((void(*)(void))x->code,&rs,sstk,16); vp_assert(ran==1,"C16: the handler does not run exactly once"); vp_assert(rs.orax==xret,"C16: the result of the handler is lost"); }
static void re16(struct X*x){ int st=ffi_prep_closure_loc((ffi_closure*)x->p,cf[x->kind],h16,x,x->code); vp_assert(st==FFI_OK,"C16: a closure cannot be prepared"); }
static void new16(struct X*x,int kind){ void*c=0; x->p=ffi_closure_alloc(sizeof(ffi_closure),&c); vp_assert(x->p!=0,"C14,C16: closure allocation fails"); x->code=c; x->kind=kind; vp_sym(x->p+8,sizeof(ffi_closure)-8,"stale"); re16(x); }
void c16_slot(void){ mk16(); os.allow_wx=0; if(vp_conc(vp_range("library file gone",0,1))) os.libopen=0; int k=(int)vp_conc(vp_range("slot",0,FULL?2*128+4:128+4)),kind=(int)vp_conc(vp_range("kind",0,2)); for(int i=0;i<k;i++){ void*c=0; void*p=ffi_closure_alloc(24,&c); vp_assert(p!=0,"C14,C16: closure allocation fails"); }
  for(int i=0;i<3;i++) new16(&xs[i],(kind+i)%3); for(int i=2;i>=0;i--) call16(&xs[i]); vp_assert(ffi_data_to_code_pointer(xs[1].p)==xs[1].code,"C16: the code address reported for a closure is not the one returned"); u64 own[4]; vp_assert(ffi_data_to_code_pointer(own)==(void*)own,"C16: memory not allocated as a closure is translated");
  xs[1].kind=(xs[1].kind+1)%3; re16(&xs[1]); call16(&xs[1]); ffi_closure_free(xs[0].p); call16(&xs[2]); call16(&xs[1]); if(k>110) vp_cover("second table"); vp_cover("slot"); }
/* closures whose trampoline is written into their memory */
void c16_dyn(void){ mk16(); conf(vp_conc(vp_range("one mapping",0,1))?WX:DU); int k=(int)vp_conc(vp_range("before",0,FULL?130:70)); for(int i=0;i<k;i++){ void*c=0; void*p=ffi_closure_alloc(56,&c); vp_assert(p!=0,"C14,C16: closure allocation fails"); } int kind=(int)vp_conc(vp_range("kind",0,2)); for(int i=0;i<3;i++) new16(&xs[i],(kind+i)%3); for(int i=2;i>=0;i--) call16(&xs[i]); vp_assert(ffi_data_to_code_pointer(xs[1].p)==xs[1].code,"C16: the code address reported for a closure is not the one returned"); xs[1].kind=(xs[1].kind+1)%3; re16(&xs[1]); call16(&xs[1]); call16(&xs[2]); vp_cover("closure"); }
