/* Closure memory: operations on closures and what must hold after each of them. */
#ifndef MEM_H
#define MEM_H
#include "os.h"
#include <ffi.h>
#include <ffi_common.h>
#include <tramp.h>
#define FULL (VP_TIER==2)
enum { TR,DU,WX };          /* static trampolines, two views of one file, one writable and executable mapping */
struct B { u8*p; void*code; u64 n,max; int prep,id; ffi_cif*cif; };
static struct B b[64]; static int nb,ids,md=-1,may_fail; static ffi_cif*cu,*cw; static u64 maxalloc;
static int intr(void){ return FFI_UNIX64; }
static void mkcifs(void){ static ffi_type*a[2]; a[0]=a[1]=&ffi_type_uint64; cu=vp_alloc(sizeof*cu,8); cw=vp_alloc(sizeof*cw,8); int st=ffi_prep_cif(cu,FFI_UNIX64,2,&ffi_type_uint64,a); vp_assert(st==FFI_OK,"a valid interface is rejected"); st=ffi_prep_cif(cw,FFI_WIN64,2,&ffi_type_uint64,a); vp_assert(st==FFI_OK,"a valid interface is rejected"); (void)intr; }
static int mode_(void*code){ if(ffi_tramp_is_supported()) return TR; int p=os_prot(code,1); return p>0&&(p&2)?WX:DU; }
/* ---- contents: the bytes the user may write keep their values */
static u64 pat(int id,u64 o){ return 0x9e3779b97f4a7c15ull*(u64)(id+1)^(o*0x100000001b3ull); }
static u64 first(struct B*x){ return x->prep?sizeof(ffi_closure):8; }
/* the first and the last bytes, and in between a word here and there */
#define SEG(lo,hi,W,C) do{ u64 o=(lo); for(;o+8<=(hi);o+=8){ W; } for(;o<(hi);o++){ C; } }while(0)
#define EACH(x,W,C) do{ u64 n=(x)->max,f=first(x),m=f+64; if(n<=m+72){ SEG(f,n,W,C); } else { u64 t=n-64; SEG(f,m,W,C); if(n>1000) SEG(n/2,n/2+8,W,C); SEG(t,n,W,C); } }while(0)
static void fillb(struct B*x){ EACH(x,*(u64*)(x->p+o)=pat(x->id,o),x->p[o]=(u8)pat(x->id,o)); }
static void chk(struct B*x){ int ok=1; EACH(x,ok&=*(u64*)(x->p+o)==pat(x->id,o),ok&=x->p[o]==(u8)pat(x->id,o)); vp_assert(ok,"C14,C18: the contents of a live closure changed"); }
static void chkcode(struct B*x){ int pr=os_prot(x->code,1); int m=mode_(x->code); md=m;
  vp_assert(pr>0&&(pr&4),"C14,C15,C18,C24: the code address of a live closure is not executable");
  vp_assert((pr&1)!=0,"C14,C15,C18,C24: the code address of a live closure is not readable");
  if(m!=WX) vp_assert(!(pr&2),"C19: the code address of a closure is writable");
  int pw=os_prot(x->p,x->max?x->max:1); vp_assert(pw>=0&&(pw&3)==3,"C14,C18: closure memory is not readable and writable");
  if(m!=WX) vp_assert(!(pw&4),"C19: closure memory is executable");
  if(m!=TR){ u64 e=x->max?x->max-1:0; vp_assert(os_view_key(x->p)==os_view_key(x->code)&&os_view_key(x->p+e)==os_view_key((u8*)x->code+e),"C18,C24: the code address is not the executable view of the closure's memory"); int pe=os_prot((u8*)x->code+e,1); vp_assert(pe>0&&(pe&4),"C18,C24: the executable view does not cover the closure"); }
  vp_assert(ffi_data_to_code_pointer(x->p)==x->code,m==TR?"C15,C16: the code address reported for a closure is not the one returned":"C16,C24: translating a data address does not give the closure's code address"); }
static int apart(const void*a,u64 x,const void*c,u64 y){ u64 p=(u64)a,q=(u64)c; return (p+x<=q)|(q+y<=p); }
static void inv(void){ for(int i=0;i<nb;i++){ chk(&b[i]); chkcode(&b[i]); } if(md==DU&&os_strict_unmap) vp_assert(os_pairs_ok(),"C18,C24: a page has a writable view but no executable one, or the reverse"); vp_assert(os_locks_held()==0,"C18,C21: a lock is still held after the call"); vp_assert(os_live_txt()==0,"C18,C20: a file stays open"); }
static int alloc(u64 n){
  vp_assert(nb<64,"bound: live closures"); struct B*x=&b[nb]; void*c=0; u8*p=ffi_closure_alloc(n,&c);
  if(!p){ vp_assert(may_fail,"C14,C15,C16,C18,C24: closure allocation fails"); vp_cover("null"); return 0; }
  x->p=p=(u8*)vp_conc((u64)p); x->code=c=(void*)vp_conc((u64)c); x->n=n; x->max=vp_max(n); x->prep=0; x->id=ids++;
  vp_assert(c!=0,"C14,C18: a closure without a code address"); vp_assert((u64)p%8==0,"C14: closure memory is misaligned");
  int pw=os_prot(p,x->max?x->max:1); vp_assert(pw>=0&&(pw&3)==3,"C14,C18: closure memory is not readable and writable");
  for(int i=0;i<nb;i++){ vp_assert(apart(p,x->max,b[i].p,b[i].max),"C14,C18: two live closures share memory"); vp_assert(b[i].code!=c,"C14,C15,C18: two live closures share a code address"); vp_assert(apart(c,mode_(c)==TR?16:x->max<24?24:x->max,b[i].code,mode_(c)==TR?16:b[i].max<24?24:b[i].max),"C14,C15,C18: the code of two live closures overlaps"); vp_assert(apart(c,16,b[i].p,b[i].max)||md==WX,"C14,C15: code and memory of two closures overlap"); }
  nb++; fillb(x); return 1; }
static void freei(int i){ chk(&b[i]); ffi_closure_free(b[i].p); b[i]=b[--nb]; }
/* ---- use */
static u64 xa,xb,xr; static struct B*cur; static int ran;
static void handler(ffi_cif*c,void*r,void**a,void*ud){ ran++; vp_assert(ud==(void*)(cur->p+3),"C14,C15,C16,C18,C24: the handler of another closure runs, or with other user data"); vp_assert(c==cur->cif,"C14,C15,C16,C18,C24: the handler gets another call interface"); vp_assert(*(u64*)a[0]==xa&&*(u64*)a[1]==xb,"C16,C18,C24: the arguments are changed on the way to the handler"); *(u64*)r=xr; }
static void call(struct B*x){ struct vp_regs*r=vp_alloc(sizeof*r,16); static u64 stk[6] __attribute__((aligned(16))); cur=x; r->onx87=0; xa=vp_u64("a"); xb=vp_u64("b"); xr=vp_u64("r"); int w=x->cif==cw; if(w){ r->rcx=xa; r->rdx=xb; } else { r->rdi=xa; r->rsi=xb; } ran=0; vp_invoke((void(*)(void))x->code,r,stk,4); vp_assert(ran==1,"C14,C15,C16,C18,C24: the handler does not run exactly once"); vp_assert(r->orax==xr,"C16,C18,C24: the result of the handler is lost"); vp_free(r); }
static void prep(struct B*x){ if(x->max<sizeof(ffi_closure)) return; x->cif=x->id&1?cw:cu; if(!x->prep) vp_sym(x->p+8,sizeof(ffi_closure)-8,"stale"); int st=ffi_prep_closure_loc((ffi_closure*)x->p,x->cif,handler,x->p+3,x->code); vp_assert(st==FFI_OK,"C16,C18: a closure cannot be prepared"); x->prep=1; fillb(x); }
static void use_all(void){ for(int i=0;i<nb;i++) if(b[i].prep) call(&b[i]); }
/* ---- sizes */
/* a range of sizes; within a path the size is 8*k+1..8*k+8 (or 0..8), all of them at once */
struct band { u32 lo,hi; };
static const struct band bq[]={ {0,0},{3,3},{6,6},{29,31},{487,487} }, bf[]={ {0,1},{2,4},{6,8},{12,12},{28,33},{62,63},{486,489},{1124,1124},{8748,8748} };
static u64 size_(int nband){ const struct band*t=FULL?bf:bq; int k=(int)vp_conc(vp_range("band",0,(u64)nband-1)); u64 m=vp_conc(vp_range("size/8",t[k].lo,t[k].hi)); if(m==6) return sizeof(ffi_closure); u64 r=vp_u8("size")&7; return m?8*m+1+r:r; }
static void op(int nband,int pr){ int c=(int)vp_conc(vp_range("op",0,(u64)nb)); if(c==0){ if(alloc(size_(nband))&&pr) prep(&b[nb-1]); } else freei(c-1); inv(); }
static void drain(void){ while(nb) { freei(nb-1); } inv(); }
/* alternating allocation and release does not grow the address space */
static void cycle_(int k,u64 sz){ u64 by=0; int mp=0; for(int i=0;i<k;i++){ if(!alloc(sz)) return; prep(&b[nb-1]); call(&b[nb-1]); freei(nb-1); inv(); u64 y=os_live_bytes(); int m=os_live_maps(); if(i){ vp_assert(y==by,"C14,C15,C24: alternating allocation and release grows the address space"); vp_assert(m==mp,"C14,C15,C24: alternating allocation and release adds mappings"); } by=y; mp=m; } }
static void cycle(int k){ cycle_(k,sizeof(ffi_closure)+40); cycle_(k,40000); }
/* ---- configurations */
static int firstexec; static int pol(int ev,const char*p,u64 a){ (void)p;(void)a; if(ev==EV_MMAPEXEC) return firstexec++>0; return -1; }
static int narrow; /* one reason for each mode is enough */
static void conf(int m){ mkcifs(); if(m==TR){ os.allow_wx=0; return; }
  os.allow_wx=2; if(narrow||vp_conc(vp_range("why no static trampolines",0,1))) os.page=8192; else { os.libopen=0; os_policy=pol; }
  if(m==DU){ int w=narrow?0:(int)vp_conc(vp_range("policy",0,FULL?5:3)); switch(w){ case 0: os.deny_rwx=1; break; case 1: os.selinux=1; break; case 2: os.pax=1; break; case 3: os.deny_rwx=2; break; case 4: os.selinux=2; break; default: os.pax=2; os.deny_rwx=1; } } }
#endif
