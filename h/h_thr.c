/* C21: closures managed by several threads at once.  Threads are switched before any lock they take; accesses
   that no lock orders are reported as races by the executor. */
#include "mem.h"
void*vp_real_tramp_arch(size_t*size,size_t*map); static int per;
void*ffi_tramp_arch(size_t*size,size_t*map){ void*p=vp_real_tramp_arch(size,map); if(per){ u64 step=*map / *size/(u64)per; *size*=step; } return p; }
#define NT 4
struct C { u8*p; void*code; u64 n; int live,prep,id,w; }; static struct C cs[NT][6]; static int nids; static int thr(void){ return os_cur; }
static u64 pt(int id,u64 o){ return 0x9e3779b97f4a7c15ull*(u64)(id+1)^(o*0x100000001b3ull); }
static void wr(struct C*c){ u64 f=c->prep?sizeof(ffi_closure):8; for(u64 o=f;o+8<=c->n&&o<f+24;o+=8) *(u64*)(c->p+o)=pt(c->id,o); if(c->n>=f+8) *(u64*)(c->p+((c->n-8)&~7ull))=pt(c->id,(c->n-8)&~7ull); }
static void rd(struct C*c){ int ok=1; u64 f=c->prep?sizeof(ffi_closure):8; for(u64 o=f;o+8<=c->n&&o<f+24;o+=8) ok&=*(u64*)(c->p+o)==pt(c->id,o); if(c->n>=f+8) ok&=*(u64*)(c->p+((c->n-8)&~7ull))==pt(c->id,(c->n-8)&~7ull); vp_assert(ok,"C21: the contents of a live closure changed"); }
static int yieldy; static struct C*curc[NT]; static u64 ta[NT],tr_[NT]; static int tran[NT];
static void th(ffi_cif*c,void*r,void**a,void*ud){ int t=thr(); tran[t]++; if(yieldy) os_yield(); vp_assert(ud==(void*)(curc[t]->p+3),"C21: the handler of another closure runs"); vp_assert(c==(curc[t]->w?cw:cu),"C21: the handler gets another call interface"); vp_assert(*(u64*)a[0]==ta[t],"C21: the arguments are changed on the way to the handler"); *(u64*)r=tr_[t]; }
static struct vp_regs trg[NT] __attribute__((aligned(16))); static u64 tstk[NT][6] __attribute__((aligned(16)));
static void tcall(struct C*c){ int t=thr(); struct vp_regs*r=&trg[t]; curc[t]=c; ta[t]=vp_u64("a"); tr_[t]=vp_u64("r"); r->onx87=0; if(c->w) r->rcx=ta[t]; else r->rdi=ta[t]; tran[t]=0; vp_invoke((void(*)(void))c->code,r,tstk[t],4); vp_assert(tran[t]==1,"C21: the handler does not run exactly once"); vp_assert(r->orax==tr_[t],"C21: the result of the handler is lost"); }
/* a call through the library: an interface of the thread's own, then the shared one, to a function and to a closure of the thread */
static u64 pa_[NT],pb_[NT]; static u64 plain(u64 a,u64 b){ int t=thr(); if(yieldy) os_yield(); vp_assert((a==pa_[t])&(b==pb_[t]),"C21: the function called does not get the arguments"); return tr_[t]; }
static __attribute__((ms_abi)) u64 plainw(u64 a,u64 b){ return plain(a,b); }
/* the same with structures, complex and long double values, in registers and memory, to a closure */
struct gy{ u64 a; double b; }; struct ggg{ u64 a[3]; }; static ffi_cif ci[2]; static struct gy sg[NT]; static struct ggg sr[NT]; static u8 sl[NT][16];
static void mkcs(void){ static ffi_type t1,t2; static ffi_type*e1[3],*e2[4],*at[5]; t1.type=t2.type=FFI_TYPE_STRUCT; t1.elements=e1; t2.elements=e2; e1[0]=&ffi_type_uint64; e1[1]=&ffi_type_double; e2[0]=e2[1]=e2[2]=&ffi_type_uint64; at[0]=&t1; at[1]=&ffi_type_complex_double; at[2]=&t2; at[3]=&ffi_type_longdouble; at[4]=&ffi_type_sint8; int s=ffi_prep_cif(&ci[0],FFI_UNIX64,5,&t2,at); s|=ffi_prep_cif(&ci[1],FFI_GNUW64,5,&t1,at); vp_assert(s==FFI_OK,"C21: a valid interface is rejected"); }
static void ths(ffi_cif*c,void*r,void**a,void*ud){ int t=thr(); tran[t]++; if(yieldy) os_yield(); vp_assert(ud==(void*)(curc[t]->p+5)&&(c==&ci[0]||c==&ci[1]),"C21: the handler of another closure runs"); vp_assert(vp_memeq(a[0],&sg[t],16)&vp_memeq(a[1],&sg[t],16)&vp_memeq(a[2],&sr[t],24)&vp_memeq(a[3],sl[t],10)&(*(u8*)a[4]==(u8)ta[t]),"C21: the arguments are changed on the way to the handler"); if(c==&ci[0]) *(struct ggg*)r=sr[t]; else *(struct gy*)r=sg[t]; }
static void tprep(struct C*c);
static void outcall(struct C*c){ int t=thr(); u64 a=ta[t]=pa_[t]=vp_u64("a"),b=pb_[t]=vp_u64("b"),r=0; tr_[t]=vp_u64("r"); void*av[2]={&a,&b}; 
  static ffi_type own[NT]; static ffi_type*el[NT][3],*at[NT][2]; static ffi_cif oc[NT]; own[t].size=0; own[t].alignment=0; own[t].type=FFI_TYPE_STRUCT; own[t].elements=el[t]; el[t][0]=&ffi_type_double; el[t][1]=&ffi_type_uint64; el[t][2]=0; at[t][0]=at[t][1]=&ffi_type_uint64; int w=t&1;
  vp_assert(ffi_prep_cif(&oc[t],FFI_UNIX64,1,&own[t],at[t])==FFI_OK&&own[t].size==16,"C21: a valid interface is rejected"); vp_assert(ffi_prep_cif(&oc[t],w?FFI_WIN64:FFI_UNIX64,2,&ffi_type_uint64,at[t])==FFI_OK,"C21: a valid interface is rejected");
  ffi_call(&oc[t],w?(void(*)(void))plainw:(void(*)(void))plain,&r,av); vp_assert(r==tr_[t],"C21: the result of the function is lost"); r=0;
  ffi_raw raw[2]; ffi_ptrarray_to_raw(cu,av,raw); ffi_raw_call(cu,(void(*)(void))plain,&r,raw); vp_assert(r==tr_[t],"C21: the result of the function is lost"); r=0;
  if(c&&c->prep) for(int k=0;k<2;k++){ c->w=!c->w; vp_assert(ffi_prep_closure_loc((ffi_closure*)c->p,c->w?cw:cu,th,c->p+3,c->code)==FFI_OK,"C21: a closure cannot be prepared"); r=0; curc[t]=c; tran[t]=0; ffi_call(c->w?cw:cu,(void(*)(void))c->code,&r,av); vp_assert(tran[t]==1,"C21: the handler does not run exactly once"); vp_assert(r==tr_[t],"C21: the result of the handler is lost"); } 
  if(c&&c->prep){ vp_sym(&sg[t],16,"s"); vp_sym(&sr[t],24,"s"); vp_sym(sl[t],10,"s"); sl[t][7]|=0x80; for(int k=0;k<2;k++){ struct ggg res; void*sv[5]={&sg[t],&sg[t],&sr[t],sl[t],&a}; vp_assert(ffi_prep_closure_loc((ffi_closure*)c->p,&ci[k],ths,c->p+5,c->code)==FFI_OK,"C21: a closure cannot be prepared"); tran[t]=0; ffi_call(&ci[k],(void(*)(void))c->code,&res,sv); vp_assert(tran[t]==1,"C21: the handler does not run exactly once"); vp_assert(vp_memeq(&res,k?(void*)&sg[t]:(void*)&sr[t],k?16:24),"C21: the result of the handler is lost"); } tprep(c); } }
static int nospace;
static struct C*talloc(u64 n){ int t=thr(); struct C*c=0; for(int i=0;i<6;i++) if(!cs[t][i].live){ c=&cs[t][i]; break; } vp_assert(c!=0,"bound: live closures"); void*code=0; u8*p=ffi_closure_alloc(n,&code);
  if(!p){ vp_assert(nospace,"C21: closure allocation fails"); return 0; }
  vp_assert(code!=0,"C21: a closure without a code address"); u64 k=n>=24?n:24;
  for(int i=0;i<NT;i++) for(int j=0;j<6;j++) if(cs[i][j].live){ struct C*d=&cs[i][j]; vp_assert(apart(p,k,d->p,d->n),"C21: two live closures share memory"); vp_assert(d->code!=code,"C21: two live closures share a code address"); }
  int pr=os_prot(code,1),pw=os_prot(p,n?n:1); vp_assert(pr>0&&(pr&4),"C21: the code address of a live closure is not executable"); vp_assert(pw>0&&(pw&3)==3,"C21: closure memory is not readable and writable");
  c->p=p; c->code=code; c->n=n; c->live=1; c->prep=0; c->id=nids++; wr(c); return c; }
static void tprep(struct C*c){ rd(c); c->w=c->id&1; int st=ffi_prep_closure_loc((ffi_closure*)c->p,c->w?cw:cu,th,c->p+3,c->code); vp_assert(st==FFI_OK,"C21: a closure cannot be prepared"); c->prep=1; if(c->n==64) rd(c); wr(c); }
static void tlook(struct C*c){ rd(c); vp_assert(ffi_data_to_code_pointer(c->p)==c->code,"C21: translating a data address does not give the closure's code address"); int pr=os_prot(c->code,1); vp_assert(pr>0&&(pr&4),"C21: the code address of a live closure is not executable"); }
static void tfree(struct C*c){ rd(c); c->live=0; ffi_closure_free(c->p); }
static struct C*mine(void){ int t=thr(); for(int i=0;i<6;i++) if(cs[t][i].live) return &cs[t][i]; return 0; }
static struct C*last(void){ int t=thr(); struct C*c=0; for(int i=0;i<6;i++) if(cs[t][i].live&&(!c||cs[t][i].id>c->id)) c=&cs[t][i]; return c; }
/* operations: 0 allocate, prepare, call; 1 release the oldest; 2 look up and call; 3 allocate a large one */
static u64 big=3600; static int nops; static const u8*menu; static int nmenu;
static void tops(void){ for(int i=0;i<nops;i++){ struct C*c; switch(menu[vp_conc(vp_range("op",0,(u64)(nmenu-1)))]){ case 0: if((c=talloc(64))){ tprep(c); tcall(c); } break; case 1: if((c=mine())) tfree(c); break; case 2: if((c=last())){ tlook(c); if(c->prep) tcall(c); } break; case 3: if((c=talloc(big))) tlook(c); break; case 5: outcall(last()); break; case 4: if((c=talloc(64))){ tprep(c); tcall(c); tfree(c); } break; } } 
  for(int j=0;j<6;j++) if(cs[thr()][j].live) rd(&cs[thr()][j]); }
static void give(int t,u64 n,int pr){ struct C*c=talloc(n); if(!c) return; if(pr) tprep(c); for(int i=0;i<6;i++) if(!cs[t][i].live){ cs[t][i]=*c; c->live=0; return; } }
static void after(void){ vp_assert(os_locks_held()==0,"C21: a lock is still held"); int n=0; for(int t=0;t<NT;t++) for(int j=0;j<6;j++) if(cs[t][j].live){ n++; rd(&cs[t][j]); tlook(&cs[t][j]); if(cs[t][j].prep) tcall(&cs[t][j]); } if(n) vp_cover("live"); for(int t=0;t<NT;t++) for(int j=0;j<6;j++) if(cs[t][j].live) tfree(&cs[t][j]); vp_cover("ends"); if(os_switches>1) vp_cover("interleaved"); struct C*c=talloc(64); if(c){ tprep(c); tcall(c); tfree(c); } }
static void two(int ops,int budget){ nops=ops; void(*f[2])(void)={tops,tops}; os_run(2,f,budget); after(); }
static const u8 m_cold[]={4,0,3},m_all[]={0,1,2,3},m_tab[]={0,1};
/* nothing has been set up yet */
static void cold(int m){ conf(m); menu=m_cold; nmenu=FULL?3:2; two(1,FULL?4:3); }
void c21_cold_tr(void){ cold(TR); } void c21_cold_du(void){ cold(DU); } void c21_cold_wx(void){ cold(WX); }
/* each thread starts with closures of its own */
static void warm(int m){ narrow=!FULL; conf(m); int n=FULL?(int)vp_conc(vp_range("closures",0,1)):1; for(int t=1;t<=2;t++) for(int i=0;i<=n;i++) give(t,i?big:64,!i); menu=m_all; nmenu=4; os_first=!FULL; two(2,2); }
void c21_tr(void){ warm(TR); } void c21_du(void){ warm(DU); } void c21_wx(void){ warm(WX); }
/* tables of two trampolines come and go */
void c21_tab(void){ per=2; conf(TR); if(vp_conc(vp_range("library file gone",0,1))) os.libopen=0; int n=(int)vp_conc(vp_range("closures",0,3)); for(int i=0;i<n;i++) give(1+(i&1),64,1); menu=m_tab; nmenu=2; two(2,FULL?3:2); }
/* memory goes back to the system while the other thread uses it */
static void trim_(int m){ narrow=!FULL; conf(m); os_cap=0xb00000; os.place_w=(int)vp_conc(vp_range("data placement",0,2)); os.place_x=FULL?(int)vp_conc(vp_range("code placement",0,2)):os.place_w; big=2300000; give(1,64,1); give(1,big,0); give(2,64,1); if(vp_conc(vp_range("one more",0,1))) give(2,big,0); menu=m_all; nmenu=4; os_first=!FULL; two(1,2); }
void c21_trim(void){ trim_(TR); } void c21_trimdu(void){ trim_(DU); } void c21_trimwx(void){ trim_(WX); }
/* calls in both directions, interrupted while the function or handler runs */
static const u8 m_call[]={5,0,1}; void c21_call(void){ yieldy=1; narrow=!FULL; mkcs(); conf((int)vp_conc(vp_range("mode",TR,WX))); if(vp_conc(vp_range("closures",0,1))) for(int t=1;t<3;t++) give(t,64,1); menu=m_call; nmenu=FULL?3:2; os_first=!FULL; two(1,FULL?3:2); }
/* three threads */
void c21_three(void){ narrow=!FULL; conf((int)vp_conc(vp_range("mode",TR,WX))); int n=(int)vp_conc(vp_range("cold",0,1)); if(!n) for(int t=1;t<3;t++) give(t,64,1); menu=m_cold; nmenu=1; nops=1; void(*f[3])(void)={tops,tops,tops}; os_run(3,f,2); after(); }
