#include "sig.h"
/* ================= preparing ================= */
static void do_prep(void){
  S.ngpr=0; for(int i=0;i<n;i++){ tp[i]=&ty[i]; at[i]=ty[i].ft; }
  if(!win()){ sysv_begin(&S,&rt); for(int i=0;i<n;i++) sysv_arg(&S,i,&ty[i]); }
  cif=vp_alloc(sizeof*cif,8); int st;
  if(mode==M_VARCALL){ nfixed=(int)vp_conc(vp_range("fixed",0,2)); if(nfixed>n) nfixed=n; for(int i=nfixed;i<n;i++) if(ty[i].kind==K_SCALAR) vp_assume(ty[i].at[0].atom>=A_U32&&ty[i].at[0].atom!=A_F32);
    st=ffi_prep_cif_var(cif,(ffi_abi)abi,(unsigned)nfixed,(unsigned)n,rt.ft,n?at:0); }
  else st=ffi_prep_cif(cif,(ffi_abi)abi,(unsigned)n,rt.ft,n?at:0); /* no vector at all is fine without arguments */
  vp_assert(st==FFI_OK,"a valid interface is rejected");
}
/* ================= calls ================= */
static const u8*slotp(const struct vp_frame*f,int j){ switch(j){ case 0:return (const u8*)&f->rcx; case 1:return (const u8*)&f->rdx; case 2:return (const u8*)&f->r8; case 3:return (const u8*)&f->r9; default:return (const u8*)f->rsp+8+8*(u64)j; } }
static void*nested_rbuf;
static void check_ret(const struct vp_frame*f,const u8*buf);
static void docall(void*rb);
static void*expect_ret;
static void hook_call(struct vp_frame*f){
  calls++; int d=depth;
  vp_assert((f->rsp+8)%16==0,"C17: stack not aligned when the callee is entered");
  if(!win()){
    vp_assert(((u8)f->rax)>=S.nsse&&((u8)f->rax)<=8,mode==M_VARCALL?"the callee is not told a bound of the vector registers used":"C17: vector register count in al is not a bound");
    sysv_check_args(&S,f,n,tp,val,"the callee does not find the arguments where the ABI puts them");
    if(retmem()) vp_assert(expect_ret?f->rdi==(u64)expect_ret:vp_accessible((void*)f->rdi,rt.size,VP_W),"the hidden result pointer does not point to the return buffer");
    if(retmem()&&!expect_ret) vp_assert(f->rdi%rt.align==0,"C11: the space provided for an ignored result is misaligned");
  } else {
    int j=retmem()?1:0; int ok=1;
    if(j&&!expect_ret) vp_assert(f->rcx%rt.align==0,"C11: the space provided for an ignored result is misaligned");
    if(j) vp_assert(expect_ret?f->rcx==(u64)expect_ret:vp_accessible((void*)f->rcx,rt.size,VP_W),"the hidden result pointer does not point to the return buffer");
    vp_assert(vp_accessible((void*)(f->rsp+8),32,VP_W),"no home space above the return address");
    for(int i=0;i<n;i++,j++){ const u8*s=slotp(f,j);
      if(win_byref(&ty[i])){ u8*p=*(u8*const*)s; p=(u8*)vp_conc((u64)p); vp_assert(vp_accessible(p,ty[i].size,VP_R)&&vp_accessible(p,ty[i].size,VP_W),"an argument passed by reference does not point to writable memory"); ok&=atoms_equal(&ty[i],p,val[i]); vp_assert(disjoint(p,ty[i].size,val[i],ty[i].size)&&disjoint(p,ty[i].size,av[i],ty[i].size),"an argument passed by reference is not a private copy"); vp_assert((u64)p%ty[i].align==0,"an argument passed by reference is misaligned");
        for(int k=0;k<i;k++) if(win_byref(&ty[k])){ int jk=(retmem()?1:0)+k; u8*q=*(u8*const*)slotp(f,jk); q=(u8*)vp_conc((u64)q); vp_assert(disjoint(p,ty[i].size,q,ty[k].size),"two arguments share one private copy"); } continue; }
      if(ty[i].kind==K_SCALAR&&ty[i].at[0].atom>=A_F32&&j<4) s=f->xmm[j];
      ok&=atoms_equal(&ty[i],s,val[i]); }
    vp_assert(ok,"the callee does not find the arguments in their slots");
    f->owin=1; }
  if(mode==M_GOCALL) vp_assert(f->r10==chain,"the static chain register does not hold the chain value");
  /* nested use of the same interface */
  if(d<maxdepth){ depth++; struct vp_frame*keep=f; docall(nested_rbuf); f=keep; depth--; vp_on_call=hook_call; expect_ret=rbuf; }
  /* the callee owns its arguments: scribble over them */
  if(win()){ int j=retmem()?1:0; for(int i=0;i<n;i++,j++){ if(win_byref(&ty[i])) vp_havoc((void*)vp_conc(*(u64*)slotp(f,j)),ty[i].size); else if(j>=4) vp_havoc((u8*)f->rsp+8+8*(u64)j,8); } vp_havoc((u8*)f->rsp+8,32); }
  else if(S.stk) vp_havoc((u8*)f->rsp+8,S.stk);
  /* results: every result register holds something arbitrary, the used ones the value */
  vp_sym(&f->orax,8,"rax"); vp_sym(&f->ordx,8,"rdx"); vp_sym(f->oxmm,32,"xmm"); f->junk=0x5a5a5a5a5a5a5a5aull;
  if(retmem()){ u64 p=win()?f->rcx:f->rdi; p=vp_conc(p); symt(&rt,retv,"m"); __builtin_memcpy((void*)p,retv,rt.size); f->orax=p; }
  else { int cls[2]; if(!win()&&rt.kind!=K_VOID){ int k=sysv_class(&rt,cls); if(k&&cls[0]==C_X87){ f->onx87=(u64)(rt.kind==K_COMPLEX?2:1); vp_sym(f->ost,32,"st"); } }
    __builtin_memcpy(retv,&f->orax,8); __builtin_memcpy(retv+8,&f->ordx,8); __builtin_memcpy(retv+16,f->oxmm,32); __builtin_memcpy(retv+48,f->ost,32); }
}
static void check_ret(const struct vp_frame*f,const u8*buf){ (void)f;
  if(rt.kind==K_VOID||!buf) return; int ok;
  if(retmem()) ok=atoms_equal(&rt,buf,retv);
  else if(win()){ if(is_int(&rt)) ok=*(u64*)buf==widen(&rt,*(u64*)retv); else if(rt.kind==K_SCALAR) ok=atoms_equal(&rt,buf,retv+16); else ok=atoms_equal(&rt,buf,retv); }
  else if(is_int(&rt)) ok=*(u64*)buf==widen(&rt,*(u64*)retv);
  else ok=sysv_ret_equal(&rt,buf,retv,retv+8,retv+16,retv+32,retv+48,retv+64);
  vp_assert(ok,win()?"C09,C03,C11,C12,C13,C23: the return buffer does not hold the value the callee returned":"C05,C03,C11,C12,C13,C23: the return buffer does not hold the value the callee returned"); }
static ffi_raw*raw; static ffi_java_raw*jr; static ffi_cif cifbak;
static void docall(void*rb){
  int c0=calls; vp_on_call=hook_call; expect_ret=rb;
  switch(mode){ case M_GOCALL: ffi_call_go(cif,FFI_FN(vp_callee),rb,n?av:0,(void*)chain); break;
    case M_RAWCALL: ffi_raw_call(cif,FFI_FN(vp_callee),rb,raw); break; case M_JRAWCALL: ffi_java_raw_call(cif,FFI_FN(vp_callee),rb,jr); break;
    default: ffi_call(cif,FFI_FN(vp_callee),rb,n?av:0); }
  vp_assert(calls>=c0+1&&(maxdepth||calls==c0+1),"the function is not called exactly once"); check_ret(0,rb); }
/* an integer narrower than its slot is widened to it */
static void wide_slots(void**b){ int ok=1; for(int i=0;i<n;i++) if(is_int(&ty[i])){ u64 v=*(u64*)vp_conc((u64)b[i]); ok&=v==widen(&ty[i],v); } vp_assert(ok,"an integer is not widened to its slot in the packed form"); }
static void mk_raw(void){
  if(mode==M_RAWCALL){ u64 sz=ffi_raw_size(cif); vp_assert(sz%8==0,"raw size is not a multiple of a slot"); u64 need=0; for(int i=0;i<n;i++) need+=(ty[i].kind==K_STRUCT||ty[i].kind==K_COMPLEX)?8:(ty[i].size+7)/8*8; vp_assert(sz==need,"the reported raw size is not the size of the packed form"); raw=vp_alloc(sz,16); ffi_ptrarray_to_raw(cif,av,raw); void**b=vp_alloc(8*(u64)n,8); ffi_raw_to_ptrarray(cif,raw,b); int ok=1; for(int i=0;i<n;i++){ void*p=(void*)vp_conc((u64)b[i]); vp_assert(vp_accessible(p,ty[i].size,VP_R),"an unpacked argument points outside the raw form"); ok&=atoms_equal(&ty[i],p,val[i]); } vp_assert(ok,"packing and unpacking an argument changes it"); wide_slots(b); }
  if(mode==M_JRAWCALL){ u64 sz=ffi_java_raw_size(cif); u64 need=0; for(int i=0;i<n;i++) need+=(ty[i].at[0].atom==A_U64||ty[i].at[0].atom==A_S64||ty[i].at[0].atom==A_F64)?16:8; vp_assert(sz==need,"the reported raw size is not the size of the packed form"); jr=vp_alloc(sz,16); ffi_java_ptrarray_to_raw(cif,av,jr); void**b=vp_alloc(8*(u64)n,8); ffi_java_raw_to_ptrarray(cif,jr,b); int ok=1; u64 off=0; for(int i=0;i<n;i++){ void*p=(void*)vp_conc((u64)b[i]); vp_assert((u64)p==(u64)jr+off,"an unpacked argument is not in its slot"); off+=(ty[i].at[0].atom==A_U64||ty[i].at[0].atom==A_S64||ty[i].at[0].atom==A_F64)?16:8; ok&=atoms_equal(&ty[i],p,val[i]); 
      if(is_int(&ty[i])){ u64 v=0; __builtin_memcpy(&v,val[i],ty[i].size); ok&=*(u64*)p==widen(&ty[i],v); } } vp_assert(ok,"packing and unpacking an argument changes it"); } }
static int alias; /* the result is stored where an argument lies */
static void run_call(void){
  do_prep(); for(int i=0;i<n;i++){ mkval(i); av[i]=val[i]; } backup(); mk_raw();
  if(mode==M_GOCALL) chain=vp_u64("chain");
  u64 rs=rsize(); rbuf=nullret&&vp_conc(vp_range("null",0,1))?0:rs?vp_alloc(rs,16):0;
  if(alias&&rbuf&&n){ int k=(int)vp_conc(vp_range("result over argument",0,(u64)n-1)); u64 m=rs>ty[k].size?rs:ty[k].size; rbuf=vp_alloc(m,16); __builtin_memcpy(rbuf,val[k],ty[k].size); av[k]=avbak[k]=rbuf; vp_cover("result over argument"); }
  if(maxdepth) nested_rbuf=rbuf?vp_alloc(rs?rs:1,16):0;
  __builtin_memcpy(&cifbak,cif,sizeof*cif);
  if(keep_args){ vp_protect(cif,sizeof*cif,VP_R); vp_protect(t_pool,t_pool_size,VP_R); vp_protect(at,sizeof at,VP_R); vp_protect(av,sizeof av,VP_R); for(int i=0;i<n;i++) vp_protect(val[i],ty[i].size,VP_R); }
  calls=0; docall(rbuf);
  for(int k=0;k<repeat;k++){ if(k) rbuf=rs?vp_alloc(rs,16):0; docall(rbuf); }
  if(keep_args){ int ok=1; for(int i=0;i<n;i++) ok&=av[i]==avbak[i]; vp_assert(ok,"C11: the call changed the caller's argument vector"); vp_assert(vp_memeq(&cifbak,cif,sizeof*cif),"C11: the call changed the call interface"); }
  int ok=1; for(int i=0;i<n;i++) ok&=atoms_equal(&ty[i],val[i],bak[i]); vp_assert(ok,win()?"C08,C11: the call changed an argument value of the caller":"C11: the call changed an argument value of the caller");
  if(!win()) vp_cover(S.stk?"stack":"regs"); else vp_cover(n+(retmem()?1:0)>4?"stack":"regs"); if(rt.size) vp_cover(retmem()?"ret in memory":"ret in registers");
}
/* ================= closures ================= */
static void*clo; static void*code; static ffi_go_closure*gclo; static struct vp_regs*R; static u64*stk; static u64 nstk; static void*callerbuf; static int runs;
static void handler(ffi_cif*c,void*ret,void**args,void*ud);
static void rawhandler(ffi_cif*c,void*ret,ffi_raw*r,void*ud){ void**b=vp_alloc(8*(u64)n+8,8); if(mode==M_JRAWCLO) ffi_java_raw_to_ptrarray(c,(ffi_java_raw*)r,b); else ffi_raw_to_ptrarray(c,r,b); wide_slots(b); handler(c,ret,b,ud); }
static void enter(void); static int ndepth;
static u64 user=0x1122334455667788ull;
static void handler(ffi_cif*c,void*ret,void**args,void*ud){
  runs++; int d=ndepth;
  vp_assert(c==cif,"the handler gets another call interface");
  vp_assert((u64)ud==(mode==M_GOCLO?(u64)gclo:user),"the handler gets other user data");
  vp_assert(vp_accessible(args,8*(u64)n,VP_R),"the argument vector is not readable"); int ok=1;
  for(int i=0;i<n;i++){ u8*p=(u8*)vp_conc((u64)args[i]); vp_assert(vp_accessible(p,ty[i].size,VP_R)&&vp_accessible(p,ty[i].size,VP_W),"an argument is not readable and writable by the handler"); ok&=atoms_equal(&ty[i],p,val[i]); }
  vp_assert(ok,"an argument delivered to the handler is not the value passed");
  if(mode!=M_RAWCLO&&mode!=M_JRAWCLO) for(int i=0;i<n;i++) vp_assert((u64)args[i]%ty[i].align==0,"an argument is misaligned for its type in the handler");
  if(d<maxdepth){ ndepth++; enter(); ndepth--; ok=1; for(int i=0;i<n;i++) ok&=atoms_equal(&ty[i],args[i],val[i]); vp_assert(ok,"a nested closure call changed the arguments of the outer one"); }
  u64 rs=rsize(); ret=(void*)vp_conc((u64)ret);
  if(rs) vp_assert((u64)ret%rt.align==0,win()?"C10: the handler's result buffer is misaligned":"C07: the handler's result buffer is misaligned");
  if(rs){ if(retmem()) vp_assert(ret==callerbuf,win()?"C10,C12,C13,C16,C23: the handler is not given the caller's result memory":"C07,C12,C13,C16,C23: the handler is not given the caller's result memory"); vp_assert(vp_accessible(ret,rs,VP_W),win()?"C10: the handler's result buffer is too small":"C07: the handler's result buffer is too small"); for(int i=0;i<n;i++) vp_assert(disjoint(ret,rs,args[i],ty[i].size),win()?"C10: the result buffer overlaps an argument":"C07: the result buffer overlaps an argument"); }
  for(int i=0;i<n;i++) for(int k=0;k<i;k++) if(n<24||k>i-3) vp_assert(disjoint(args[i],ty[i].size,args[k],ty[k].size),"two arguments delivered to the handler share memory");
  if(rs){ rs>512?symt(&rt,retv,"r"):vp_sym(retv,rs,"r"); __builtin_memcpy(ret,retv,rt.kind==K_SCALAR&&rt.at[0].atom==A_LD?10:rs); }
  for(int i=0;i<n;i++) vp_havoc(args[i],ty[i].size);   /* the handler may overwrite its arguments */
}
static void load_win(void){ int j=retmem()?1:0; nstk=(u64)(n+j<4?4:n+j); stk=vp_alloc(nstk*8,16); if(j) R->rcx=(u64)callerbuf;
  for(int i=0;i<n;i++,j++){ u64 slot; u8*s=(u8*)&slot; vp_havoc(&slot,8); if(win_byref(&ty[i])){ void*c=vp_alloc(ty[i].size,16); __builtin_memcpy(c,val[i],ty[i].size); slot=(u64)c; } else for(int k=0;k<ty[i].n;k++) __builtin_memcpy(s+ty[i].at[k].off,(u8*)val[i]+ty[i].at[k].off,atom_size[ty[i].at[k].atom]);
    if(j<4){ if(ty[i].kind==K_SCALAR&&ty[i].at[0].atom>=A_F32&&ty[i].at[0].atom<=A_F64) __builtin_memcpy(R->xmm[j],s,8); else switch(j){ case 0:R->rcx=slot;break; case 1:R->rdx=slot;break; case 2:R->r8=slot;break; default:R->r9=slot; } }
    else stk[j]=slot; } }
static void enter(void){
  struct vp_regs*r0=R; R=vp_alloc(sizeof*R,16); struct vp_regs*r=R; r->onx87=0; int x87=0;
  u64 rs=rsize(); void*cb0=callerbuf; callerbuf=retmem()?vp_alloc(rt.size,16):0;
  if(win()) load_win(); else { if(retmem()) r->rdi=(u64)callerbuf; nstk=(S.stk+7)/8; stk=vp_alloc(nstk*8+8,16); sysv_load_args(&S,r,stk,n,tp,val); int cls[2]; if(rt.kind!=K_VOID&&sysv_class(&rt,cls)&&cls[0]==C_X87){ x87=rt.kind==K_COMPLEX?2:1; } }
  r->onx87=(u64)x87; void(*fn)(void);
  if(mode==M_GOCLO){ r->r10=(u64)gclo; fn=(void(*)(void))gclo->tramp; } else fn=(void(*)(void))code;
  int r1=runs; vp_invoke(fn,r,stk,nstk); vp_assert(runs>=r1+1&&(maxdepth||runs==r1+1),"the handler does not run exactly once");
  vp_assert(r->rsp==r->sp0,"C17: the stack pointer is not restored");
  vp_assert((r->acs[0]==r->rbx)&(r->acs[1]==r->rbp)&(r->acs[2]==r->r12)&(r->acs[3]==r->r13)&(r->acs[4]==r->r14)&(r->acs[5]==r->r15),"C17: a callee-saved register is not preserved");
  if(win()){ vp_assert((r->ardi==r->rdi)&(r->arsi==r->rsi),"C17: rdi or rsi is not preserved"); vp_assert(vp_memeq(r->axmm,r->xmm[6],160),"C17: a callee-saved vector register is not preserved"); }
  if(rs){ int ok; const char*m=win()?"C10,C12,C13,C16,C23: the caller does not receive the handler's result":"C07,C12,C13,C16,C23: the caller does not receive the handler's result";
    if(retmem()){ ok=atoms_equal(&rt,callerbuf,retv); vp_assert(r->orax==(u64)callerbuf,win()?"C10,C12,C13,C16,C23: the address of the result memory is not returned":"C07,C12,C13,C16,C23: the address of the result memory is not returned"); }
    else if(win()) ok=(is_int(&rt)||rt.kind!=K_SCALAR)?atoms_equal(&rt,&r->orax,retv):atoms_equal(&rt,r->oxmm[0],retv);
    else ok=sysv_ret_equal(&rt,retv,&r->orax,&r->ordx,r->oxmm[0],r->oxmm[1],r->ost[0],r->ost[1]);
    vp_assert(ok,m); }
  R=r0; callerbuf=cb0; }
static int old; /* the interfaces that take writable and executable memory and no separate code address */
static void alloc_closure(void){
  if(mode==M_GOCLO){ gclo=vp_alloc(sizeof*gclo,8); return; }
  u64 sz=mode==M_RAWCLO?sizeof(ffi_raw_closure):mode==M_JRAWCLO?sizeof(ffi_java_raw_closure):sizeof(ffi_closure);
  if(mode==M_CLODYN||old){ clo=vp_exec_alloc(4096); code=clo; return; }
  os.allow_wx=!os.tramp; clo=ffi_closure_alloc(sz,&code); vp_assert(clo!=0&&code!=0,"C14: closure allocation fails"); vp_sym((u8*)clo+8,sz-8,"stale"); }
static void prep_closure(void){ int st;
  if(old) switch(mode){ case M_RAWCLO: st=ffi_prep_raw_closure(clo,cif,rawhandler,(void*)user); break; case M_JRAWCLO: st=ffi_prep_java_raw_closure(clo,cif,(void(*)(ffi_cif*,void*,ffi_java_raw*,void*))rawhandler,(void*)user); break; default: st=ffi_prep_closure(clo,cif,handler,(void*)user); } else
  switch(mode){ case M_GOCLO: st=ffi_prep_go_closure(gclo,cif,handler); break; case M_RAWCLO: st=ffi_prep_raw_closure_loc(clo,cif,rawhandler,(void*)user,code); break; case M_JRAWCLO: st=ffi_prep_java_raw_closure_loc(clo,cif,(void(*)(ffi_cif*,void*,ffi_java_raw*,void*))rawhandler,(void*)user,code); break; default: st=ffi_prep_closure_loc(clo,cif,handler,(void*)user,code); }
  vp_assert(st==FFI_OK,"a valid closure is rejected"); os_sync(); }
static void run_closure(void){
  do_prep(); for(int i=0;i<n;i++) mkval(i); backup(); prep_closure(); runs=0; enter(); for(int k=0;k<repeat;k++) enter();
  if(!win()) vp_cover(S.stk?"stack":"regs"); else vp_cover(n+(retmem()?1:0)>4?"stack":"regs"); if(rt.size) vp_cover(retmem()?"ret in memory":"ret in registers"); }
/* ================= entries ================= */
static void begin(int m,int a){ mode=m; abi=a; jraw=m==M_JRAWCALL||m==M_JRAWCLO; if(m>=M_CLO) alloc_closure(); if(a<0) abi=vp_conc(vp_range("abi",0,1))?FFI_GNUW64:FFI_WIN64; else if(a==99) abi=(int)vp_conc(vp_range("abi",FFI_UNIX64,FFI_GNUW64)); t_reset(); n=0; }
static void go(void){ if(mode>=M_CLO) run_closure(); else run_call(); }
#define FULL (VP_TIER==2)
#define WINS (-1)
#define ANY 99
static void fA(int m,int a,int k,int r){ begin(m,a); if(win()) famW(k); else famA(k,FULL); choose_ret(r); go(); }
static void fB(int m,int a,int r){ begin(m,a); famB(FULL?4:3,FULL?5:3,FULL); choose_ret(r); go(); }
static void fC(int m,int a,int r){ begin(m,a); famC(FULL?6:5); choose_ret(r); go(); }
static void fF(int m,int a){ begin(m,a); famF(); go(); }
static void fD(int m,int a,int r){ begin(m,a); famD(1); choose_ret(r); go(); }
/* return types with a few argument lists around them */
static void ret_args(void){ int k=(int)vp_conc(vp_range("args",0,3)); if(k==1){ t_scalar(&ty[n++],A_U64); } else if(k==2){ prefix(6,8); t_scalar(&ty[n++],A_S32); } else if(k==3){ t_build(&ty[n++],jraw?"g":"{gy}"); t_scalar(&ty[n++],A_F32); } }
static void fR(int m,int a,int r){ begin(m,a); ret_args(); choose_ret(r); go(); }
#define E(name,body) void name(void){ body; }
E(c04_A,fA(M_CALL,FFI_UNIX64,2,R_TWO)) E(c04_r,fA(M_CALL,FFI_UNIX64,1,R_FEW)) E(c04_B,fB(M_CALL,FFI_UNIX64,R_VOID)) E(c04_C,fC(M_CALL,FFI_UNIX64,FULL?R_FEW:R_VOID)) E(c04_D,fD(M_CALL,FFI_UNIX64,R_FEW))
E(c05_R,fR(M_CALL,FFI_UNIX64,R_ALL)) E(c05_B,fR(M_CALL,FFI_UNIX64,R_BUILD))
E(c06_A,fA(M_CLO,FFI_UNIX64,2,FULL?R_FEW:R_VOID)) E(c06_B,fB(M_CLO,FFI_UNIX64,R_VOID)) E(c06_C,fC(M_CLO,FFI_UNIX64,R_VOID)) E(c06_D,fD(M_CLO,FFI_UNIX64,R_FEW)) E(c06_dyn,fA(M_CLODYN,FFI_UNIX64,FULL?2:1,R_FEW)) E(c06_nest,maxdepth=1;fA(M_CLO,FFI_UNIX64,1,R_FEW)) E(c06_any,begin(M_CLO,FFI_UNIX64);prefix(5,7);pick_type(&ty[n++],ncomp);pick_type(&ty[n++],ncomp);choose_ret(R_FEW);go())
E(c07_R,fR(M_CLO,FFI_UNIX64,R_ALL)) E(c07_B,fR(M_CLO,FFI_UNIX64,R_BUILD)) E(c07_dyn,fR(M_CLODYN,FFI_UNIX64,R_ALL))
E(c08_A,fA(M_CALL,WINS,2,R_TWO)) E(c08_B,fB(M_CALL,WINS,R_VOID)) E(c08_C,fC(M_CALL,WINS,R_FEW)) E(c08_D,fD(M_CALL,WINS,R_FEW))
E(c09_R,fR(M_CALL,WINS,R_ALL)) E(c09_B,fR(M_CALL,WINS,R_BUILD))
E(c10_A,fA(M_CLO,WINS,2,R_TWO)) E(c10_B,fB(M_CLO,WINS,R_VOID)) E(c10_C,fC(M_CLO,WINS,R_FEW)) E(c10_D,fD(M_CLO,WINS,R_FEW)) E(c10_R,fR(M_CLO,WINS,R_ALL)) E(c10_RB,fR(M_CLO,WINS,R_BUILD)) E(c10_dyn,fR(M_CLODYN,WINS,R_ALL)) E(c10_nest,maxdepth=1;fA(M_CLO,WINS,1,R_FEW))
E(c07_old,old=1;fR(M_CLO,FFI_UNIX64,R_ALL)) E(c10_old,old=1;fR(M_CLO,WINS,R_ALL)) E(c12_old,old=1;fR(M_RAWCLO,ANY,R_ALL)) E(c13_old,old=1;fR(M_JRAWCLO,ANY,R_ALL))
E(c04_F,fF(M_CALL,FFI_UNIX64)) E(c06_F,fF(M_CLO,FFI_UNIX64)) E(c08_F,fF(M_CALL,WINS)) E(c10_F,fF(M_CLO,WINS)) E(c11_F,keep_args=1;nullret=1;repeat=1;fF(M_CALL,ANY)) E(c12_F,fF(M_RAWCALL,ANY)) E(c12_cF,fF(M_RAWCLO,ANY)) E(c23_F,fF(M_GOCALL,ANY)) E(c23_cF,fF(M_GOCLO,ANY))
/* C11: protected caller data, repeated and nested calls, absent return buffer */
E(c11_A,keep_args=1;repeat=1;nullret=1;fA(M_CALL,ANY,1,R_FEW)) E(c11_R,keep_args=1;repeat=1;nullret=1;fR(M_CALL,ANY,R_ALL)) E(c11_alias,alias=1;keep_args=1;fR(M_CALL,ANY,R_ALL)) E(c11_aliasA,alias=1;keep_args=1;fA(M_CALL,ANY,1,R_FEW)) E(c11_nest,keep_args=1;maxdepth=1;nullret=1;fA(M_CALL,ANY,1,R_FEW)) E(c11_D,keep_args=1;nullret=1;fD(M_CALL,ANY,R_FEW)) E(c11_go,keep_args=1;repeat=1;nullret=1;fR(M_GOCALL,ANY,R_ALL))
/* C03: accepted variadic interfaces behave like the others */
E(c03_A,fA(M_VARCALL,FFI_UNIX64,1,R_FEW)) E(c03_B,fB(M_VARCALL,FFI_UNIX64,R_VOID)) E(c03_C,fC(M_VARCALL,FFI_UNIX64,R_VOID)) E(c03_W,fA(M_VARCALL,WINS,1,R_FEW))
/* C12, C13 */
E(c12_A,fA(M_RAWCALL,ANY,1,R_FEW)) E(c12_A2,fA(M_RAWCALL,FFI_UNIX64,2,R_VOID)) E(c12_R,fR(M_RAWCALL,ANY,R_ALL)) E(c12_D,fD(M_RAWCALL,ANY,R_FEW)) E(c12_cA,fA(M_RAWCLO,ANY,1,R_FEW)) E(c12_cR,fR(M_RAWCLO,ANY,R_ALL)) E(c12_cD,fD(M_RAWCLO,ANY,R_FEW))
E(c13_A,fA(M_JRAWCALL,ANY,2,R_FEW)) E(c13_R,fR(M_JRAWCALL,ANY,R_ALL)) E(c13_D,fD(M_JRAWCALL,ANY,R_FEW)) E(c13_cA,fA(M_JRAWCLO,ANY,2,R_FEW)) E(c13_cR,fR(M_JRAWCLO,ANY,R_ALL)) E(c13_cD,fD(M_JRAWCLO,ANY,R_FEW))
/* C17: machine state; C22 runs the same entries with unwinding checked at every instruction */
E(c17_call,fR(M_CALL,ANY,R_ALL)) E(c17_args,fA(M_CALL,ANY,1,R_FEW)) E(c17_clo,fR(M_CLO,ANY,R_ALL)) E(c17_cloargs,fA(M_CLO,ANY,1,R_FEW)) E(c17_dyn,fR(M_CLODYN,ANY,R_ALL)) E(c17_go,fR(M_GOCALL,ANY,R_ALL)) E(c17_goclo,fR(M_GOCLO,ANY,R_ALL)) E(c17_D,fD(M_CALL,ANY,R_FEW)) E(c17_cloD,fD(M_CLO,ANY,R_FEW))
/* C23 */
E(c23_A,fA(M_GOCALL,ANY,FULL?2:1,R_FEW)) E(c23_R,fR(M_GOCALL,ANY,R_ALL)) E(c23_C,fC(M_GOCALL,ANY,R_FEW)) E(c23_cA,fA(M_GOCLO,ANY,FULL?2:1,R_FEW)) E(c23_cR,fR(M_GOCLO,ANY,R_ALL)) E(c23_cC,fC(M_GOCLO,ANY,R_FEW)) E(c23_cD,fD(M_GOCLO,ANY,R_FEW)) E(c23_nest,maxdepth=1;fR(M_GOCLO,ANY,R_FEW))
