#include "abi.h"
const u8 atom_size[NATOM]={1,1,2,2,4,4,8,8,8,4,8,16}, atom_align[NATOM]={1,1,2,2,4,4,8,8,8,4,8,16};
static struct { ffi_type t[400]; ffi_type*e[3000]; } P; void*t_pool=&P; u64 t_pool_size=sizeof P; static int npool,nep;
#define pool P.t
#define epool P.e
void t_reset(void){ npool=0; nep=0; }
ffi_type*atom_ffi(int a){
  switch(a){ case A_U8:return &ffi_type_uint8; case A_S8:return &ffi_type_sint8; case A_U16:return &ffi_type_uint16; case A_S16:return &ffi_type_sint16; case A_U32:return &ffi_type_uint32; case A_S32:return &ffi_type_sint32; case A_U64:return &ffi_type_uint64; case A_S64:return &ffi_type_sint64; case A_PTR:return &ffi_type_pointer; case A_F32:return &ffi_type_float; case A_F64:return &ffi_type_double; default:return &ffi_type_longdouble; } }
static int atom_of(char c){ switch(c){ case 'a':return A_U8; case 'b':return A_S8; case 'c':return A_U16; case 'd':return A_S16; case 'e':return A_U32; case 'f':return A_S32; case 'g':return A_U64; case 'h':return A_S64; case 'p':return A_PTR; case 'x':return A_F32; case 'y':return A_F64; case 'l':return A_LD; default:return -1; } }
void t_scalar(struct T*t,int a){ t->ft=atom_ffi(a); t->kind=K_SCALAR; t->size=atom_size[a]; t->align=atom_align[a]; t->n=1; t->at[0].off=0; t->at[0].atom=(u8)a; }
static const char*build(struct T*t,const char*d){
  int a=atom_of(*d); if(a>=0){ t_scalar(t,a); return d+1; }
  if(*d=='v'){ t->ft=&ffi_type_void; t->kind=K_VOID; t->size=0; t->align=1; t->n=0; return d+1; }
  if(*d=='X'||*d=='Y'||*d=='L'||*d=='I'||*d=='J'||*d=='C'){ int e=*d=='X'?A_F32:*d=='Y'?A_F64:*d=='L'?A_LD:*d=='I'?A_S32:*d=='J'?A_S64:A_U8; t->kind=K_COMPLEX; t->size=2*atom_size[e]; t->align=atom_align[e]; t->n=2; t->at[0].off=0; t->at[1].off=atom_size[e]; t->at[0].atom=t->at[1].atom=(u8)e;
    if(*d=='X') t->ft=&ffi_type_complex_float; else if(*d=='Y') t->ft=&ffi_type_complex_double; else if(*d=='L') t->ft=&ffi_type_complex_longdouble; else { ffi_type*f=&pool[npool++]; ffi_type**el=&epool[nep]; nep+=2; el[0]=atom_ffi(e); el[1]=0; f->size=t->size; f->alignment=(unsigned short)t->align; f->type=FFI_TYPE_COMPLEX; f->elements=el; t->ft=f; }
    return d+1; }
  /* struct */
  d++; ffi_type*el[48]; int ne=0; u32 off=0,al=1; t->n=0; t->kind=K_STRUCT;
  while(*d!='}'){ struct T s; d=build(&s,d); off=(off+s.align-1)/s.align*s.align; for(int i=0;i<s.n;i++){ t->at[t->n].off=off+s.at[i].off; t->at[t->n].atom=s.at[i].atom; t->n++; } off+=s.size; if(s.align>al) al=s.align; el[ne++]=s.ft; }
  t->align=al; t->size=(off+al-1)/al*al; ffi_type*f=&pool[npool++]; ffi_type**ep=&epool[nep]; nep+=ne+1; for(int i=0;i<ne;i++) ep[i]=el[i]; ep[ne]=0; f->size=0; f->alignment=0; f->type=FFI_TYPE_STRUCT; f->elements=ep; t->ft=f; return d+1; }
void t_build(struct T*t,const char*d){ build(t,d); }
const char*const comp_types[]={ "X","Y","L","I","J","{a}","{aaa}","{c}","{e}","{g}","{aaaaa}","{x}","{y}","{xx}","{xxx}","{xxxx}","{yx}","{xy}","{yy}","{ex}","{xe}","{gy}","{yg}","{gg}","{eee}","{exe}","{xex}","{l}","{la}","{ggg}","{yyy}","{{x}{a}}","{{ax}{xa}}","{a{ce}x}","{X}","{Y}","{L}","{xX}","{ggggg}","{aaaaaaaaaaaaaaaaa}","{yyyyyyyyyy}","{p}","{ap}","{hd}","{xxe}","{exx}","{aaaaaaaaaaaaaaaa}","{I}","{Ix}","{bbbbbbbbx}", "{aaaaaaa}","{caaaa}","{gggggggggggggggggggggggggggggggggggggggga}","{yl}","{ef}","{{xx}{xx}}","{{g}y}","{x{xx}}","{gx}","{xg}","{aaaaaaaaa}","{ccccc}","{aaaaaaaaaaaaa}","{ccccccc}","{aaaaaaaaaaaaaaa}","{eeg}","{gge}","{egg}","{eaaaaac}","{yc}" };
const int ncomp=sizeof comp_types/sizeof*comp_types;
static ffi_type*rep(ffi_type*m,int k,ffi_type*last){ ffi_type*f=&pool[npool++]; ffi_type**e=&epool[nep]; int i=0; for(;i<k;i++) e[i]=m; if(last) e[i++]=last; e[i]=0; nep+=i+1; f->size=0; f->alignment=0; f->type=FFI_TYPE_STRUCT; f->elements=e; return f; }
void t_big(struct T*t,int which){ static const u32 sz[]={4104,32776,65544}; ffi_type*l=rep(rep(rep(atom_ffi(A_U64),8,0),8,0),8,0); t->ft=rep(l,which==0?1:which==1?8:16,atom_ffi(A_U64)); t->kind=K_STRUCT; t->size=sz[which]; t->align=8; t->n=0;
  u32 w[]={0,8,56,64,128,512,1024,2040,2048,4088,4096,8192,16384,20000,32760,32768,40000,65520,65528,65536,sz[which]-16}; for(unsigned i=0;i<sizeof w/sizeof*w;i++) if(w[i]+8<=sz[which]){ t->at[t->n].off=w[i]; t->at[t->n++].atom=A_U64; } }
int sysv_class(const struct T*t,int cls[2]){
  cls[0]=cls[1]=C_NONE;
  if(t->kind==K_VOID) return 0;
  if(t->kind==K_COMPLEX&&t->at[0].atom==A_LD){ cls[0]=C_X87; return 2; }
  if(t->size>16) return 0;
  for(int i=0;i<t->n;i++){ int e=t->at[i].off/8; int a=t->at[i].atom; if(a==A_LD){ cls[0]=C_X87; return 1; }
    int c=(a==A_F32||a==A_F64)?C_SSE:C_INT; if(cls[e]==C_NONE||c==C_INT) cls[e]=c; }
  return (int)((t->size+7)/8); }
void sysv_begin(struct sysv*s,const struct T*ret){ int c[2]; s->ngpr=s->nsse=0; s->stk=0; s->retmem=0; if(ret->kind!=K_VOID&&!sysv_class(ret,c)){ s->retmem=1; s->ngpr=1; } }
void sysv_arg(struct sysv*s,int i,const struct T*t){
  int c[2]; int n=sysv_class(t,c); struct place*p=&s->a[i]; p->np=0; p->instk=0;
  if(n&&c[0]!=C_X87){ int ni=0,ns=0; for(int k=0;k<n;k++) if(c[k]==C_SSE) ns++; else ni++;
    if(s->ngpr+ni<=6&&s->nsse+ns<=8){ for(int k=0;k<n;k++){ struct piece*q=&p->p[p->np++]; q->where=c[k]==C_SSE?P_SSE:P_GPR; q->reg=(u8)(c[k]==C_SSE?s->nsse++:s->ngpr++); q->toff=(u16)(8*k); u32 left=t->size-8*(u32)k; q->bytes=(u8)(left<8?left:8); } return; } }
  u32 al=t->align<8?8:t->align; s->stk=(s->stk+al-1)/al*al; p->instk=1; p->stkoff=s->stk; s->stk+=(t->size+7)/8*8; }
static const u8* gpr_at(const struct vp_frame*f,int i){ switch(i){ case 0:return (const u8*)&f->rdi; case 1:return (const u8*)&f->rsi; case 2:return (const u8*)&f->rdx; case 3:return (const u8*)&f->rcx; case 4:return (const u8*)&f->r8; default:return (const u8*)&f->r9; } }
static u64 rd(const u8*p,int n){ u64 v=0; switch(n){ case 1: return *p; case 2: { u16 x; __builtin_memcpy(&x,p,2); return x; } case 4: { u32 x; __builtin_memcpy(&x,p,4); return x; } default: __builtin_memcpy(&v,p,8); return v; } }
static int same(const u8*a,const u8*b,int n){ if(n==16){ u16 x,y; __builtin_memcpy(&x,a+8,2); __builtin_memcpy(&y,b+8,2); return (int)(rd(a,8)==rd(b,8))&(int)(x==y); } return rd(a,n)==rd(b,n); }
int atoms_equal(const struct T*t,const void*a,const void*b){ int ok=1; for(int i=0;i<t->n;i++){ u32 o=t->at[i].off; int sz=atom_size[t->at[i].atom]; ok&=same((const u8*)a+o,(const u8*)b+o,sz); } return ok; }
void sysv_check_args(const struct sysv*s,const struct vp_frame*f,int n,const struct T*const*t,void*const*val,const char*msg){
  int ok=1;
  for(int i=0;i<n;i++){ const struct place*p=&s->a[i]; const u8*v=val[i];
    if(p->instk){ const u8*at=(const u8*)f->rsp+8+p->stkoff; vp_assert(vp_accessible(at,t[i]->size,VP_R),msg); ok&=atoms_equal(t[i],at,v); continue; }
    for(int k=0;k<p->np;k++){ const struct piece*q=&p->p[k]; const u8*reg=q->where==P_SSE?f->xmm[q->reg]:gpr_at(f,q->reg);
      for(int j=0;j<t[i]->n;j++){ u32 o=t[i]->at[j].off; if(o/8!=(u32)q->toff/8) continue; ok&=same(reg+(o-q->toff),v+o,atom_size[t[i]->at[j].atom]); }
      if(t[i]->kind==K_SCALAR&&q->where==P_GPR){ int32_t w; switch(t[i]->at[0].atom){ case A_U8:w=*v;break; case A_S8:w=*(const int8_t*)v;break; case A_U16:w=*(const u16*)v;break; case A_S16:w=*(const int16_t*)v;break; default: continue; } ok&=(u32)rd(reg,4)==(u32)w; } } }
  vp_assert(ok,msg);
}
/* Caller side: place argument values as a compiled caller would; unused bytes hold arbitrary values. */
void sysv_load_args(const struct sysv*s,struct vp_regs*r,u64*stk,int n,const struct T*const*t,void*const*val){
  for(int i=0;i<n;i++){ const struct place*p=&s->a[i]; const u8*v=val[i];
    if(p->instk){ for(int j=0;j<t[i]->n;j++){ u32 o=t[i]->at[j].off; int sz=t[i]->at[j].atom==A_LD?10:atom_size[t[i]->at[j].atom]; __builtin_memcpy((u8*)stk+p->stkoff+o,v+o,sz); } continue; }
    for(int k=0;k<p->np;k++){ const struct piece*q=&p->p[k]; u8*reg=q->where==P_SSE?r->xmm[q->reg]:(u8*)gpr_at((const struct vp_frame*)r,q->reg);
      for(int j=0;j<t[i]->n;j++){ u32 o=t[i]->at[j].off; if(o/8!=(u32)q->toff/8) continue; __builtin_memcpy(reg+(o-q->toff),v+o,atom_size[t[i]->at[j].atom]); }
      if(t[i]->kind==K_SCALAR&&q->where==P_GPR){ int32_t w; switch(t[i]->at[0].atom){ case A_U8:w=*v;break; case A_S8:w=*(const int8_t*)v;break; case A_U16:w=*(const u16*)v;break; case A_S16:w=*(const int16_t*)v;break; default: continue; } __builtin_memcpy(reg,&w,4); } } } }
static int xreg(const struct T*t,int cls[2],const u8*r[2],const void*rax,const void*rdx,const void*xmm0,const void*xmm1){ int n=sysv_class(t,cls),g=0,x=0; for(int k=0;k<n&&k<2;k++) r[k]=cls[k]==C_SSE?(x++?xmm1:xmm0):(g++?rdx:rax); return n; }
/* is the value in buf the one held in the System V result registers */
int sysv_ret_equal(const struct T*t,const void*buf,const void*rax,const void*rdx,const void*xmm0,const void*xmm1,const void*st0,const void*st1){
  int cls[2]; const u8*r[2]={0,0}; xreg(t,cls,r,rax,rdx,xmm0,xmm1); int ok=1;
  if(cls[0]==C_X87){ for(int i=0;i<t->n;i++) ok&=same((const u8*)buf+t->at[i].off,i?st1:st0,16); return ok; }
  for(int i=0;i<t->n;i++){ u32 o=t->at[i].off; ok&=same((const u8*)buf+o,r[o/8]+o%8,atom_size[t->at[i].atom]); } return ok; }
int win_byref(const struct T*t){ return t->size!=1&&t->size!=2&&t->size!=4&&t->size!=8; }
int win_retmem(const struct T*t){ return t->kind!=K_VOID&&win_byref(t); }
