/* Independent reference model of the System V AMD64 and Microsoft x64 calling conventions, over
   types built from atoms.  It shares no code with libffi; it is validated natively against
   gcc-compiled functions (see validate.py). */
#ifndef ABI_H
#define ABI_H
#include "vp.h"
#include <ffi.h>
enum { A_U8,A_S8,A_U16,A_S16,A_U32,A_S32,A_U64,A_S64,A_PTR,A_F32,A_F64,A_LD, NATOM };
enum { K_VOID,K_SCALAR,K_STRUCT,K_COMPLEX };
#define MAXAT 48
struct T { ffi_type*ft; int kind; u32 size,align; int n; struct { u32 off; u8 atom; } at[MAXAT]; };
extern const u8 atom_size[NATOM], atom_align[NATOM];
/* descriptor letters: a u8 b s8 c u16 d s16 e u32 f s32 g u64 h s64 p ptr x float y double l long double
   X/Y/L complex of these, I complex int32, J complex int64, { } struct, v void */
void t_build(struct T*t,const char*desc);
void t_scalar(struct T*t,int atom);
/* a structure of 64-bit words much larger than any descriptor: 0: 4104, 1: 32776, 2: 65544 bytes.  at[] lists the words that are compared. */
void t_big(struct T*t,int which);
void t_reset(void); extern void*t_pool; extern u64 t_pool_size;
ffi_type*atom_ffi(int atom);
/* SysV */
enum { P_GPR,P_SSE,P_STK };
struct piece { u8 where; u8 reg; u8 bytes; u16 toff; u32 stk; };
struct place { int np; struct piece p[2]; u32 stkoff; int instk; };
struct sysv { int retmem; int ngpr,nsse; u32 stk; struct place a[264]; };
enum { C_NONE,C_INT,C_SSE,C_MEM,C_X87 };
int sysv_class(const struct T*t,int cls[2]);           /* eightbytes, 0: memory, (X87: 1 or 2 with C_X87) */
void sysv_begin(struct sysv*s,const struct T*ret); void sysv_arg(struct sysv*s,int i,const struct T*t);
void sysv_check_args(const struct sysv*s,const struct vp_frame*f,int n,const struct T*const*t,void*const*val,const char*msg);
void sysv_load_args(const struct sysv*s,struct vp_regs*r,u64*stk,int n,const struct T*const*t,void*const*val);
int sysv_ret_equal(const struct T*t,const void*buf,const void*rax,const void*rdx,const void*xmm0,const void*xmm1,const void*st0,const void*st1);
int atoms_equal(const struct T*t,const void*a,const void*b);
int win_byref(const struct T*t); int win_retmem(const struct T*t);
extern const char*const comp_types[]; extern const int ncomp;
#endif
