/* Harness interface: implemented by the symbolic executor, and natively by native.c for replay. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
int vp_engine(void);
void vp_sym(void*p,u64 n,const char*name); void vp_havoc(void*p,u64 n);
u64 vp_u64(const char*name); u32 vp_u32(const char*name); u8 vp_u8(const char*name);
u64 vp_range(const char*name,u64 lo,u64 hi);
void vp_assume(int c); void vp_assert(int c,const char*msg); void vp_fail(const char*msg);
void vp_assert_eq(const void*a,const void*b,u64 n,const char*msg); int vp_memeq(const void*a,const void*b,u64 n);
void vp_cover(const char*name); void vp_note(const char*name,u64 v); void vp_end(void);
void*vp_alloc(u64 n,u64 align); u64 vp_objsize(void*p); void vp_free(void*p);
void vp_protect(const void*p,u64 n,int mode); void vp_share(const void*p,u64 n); int vp_accessible(const void*p,u64 n,int mode);
u64 vp_conc(u64 x); u64 vp_select(u64 c,u64 a,u64 b);
void*vp_mapraw(u64 len,int perm); void vp_unmapraw(void*p,u64 len); void vp_setperm(void*p,u64 n,int perm); void vp_copyraw(void*d,const void*s,u64 n);
void*vp_mapshared(u64 len); void vp_alias(void*view,u64 len,void*of); u64 vp_max(u64 x);
void vp_tracef(const char*m,u64 x);
#define VP_R 1
#define VP_W 2
#define VP_POISON 4
/* register frames of helpers.S */
struct vp_frame { u64 rdi,rsi,rdx,rcx,r8,r9,rax,r10,r11,rsp,rbx,rbp,r12,r13,r14,r15; u8 xmm[16][16];
  u64 orax,ordx,onx87,owin; u8 oxmm[2][16]; u8 ost[2][16]; u64 junk,prev; };
struct vp_regs { u64 rdi,rsi,rdx,rcx,r8,r9,rax,r10,r11,rsp,rbx,rbp,r12,r13,r14,r15; u8 xmm[16][16];
  u64 orax,ordx,onx87,owin; u8 oxmm[2][16]; u8 ost[2][16]; u64 sp0,prev; u64 save[7]; u64 acs[6]; u64 ardi,arsi; u64 pad; u8 axmm[10][16]; };
void vp_callee(void); void vp_invoke(void(*fn)(void),struct vp_regs*r,const u64*stk,u64 n);
extern void (*vp_on_call)(struct vp_frame*);
void*vp_exec_alloc(u64 n);
/* threads: contexts 1..3 besides the main one, switched explicitly; vp_hb orders accesses (acquire / release of a key) */
void vp_threads(void); void vp_unthread(void); void vp_thread(int t,void(*fn)(void*),void*arg); void vp_switch(int t); void vp_hb(int acquire,const void*key);
void vp_x87_depth_check(const char*msg);
#endif
