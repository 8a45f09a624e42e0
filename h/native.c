/* Native replay of symbolic inputs: the same harness linked with the really built library code.
   usage: prog <inputs-file> [fill]   inputs: name=hex,name=hex,...  exit 0 ok, 1 violation, 3 assumption failed, 4 input mismatch */
#define _GNU_SOURCE
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
static char*in; static unsigned fill=0xA5; static int quiet;
static void bad(const char*m){ if(!quiet) printf("VP-VIOLATION %s\n",m); fflush(stdout); _exit(1); }
static void mism(const char*w){ printf("VP-MISMATCH %s\n",w); fflush(stdout); _exit(4); }
static int hx(int c){ return c<='9'?c-'0':c-'a'+10; }
static void get(const char*name,u8*out,u64 n){
  size_t l=strlen(name); if(!*in||*in=='\n') { if(fill>255) for(u64 i=0;i<n;i++) out[i]=(u8)(rand()>>7); else memset(out,(int)fill,n); return; }
  if(strncmp(in,name,l)||in[l]!='=') mism(name);
  in+=l+1; for(u64 i=0;i<n;i++){ if(!in[0]||in[0]==','||in[0]=='\n') mism(name); out[i]=(u8)(hx(in[0])*16+hx(in[1])); in+=2; }
  if(*in==',') in++; else if(*in!=0&&*in!='\n') mism(name); }
int vp_engine(void){ return 0; }
void vp_sym(void*p,u64 n,const char*name){ if(n) get(name,p,n); }
void vp_havoc(void*p,u64 n){ memset(p,(int)fill,n); }
u64 vp_u64(const char*name){ u64 v; get(name,(u8*)&v,8); return v; }
u32 vp_u32(const char*name){ u32 v; get(name,(u8*)&v,4); return v; }
u8 vp_u8(const char*name){ u8 v; get(name,&v,1); return v; }
u64 vp_range(const char*name,u64 lo,u64 hi){ u64 v=0; if(lo>hi) _exit(3); int noin=!*in||*in=='\n'; get(name,(u8*)&v,hi<256?1:hi<65536?2:hi<(1ull<<32)?4:8); if(noin) v=lo; if(v<lo||v>hi) mism(name); return v; }
void vp_assume(int c){ if(!c){ printf("VP-ASSUME\n"); fflush(stdout); _exit(3); } }
void vp_assert(int c,const char*m){ if(!c) bad(m); }
void vp_fail(const char*m){ bad(m); }
void vp_assert_eq(const void*a,const void*b,u64 n,const char*m){ if(memcmp(a,b,n)) bad(m); }
int vp_memeq(const void*a,const void*b,u64 n){ return !memcmp(a,b,n); }
void vp_cover(const char*n){ (void)n; } void vp_note(const char*n,u64 v){ printf("note %s=%llu\n",n,(unsigned long long)v); }
struct obj { u8*p; u64 n; u8*base; u64 len; int dead; }; static struct obj ob[4096]; static int nob;
static void checkobj(struct obj*o){ for(u8*q=o->base;q<o->base+o->len;q++) if((q<o->p||q>=o->p+o->n)&&*q!=0x5c){ bad("memory outside an object was written"); } }
void vp_end(void){ for(int i=0;i<nob;i++) if(!ob[i].dead&&ob[i].n) checkobj(&ob[i]); printf("VP-OK\n"); fflush(stdout); _exit(0); }
void*vp_alloc(u64 n,u64 al){ if(!al) al=1; u64 len=(n+al+4095)&~4095ull; if(!len) len=4096; u8*b=mmap(0,len+8192,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(b==MAP_FAILED) abort(); mprotect(b+4096,len,PROT_READ|PROT_WRITE); memset(b+4096,0x5c,len); u8*p=(u8*)((u64)(b+4096+len-n)&~(al-1)); memset(p,(int)fill,n); if(nob<4096){ ob[nob]=(struct obj){p,n,b+4096,len,0}; nob++; } return p; }
u64 vp_objsize(void*p){ for(int i=0;i<nob;i++) if(ob[i].p==p) return ob[i].n; return ~0ull; }
void vp_free(void*p){ for(int i=0;i<nob;i++) if(ob[i].p==p&&!ob[i].dead){ ob[i].dead=1; checkobj(&ob[i]); mprotect(ob[i].base,ob[i].len,PROT_NONE); return; } bad("invalid or double free"); }
void vp_protect(const void*p,u64 n,int mode){ (void)p;(void)n;(void)mode; }
void vp_share(const void*p,u64 n){ (void)p;(void)n; }
int vp_accessible(const void*p,u64 n,int mode){ (void)p;(void)n;(void)mode; return 1; }
u64 vp_conc(u64 x){ return x; } u64 vp_select(u64 c,u64 a,u64 b){ return c?a:b; }
void*vp_mapraw(u64 len,int perm){ len=(len+4095)&~4095ull; u8*b=mmap(0,len+0x10000,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(b==MAP_FAILED) abort(); (void)perm; mprotect(b+0x8000,len,PROT_READ|PROT_WRITE|PROT_EXEC); return b+0x8000; }
void vp_unmapraw(void*p,u64 n){ n=(n+4095)&~4095ull; if(n) mprotect(p,n,PROT_NONE); }
void vp_setperm(void*p,u64 n,int perm){ u64 a=(u64)p&~4095ull; u64 e=((u64)p+n+4095)&~4095ull; mprotect((void*)a,e-a,((perm&1)?PROT_READ|PROT_EXEC:0)|((perm&2)?PROT_WRITE:0)); }
void vp_copyraw(void*d,const void*s,u64 n){ memmove(d,s,n); }
static struct { u8*a; u64 n; int fd; } shm[16]; static int nshm;
void*vp_mapshared(u64 len){ int fd=memfd_create("vp",0); if(fd<0||ftruncate(fd,(off_t)len)) abort(); u8*p=mmap(0,len,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(p==MAP_FAILED||nshm==16) abort(); shm[nshm].a=p; shm[nshm].n=len; shm[nshm++].fd=fd; return p; }
void vp_alias(void*view,u64 len,void*of){ for(int i=0;i<nshm;i++) if((u8*)of>=shm[i].a&&(u8*)of<shm[i].a+shm[i].n){ if(mmap(view,len,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,shm[i].fd,(u8*)of-shm[i].a)==MAP_FAILED) abort(); return; } abort(); }
u64 vp_max(u64 x){ return x; }
#include <ucontext.h>
static ucontext_t ctx[4]; static int ctxcur; static void (*tfn[4])(void*); static void*targ[4]; static void tstart(int t){ tfn[t](targ[t]); abort(); }
void vp_threads(void){ ctxcur=0; } void vp_unthread(void){} void vp_hb(int a,const void*k){ (void)a;(void)k; }
void vp_thread(int t,void(*fn)(void*),void*arg){ getcontext(&ctx[t]); ctx[t].uc_stack.ss_sp=mmap(0,1<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); ctx[t].uc_stack.ss_size=1<<20; ctx[t].uc_link=0; tfn[t]=fn; targ[t]=arg; makecontext(&ctx[t],(void(*)(void))tstart,1,t); }
void vp_switch(int t){ int o=ctxcur; if(o==t) return; ctxcur=t; swapcontext(&ctx[o],&ctx[t]); }
void vp_tracef(const char*m,u64 x){ (void)m;(void)x; }
void*vp_exec_alloc(u64 n){ return vp_mapraw(n,7); }
static void onsig(int s,siginfo_t*si,void*c){ (void)c; char b[100]; int n=snprintf(b,sizeof b,"VP-VIOLATION crash: signal %d at %p\n",s,si->si_addr); (void)!write(1,b,n); _exit(1); }
static void __attribute__((noinline)) dirty(unsigned f){ volatile u8 b[200000]; for(unsigned i=0;i<sizeof b;i++) b[i]=(u8)f; }
void ENTRY(void);
int main(int c,char**v){
  static char empty[1]; in=empty; if(c>1){ FILE*f=fopen(v[1],"r"); if(!f) return 5; size_t cap=1<<20; in=calloc(1,cap); size_t k=fread(in,1,cap-1,f); in[k]=0; fclose(f); } if(c>2) fill=(unsigned)strtoul(v[2],0,0);
  setvbuf(stdout,0,_IOLBF,0);
  static u8 alt[65536]; stack_t ss={.ss_sp=alt,.ss_size=sizeof alt}; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT,SIGTRAP,SIGALRM}; for(unsigned i=0;i<sizeof sg/sizeof*sg;i++) sigaction(sg[i],&sa,0); alarm(20);
  dirty(fill); ENTRY(); vp_end(); return 0; }
