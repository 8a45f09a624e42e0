#define _GNU_SOURCE
#include "os.h"
#include <stdarg.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <mntent.h>
#include <sys/mman.h>
#include <sys/statfs.h>
#include <unistd.h>
#include <pthread.h>
#include <string.h>
void*vp_os_malloc(size_t n); void*vp_os_realloc(void*p,size_t n); long vp_os_strtol(const char*,char**,int);
#define OS(x) vp_os_##x   /* the executor resolves the library's undefined x to vp_os_x; objcopy does natively */
struct os_cfg os={.tramp=1,.libopen=1,.libmap=1,.page=4096}; int os_errno_[4]; int (*os_policy)(int,const char*,u64); const char*(*os_env)(const char*);
struct os_mnt os_mtab[8],os_mounts[8]; int os_nmtab=0,os_nmounts=0; u64 os_nmalloc; int os_strict_unmap=1;
extern char trampoline_code_table[];
#define LIBOFF 0x3000ull
#define LIBSPAN 0x4000ull
static const char libpath[]="/usr/lib/libffi.so.8";
#define PG 4096ull
#define CAPMAX 0x800000ull
u64 os_cap=0x10000;
/* configuration values may be symbolic: each is fixed when the library first depends on it */
#define CF(f) (os.f=(typeof(os.f))vp_conc((u64)os.f))
static int fail(u32 which,const char*name){ if(os.maybe&which){ os.maybe&=~which; if(vp_conc(vp_range("always fails",0,1))) os.always|=which; } if(os.always&which){ os.touched=1; return 1; } if(!(os.fmask&which)||os.faults<=0) return 0; if(vp_conc(vp_range(name,0,1))){ os.faults--; os.touched=1; return 1; } return 0; }
static int seq(const char*a,const char*b){ while(*a&&*a==*b){ a++; b++; } return *a==*b; }
static u64 slen(const char*a){ u64 n=0; while(a[n]) n++; return n; }
/* ---- descriptors and files */
enum { K_FREE,K_LIB,K_TMP,K_OTHER };
struct os_file { u64 size; u8*data; int named; int used; u16 wr[CAPMAX/PG]; /* bytes of each page that have storage */ };
struct fd { int kind; int file; u64 pos; int cloexec; };
static struct os_file files[48]; static struct fd fds[8]; static int nfiles;
#define CAP os_cap
static void written(struct os_file*f,u64 p,u64 n){ u64 e=p+n; while(p<e){ u64 pg=p/PG,o=p%PG,k=PG-o<e-p?PG-o:e-p; if(o<=f->wr[pg]&&o+k>f->wr[pg]) f->wr[pg]=(u16)(o+k); p+=k; } }
static int backed(struct os_file*f,u64 p,u64 n){ for(u64 g=p/PG;g<(p+n+PG-1)/PG;g++) if(f->wr[g]!=PG) return 0; return 1; }
static int newfd(int kind,int cloexec){ for(int i=0;i<8;i++) if(fds[i].kind==K_FREE){ fds[i].kind=kind; fds[i].pos=0; fds[i].cloexec=cloexec; if(kind==K_TMP){ vp_assert(nfiles<48,"bound: too many temporary files"); struct os_file*f=&files[nfiles]; fds[i].file=nfiles++; f->size=0; f->data=vp_mapshared(CAP); f->named=0; f->used=1; } return i+3; } os_errno=EMFILE; return -1; }
static struct fd*fdp(int fd){ if(fd<3||fd>=11||fds[fd-3].kind==K_FREE) return 0; return &fds[fd-3]; }
int os_fd_cloexec(int fd){ struct fd*f=fdp(fd); return f?f->cloexec:-1; }
int os_live_fds(void){ int n=0; for(int i=0;i<8;i++) n+=fds[i].kind!=K_FREE; return n; }
int os_live_files(void){ int n=0; for(int i=0;i<nfiles;i++) n+=files[i].named; return n; }
/* ---- mappings */
struct map { u64 a,len; int prot,flags; int file; u64 off; }; static struct map maps[40]; static int nmaps;
static int lastnamed=-1;
int os_live_maps(void){ return nmaps; }
u64 os_live_bytes(void){ u64 n=0; for(int i=0;i<nmaps;i++) n+=maps[i].len; return n; }
int os_prot(const void*p,u64 n){ u64 a=(u64)p,e=a+n; int prot=-1; while(a<e){ int i; for(i=0;i<nmaps;i++) if(a>=maps[i].a&&a<maps[i].a+maps[i].len) break; if(i==nmaps) return -1; if(prot>=0&&prot!=maps[i].prot) return -2; prot=maps[i].prot; a=maps[i].a+maps[i].len; } return prot; }
u64 os_view_key(const void*p){ u64 a=(u64)p; for(int i=0;i<nmaps;i++) if(a>=maps[i].a&&a<maps[i].a+maps[i].len) return maps[i].file<0?a:(((u64)maps[i].file+1)<<56)|(maps[i].off+(a-maps[i].a)); return 0; }
/* every page of a temporary file mapped shared: as often executable as writable */
int os_pairs_ok(void){ for(int f=0;f<nfiles;f++) for(u64 g=0;g<files[f].size;g+=PG){ int w=0,x=0; for(int i=0;i<nmaps;i++) if(maps[i].file==f&&maps[i].off<=g&&g<maps[i].off+maps[i].len){ w+=(maps[i].prot&PROT_WRITE)!=0; x+=(maps[i].prot&PROT_EXEC)!=0; } if(w!=x||w>1) return 0; } return 1; }
int os_exec_bytes(void){ u64 n=0; for(int i=0;i<nmaps;i++) if(maps[i].prot&PROT_EXEC) n+=maps[i].len; return (int)n; }
static void addmap(u64 a,u64 len,int prot,int flags,int file,u64 off){ vp_assert(nmaps<40,"bound: too many mappings"); struct map*m=&maps[nmaps++]; m->a=a; m->len=len; m->prot=prot; m->flags=flags; m->file=file; m->off=off; }
/* remove [a,a+len) from the table; returns the number of bytes that were mapped */
static u64 carve(u64 a,u64 len){ u64 got=0,e=a+len; for(int i=0;i<nmaps;){ struct map m=maps[i]; u64 me=m.a+m.len; if(me<=a||m.a>=e){ i++; continue; } u64 lo=m.a<a?a:m.a, hi=me>e?e:me; got+=hi-lo; maps[i]=maps[--nmaps]; if(m.a<lo) addmap(m.a,lo-m.a,m.prot,m.flags,m.file,m.off); if(me>hi) addmap(hi,me-hi,m.prot,m.flags,m.file,m.off+(hi-m.a)); } return got; }
static int vperm(int prot){ return ((prot&PROT_READ)?1:0)|((prot&PROT_WRITE)?2:0); }
void os_sync(void){}
static void fill(void*d,const void*s,u64 n){
#ifndef NATIVE
  vp_copyraw(d,s,n);
#else
  memcpy(d,s,n);
#endif
}
/* allow_wx 2: only when static trampolines are out of use and no policy of the system forbids it */
int ffi_tramp_is_supported(void);
static void wxcheck(void){ if(os.allow_wx==1) return; vp_assert(os.allow_wx==2,"C19: memory is mapped writable and executable at once"); vp_assert(os.touched||!(CF(selinux)||(CF(pax)&1)),"C19: memory is mapped writable and executable at once although the system's policy forbids it"); vp_assert(!ffi_tramp_is_supported(),"C19: memory is mapped writable and executable at once while static trampolines are in use"); }
static u8*pool[2],*poolp[2],*poolq[2];
#define POOL 0x2000000ull
static u8*place(u64 len,int prot){ int x=(prot&PROT_EXEC)?1:0; int how=x?os.place_x:os.place_w; if(!how) return vp_mapraw(len,3); if(!pool[x]){ pool[x]=vp_mapraw(POOL,0); poolp[x]=poolq[x]=pool[x]+POOL/2; }
  u8*p; if(how==1){ poolp[x]-=len; p=poolp[x]; } else { p=poolq[x]; poolq[x]+=len; } vp_assert(p>=pool[x]&&p+len<=pool[x]+POOL,"bound: address pool"); vp_setperm(p,len,3); return p; }
void*OS(mmap)(void*addr,size_t len,int prot,int flags,int fd,off_t off){
  vp_assert(len>0&&(flags&(MAP_PRIVATE|MAP_SHARED)),"mmap called with invalid arguments");
  if(os.maxlen&&len>os.maxlen){ os_errno=ENOMEM; return MAP_FAILED; }
  len=(len+PG-1)&~(PG-1);
  if((prot&PROT_WRITE)&&(prot&PROT_EXEC)){ wxcheck(); if(CF(deny_rwx)){ os_errno=CF(deny_rwx)==1?EACCES:EPERM; return MAP_FAILED; } }
  if(fail(F_MMAP,"mmap fails")){ if(os.always&F_MMAP){ os_errno=ENOMEM; return MAP_FAILED; } u64 k=vp_conc(vp_range("errno",0,2)); os_errno=k==0?ENOMEM:k==1?EACCES:EPERM; return MAP_FAILED; }
  struct fd*f=0; if(!(flags&MAP_ANONYMOUS)){ f=fdp(fd); if(!f){ os_errno=EBADF; return MAP_FAILED; } vp_assert(off>=0&&(off&(off_t)(PG-1))==0,"file mapping at an unaligned offset");
    if((f->kind==K_OTHER||f->kind==K_LIB)&&(!CF(libmap)||((prot&PROT_WRITE)&&(flags&MAP_SHARED)))){ os_errno=EACCES; return MAP_FAILED; }
    if(f->kind==K_TMP&&(prot&PROT_EXEC)){ int p=os_policy?os_policy(EV_MMAPEXEC,0,(u64)fd):-1; if(p<0) p=!CF(exec_noexec); if(!p){ os_errno=EPERM; return MAP_FAILED; } }
    if(f->kind==K_TMP) vp_assert((u64)off+len<=files[f->file].size,"C14,C18,C24: a mapping extends beyond the end of its file");
    if(f->kind==K_TMP) vp_assert((u64)off+len>CAP||backed(&files[f->file],(u64)off,len),"C14,C18,C24: a mapping covers file space that was never allocated");
    if(f->kind==K_TMP&&(u64)off+len>CAP){ os_errno=ENOMEM; return MAP_FAILED; } }
  u8*p;
  if(flags&MAP_FIXED){ p=addr; vp_assert(((u64)p&(PG-1))==0,"MAP_FIXED at an unaligned address"); u64 got=carve((u64)p,len); vp_assert(got==len,"MAP_FIXED replaces memory that is not the library's own mapping"); vp_setperm(p,len,3); }
  else p=place(len,prot);
  if(!f){ if(flags&MAP_FIXED){ u8*z=vp_mapraw(len,3); fill(p,z,len); } addmap((u64)p,len,prot,flags,-1,0); }
  else if(f->kind==K_LIB){ u64 start=(u64)trampoline_code_table&~(PG-1); long d=(long)off-(long)LIBOFF; if(d>=0&&(u64)d+len<=LIBSPAN) fill(p,(void*)(start+(u64)d),len); addmap((u64)p,len,prot,flags,-2,(u64)off); }
  else if(f->kind==K_OTHER){ for(u64 i=0;i<len;i++) p[i]=0xcc; addmap((u64)p,len,prot,flags,-3,(u64)off); }
  else { if(flags&MAP_SHARED) vp_alias(p,len,files[f->file].data+off); else fill(p,files[f->file].data+off,len); addmap((u64)p,len,prot,flags,(flags&MAP_SHARED)?f->file:-1,(u64)off); }
  vp_setperm(p,len,vperm(prot)); return p; }
void*OS(mmap64)(void*addr,size_t len,int prot,int flags,int fd,off_t off){ return OS(mmap)(addr,len,prot,flags,fd,off); }
int OS(munmap)(void*p,size_t len){
  if(((u64)p&(PG-1))||!len){ vp_fail("munmap of an unaligned address or empty range"); os_errno=EINVAL; return -1; }
  if(fail(F_MUNMAP,"munmap fails")){ os_errno=ENOMEM; return -1; }
  len=(len+PG-1)&~(PG-1); u64 got=carve((u64)p,len); vp_assert(!os_strict_unmap||got==len,"memory is unmapped that the library did not map, or twice");
  vp_unmapraw(p,len); return 0; }
int OS(mprotect)(void*p,size_t len,int prot){ len=(len+PG-1)&~(PG-1); if((prot&PROT_WRITE)&&(prot&PROT_EXEC)) wxcheck(); if(((u64)p&(PG-1))){ os_errno=EINVAL; return -1; } u64 a=(u64)p,e=a+len; int i;
  for(i=0;i<nmaps;i++) if(a>=maps[i].a&&e<=maps[i].a+maps[i].len) break; if(i==nmaps){ os_errno=ENOMEM; return -1; } struct map m=maps[i]; carve(a,len); addmap(a,len,prot,m.flags,m.file,m.off+(a-m.a)); vp_setperm(p,len,vperm(prot)); return 0; }
void*OS(mremap)(void*p,size_t a,size_t b,int f,...){ (void)p;(void)a;(void)b;(void)f; os_errno=ENOMEM; return MAP_FAILED; }
/* ---- descriptors */
static int open_(const char*path,int flags){
  if(fail(F_OPEN,"open fails")){ if(os.always&F_OPEN){ os_errno=EACCES; return -1; } os_errno=vp_conc(vp_range("errno",0,1))?ENOENT:EMFILE; return -1; }
  int clo=(flags&O_CLOEXEC)?1:0;
  if((flags&O_TMPFILE)==O_TMPFILE){ vp_assert((flags&O_ACCMODE)==O_RDWR,"temporary file not opened for reading and writing"); int p=os_policy?os_policy(EV_OPENTMP,path,(u64)flags):-1; if(p==0) return -1; if(p<0&&!seq(path,"/tmp")){ os_errno=ENOENT; return -1; } return newfd(K_TMP,clo); }
  if(os_policy){ int p=os_policy(EV_OPENFILE,path,(u64)flags); if(p==0){ os_errno=ENOENT; return -1; } }
  if(seq(path,libpath)&&CF(libopen)) return newfd(CF(libopen)==2?K_OTHER:K_LIB,clo);
  if(CF(tramp)>=10&&seq(path,"/opt/my")) return newfd(K_OTHER,clo);
  os_errno=ENOENT; return -1; }
int OS(open)(const char*path,int flags,...){ return open_(path,flags); }
int OS(open64)(const char*path,int flags,...){ return open_(path,flags); }
int OS(__open_2)(const char*path,int flags){ return open_(path,flags); }
int OS(__open64_2)(const char*path,int flags){ return open_(path,flags); }
int OS(memfd_create)(const char*name,unsigned flags){ if(fail(F_MEMFD,"memfd fails")){ os_errno=ENOSYS; return -1; } int p=os_policy?os_policy(EV_MEMFD,name,flags):-1; if(p==0){ os_errno=ENOSYS; return -1; } int fd=newfd(K_TMP,(flags&MFD_CLOEXEC)?1:0); return fd; }
static int mk(char*t,int clo){ u64 n=slen(t); vp_assert(n>=6,"mkstemp template too short"); for(u64 i=n-6;i<n;i++){ vp_assert(t[i]=='X',"mkstemp template does not end in XXXXXX"); }
  if(fail(F_MKSTEMP,"mkstemp fails")){ os_errno=EACCES; return -1; } int p=os_policy?os_policy(EV_MKSTEMP,t,0):-1; if(p==0||p<0){ os_errno=EACCES; return -1; } for(u64 i=n-6;i<n;i++) t[i]='a'; int fd=newfd(K_TMP,clo); if(fd>=0){ lastnamed=fds[fd-3].file; files[lastnamed].named=1; } return fd; }
int OS(mkstemp)(char*t){ return mk(t,0); } int OS(mkstemp64)(char*t){ return mk(t,0); } int OS(mkostemp)(char*t,int fl){ return mk(t,(fl&O_CLOEXEC)?1:0); } int OS(mkostemp64)(char*t,int fl){ return mk(t,(fl&O_CLOEXEC)?1:0); }
int OS(unlink)(const char*p){ u64 n=slen(p); if(os_policy) os_policy(EV_UNLINK,p,0); if(n>=6&&p[n-1]=='a'&&p[n-6]=='a'){ if(lastnamed>=0) files[lastnamed].named=0; return 0; } os_errno=ENOENT; return -1; }
int OS(fcntl)(int fd,int cmd,...){ struct fd*f=fdp(fd); if(!f){ os_errno=EBADF; return -1; } va_list ap; va_start(ap,cmd); int a=va_arg(ap,int); va_end(ap); if(cmd==F_SETFD){ f->cloexec=(a&FD_CLOEXEC)?1:0; return 0; } if(cmd==F_GETFD) return f->cloexec; os_errno=EINVAL; return -1; }
int OS(fcntl64)(int fd,int cmd,int a){ struct fd*f=fdp(fd); if(!f){ os_errno=EBADF; return -1; } if(cmd==F_SETFD){ f->cloexec=(a&FD_CLOEXEC)?1:0; return 0; } return f->cloexec; }
int OS(close)(int fd){ struct fd*f=fdp(fd); vp_assert(fd==-1||f!=0,"close of a descriptor that is not open"); if(!f){ os_errno=EBADF; return -1; } if(os_policy) os_policy(EV_CLOSE,0,(u64)fd); f->kind=K_FREE; return 0; }
ssize_t OS(write)(int fd,const void*b,size_t n){ struct fd*f=fdp(fd); if(!f||f->kind!=K_TMP){ os_errno=EBADF; return -1; } u64 take=n; if(fail(F_WRITE,"write fails")){ if(os.always&F_WRITE){ os_errno=ENOSPC; return -1; } u64 c=vp_conc(vp_range("written",0,2)); if(c==0){ os_errno=ENOSPC; return -1; } take=c==1?0:n-1; }
  if(f->pos+take>CAP){ os_errno=ENOSPC; return -1; } vp_assert(vp_accessible(b,take,VP_R),"write from unreadable memory"); fill(files[f->file].data+f->pos,b,take); written(&files[f->file],f->pos,take); f->pos+=take; if(f->pos>files[f->file].size) files[f->file].size=f->pos; return (ssize_t)take; }
static ssize_t rd(int fd,u8*b,size_t n,u64 o){ struct fd*f=fdp(fd); if(!f){ os_errno=EBADF; return -1; } if(fail(F_READ,"read fails")){ if(os.always&F_READ){ os_errno=EIO; return -1; } u64 c=vp_conc(vp_range("bytes read",0,2)); if(c==0){ os_errno=EIO; return -1; } n=c==1?0:n/2; }
  if(f->kind==K_LIB){ u64 st=(u64)trampoline_code_table&~(PG-1); if(o<LIBOFF||o>=LIBOFF+LIBSPAN){ for(size_t i=0;i<n;i++) b[i]=0x7f; return (ssize_t)n; } if(o+n>LIBOFF+LIBSPAN) n=LIBOFF+LIBSPAN-o; fill(b,(void*)(st+(o-LIBOFF)),n); return (ssize_t)n; }
  if(f->kind==K_OTHER){ for(size_t i=0;i<n;i++) b[i]=0xcc; return (ssize_t)n; }
  struct os_file*q=&files[f->file]; if(o>=q->size) return 0; if(o+n>q->size) n=q->size-o; fill(b,q->data+o,n); return (ssize_t)n; }
ssize_t OS(pread)(int fd,void*b,size_t n,off_t o){ return rd(fd,b,n,(u64)o); } ssize_t OS(pread64)(int fd,void*b,size_t n,off_t o){ return rd(fd,b,n,(u64)o); }
ssize_t OS(read)(int fd,void*b,size_t n){ struct fd*f=fdp(fd); ssize_t r=rd(fd,b,n,f?f->pos:0); if(f&&r>0) f->pos+=(u64)r; return r; }
ssize_t OS(pwrite)(int fd,const void*b,size_t n,off_t o){ struct fd*f=fdp(fd); if(!f) return -1; u64 p=f->pos; f->pos=(u64)o; ssize_t r=OS(write)(fd,b,n); f->pos=p; return r; }
off_t OS(lseek)(int fd,off_t o,int w){ struct fd*f=fdp(fd); if(!f){ os_errno=EBADF; return -1; } if(fail(F_LSEEK,"lseek fails")){ os_errno=EIO; return -1; } if(w==SEEK_SET) f->pos=(u64)o; else if(w==SEEK_CUR) f->pos+=(u64)o; else f->pos=files[f->file].size+(u64)o; return (off_t)f->pos; } off_t OS(lseek64)(int fd,off_t o,int w){ return OS(lseek)(fd,o,w); }
int OS(ftruncate)(int fd,off_t len){ struct fd*f=fdp(fd); if(!f||f->kind!=K_TMP){ os_errno=EBADF; return -1; } if(fail(F_FTRUNC,"ftruncate fails")){ os_errno=EIO; return -1; } for(int i=0;i<nmaps;i++) if(maps[i].file==f->file) vp_assert(maps[i].off+maps[i].len<=(u64)len,"C14,C18,C24: the file behind a live mapping is truncated"); struct os_file*q=&files[f->file]; for(u64 g=(u64)len/PG;g<CAP/PG;g++){ u64 o=g*PG<(u64)len?(u64)len-g*PG:0; if(q->wr[g]>o) q->wr[g]=(u16)o; } q->size=(u64)len; return 0; }
int OS(ftruncate64)(int fd,off_t len){ return OS(ftruncate)(fd,len); }
int OS(posix_fallocate)(int fd,off_t o,off_t len){ struct fd*f=fdp(fd); if(!f) return EBADF; if(fail(F_WRITE,"fallocate fails")) return ENOSPC; written(&files[f->file],(u64)o,(u64)len); if((u64)(o+len)>files[f->file].size) files[f->file].size=(u64)(o+len); return 0; }
int OS(access)(const char*p,int mode){ (void)mode; if(fail(F_ACCESS,"access fails")){ os_errno=EACCES; return -1; } int r=os_policy?os_policy(EV_ACCESS,p,(u64)mode):-1; if(r==0){ os_errno=EACCES; return -1; } return 0; }
int OS(statfs)(const char*p,struct statfs*s){ (void)p; if(CF(selinux)==2){ s->f_type=(typeof(s->f_type))0xf97cff8cU; return 0; } (void)s; os_errno=ENOENT; return -1; }
int OS(statfs64)(const char*p,struct statfs*s){ return OS(statfs)(p,s); }
long OS(sysconf)(int n){ return n==_SC_PAGESIZE?(long)CF(page):-1; } int OS(getpagesize)(void){ return (int)CF(page); }
int OS(getpid)(void){ return 4242; } long OS(time)(long*t){ if(t) *t=0; return 0; }
char*OS(getenv)(const char*n){ if(os_policy) os_policy(EV_GETENV,n,0); return os_env?(char*)os_env(n):0; } char*OS(secure_getenv)(const char*n){ return OS(getenv)(n); }
int*OS(__errno_location)(void){ return &os_errno; }
void OS(perror)(const char*s){ (void)s; }
/* ---- text files */
enum { T_MAPS=1,T_STATUS,T_MOUNTS,T_MTAB };
struct txt { int kind,line,eof,open; }; static struct txt txts[6]; static int ntxt;
static char lbuf[8400];
static char*hex(char*o,u64 v){ char t[20]; int n=0; do{ int d=(int)(v&15); t[n++]=(char)(d<10?'0'+d:'a'+d-10); v>>=4; }while(v); while(n) *o++=t[--n]; return o; }
static char*str(char*o,const char*s){ while(*s) *o++=*s++; return o; }
static char*vma(char*o,u64 a,u64 b,const char*perm,u64 off,const char*name){ o=hex(o,a); *o++='-'; o=hex(o,b); *o++=' '; o=str(o,perm); *o++=' '; o=hex(o,off); o=str(o," 08:01 1234"); if(*name){ o=str(o,"                   "); o=str(o,name); } *o++='\n'; *o=0; return o; }
/* memory map file contents: 1 normal; 0 missing; 2 empty; 3 library line has no file name; 4 not listed; 5 garbage lines first;
   6 very long name elsewhere; 10 a name with a space, whose first part is another file; 7 listed under a name that cannot be opened; 8 no final newline; 9 very long name of the library itself */
static int mapline(int n){ u64 st=(u64)trampoline_code_table&~(PG-1); char*o=lbuf; const char*lib=libpath; int k=CF(tramp);
  if(k==2) return 0;
  if(n==0){ if(k==5){ str(o,"xyz\n")[0]=0; } else if(k==6||k==9){ o=vma(o,k==9?st:0x1000,k==9?st+LIBSPAN:0x2000,"r-xp",LIBOFF,"/"); o--; u64 want=k==6?4000:4186; while((u64)(o-lbuf)<want) *o++='n'; *o++='\n'; *o=0; } else vma(o,0x400000,0x401000,"r--p",0,"/bin/app"); return 1; }
  if(n==1){ if(k==4) { vma(o,st+LIBSPAN,st+LIBSPAN+0x1000,"r--p",LIBOFF,lib); return 1; } if(k==5){ str(o,"\n")[0]=0; return 1; } vma(o,st,st+LIBSPAN,"r-xp",LIBOFF,k==3?"":k==7?"/gone (deleted)":k==10?"/opt/my app/libffi.so":lib); if(k==8){ lbuf[slen(lbuf)-1]=0; } return 1; }
  if(n==2){ if(k==5){ vma(o,st,st+LIBSPAN,"r-xp",LIBOFF,lib); return 1; } vma(o,0x7ffff000ull,0x80000000ull,"rw-p",0,"[stack]"); return k!=8; }
  return 0; }
static int nextline(struct txt*t){ if(t->kind==T_MAPS){ if(!mapline(t->line)) return 0; t->line++; return 1; }
  if(t->kind==T_STATUS){ if(t->line==0) str(lbuf,"Name:\tapp\n")[0]=0; else if(t->line==1&&CF(pax)) str(lbuf,CF(pax)==2?"PaX:\tPEMRs\n":"PaX:\tPeMRs\n")[0]=0; else return 0; t->line++; return 1; }
  if(t->kind==T_MOUNTS){ if(t->line==0) str(lbuf,"rootfs / rootfs rw 0 0\n")[0]=0; else if(t->line==1&&CF(selinux)==1) str(lbuf,"none /sys/fs/selinux selinuxfs rw 0 0\n")[0]=0; else return 0; t->line++; return 1; }
  return 0; }
static int opentxt(int kind){ vp_assert(ntxt<6,"bound: too many text files opened"); txts[ntxt].kind=kind; txts[ntxt].open=1; txts[ntxt].line=0; txts[ntxt].eof=0; return ntxt++; }
int os_live_txt(void){ int n=0; for(int i=0;i<ntxt;i++) n+=txts[i].open; return n; }
FILE*OS(fopen)(const char*p,const char*m){ (void)m; if(fail(F_FOPEN,"fopen fails")){ os_errno=EMFILE; return 0; } int k=0; if(seq(p,"/proc/4242/maps")||seq(p,"/proc/self/maps")) k=CF(tramp)?T_MAPS:0; else if(seq(p,"/proc/self/status")) k=T_STATUS; else if(seq(p,"/proc/mounts")) k=T_MOUNTS; if(!k){ os_errno=ENOENT; return 0; } if(ntxt==6){ for(int i=0;i<6;i++) if(!txts[i].open){ txts[i].kind=k; txts[i].open=1; txts[i].line=0; txts[i].eof=0; return (FILE*)&txts[i]; } } return (FILE*)&txts[opentxt(k)]; }
FILE*OS(fopen64)(const char*p,const char*m){ return OS(fopen)(p,m); }
static struct txt*tx(FILE*f){ struct txt*t=(struct txt*)f; vp_assert(t>=txts&&t<txts+6&&t->open,"use of a file that is not open"); return t; }
int OS(fclose)(FILE*f){ struct txt*t=tx(f); t->open=0; return 0; } int OS(feof)(FILE*f){ return tx(f)->eof; } int OS(ferror)(FILE*f){ (void)f; return 0; }
static char pend[8400]; static int npend,ppend; static struct txt*pendof;
char*OS(fgets)(char*b,int n,FILE*f){ struct txt*t=tx(f); if(fail(F_FGETS,"read fails")) return 0; if(pendof!=t||ppend>=npend){ if(!nextline(t)){ t->eof=1; return 0; } u64 l=slen(lbuf); for(u64 i=0;i<=l;i++) pend[i]=lbuf[i]; npend=(int)l; ppend=0; pendof=t; }
  vp_assert(n>1&&vp_accessible(b,(u64)n,VP_W),"fgets buffer"); int i=0; while(i<n-1&&ppend<npend){ b[i]=pend[ppend++]; if(b[i++]=='\n') break; } b[i]=0; if(i&&b[i-1]!='\n'&&ppend>=npend) t->eof=1; return b; }
void*OS(malloc)(size_t n); void OS(free)(void*p);
ssize_t OS(__getdelim)(char**lp,size_t*n,int d,FILE*f){ (void)d; struct txt*t=tx(f); if(fail(F_GETLINE,"getline fails")) return -1; if(!nextline(t)){ t->eof=1; return -1; } u64 l=slen(lbuf)+1; if(!*lp||*n<l){ OS(free)(*lp); *lp=OS(malloc)(l+64); if(!*lp){ *n=0; return -1; } *n=l+64; } for(u64 i=0;i<l;i++) (*lp)[i]=lbuf[i]; return (ssize_t)(l-1); }
ssize_t OS(getline)(char**lp,size_t*n,FILE*f){ return OS(__getdelim)(lp,n,'\n',f); } ssize_t OS(getdelim)(char**lp,size_t*n,int d,FILE*f){ return OS(__getdelim)(lp,n,d,f); }
/* ---- mount table */
static struct { struct os_mnt*m; int n,i,open; } mt[4]; static int nmt;
int os_live_mnt(void){ int n=0; for(int i=0;i<nmt;i++) n+=mt[i].open; return n; }
FILE*OS(setmntent)(const char*p,const char*m){ (void)m; if(os_policy) os_policy(EV_SETMNT,p,0); if(fail(F_SETMNT,"setmntent fails")) return 0; int a=seq(p,"/etc/mtab"); int n=a?os_nmtab:os_nmounts; if(n<0||(!a&&!seq(p,"/proc/mounts"))) return 0; int q; for(q=0;q<nmt;q++) if(!mt[q].open) break; vp_assert(q<4,"bound: too many open mount tables"); if(q==nmt) nmt++; mt[q].m=a?os_mtab:os_mounts; mt[q].n=n; mt[q].i=0; mt[q].open=1; return (FILE*)&mt[q]; }
struct mntent*OS(getmntent_r)(FILE*f,struct mntent*e,char*b,int n){ int k=0; for(k=0;k<nmt;k++) if((FILE*)&mt[k]==f) break; vp_assert(k<nmt&&mt[k].open,"use of a mount table that is not open"); if(mt[k].i>=mt[k].n) return 0; struct os_mnt*m=&mt[k].m[mt[k].i++]; u64 a=slen(m->dir)+1,o=slen(m->opts)+1; vp_assert((u64)n>=a+o+16,"mount entry buffer"); char*p=b; e->mnt_fsname=p; p=str(p,"dev"); *p++=0; e->mnt_type=p; p=str(p,"fs"); *p++=0; e->mnt_dir=p; p=str(p,m->dir); *p++=0; e->mnt_opts=p; p=str(p,m->opts); *p++=0; e->mnt_freq=0; e->mnt_passno=0; return e; }
int OS(endmntent)(FILE*f){ int k; for(k=0;k<nmt;k++) if((FILE*)&mt[k]==f) break; vp_assert(k<nmt&&mt[k].open,"a mount table is closed twice"); mt[k].open=0; return 1; }
char*OS(hasmntopt)(const struct mntent*e,const char*o){ u64 n=slen(o); char*p=e->mnt_opts; while(*p){ u64 i=0; while(i<n&&p[i]==o[i]) i++; if(i==n&&(p[n]==0||p[n]==','||p[n]=='=')) return p; while(*p&&*p!=',') p++; if(*p) p++; } return 0; }
/* ---- formatted text */
static int vsn(char*b,u64 n,const char*f,va_list ap){ u64 k=0;
#define PUT(c) do{ char cc=(c); if(k+1<n) b[k]=cc; k++; }while(0)
  for(;*f;f++){ if(*f!='%'){ PUT(*f); continue; } f++; int lng=0; while(*f=='l'||*f=='z'||*f=='h'){ lng++; f++; } if(*f=='s'){ const char*s=va_arg(ap,const char*); while(*s) PUT(*s++); } else if(*f=='d'||*f=='i'||*f=='u'||*f=='x'){ u64 v=lng?va_arg(ap,u64):(u64)(long)va_arg(ap,int); int base=*f=='x'?16:10; if(base==10&&*f!='u'&&(long)v<0){ PUT('-'); v=-v; } if(!lng&&(*f=='u'||*f=='x')) v&=0xffffffffu; char t[24]; int c=0; do{ int d=(int)(v%(u64)base); t[c++]=(char)(d<10?'0'+d:'a'+d-10); v/=(u64)base; }while(v); while(c) PUT(t[--c]); } else if(*f=='c') PUT((char)va_arg(ap,int)); else if(*f=='%') PUT('%'); else vp_fail("os stub: unsupported format"); }
  if(n) b[k<n?k:n-1]=0; return (int)k; }
int OS(snprintf)(char*b,size_t n,const char*f,...){ va_list ap; va_start(ap,f); int r=vsn(b,n,f,ap); va_end(ap); return r; }
int OS(sprintf)(char*b,const char*f,...){ va_list ap; va_start(ap,f); int r=vsn(b,1u<<30,f,ap); va_end(ap); return r; }
int OS(__snprintf_chk)(char*b,size_t n,int fl,size_t sl,const char*f,...){ (void)fl;(void)sl; va_list ap; va_start(ap,f); int r=vsn(b,n,f,ap); va_end(ap); return r; }
int OS(__sprintf_chk)(char*b,int fl,size_t sl,const char*f,...){ (void)fl; va_list ap; va_start(ap,f); int r=vsn(b,sl,f,ap); va_end(ap); return r; }
static int sp(int c){ return c==' '||c=='\t'||c=='\n'||c=='\r'||c=='\v'||c=='\f'; }
static int vss(const char*s,const char*f,va_list ap){ int got=0; const char*s0=s;
  while(*f){ if(sp(*f)){ while(sp(*f)) f++; while(sp(*s)) s++; continue; }
    if(*f!='%'){ if(*s!=*f) return *s?got:(got?got:-1); s++; f++; continue; }
    f++; int sup=0; if(*f=='*'){ sup=1; f++; } int w=0; while(*f>='0'&&*f<='9') w=w*10+*f++-'0'; if(!w) w=1<<30; int lng=0; while(*f=='l'||*f=='z'||*f=='j'||*f=='h'){ if(*f!='h') lng++; f++; }
    char c=*f++; if(c=='n'){ *va_arg(ap,int*)=(int)(s-s0); continue; } if(c!='['&&c!='c'){ while(sp(*s)) s++; } if(!*s) return got?got:-1;
    if(c=='x'||c=='d'||c=='u'||c=='i'||c=='p'){ int base=(c=='x'||c=='p')?16:10; int neg=0; u64 v=0; int any=0; if(*s=='-'||*s=='+'){ neg=*s=='-'; s++; w--; } if(base==16&&s[0]=='0'&&(s[1]=='x'||s[1]=='X')&&w>2){ s+=2; w-=2; any=1; } while(w>0){ int d=*s>='0'&&*s<='9'?*s-'0':*s>='a'&&*s<='f'?*s-'a'+10:*s>='A'&&*s<='F'?*s-'A'+10:99; if(d>=base) break; v=v*(u64)base+(u64)d; any=1; s++; w--; } if(!any) return got; if(neg) v=-v; if(!sup){ if(lng||c=='p') *va_arg(ap,u64*)=v; else *va_arg(ap,u32*)=(u32)v; got++; } }
    else if(c=='s'){ char*o=sup?0:va_arg(ap,char*); int any=0; while(*s&&!sp(*s)&&w-->0){ if(o) *o++=*s; s++; any=1; } if(!any) return got; if(o){ *o=0; got++; } }
    else if(c=='['){ int inv=0; if(*f=='^'){ inv=1; f++; } const char*set=f; const char*e=f; if(*e==']') e++; while(*e!=']') e++; char*o=sup?0:va_arg(ap,char*); int any=0; while(*s&&w-->0){ int in=0; for(const char*q=set;q<e;q++) if(*q==*s) in=1; if(in==inv) break; if(o) *o++=*s; s++; any=1; } if(!any) return got; if(o){ *o=0; got++; } f=e+1; }
    else if(c=='c'){ if(w==1<<30) w=1; char*o=sup?0:va_arg(ap,char*); while(w-->0&&*s){ if(o) *o++=*s; s++; } if(o) got++; }
    else if(c=='%'){ if(*s!='%') return got; s++; } else vp_fail("os stub: unsupported scan format"); }
  return got; }
int OS(sscanf)(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vss(s,f,ap); va_end(ap); return r; }
int OS(__isoc99_sscanf)(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vss(s,f,ap); va_end(ap); return r; }
int OS(__isoc23_sscanf)(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vss(s,f,ap); va_end(ap); return r; }
u64 OS(strtoul)(const char*s,char**e,int base){ u64 v=0; while(sp(*s)) s++; if((base==16||!base)&&s[0]=='0'&&(s[1]|32)=='x'){ s+=2; base=16; } if(!base) base=10; for(;;){ int d=*s>='0'&&*s<='9'?*s-'0':*s>='a'&&*s<='f'?*s-'a'+10:*s>='A'&&*s<='F'?*s-'A'+10:99; if(d>=base) break; v=v*(u64)base+(u64)d; s++; } if(e) *e=(char*)s; return v; }
u64 OS(strtoull)(const char*s,char**e,int b){ return OS(strtoul)(s,e,b); } u64 OS(__isoc23_strtoul)(const char*s,char**e,int b){ return OS(strtoul)(s,e,b); }
u64 OS(__isoc23_strtoull)(const char*s,char**e,int b){ return OS(strtoul)(s,e,b); }
long OS(strtol)(const char*s,char**e,int b){ const char*p=s; while(sp(*p)) p++; if(*p=='-') return -(long)OS(strtoul)(p+1,e,b); return (long)OS(strtoul)(p,e,b); }
long OS(strtoll)(const char*s,char**e,int b){ return OS(strtol)(s,e,b); } long OS(__isoc23_strtol)(const char*s,char**e,int b){ return OS(strtol)(s,e,b); } long OS(__isoc23_strtoll)(const char*s,char**e,int b){ return OS(strtol)(s,e,b); }
int OS(atoi)(const char*s){ return (int)OS(strtol)(s,0,10); } long OS(atol)(const char*s){ return OS(strtol)(s,0,10); }
/* ---- heap */
static void*blk[24]; static int nblk;
int os_live_blocks(void){ return nblk; }
void*OS(malloc)(size_t n){ if(fail(F_MALLOC,"malloc fails")){ os_errno=ENOMEM; return 0; } os_nmalloc++; vp_assert(nblk<24,"bound: too many heap blocks"); void*p=vp_alloc(n,16); blk[nblk++]=p; return p; }
void OS(free)(void*p){ if(!p) return; int i; for(i=0;i<nblk;i++) if(blk[i]==p) break; vp_assert(i<nblk,"free of memory that is not allocated"); blk[i]=blk[--nblk]; vp_free(p); }
char*OS(strdup)(const char*s){ u64 l=slen(s)+1; char*p=OS(malloc)(l); if(p) for(u64 i=0;i<l;i++) p[i]=s[i]; return p; } char*OS(strndup)(const char*s,size_t m){ u64 l=0; while(l<m&&s[l]) l++; char*p=OS(malloc)(l+1); if(p){ for(u64 i=0;i<l;i++) p[i]=s[i]; p[l]=0; } return p; } void*OS(reallocarray)(void*p,size_t a,size_t b){ return OS(realloc)(p,a*b); }
void*OS(calloc)(size_t a,size_t b){ u8*p=OS(malloc)(a*b); if(p) for(size_t i=0;i<a*b;i++) p[i]=0; return p; }
void*OS(realloc)(void*p,size_t n){ u8*q=OS(malloc)(n); if(!q) return 0; if(p){ u64 o=vp_objsize(p); fill(q,p,o<n?o:n); OS(free)(p); } return q; }
/* ---- locks */
static const void*mx[6]; static int mown[6]; /* 0: free, otherwise 1 + the thread that holds it */ static int nmx;
int os_locks_held(void){ int n=0; for(int i=0;i<nmx;i++) n+=mown[i]!=0; return n; }
static int mi(const void*m){ int i; for(i=0;i<nmx;i++) if(mx[i]==m) return i; vp_assert(nmx<6,"bound: too many locks"); mx[nmx]=m; mown[nmx]=0; return nmx++; }
/* threads run one at a time; a switch is possible before every lock, which loses no behaviour as long as there is no data race */
int os_cur,os_nthr,os_budget,os_switches; static int tdone[4],tblock[4]; static void (*tfun[4])(void);
static int can(int t){ return !tdone[t]&&(tblock[t]<0||!mown[tblock[t]]); }
extern u64 vp_cur; static void sw(int t){ u64 keep=vp_cur; vp_switch(t); vp_cur=keep; } /* the frame of vp_invoke belongs to the thread */
static void sched(int force){ int c[4],n=0; if(!force&&os_budget<=0) return; if(!force) c[n++]=os_cur; for(int t=1;t<=os_nthr;t++) if(t!=os_cur&&can(t)) c[n++]=t;
  if(force&&!n){ vp_assert(0,"C18,C21: deadlock"); return; } int k=n>1?(int)vp_conc(vp_range("run",0,(u64)(n-1))):0; if(c[k]==os_cur) return; if(!force) os_budget--; os_switches++; os_cur=c[k]; sw(c[k]); }
static void tmain(void*arg){ int t=(int)(u64)arg; vp_hb(1,"start"); tfun[t](); vp_hb(0,"end"); tdone[t]=1; for(int i=1;i<=os_nthr;i++) if(!tdone[i]){ sched(1); } os_cur=0; vp_switch(0); }
int os_first; void os_yield(void){ if(os_nthr) sched(0); } void os_run(int n,void(**f)(void),int budget){ os_nthr=n; os_budget=budget; os_switches=0; vp_threads(); for(int t=1;t<=n;t++){ tdone[t]=0; tblock[t]=-1; tfun[t]=f[t-1]; vp_thread(t,tmain,(void*)(u64)t); } vp_hb(0,"start"); os_cur=n>1&&!os_first?(int)vp_conc(vp_range("first",1,(u64)n)):1; vp_switch(os_cur); vp_hb(1,"end"); os_cur=0; os_nthr=0; vp_unthread(); }
int OS(pthread_mutex_init)(void*m,const void*a){ (void)a; int i=mi(m); vp_assert(!mown[i],"C21: a held lock is initialised"); return 0; } int OS(pthread_mutex_destroy)(void*m){ int i=mi(m); vp_assert(!mown[i],"C21: a held lock is destroyed"); return 0; }
int OS(pthread_mutex_lock)(void*m){ int i=mi(m); if(!os_nthr){ vp_assert(!mown[i],"C18,C21: deadlock: a lock is taken twice"); mown[i]=1; return 0; }
  sched(0); vp_assert(mown[i]!=os_cur+1,"C18,C21: deadlock: a lock is taken twice"); while(mown[i]){ tblock[os_cur]=i; sched(1); } tblock[os_cur]=-1; mown[i]=os_cur+1; vp_hb(1,m); return 0; }
int OS(pthread_mutex_trylock)(void*m){ int i=mi(m); if(os_nthr) sched(0); if(mown[i]) return EBUSY; mown[i]=os_cur+1; if(os_nthr) vp_hb(1,m); return 0; }
int OS(pthread_mutex_unlock)(void*m){ int i=mi(m); vp_assert(mown[i]==os_cur+1,"C21: a lock that is not held is released"); if(os_nthr) vp_hb(0,m); mown[i]=0; return 0; }
int OS(pthread_once)(int*o,void(*f)(void)){ static char key; int r=OS(pthread_mutex_lock)(&key); (void)r; if(!*o){ f(); *o=2; } OS(pthread_mutex_unlock)(&key); return 0; }
