/* Operating system stand-in used instead of libc's system interface, both by the symbolic executor
   and (under other symbol names) natively during replay.  Nothing here touches the real system
   except anonymous memory. */
#ifndef OS_H
#define OS_H
#include "vp.h"
enum { F_MMAP=1,F_MUNMAP=2,F_OPEN=4,F_WRITE=8,F_FOPEN=16,F_MALLOC=32,F_FTRUNC=64,F_MEMFD=128,F_MKSTEMP=256,F_FGETS=512,F_GETLINE=1024,F_STATFS=2048,F_ACCESS=4096,F_SETMNT=8192,F_READ=16384,F_LSEEK=32768 };
struct os_cfg {
  int tramp;        /* memory map file: 1 lists the library, 0 does not exist, 2.. see os.c */
  int libopen;      /* the library file can be opened; 2: another file has taken its place */
  int libmap;       /* ... and mapped executable */
  u32 fmask; int faults;   /* calls that may fail, number of failures */
  int deny_rwx;     /* 1: mmap writable+executable fails with EACCES, 2: EPERM */
  int selinux,pax;  /* selinux mounted; PaX MPROTECT flagged in /proc/self/status */
  int exec_noexec;  /* executable mappings of temporary files fail */
  u64 page;         /* page size reported */
  int allow_wx;     /* writable+executable mappings are acceptable in this scenario */
  u64 maxlen; /* mappings beyond this length fail (0: no limit) */
  u32 always,maybe; int touched; /* calls that always fail, calls of which it is still undecided whether they always fail; some call has failed */
  int place_w,place_x;     /* new mappings: 0 apart, 1 directly below the previous one of their kind, 2 above */
};
extern struct os_cfg os;
enum { EV_MEMFD=1,EV_OPENTMP,EV_OPENFILE,EV_MKSTEMP,EV_UNLINK,EV_GETENV,EV_SETMNT,EV_ACCESS,EV_MMAPEXEC,EV_CLOSE,EV_FOPEN };
/* optional policy: return value >=0 decides success(1)/failure(0); -1: default */
extern int (*os_policy)(int ev,const char*path,u64 arg);
extern const char*(*os_env)(const char*name);
struct os_mnt { const char*dir,*opts; }; extern struct os_mnt os_mtab[],os_mounts[]; extern int os_nmtab,os_nmounts; /* -1: file missing */
extern int os_errno_[4];
#define os_errno os_errno_[os_cur]
void os_sync(void);                       /* make writes through shared views visible */
int os_prot(const void*p,u64 n);          /* protection of the mapping containing the range, -1 if none */
int os_fd_cloexec(int fd);
int os_live_txt(void); int os_live_mnt(void); int os_live_blocks(void); int os_live_fds(void); int os_live_maps(void); u64 os_live_bytes(void); int os_live_files(void);
int os_locks_held(void);
u64 os_view_key(const void*p);            /* identifies the memory behind an address: file and offset */
int os_same_mapping(const void*a,const void*b); int os_pairs_ok(void); int os_exec_bytes(void);
extern u64 os_nmalloc; extern int os_sscanf_n; extern int os_cur;
extern int os_cur,os_nthr,os_switches,os_first; void os_yield(void); void os_run(int n,void(**f)(void),int budget); /* n threads, at most this many preemptions */
extern int os_strict_unmap; extern u64 os_cap; /* capacity of a temporary file */
#endif
