/* The operating system refuses: configurations, failing calls, and the search for a place to map code from. */
#include "mem.h"
#include <errno.h>
static u64 sy(const char*n,u64 lo,u64 hi){ return vp_range(n,lo,hi); }   /* stays symbolic until the library depends on it */
static int granted,big;
/* what may be held at any time, whatever failed */
static void held(void){ inv(); int tr=ffi_tramp_is_supported(); int f=os_live_fds(); granted|=nb>0;
  vp_assert(f<=1,"C18,C20: a file descriptor is leaked"); for(int i=3;i<11;i++) vp_assert(os_fd_cloexec(i)!=0,"C20: a descriptor stays open across exec");
  vp_assert(os_live_files()==0,"C20: a temporary file keeps its name");
  int m=os_live_maps(),k=os_live_blocks(); if(!os_strict_unmap) return; if(tr){ int t=os_exec_bytes()/4096; vp_assert(m<=2*t+(big?4:1),"C18: a mapping is leaked"); vp_assert(k<=2*t,"C18: memory is leaked"); } else { vp_assert(k==0,"C18: memory is leaked"); if(!granted) vp_assert(m==0,"C18: a mapping is leaked"); } }
static int first_,cn[4]; 
/* an attempt; failing again and again does not use anything up */
static int failed,lastf; static u32 lasta; static int attempt(u64 n){ if(n>3000) big=1; int r=alloc(n); held(); int fresh=lastf!=os.faults||lasta!=os.always; lastf=os.faults; lasta=os.always; if(r){ prep(&b[nb-1]); failed=0; } else { int c[4]={os_live_fds(),os_live_maps(),os_live_blocks(),(int)(os_live_bytes()/4096)}; if(failed&&!fresh&&os_strict_unmap) for(int i=0;i<4;i++) vp_assert(c[i]<=cn[i],"C18,C20: every failing attempt uses up more of the system's resources"); for(int i=0;i<4;i++) cn[i]=c[i]; failed=1; } return r; }
static void gone(int i){ if(i>=0&&i<nb){ freei(i); held(); failed=0; } }
static void round_(void){ attempt(56); attempt(3900); held(); use_all(); gone(0); use_all(); attempt(56); attempt(200); use_all(); gone(1); gone(0); gone(0); attempt(56); attempt(5000); use_all(); vp_cover(nb?"usable":"refused"); gone(0); gone(0); attempt(56); use_all(); if(ffi_tramp_is_supported()) vp_cover("trampolines"); else { int w=0; for(int i=0;i<nb;i++) w|=os_prot(b[i].code,1)&2; if(nb) vp_cover(w?"one mapping":"two mappings"); } }
static void confsym(int few){ mkcifs(); may_fail=1; os.allow_wx=2; os.tramp=few?(int)sy("maps file",0,1):(int)sy("maps file",0,10); os.libopen=(int)sy("library file",0,few?1:2); os.libmap=few?1:(int)sy("library mappable",0,1); os.deny_rwx=(int)sy("deny",0,few?1:2); os.selinux=(int)sy("selinux",0,few?1:2); os.pax=(int)sy("pax",0,few?0:2); os.exec_noexec=(int)sy("noexec",0,1); if(vp_conc(vp_range("large pages",0,1))) os.page=8192; }
void c18_cfg(void){ confsym(0); round_(); }
#define ALLF (F_MMAP|F_OPEN|F_WRITE|F_FOPEN|F_MALLOC|F_FTRUNC|F_MEMFD|F_MKSTEMP|F_FGETS|F_GETLINE|F_STATFS|F_ACCESS|F_SETMNT|F_READ|F_LSEEK)
void c18_fault(void){ confsym(1); os.fmask=ALLF; os.faults=FULL?2:1; round_(); if(os.faults==0) vp_cover("fault"); }
void c18_two(void){ confsym(1); os.exec_noexec=0; os.page=4096; os.fmask=F_MMAP|F_WRITE|F_OPEN|F_FTRUNC|F_LSEEK|F_MALLOC; os.faults=2; round_(); if(os.faults==0) vp_cover("fault"); }
void c18_always(void){ confsym(1); os.maybe=ALLF; u64 n=vp_conc(vp_range("size",0,1))?40000:56; for(int i=0;i<4;i++) attempt(n); use_all(); vp_cover(nb?"usable":"refused"); while(nb) gone(0); attempt(56); gone(0); }
void c18_unmap(void){ confsym(1); os_strict_unmap=0; os_cap=0x780000; os.fmask=F_MUNMAP; os.faults=FULL?2:1; attempt(56); attempt(2600000); attempt(56); gone(1); attempt(56); attempt(2600000); use_all(); gone(nb-1); attempt(100000); use_all(); while(nb) gone(0); attempt(56); use_all(); if(os.faults==0) vp_cover("fault"); }

/* ---- C20: the search */
enum { MEMFD,ENV,DIRECT,MTAB,MOUNTS };
static struct cand { int kind; const char*name,*dir; int set; /* -1 undecided */ const char*opts; int access; } cd[16]; static int ncand,pos,owed,attempts,dev,phase,curfd_cand;
static int choose(const char*n,int k){ if(dev<=0) return 0; int c=(int)vp_conc(vp_range(n,0,(u64)(k-1))); if(c) dev--; return c; }
static int same(const char*a,const char*q){ while(*a&&*a==*q){ a++; q++; } return *a==*q; }
static int envset(struct cand*c){ if(c->set<0) c->set=!choose("unset",2); return c->set; }
static int mayuse(struct cand*c){ switch(c->kind){ case ENV: return envset(c); case MTAB: case MOUNTS: if(!c->set) return 0; return c->access!=0&&!same(c->opts,"ro")&&!same(c->opts,"noexec")&&!same(c->opts,"rw,noexec")&&!same(c->opts,"nosuid,ro")&&!same(c->opts,"ro,relatime"); default: return 1; } }
static void tables(int kind,struct os_mnt*m,int*n){ static const char*const o[]={"rw","ro","noexec","rw,noexec","rw,errors=remount-ro","nosuid,ro","ro,relatime"}; int k=choose("mount table",4); /* two, missing, empty, one */ int cnt=k==0?2:k==3?1:0; int i=0; *n=k==1?-1:cnt; for(int j=0;j<ncand;j++) if(cd[j].kind==kind){ if(cd[j].set>=0&&attempts) {} cd[j].set=i<cnt; if(i<cnt){ cd[j].opts=o[choose("options",7)]; m[i].dir=cd[j].dir; m[i].opts=cd[j].opts; cd[j].access=1; i++; } } }
static void tryc(int i){ attempts++; vp_assert(attempts<120,"C18,C20: the search does not end"); vp_assert(!owed,"C20: a directory is given up although it only lacks support for unnamed temporary files");
  if(i<pos&&phase==0&&os.page==4096){ phase=1; pos=0; } vp_assert(i>=pos,"C20: a location is tried out of order");
  for(int j=pos;j<i;j++) vp_assert(!mayuse(&cd[j]),"C20: a location is left out"); vp_assert(mayuse(&cd[i]),"C20: a read-only, noexec or unwritable mount is used"); pos=i+1; vp_assert(os_live_files()==0,"C20: a temporary file keeps its name"); vp_assert(os_live_fds()==0,"C18,C20: a descriptor of an unusable location stays open"); }
static int find(const char*d,u64 n){ for(int i=0;i<ncand;i++){ u64 k=0; while(k<n&&cd[i].dir[k]&&cd[i].dir[k]==d[k]) k++; if(k==n&&!cd[i].dir[k]) return i; } return -1; }
static int pol20(int ev,const char*p,u64 a){ switch(ev){
  case EV_MEMFD: tryc(0); return choose("memfd",2);
  case EV_OPENTMP: { u64 n=0; while(p[n]) n++; int i=find(p,n); vp_assert(i>0,"C20: a temporary file is created in a place that is not on the list"); tryc(i); int k=choose("open",6); if(k==1) return 1; if(k==2||k==3||k==4){ owed=i; os_errno=k==2?EINVAL:k==3?EISDIR:EOPNOTSUPP; } else os_errno=k?ENOSPC:EACCES; return 0; }
  case EV_MKSTEMP: { u64 n=0,l=0; while(p[n]){ if(p[n]=='/') l=n; n++; } int i=find(p,l); vp_assert(i>0,"C20: a temporary file is created in a place that is not on the list"); if(owed){ vp_assert(i==owed,"C20: a location is tried out of order"); owed=0; } else tryc(i); return (int)vp_conc(vp_range("mkstemp",0,1)); }
  case EV_SETMNT: { int mt=same(p,"/etc/mtab"); tables(mt?MTAB:MOUNTS,mt?os_mtab:os_mounts,mt?&os_nmtab:&os_nmounts); return -1; }
  case EV_ACCESS: { u64 n=0; while(p[n]) n++; int i=find(p,n); if(i>0&&(cd[i].kind==MTAB||cd[i].kind==MOUNTS)){ cd[i].access=!choose("no access",2); return cd[i].access; } return 1; }
  case EV_MMAPEXEC: return (int)vp_conc(vp_range("map",0,1));
  case EV_OPENFILE: return -1; default: return -1; } }
static const char*env20(const char*n){ for(int i=0;i<ncand;i++) if(cd[i].kind==ENV&&same(cd[i].name,n)) return envset(&cd[i])?cd[i].dir:0; return 0; }
static void add(int kind,const char*name,const char*dir){ struct cand*c=&cd[ncand++]; c->kind=kind; c->name=name; c->dir=dir; c->set=-1; c->access=1; }
static void search(int tramp,int d,int rounds){ mkcifs(); may_fail=1; os.allow_wx=0; os.deny_rwx=1; os.allow_wx=2; add(MEMFD,"","<memfd>"); add(ENV,"LIBFFI_TMPDIR","/l"); add(ENV,"TMPDIR","/t/t"); add(DIRECT,"","/tmp"); add(DIRECT,"","/var/tmp"); add(DIRECT,"","/dev/shm"); add(ENV,"HOME","/home/me"); add(MTAB,"","/m0"); add(MTAB,"","/m1"); add(MOUNTS,"","/n0"); add(MOUNTS,"","/n1");
  os_policy=pol20; os_env=env20; os_nmtab=os_nmounts=0; if(tramp) os.libopen=0; else os.page=8192; dev=d;
  for(int r=0;r<rounds;r++){ pos=0; owed=0; phase=tramp&&r==0?0:1; int ok=alloc(56); int tr=ffi_tramp_is_supported(); if(!ok){ if(!tr){ vp_assert(!owed,"C20: a directory is given up although it only lacks support for unnamed temporary files"); for(int j=pos;j<ncand;j++){ if(cd[j].kind>=MTAB&&cd[j].set<0) vp_assert(0,"C20: the mount table is not searched"); vp_assert(!mayuse(&cd[j]),"C20: a location is left out"); } } vp_assert(os_live_fds()==0||tr,"C18,C20: a descriptor of an unusable location stays open"); vp_cover("nothing found"); }
    held(); vp_assert(os_live_mnt()<=tr,"C18,C20: a mount table stays open"); if(ok){ prep(&b[0]); inv(); use_all(); vp_cover(tr?"trampolines":"found"); if(!tr&&pos>=ncand-1) vp_cover("found last"); break; } } }
void c20_one(void){ search(0,FULL?3:2,1); }
void c20_three(void){ search(0,FULL?2:1,3); }
void c20_tramp(void){ search(1,FULL?2:1,2); }
