/* C15: the tables of static trampolines.  The library is built with tables of two to four trampolines
   (ffi_tramp_arch is wrapped: the same code pages, but only every n-th trampoline of a page is used). */
#include "mem.h"
void*vp_real_tramp_arch(size_t*size,size_t*map); static int per=3;
void*ffi_tramp_arch(size_t*size,size_t*map){ void*p=vp_real_tramp_arch(size,map); u64 real=*map / *size; u64 step=real/(u64)per; *size*=step; vp_assert(*map / *size>=(u64)per,"bound: table geometry"); return p; }
static int grp(void){ u64 pg[64]; int used=0; for(int i=0;i<nb;i++){ u64 g=(u64)b[i].code&~4095ull; int k; for(k=0;k<used;k++) if(pg[k]==g) break; if(k==used) pg[used++]=g; } return used; }
/* at most one completely free table is kept; what a number of tables costs never changes */
static int cm[32],cb[32]; static int most;
static void tbound(void){ int used=grp(),tables=os_exec_bytes()/4096; vp_assert(tables>=used,"C15: a table with a trampoline in use is unmapped"); vp_assert(tables<=used+1,"C15: more than one unused table is kept");
  vp_assert(tables<32,"bound: tables"); int m=os_live_maps(),k=os_live_blocks(); if(!cm[tables]){ cm[tables]=m; cb[tables]=k; } vp_assert(cm[tables]==m&&cb[tables]==k,"C15,C18: the resources of a released table are not returned");
  if(nb>most) most=nb; if(tables>1) vp_cover("several tables"); if(tables>used&&used) vp_cover("spare table"); }
static void talloc(void){ int ok=alloc(56); vp_assert(ok,"C14,C15: no trampoline is handed out"); prep(&b[nb-1]); inv(); tbound(); }
static void tfree(int i){ freei(i); inv(); tbound(); }
static void setup(void){ mkcifs(); os.allow_wx=0; per=(int)vp_conc(vp_range("table size",2,4)); if(vp_conc(vp_range("library file gone",0,1))) os.libopen=0; vp_assert(ffi_tramp_is_supported(),"C15: static trampolines are unavailable"); }
static void hist(int ops,int pre){ setup(); for(int i=0;i<pre;i++) talloc();
  for(int i=0;i<ops;i++){ int c=(int)vp_conc(vp_range("op",0,(u64)nb)); if(c==0) talloc(); else tfree(c-1); }
  use_all(); int k=nb; while(nb) tfree(nb-1); for(int i=0;i<=k;i++) talloc(); use_all(); }
void c15_init(void){ hist(FULL?10:8,0); }
void c15_full(void){ hist(FULL?6:4,(int)vp_conc(vp_range("before",4,FULL?9:7))); }
/* long histories: fill several tables, empty them in an arbitrary rotation, fill again */
void c15_drain(void){ setup(); int n=(int)vp_conc(vp_range("live",1,FULL?13:9)); for(int i=0;i<n;i++) talloc(); int start=(int)vp_conc(vp_range("start",0,(u64)(n-1))); int step=(int)vp_conc(vp_range("step",0,4)); int j=start; while(nb){ j%=nb; tfree(j); j+=step; } for(int i=0;i<n;i++) talloc(); use_all(); }
/* a system call fails while a table is set up: the allocation fails, everything else stays as it is, and the next one succeeds */
void c15_fault(void){ setup(); talloc(); tfree(0); int pre=(int)vp_conc(vp_range("before",0,FULL?8:5)); for(int i=0;i<pre;i++) talloc(); may_fail=1; os.fmask=F_MMAP|F_MALLOC; os.faults=FULL?2:1;
  for(int i=0;i<(FULL?5:4);i++){ int c=(int)vp_conc(vp_range("op",0,(u64)nb)); if(c){ tfree(c-1); continue; } int f=os.faults; u64 m=os_live_maps(),k=os_live_blocks(); if(alloc(56)) prep(&b[nb-1]); else { vp_assert(os.faults<f,"C15,C18: an allocation fails although no system call did"); vp_assert(os_live_maps()==(int)m,"C15,C18: a mapping is leaked"); vp_assert(os_live_blocks()==(int)k,"C15,C18: memory is leaked"); } inv(); tbound(); }
  if(!os.faults) vp_cover("fault"); os.fmask=0; may_fail=0; use_all(); int k=nb; while(nb) tfree(nb-1); for(int i=0;i<=k;i++) talloc(); use_all(); }
/* no further table can be had: every failing allocation gives back all it took, whatever its size */
void c15_refused(void){ static const u16 sz[]={56,3000,40000,60000}; setup(); talloc(); tfree(0); int pre=per*(int)vp_conc(vp_range("full tables",1,FULL?3:2)); for(int i=0;i<pre;i++) talloc(); int extra=(int)vp_conc(vp_range("released",0,1)); u64 n=sz[vp_conc(vp_range("size",0,3))];
  may_fail=1; if(vp_conc(vp_range("how",0,1))) os.always=F_MALLOC; else if(os.libopen) os.libmap=0; else os.exec_noexec=1;
  u64 by=0; int mp=0; for(int i=0;i<(FULL?40:25);i++){ int r=alloc(n); vp_assert(!r,"bound: a table is available"); inv(); if(i){ vp_assert(os_live_bytes()==by&&os_live_maps()==mp,"C18: every failing attempt uses up more of the system's resources"); } by=os_live_bytes(); mp=os_live_maps(); }
  if(extra){ freei(0); inv(); vp_assert(alloc(n)==1,"C15,C18: an allocation fails although a trampoline is free"); prep(&b[nb-1]); inv(); }
  use_all(); os.always=0; os.libmap=1; os.exec_noexec=0; may_fail=0; vp_assert(alloc(n)==1,"C18: allocation keeps failing"); prep(&b[nb-1]); inv(); use_all(); vp_cover("refused"); }
