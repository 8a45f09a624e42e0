#include "vp.h"
void (*vp_on_call)(struct vp_frame*);
void vp_hook(struct vp_frame*f){ vp_on_call(f); }
#ifndef NATIVE
void*vp_exec_alloc(u64 n){ return vp_mapraw(n,3); }
#endif
