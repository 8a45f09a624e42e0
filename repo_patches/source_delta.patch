From 5178b4c318a11594e9355fcc6cfdba4d6cc48cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 01/17] fix: ffi_call does not overwrite the caller's argument
 vector

On x86-64 ffi_call replaced avalue[i] of large structure arguments with
the address of a copy on its own stack, so a second call with the same
vector read a dead stack frame.  The SysV path copies arguments anyway;
the Win64 path now keeps the addresses of its copies to itself.
---
 src/x86/ffi64.c  | 18 ------------------
 src/x86/ffiw64.c |  9 +++++++--
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..e805998 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -685,24 +685,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..bd3607b 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -125,22 +125,27 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
+  void **avalue_copy;
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
   /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+     by value.  The caller's argument vector must stay as it is, so the
+     addresses of the copies go into a vector of our own.  */
+  avalue_copy = alloca (nargs * sizeof (void *));
   for (i = 0; i < nargs; i++)
     {
       ffi_type *at = arg_types[i];
       int size = at->size;
+      avalue_copy[i] = avalue[i];
       if (at->type == FFI_TYPE_STRUCT && size > 8)
         {
           char *argcopy = alloca (size);
           memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
+          avalue_copy[i] = argcopy;
         }
     }
+  avalue = avalue_copy;
 
   flags = cif->flags;
   rsize = 0;
-- 
2.43.0


From 7d66c3399db5c5ebbae918e6364c16f3cc780e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 02/17] fix: Win64 calls copy every argument passed by
 reference

Structures of 3, 5, 6 and 7 bytes, complex values and long double were
passed as a pointer to the caller's own data, which the callee is free
to modify.
---
 src/x86/ffiw64.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index bd3607b..942db6a 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -129,16 +129,17 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  The caller's argument vector must stay as it is, so the
-     addresses of the copies go into a vector of our own.  */
+  /* Arguments which do not fit a slot are passed by reference, and the callee
+     may modify them: make copies so we are passing by value.  The caller's
+     argument vector must stay as it is, so the addresses of the copies go
+     into a vector of our own.  */
   avalue_copy = alloca (nargs * sizeof (void *));
   for (i = 0; i < nargs; i++)
     {
       ffi_type *at = arg_types[i];
       int size = at->size;
       avalue_copy[i] = avalue[i];
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
+      if (size != 1 && size != 2 && size != 4 && size != 8)
         {
           char *argcopy = alloca (size);
           memcpy (argcopy, avalue[i], size);
-- 
2.43.0


From 9e9c3438deb420faaf4322ce06f132f08061ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 03/17] fix: structures holding one long double are returned in
 st(0)

The x86-64 return flags for a structure of class X87/X87UP fell through
to RAX:RDX, so such a structure was read from, and by closures stored to,
the wrong registers.
---
 src/x86/ffi64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index e805998..b159086 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -473,7 +473,9 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	{
 	  _Bool sse0 = SSE_CLASS_P (classes[0]);
 
-	  if (rtype_size == 4 && sse0)
+	  if (classes[0] == X86_64_X87_CLASS)
+	    flags = UNIX64_RET_X87;
+	  else if (rtype_size == 4 && sse0)
 	    flags = UNIX64_RET_XMM32;
 	  else if (rtype_size == 8)
 	    flags = sse0 ? UNIX64_RET_XMM64 : UNIX64_RET_INT64;
-- 
2.43.0


From f559e8dba449ca16c8c1675ff5cf1c151d5a9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 04/17] fix: a rejected aggregate type stays rejected

initialize_aggregate left the size of the elements before the bad one in
the type, so a second use of the same malformed type was accepted with a
truncated layout.
---
 src/prep_cif.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..b9e364e 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -54,7 +54,12 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
     {
       if (UNLIKELY(((*ptr)->size == 0)
 		    && (initialize_aggregate((*ptr), NULL) != FFI_OK)))
-	return FFI_BAD_TYPEDEF;
+	{
+	  /* Do not leave a partial size behind: a later use of this type
+	     would take it for a laid out one.  */
+	  arg->size = 0;
+	  return FFI_BAD_TYPEDEF;
+	}
 
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
-- 
2.43.0


From e08a4758b857cc92f82d42994b11e856f6c4624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 05/17] fix: raw closures get their closure object, not its
 code address

ffi_prep_raw_closure_loc and ffi_prep_java_raw_closure_loc handed the
translation function the executable address, which it then read as a
closure.  With static trampolines, or any executable mapping that is not
the data itself, the function pointer was read from machine code.
---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From 960491a4a4ab4b2111c18fc7d982209bb0d0382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 06/17] fix: ffi_raw_size counts a complex argument as the
 pointer it is

The raw form of a complex argument is a pointer, like that of a
structure; ffi_raw_size returned the size of the value.
---
 src/raw_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_api.c b/src/raw_api.c
index 43cf975..6b99589 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -46,6 +46,9 @@ ffi_raw_size (ffi_cif *cif)
 	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
       else
 #endif
+      if ((*at)->type == FFI_TYPE_COMPLEX)
+	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
+      else
 	result += FFI_ALIGN ((*at)->size, FFI_SIZEOF_ARG);
     }
 
-- 
2.43.0


From b397bee20cc7689662f97076461c5efab6ea99d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 07/17] fix: an ignored long double result is popped off the
 x87 stack

ffi_call with a NULL rvalue left the result of a function returning long
double (or complex long double) in the x87 registers; after eight such
calls x87 arithmetic in the caller yields NaN.
---
 src/x86/ffi64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index b159086..91be4b1 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -582,6 +582,10 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
     {
       if (flags & UNIX64_FLAG_RET_IN_MEM)
 	rvalue = alloca (cif->rtype->size);
+      else if ((flags & 0xff) == UNIX64_RET_X87
+	       || (flags & 0xff) == UNIX64_RET_X87_2)
+	/* The value has to be popped off the x87 stack even so.  */
+	rvalue = alloca (cif->rtype->size);
       else
 	flags = UNIX64_RET_VOID;
     }
-- 
2.43.0


From 5fd863550fe66f8fc74f411a674c711674bf2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 08/17] fix: walk the closure segment list under the
 allocator's lock

ffi_closure_alloc, ffi_data_to_code_pointer and ffi_tramp_is_present
searched the segment list without a lock while another thread's
allocation or free could be changing it; a search that missed its segment
dereferenced a null pointer or returned a data address as code.
---
 src/closures.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..0f9aa8f 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -984,6 +984,25 @@ segment_holding_code (mstate m, char* addr)
 
 #endif /* !(defined(_WIN32) || defined(__OS2__)) || defined (__CYGWIN__) || defined(__INTERIX) */
 
+/* If DATA lies in a segment of ours, store the corresponding executable
+   address in *CODE and return nonzero.  Other threads may be changing the
+   segment list, so it takes the lock of the allocator to walk it.  */
+static int
+segment_code_address (void *data, void **code)
+{
+  msegmentptr seg = NULL;
+
+  if (!PREACTION (gm))
+    {
+      seg = segment_holding (gm, data);
+      if (seg)
+	*code = add_segment_exec_offset (data, seg);
+      POSTACTION (gm);
+    }
+
+  return seg != NULL;
+}
+
 /* Allocate a chunk of memory with the given size.  Returns a pointer
    to the writable address, and sets *CODE to the executable
    corresponding virtual address.  */
@@ -999,9 +1018,10 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
+      void *exec = NULL;
 
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      segment_code_address (ptr, &exec);
+      *code = FFI_FN (exec);
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1021,15 +1041,16 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *exec;
+
   /* We expect closures to be allocated with ffi_closure_alloc(), in
-     which case seg will be non-NULL.  However, some users take on the
-     burden of managing this memory themselves, in which case this
+     which case it is in one of our segments.  However, some users take on
+     the burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
+  if (segment_code_address (data, &exec))
     {
       if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
+        return exec;
       return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
     }
   else
@@ -1058,8 +1079,8 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  void *exec;
+  return segment_code_address (ptr, &exec) && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From 6bc1e66b7b67f6e391e75c7c0343c669bec004e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 09/17] fix: allocate file space at the offset that is mapped

After a failed mapping the temporary file was truncated but its position
stayed past the end, so the next chunk was written behind the range that
was then mapped, leaving a hole there: a write to that memory gets SIGBUS
when the file system is full.
---
 src/closures.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index 0f9aa8f..922c271 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -838,6 +838,11 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
   offset = execsize;
 
+  /* An earlier attempt may have failed after it wrote to the file: write
+     where this mapping is going to be.  */
+  if (lseek (execfd, offset, SEEK_SET) != offset)
+    return MFAIL;
+
   if (allocate_space (execfd, length))
     return MFAIL;
 
-- 
2.43.0


From 5dbb6c8fbe10a1390472f6f2051080295cac88a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 10/17] fix: mkstemp fallback keeps the descriptor from being
 inherited

The other ways of opening the temporary executable file set close-on-exec;
with mkstemp a child process got a descriptor writable to executable
memory of its parent.
---
 src/closures.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 922c271..101b9cc 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -610,7 +610,12 @@ open_temp_exec_file_name (char *name, int flags MAYBE_UNUSED)
 #endif
 
   if (fd != -1)
-    unlink (name);
+    {
+      unlink (name);
+#if !defined (HAVE_MKOSTEMP) && defined (FD_CLOEXEC)
+      fcntl (fd, F_SETFD, FD_CLOEXEC);
+#endif
+    }
 
   return fd;
 }
-- 
2.43.0


From 799c05320532c597df6c8c0ce067e3c71f47f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 11/17] fix: a failed release of closure memory leaves it
 executable

dlmunmap unmapped the executable pages before the writable ones; when the
second step failed the allocator went on handing out that memory, with
code addresses which were no longer mapped.
---
 src/closures.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 101b9cc..34a45e5 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -964,16 +964,15 @@ dlmunmap (void *start, size_t length)
      deallocated and checking that the file contents change.
      Yuck.  */
   msegmentptr seg = segment_holding (gm, start);
-  void *code;
+  void *code = seg ? add_segment_exec_offset (start, seg) : start;
 
-  if (seg && (code = add_segment_exec_offset (start, seg)) != start)
-    {
-      int ret = munmap (code, length);
-      if (ret)
-	return ret;
-    }
+  /* The writable pages go first: should that fail, the allocator keeps
+     using this memory, and its executable addresses must remain.  */
+  int ret = munmap (start, length);
+  if (ret == 0 && code != start)
+    munmap (code, length);
 
-  return munmap (start, length);
+  return ret;
 }
 
 #if FFI_CLOSURE_FREE_CODE
-- 
2.43.0


From 685e4726a005ba0f343d36092162cdca84bbc558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 12/17] fix: no buffer overflow on long path names in
 /proc/self/maps

A line of up to PATH_MAX+99 characters was scanned with %s into a buffer
of PATH_MAX.
---
 src/tramp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..3d2bb70 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -47,6 +47,7 @@
 #include <unistd.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include <fcntl.h>
 #include <pthread.h>
 #include <sys/mman.h>
@@ -205,7 +206,7 @@ static int
 ffi_tramp_get_libffi (void)
 {
   FILE *fp;
-  char file[PATH_MAX], line[PATH_MAX+100], perm[10], dev[10];
+  char file[PATH_MAX+100], line[PATH_MAX+100], perm[10], dev[10];
   unsigned long start, end, offset, inode;
   uintptr_t addr = (uintptr_t) tramp_globals.text;
   int nfields, found;
-- 
2.43.0


From f47318d4a09be3243ed5744a88eba1818909d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 13/17] fix: map the trampoline table only from a file that
 contains it

The path of the libffi binary comes from /proc/self/maps. If it contains a
space, or if the file has been replaced since it was loaded, another file
was opened and whatever it holds was mapped and run as trampolines.
---
 src/tramp.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 3d2bb70..9c0fa73 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -202,6 +202,32 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * Check that the trampoline file holds the trampoline code table. The path in
+ * the maps file may have been cut short, or may lead to another file by now
+ * (e.g., a newer libffi that was installed over the running one).
+ */
+static int
+ffi_tramp_check_file (void)
+{
+  char buf[512];
+  size_t done = 0, size;
+  ssize_t count;
+
+  while (done < tramp_globals.map_size)
+    {
+      size = tramp_globals.map_size - done;
+      if (size > sizeof (buf))
+	size = sizeof (buf);
+      count = pread (tramp_globals.fd, buf, size, tramp_globals.offset + done);
+      if (count <= 0
+	  || memcmp (buf, (char *) tramp_globals.text + done, count) != 0)
+	return 0;
+      done += count;
+    }
+  return 1;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -245,7 +271,7 @@ ffi_tramp_get_libffi (void)
    * Allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_check_file () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0


From c6c420feebcea6d5802fbe793cfe197b0f967ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 14/17] fix: do not let child processes inherit the libffi
 descriptor

The descriptor of the trampoline file stays open for the life of the
process; open it close-on-exec like the temporary files.
---
 src/tramp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 9c0fa73..36530da 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -263,7 +263,7 @@ ffi_tramp_get_libffi (void)
   if (!found)
     return 0;
 
-  tramp_globals.fd = open (file, O_RDONLY);
+  tramp_globals.fd = open (file, O_RDONLY | O_CLOEXEC);
   if (tramp_globals.fd == -1)
     return 0;
 
-- 
2.43.0


From 086d0543086b9aa1089e5e5f489474d68cc1fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 15/17] fix: start a new search for executable memory with the
 first mount

The search for a file to hold the trampoline table may succeed inside a
mount table and leave the position and the table open.  The search for
dual-mapped closure memory then reset only the index: it continued with
the rest of that table at a later index, skipping entries, or left the
table's FILE open.
---
 src/closures.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index 34a45e5..f726394 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -834,6 +834,10 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
   if (execfd == -1)
     {
+      /* A search for the trampoline file may have stopped within a mount
+	 table: close it, so that this search covers all of it.  */
+      if (open_temp_exec_file_opts[open_temp_exec_file_opts_idx].repeat)
+	open_temp_exec_file_opts[open_temp_exec_file_opts_idx].func (NULL);
       open_temp_exec_file_opts_idx = 0;
     retry_open:
       execfd = open_temp_exec_file ();
-- 
2.43.0


From eaaea48cc9414cc980d70d99f011b10b0bd9ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 16/17] fix: initialise dlmalloc's parameters under the init
 lock

init_mparams() filled in mparams without a lock, page_size before
granularity, and every caller tested page_size without one: a thread
that allocated while another was initialising could see page_size set
and granularity still zero and fail with no memory.
---
 src/dlmalloc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..09dc6e8 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2209,7 +2209,7 @@ static int has_segment_link(mstate m, msegmentptr ss) {
 #if USE_LOCKS
 
 /* Ensure locks are initialized */
-#define GLOBALLY_INITIALIZE() (mparams.page_size == 0 && init_mparams())
+#define GLOBALLY_INITIALIZE() (init_mparams())
 
 #define PREACTION(M)  ((GLOBALLY_INITIALIZE() || use_lock(M))? ACQUIRE_LOCK(&(M)->mutex) : 0)
 #define POSTACTION(M) { if (use_lock(M)) RELEASE_LOCK(&(M)->mutex); }
@@ -2517,6 +2517,7 @@ static size_t traverse_and_check(mstate m);
 
 /* Initialize mparams */
 static int init_mparams(void) {
+  ACQUIRE_MAGIC_INIT_LOCK();
   if (mparams.page_size == 0) {
     size_t s;
 
@@ -2550,14 +2551,12 @@ static int init_mparams(void) {
 #else /* (FOOTERS && !INSECURE) */
     s = (size_t)0x58585858U;
 #endif /* (FOOTERS && !INSECURE) */
-    ACQUIRE_MAGIC_INIT_LOCK();
     if (mparams.magic == 0) {
       mparams.magic = s;
       /* Set up lock for main malloc area */
       INITIAL_LOCK(&gm->mutex);
       gm->mflags = mparams.default_mflags;
     }
-    RELEASE_MAGIC_INIT_LOCK();
 
 #if !defined(WIN32) && !defined(__OS2__)
     mparams.page_size = malloc_getpagesize;
@@ -2593,6 +2592,7 @@ static int init_mparams(void) {
         ((mparams.page_size   & (mparams.page_size-SIZE_T_ONE))   != 0))
       ABORT;
   }
+  RELEASE_MAGIC_INIT_LOCK();
   return 0;
 }
 
-- 
2.43.0


From 03c9b3b5c9a9bbd88e1fa02eec417017be0c4439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 17/17] fix: Win64 calls align the space for an ignored result

---
 src/x86/ffiw64.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 942db6a..b12767f 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,7 +121,6 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
-  size_t rsize;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
@@ -149,22 +148,20 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   avalue = avalue_copy;
 
   flags = cif->flags;
-  rsize = 0;
 
   /* If we have no return value for a structure, we need to create one.
      Otherwise we can ignore the return type entirely.  */
   if (rvalue == NULL)
     {
       if (flags == FFI_TYPE_STRUCT)
-	rsize = cif->rtype->size;
+	/* On its own: behind the frame it would not be aligned.  */
+	rvalue = alloca (cif->rtype->size);
       else
 	flags = FFI_TYPE_VOID;
     }
 
-  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + rsize);
+  stack = alloca(cif->bytes + sizeof(struct win64_call_frame));
   frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
-  if (rsize)
-    rvalue = frame + 1;
 
   frame->fn = (uintptr_t)fn;
   frame->flags = flags;
-- 
2.43.0

