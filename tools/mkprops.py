#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="the x86-64 Linux build"
p("C01","Aggregate layout equals the C ABI layout",
 "For every aggregate description made of valid member types (nested to any depth), preparing a call or closure interface, or asking for its member offsets, yields the size, alignment and member offsets that a C compiler gives the same struct on this target. Size and alignment of every predefined scalar and complex type equal those of the corresponding C type, and asking for offsets never writes more entries than the description has members.",
 ["inputs","programs"],"every sequence of member types and every nesting (bounded: up to 4 (thorough 5) members with arbitrary size/alignment pairs, nesting depth 3)",
 "The suite prepares a few dozen hand-written structs and compares a handful of offsets; layout is arithmetic over an unbounded family of type descriptions.",
 ["src/prep_cif.c","src/types.c","src/x86/ffitarget.h","include/ffi_common.h"],
 [("aggregate initialisation","src/prep_cif.c: initialize_aggregate"),("offset query","src/prep_cif.c: ffi_get_struct_offsets"),("predefined types","src/types.c")])
p("C02","Malformed interface descriptions are rejected, every time",
 "Preparing a call interface with an ABI number outside the supported set returns the bad-ABI status, and one whose return or argument types contain an empty aggregate, an aggregate without members list, or a nested one at any depth returns the bad-typedef status; every well-formed description is accepted. The verdict for a description does not depend on whether it was submitted before, and a rejected description never comes to be treated as valid.",
 ["inputs","histories"],"every ABI value (all 2^32), every position and nesting depth (<=3) of the defect, repeated submissions (<=3)",
 "Tests try two or three bad ABI values and one bad typedef, never resubmitting a rejected description.",
 ["src/prep_cif.c","src/x86/ffi64.c","src/x86/ffiw64.c"],
 [("abi range check","src/prep_cif.c: ffi_prep_cif_core"),("aggregate initialisation","src/prep_cif.c: initialize_aggregate"),("machine dependent preparation","src/x86/ffi64.c: ffi_prep_cif_machdep")])
p("C03","Variadic preparation enforces default argument promotions exactly",
 "Preparing a variadic interface rejects with the bad-argument-type status exactly those whose variadic part contains a float or an integer type narrower than int; the fixed arguments may have any valid type, and aggregates and complex values are accepted whatever their size. A variadic interface that is accepted behaves in calls exactly like the equivalent non-variadic one, and the callee is told an upper bound of the vector registers used.",
 ["inputs"],"every number of fixed and variadic arguments up to 5 and every type at each position",
 "va_* tests use a few fixed signatures; rejection is tested for single positions only.",
 ["src/prep_cif.c","src/x86/ffi64.c","src/x86/unix64.S"],
 [("promotion check","src/prep_cif.c: ffi_prep_cif_var"),("rax vector count","src/x86/ffi64.c: ffi_call_int")])
p("C04","System V calls place every argument where the C ABI says",
 "When a function is called through libffi with the default x86-64 ABI, the callee finds every argument, bit for bit, in the register or stack position the System V ABI assigns to it, for any mix of integers, floats, long doubles, complex values and structs: small integers correctly extended, structs wholly in registers or wholly in memory, over-aligned stack arguments aligned. A pointer for the return slot takes the first integer register when the result is returned in memory.",
 ["inputs","programs"],"all argument values (every bit symbolic) for signatures: up to 7 integer + 9 float leading arguments followed by every pair of types; every struct of up to 3 (thorough 4) fields and selected larger, nested and complex aggregates at every register-exhaustion position",
 "Tests sample about 500 fixed signatures with fixed values; the interaction of type mix, register exhaustion and value bits is not enumerable by tests.",
 ["src/x86/ffi64.c","src/x86/unix64.S"],
 [("classification","src/x86/ffi64.c: classify_argument, examine_argument"),("marshalling","src/x86/ffi64.c: ffi_call_int"),("register load and stack setup","src/x86/unix64.S: ffi_call_unix64")])
p("C05","System V return values are stored exactly",
 "After a call with the default x86-64 ABI, the return buffer holds exactly the value the callee returned, for every return type: integers narrower than a register are widened to a full register slot according to their signedness, aggregates are written with exactly their size, values returned in memory are written by the callee through the buffer's own address. No byte outside the return buffer is written, whatever garbage the callee leaves in unused register bits.",
 ["inputs","programs"],"every return register content (rax, rdx, xmm0, xmm1, st0, st1 symbolic) and every return type: all scalars, complex, every struct of up to 4 fields and selected larger ones",
 "Tests check the value of selected returns, not the bytes after the buffer nor garbage in upper register bits.",
 ["src/x86/ffi64.c","src/x86/unix64.S"],
 [("return classification","src/x86/ffi64.c: ffi_prep_cif_machdep"),("store table","src/x86/unix64.S: store_table")])
p("C06","System V closures deliver exactly the arguments they were called with",
 "Calling a closure's code address with the default x86-64 ABI runs the registered function exactly once, with the call interface and user data it was registered with and an argument vector in which every entry points to the complete value passed by the caller, readable and writable by the handler. This holds for every signature, also when arguments straddle registers and stack, and for handlers that call further closures.",
 ["inputs","programs"],"all register and stack contents at entry (symbolic), signatures as in C04",
 "Tests use fixed signatures and values; straddling and exhausted-register cases are sampled sparsely.",
 ["src/x86/ffi64.c","src/x86/unix64.S","src/closures.c","src/tramp.c"],
 [("argument reconstruction","src/x86/ffi64.c: ffi_closure_unix64_inner"),("entry stub","src/x86/unix64.S: ffi_closure_unix64, ffi_closure_unix64_sse, _alt variants")])
p("C07","System V closures return the handler's value where the C ABI expects it",
 "When the handler of a closure writes its result into the return buffer, the caller of the closure receives it in the registers the System V ABI prescribes for the return type, or in the caller-provided memory whose address is also returned. The handler may write results of integer types as a full register slot, and the buffer it is given is large enough and disjoint from the arguments.",
 ["inputs","programs"],"every value written by the handler and every return type as in C05",
 "Only fixed values and a few dozen return types are exercised.",
 ["src/x86/ffi64.c","src/x86/unix64.S"],
 [("return classification","src/x86/ffi64.c: ffi_closure_unix64_inner"),("load table","src/x86/unix64.S: load_table")])
p("C08","Windows x64 calls pass arguments per the Microsoft ABI, by-value",
 "When a function is called with either of the Windows x64 ABIs (MSVC or GNU flavour), every argument arrives bit for bit in its positional slot: first four in integer and vector registers, others on the stack above the home space, values whose size is not 1, 2, 4 or 8 bytes by reference to memory. That memory is a private copy, so whatever the callee does to it is invisible to the caller.",
 ["inputs","programs"],"all argument values; up to 6 leading slots followed by every pair of types; every struct size 1..40; with and without a memory return",
 "The suite runs the Windows ABIs only for a few signatures on Linux and never has the callee modify by-reference arguments.",
 ["src/x86/ffiw64.c","src/x86/win64.S","src/x86/ffi64.c"],
 [("marshalling","src/x86/ffiw64.c: ffi_call_int"),("register load","src/x86/win64.S: ffi_call_win64"),("by-reference copy","src/x86/ffi64.c: ffi_call, ffiw64.c: ffi_call_int")])
p("C09","Windows x64 call results are stored exactly",
 "After a call with a Windows x64 ABI the return buffer holds exactly the callee's result for every return type: integers widened according to signedness, structs of 1, 2, 4 or 8 bytes taken from the integer register with exactly their size, all others written by the callee through a pointer to the buffer itself. No byte outside the buffer changes.",
 ["inputs","programs"],"every return register content and every return type, both flavours",
 "Fixed values and few types; no check of bytes around the buffer.",
 ["src/x86/ffiw64.c","src/x86/win64.S"],
 [("return flags","src/x86/ffiw64.c: ffi_prep_cif_machdep_win64"),("store table","src/x86/win64.S: ffi_call_win64 jump table")])
p("C10","Windows x64 closures deliver arguments and results per the Microsoft ABI",
 "A closure prepared with a Windows x64 ABI calls its handler exactly once with the registered interface and user data, each argument pointer designating the complete value the caller passed (by slot or by reference), and its caller receives in the integer and vector result registers, or in the memory it supplied, exactly what the handler wrote.",
 ["inputs","programs"],"all register and stack contents at entry, signatures as in C08, return types as in C09",
 "Only a handful of Windows-ABI closures are tested on Linux.",
 ["src/x86/ffiw64.c","src/x86/win64.S","src/x86/ffi64.c"],
 [("argument reconstruction","src/x86/ffiw64.c: ffi_closure_win64_inner"),("entry stub","src/x86/win64.S: ffi_closure_win64, ffi_closure_win64_alt")])
p("C11","Calls leave the caller's data alone and can be repeated and nested",
 "A call never writes to the call interface, its type descriptions, the argument vector or the argument values it was given, and writes nothing but the return buffer; passing no return buffer for a function that returns a value is allowed and merely discards the result. Hence making the same call again, any number of times, from nested callbacks or with different return buffers, behaves identically each time.",
 ["inputs","histories","programs"],"every signature of C04/C08, call sequences of length 2 (10 for discarded long double results), recursion depth 2, null and non-null return buffer",
 "Tests call most functions once per prepared interface and do not compare argument vectors afterwards.",
 ["src/x86/ffi64.c","src/x86/ffiw64.c","src/x86/unix64.S","src/x86/win64.S"],
 [("call entry","src/x86/ffi64.c: ffi_call, ffi_call_go"),("windows call entry","src/x86/ffiw64.c: ffi_call_win64, ffi_call_int")])
p("C12","Raw API round trip is the identity",
 "Packing arguments into the raw form and unpacking them yields the original values for every signature without unsupported types, the packed size equals the reported raw size, an integer narrower than its slot is sign- or zero-extended to it, and neither direction touches memory beyond the packed form. A call or closure made through the raw interface passes the same arguments and returns the same result as the ordinary one.",
 ["inputs","programs"],"all values; signatures of up to 7 integers and 9 doubles followed by one or two arguments of any scalar or composite type, every return type, up to 64 (thorough 255) arguments; all ABIs",
 "Two small raw closure tests exist; packing is not tested for most types.",
 ["src/raw_api.c","include/ffi.h.in"],
 [("packing","src/raw_api.c: ffi_ptrarray_to_raw, ffi_raw_to_ptrarray, ffi_raw_size"),("raw call","src/raw_api.c: ffi_raw_call"),("raw closure","src/raw_api.c: ffi_prep_raw_closure_loc, ffi_translate_args")])
p("C13","Java raw API round trip is the identity",
 "Packing arguments into the Java raw form (64-bit values over two slots) and unpacking them yields the original values, the packed size equals the reported size, an integer narrower than its slot is sign- or zero-extended to it, and neither direction touches memory beyond the packed form. A call or closure made through the Java raw interface passes the same arguments and produces the same result as the ordinary one, integer results being properly widened.",
 ["inputs","programs"],"all values; signatures of up to 7 integers and 9 doubles followed by any two scalars, every scalar return type, up to 64 (thorough 255) arguments; all ABIs",
 "One test of the Java raw closure API exists.",
 ["src/java_raw_api.c","include/ffi.h.in"],
 [("packing","src/java_raw_api.c: ffi_java_ptrarray_to_raw, ffi_java_raw_to_ptrarray, ffi_java_raw_size"),("call and rvalue conversion","src/java_raw_api.c: ffi_java_raw_call, ffi_java_raw_to_rvalue, ffi_java_rvalue_to_raw")])
p("C14","Closure memory is disjoint, sized, writable and reusable",
 "At every moment of any sequence of closure allocations and releases, each live closure owns at least the requested number of writable bytes and a code address of its own, disjoint from every other live closure and untouched by operations on the others. Releasing a closure makes its memory and code address available again, so alternating allocation and release does not grow the address space without bound; allocation failures return null and leave existing closures intact.",
 ["histories","inputs","fault_sequences"],"every history of up to 4..6 (thorough 8) operations with symbolic sizes and choice of the closure released, under every kind of closure memory; segments placed below, above or apart; sizes up to 2.6 MB with memory returned to the system; one allocation of any 64-bit size",
 "Tests allocate a few closures and never check disjointness; heap bugs depend on the history and the sizes.",
 ["src/closures.c","src/dlmalloc.c","src/tramp.c"],
 [("allocation","src/closures.c: ffi_closure_alloc, ffi_closure_free"),("heap","src/dlmalloc.c"),("trampolines","src/tramp.c: ffi_tramp_alloc, ffi_tramp_free")])
p("C15","Each live closure has its own trampoline, recycled correctly",
 "In any history of trampoline allocation and release, two live closures never share a trampoline, every trampoline handed out is mapped executable with its parameter slot mapped writable, and no operation touches a table that has been unmapped. Tables are unmapped only when none of their trampolines is live, and at most one completely free table is retained.",
 ["histories"],"every history of 8 (thorough 10) operations on tables of 2..4 trampolines from the initial state, and of 4 (6) after 4..9 allocations; filling and draining up to 5 tables in rotated orders",
 "Exhausting a table takes thousands of closures; tests rarely cross one table boundary and never in adverse order.",
 ["src/tramp.c"],
 [("table lists","src/tramp.c: tramp_add, tramp_del, tramp_table_alloc, tramp_table_free"),("api","src/tramp.c: ffi_tramp_alloc, ffi_tramp_free, ffi_tramp_get_addr, ffi_tramp_set_parms")])
p("C16","Every trampoline enters its own closure with the caller's registers intact",
 "Jumping to the code address of any closure, whether from the static table (any slot) or written into closure memory, reaches the entry stub for the closure's ABI and signature with exactly that closure as context, and with every argument register, the stack contents and the stack position as the caller set them. The code address reported for a closure's data address is the same one that was returned at allocation.",
 ["inputs","configurations"],"every slot index of the trampoline table (symbolic), all register contents, both ABIs, vector-register and integer-only signatures, static table and in-memory trampolines",
 "Tests use the first few slots of the table only, and observe registers only through passed arguments.",
 ["src/x86/unix64.S","src/x86/win64.S","src/x86/ffi64.c","src/x86/ffiw64.c","src/tramp.c","src/closures.c"],
 [("static table","src/x86/unix64.S: trampoline_code_table"),("in-memory trampoline","src/x86/ffi64.c: ffi_prep_closure_loc; ffiw64.c: ffi_prep_closure_loc_efi64"),("data to code","src/closures.c: ffi_data_to_code_pointer")])
p("C17","Machine state required by the ABI is preserved across calls and closures",
 "Calling through libffi, or calling a closure, preserves every callee-saved register, the stack pointer, the direction flag and the x87 stack depth of the caller, for both the System V and the Windows conventions. Every function libffi calls is entered with a correctly aligned stack, and, for System V, with a count in the low byte of the accumulator that bounds the vector registers used.",
 ["inputs","programs"],"every path of the call and closure code for the signatures of C04-C10, all register contents symbolic",
 "C tests cannot observe callee-saved registers or alignment except through crashes.",
 ["src/x86/unix64.S","src/x86/win64.S","src/x86/ffi64.c","src/x86/ffiw64.c"],
 [("call stubs","src/x86/unix64.S: ffi_call_unix64; src/x86/win64.S: ffi_call_win64"),("closure stubs","src/x86/unix64.S, src/x86/win64.S")])
p("C18","Closure allocation degrades cleanly when the system refuses resources",
 "Whatever subset of system calls (opening, reading, mapping, writing, extending files, allocating memory) fails, and whatever the process's memory map file contains, closure allocation either yields a fully usable closure or returns null; it never crashes, hangs, returns overlapping memory or a non-executable code address, and already allocated closures stay valid. Every file descriptor and mapping obtained on a failed attempt is released or kept for the next attempt, so that repeated failures use up nothing.",
 ["fault_sequences","histories"],"every configuration of memory-map file (11), library file, policies and page size; any one (thorough two) failing system call of 15 kinds, any two of 6 kinds, any subset of 15 kinds failing permanently, any failing unmap; sequences of 11 allocations and releases",
 "Fault paths are never executed by the suite.",
 ["src/closures.c","src/tramp.c","src/dlmalloc.c"],
 [("fallback chain","src/closures.c: dlmmap, dlmmap_locked, open_temp_exec_file"),("trampoline initialisation","src/tramp.c: ffi_tramp_init, ffi_tramp_get_libffi, ffi_tramp_get_temp_file, tramp_table_map")])
p("C19","No memory is ever writable and executable at once with static trampolines",
 "When static trampolines are in use, no mapping libffi creates is both writable and executable, closure memory itself is never executable, and trampoline code pages are never written. When they are unavailable and the system forbids writable-executable memory, code is executed only through a second, non-writable view of the same memory.",
 ["histories","fault_sequences","configurations"],"every protection argument of every mapping call on every path of C14, C15, C18 and C24",
 "Tests never inspect protections.",
 ["src/closures.c","src/tramp.c","src/x86/ffi64.c"],
 [("mapping","src/closures.c: dlmmap, dlmmap_locked; src/tramp.c: tramp_table_map"),("trampoline writing","src/x86/ffi64.c: ffi_prep_closure_loc")])
p("C20","The search for an executable temporary file terminates in the documented order",
 "Looking for a place to create executable memory tries an anonymous memory file, LIBFFI_TMPDIR, TMPDIR, the standard temporary directories, HOME and finally writable, executable mounts, in this order, taking the first that works, and continues after one whose mapping fails. The search always terminates, created files have no remaining name, and read-only, noexec and unwritable mounts are never used; every descriptor libffi keeps, on the library file too, is closed on exec, and no mount table stays open after a search that failed.",
 ["fault_sequences","configurations","histories"],"every subset of the locations refusing executable mappings or named files, with up to 2 (thorough 3) further deviations (variables unset, opens failing in 5 ways, tables missing or empty, 7 mount options, no access); 2 entries per mount list; up to 3 consecutive searches; when the static trampolines' own file is concerned, the first location that can be opened decides",
 "The suite always succeeds at the first attempt.",
 ["src/closures.c"],
 [("search table","src/closures.c: open_temp_exec_file, open_temp_exec_file_opts_next, open_temp_exec_file_mnt, open_temp_exec_file_dir, open_temp_exec_file_env")])
p("C21","Closures and calls are safe under concurrent use",
 "Any number of threads may allocate, prepare, look up, call and release closures at the same time: there is no data race, no deadlock, and under every interleaving the guarantees of sequential use hold (distinct live closures never share memory or code address, nothing live is freed or unmapped). Calls, raw calls and closure entries by several threads, through shared prepared interfaces or their own, do not disturb each other.",
 ["schedules"],"every schedule with a bounded number of preemptions (before every lock operation, and while a called function or handler runs) of two threads (up to two operations each) or three threads (one operation each), from first use and from later states, in each way closure memory is made executable; every access is checked for a race by the order the locks impose, whatever the schedule",
 "One threaded stress test exists; schedules cannot be enumerated by it.",
 ["src/closures.c","src/dlmalloc.c","src/tramp.c"],
 [("malloc lock","src/dlmalloc.c: PREACTION/POSTACTION"),("trampoline lock","src/tramp.c: ffi_tramp_lock"),("segment lookup","src/closures.c: ffi_closure_alloc, ffi_tramp_is_present, ffi_data_to_code_pointer")])
p("C22","Unwind information is correct at every instruction",
 "At every instruction of the assembly call and closure paths, the unwind information recovers the caller's stack pointer, return address and callee-saved registers, so exceptions and backtraces pass through libffi frames from any point. This holds for the call routines, the closure entries and the static-chain variants of both conventions, through the unwind tables each of them carries.",
 ["inputs","programs"],"every instruction address reached on any path of the call, closure and go-closure harnesses, all register contents symbolic",
 "One C++ unwinding test passes through one call site per stub; asynchronous points are never checked.",
 ["src/x86/unix64.S","src/x86/win64.S"],
 [("cfi directives","src/x86/unix64.S, src/x86/win64.S")])
p("C23","Static-chain (Go) calls and closures carry the chain and the arguments",
 "A call made with a static-chain value delivers that value in the static chain register together with all arguments exactly as an ordinary call would, and returns the result alike. A Go closure entered with its own address in the chain register runs its handler once with that closure's interface and data, and with the caller's arguments and result handling as for ordinary closures; preparing either with an unsupported ABI is reported as such.",
 ["inputs","programs"],"all chain values and register contents, signatures as in C04-C10, every ABI value",
 "The Go tests pass two or three signatures.",
 ["src/x86/ffi64.c","src/x86/ffiw64.c","src/x86/unix64.S","src/x86/win64.S"],
 [("go call","src/x86/ffi64.c: ffi_call_go; ffiw64.c: ffi_call_go_win64"),("go closure","src/x86/unix64.S: ffi_go_closure_unix64(_sse); win64.S: ffi_go_closure_win64"),("preparation","src/x86/ffi64.c: ffi_prep_go_closure")])
p("C24","Without static trampolines, writable and executable views stay paired",
 "When static trampolines are unavailable, every closure's code address is the executable view of exactly the bytes of its writable address, for every closure in every memory segment, so that the trampoline written for it is what is executed; translating a data address gives the same code address. Releasing memory back to the system unmaps both views of exactly the same range.",
 ["histories","configurations","fault_sequences"],"histories of up to 4 (thorough 5) operations with symbolic sizes spanning several segments whose two views are placed independently, with static trampolines failing and with writable-executable mappings allowed, refused or forbidden by policy, and with failing system calls",
 "The suite never runs with the dual-mapping fallback.",
 ["src/closures.c","src/dlmalloc.c"],
 [("dual mapping","src/closures.c: dlmmap_locked, dlmunmap"),("offset bookkeeping","src/dlmalloc.c: mmap_exec_offset, add_segment_exec_offset, check_segment_merge")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
