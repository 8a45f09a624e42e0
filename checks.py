"""Which harness entries decide which property, within which bounds."""
def R(h, entry, bounds='', **k): return dict(h=h, entry=entry, bounds=bounds, **k)
ASSUME = [
 'x86-64 Linux build of libffi; C code is analysed as clang-18 -O1 bitcode, assembly as the instructions gcc assembles; sample paths and counterexamples are replayed on gcc -O3 code',
 'x86 instruction semantics, LLVM IR semantics and the ABI reference (h/abi.c) are as encoded here; the ABI reference is validated against gcc-compiled functions by tools/validate.py',
 'type descriptions are those of the signature families named in the bounds; argument and result values, result registers and unused register contents are unconstrained symbolic bits',
]
TECH = 'symbolic execution of the library (clang bitcode and assembled machine code) with Z3 deciding every branch and assertion over all inputs within the bounds'
NOTE = 'bounded: holds for all symbolic values and all type combinations, sizes and steps listed as bounds in the evidence file'
NA = {}
SR = ['stack', 'regs']; RR = ['ret in memory', 'ret in registers']
FA = 'family A: 0..7 integers and 0..9 doubles first (quick: 4x5 of the counts), then %s of any scalar or composite type'
FW = 'family W: 0..5 arguments of alternating kind first, then %s of any scalar or composite type; both Windows ABIs'
FB = 'family B: a structure of 1..3 (thorough 4) members of 8 kinds in 3 (5) nesting shapes, behind 4 (16) prefixes, then 3 more arguments'
FC = 'family C: 5 (thorough 6) arguments, each of five kinds that compete for registers'
FD = 'family D: 12 counts from 10 to 255 arguments cycling through 5 mixes of kinds'
FF = 'family F: structures of 4104, 32776 and 65544 bytes as arguments and results between others'
FR = 'every scalar and composite return type behind 4 argument lists'
FRB = 'return structures of 1..3 (thorough 4) members of 8 kinds in 3 (5) nesting shapes behind 4 argument lists'
S = 'h_sig'
def sig(*l): return [R(S, e, b, cover=c) for e, b, c in l]
def prep(*l): return [R('h_prep', e, b, cover=c, **(k[0] if k else {})) for e, b, c, *k in l]
def fold(h, *l): return [R(h, e, b, cover=c, opts=['--fold']) for e, b, c in l]
TH = ['ends', 'interleaved', 'live']; TW = 'two threads, each owning up to two closures, with two operations each of allocate+prepare+call, release, look up+call, allocate a larger one; up to 2 preemptions'; TT = 'closures of 2.3 MB whose segments go back to the system, 3 (9) placements: two threads, one operation each, up to 2 preemptions'
L3 = ['no offsets', 'offsets', 'interface']; WM = ['well-formed', 'malformed']
FT = ('c15_fault', 'tables of 2..4 trampolines, 0..5 (8) closures before, then 4 (5) operations during which one (two) of the mmap and malloc calls fail, then use, release of everything and as many allocations again', ['fault', 'null', 'several tables'])
FU = ('c15_refused', 'tables of 2..4 trampolines, 1..2 (3) of them full, no further table obtainable (no memory, or the code cannot be mapped): 25 (40) allocations of 56..60000 bytes in a row, then success', ['refused', 'several tables'])
CHECKS = {
 'C01': dict(runs=prep(('c01_flat', 'aggregates of 1..4 (thorough 5) members, each of arbitrary size (16-bit multiple of its alignment; sums generalised to all 64-bit values) and alignment 1..16', L3), ('c01_nest', 'three levels: a structure of up to 3 members holding one of up to 2 holding one of up to 2, members as above with alignment 1, 4, 16 (thorough 1..16)', L3), ('c01_prep', 'structures of up to 2 leaves (thorough 3) of 5 (10) kinds nested up to depth 2, submitted as argument, result, variadic argument or twice, under every ABI', ['prep']), ('c01_many', '6..128 (thorough 300) members, one (two) of arbitrary size anywhere, alone or as a member', L3), ('c01_chain', 'aggregates nested 3..6 or 8 (thorough 3..24) deep around a member of arbitrary size, alone or beside scalars at every level', L3), ('c01_base', 'every predefined type', ['base']))),
 'C02': dict(runs=prep(('c02_abi', 'all 2^32 ABI values; fixed and variadic preparation, member offsets', ['supported', 'unsupported']), ('c02_clo', 'all 2^32 ABI values in an interface given to closure, static-chain, raw and Java raw closure preparation', ['supported', 'unsupported']), ('c02_tree', 'every tree of type nodes of depth 2 (thorough 3), width 2 (3), up to 3 (4) nodes below the root, each scalar, complex, without member list, empty or aggregate; two submissions in any of 5 roles, then any part of it', WM), ('c02_deep', 'as above with depth 3, three submissions', WM), ('c02_two', 'two trees sharing nodes, three submissions in any order', WM), ('c02_pos', 'one malformed type at every position of 1..20 arguments and 11 positions of up to 255, of the result, and of the members of a structure of that many', ['malformed', 'member']), ('c02_chain', 'aggregates nested 3..16 (thorough 24) deep around a scalar, a complex or a malformed type, alone or beside scalars; three submissions of four levels', WM))),
 'C03': dict(runs=prep(('c03_rej', '0..5 arguments, 0..all fixed; two adjacent ones (anywhere) of 20 types each', ['accepted', 'rejected']), ('c03_one', '0..5 arguments, 0..all fixed; any one of every scalar or composite type', ['accepted', 'rejected']), ('c03_many', '6..255 arguments, one of 9 kinds at any position (9 positions beyond 12 arguments), the number of fixed ones arbitrary (8 beyond 12)', ['accepted', 'rejected']), ('c03_rej3', '0..5 arguments; three adjacent ones of 20 types each', ['accepted', 'rejected'], dict(tiers=('thorough',)))) + sig(('c03_A', FA % 'one argument' + '; 0..2 fixed arguments', SR), ('c03_B', FB, SR), ('c03_C', FC, ['stack']), ('c03_W', FW % 'one argument', SR))),
 'C04': dict(runs=sig(('c04_A', FA % 'two arguments', SR), ('c04_r', FA % 'one argument' + '; 6 return types', SR + RR), ('c04_B', FB, SR), ('c04_C', FC, ['stack']), ('c04_D', FD, ['stack']), ('c04_F', FF, ['stack']))),
 'C05': dict(runs=sig(('c05_R', FR, RR), ('c05_B', FRB, RR))),
 'C06': dict(runs=sig(('c06_A', FA % 'two arguments', SR), ('c06_B', FB, SR), ('c06_C', FC, ['stack']), ('c06_D', FD, ['stack']), ('c06_F', FF, ['stack']), ('c06_dyn', FA % 'one argument' + '; trampoline written into closure memory', SR), ('c06_nest', FA % 'one argument' + '; the handler calls the closure again', SR))),
 'C07': dict(runs=sig(('c07_R', FR, RR), ('c07_B', FRB, RR), ('c07_dyn', FR + '; trampoline written into closure memory', RR), ('c07_old', 'ffi_prep_closure: ' + FR, RR))),
 'C08': dict(runs=sig(('c08_A', FW % 'two arguments', SR), ('c08_B', FB, SR), ('c08_C', FC, ['stack']), ('c08_D', FD, ['stack']), ('c08_F', FF, ['stack']))),
 'C09': dict(runs=sig(('c09_R', FR, RR), ('c09_B', FRB, RR))),
 'C10': dict(runs=sig(('c10_A', FW % 'two arguments', SR), ('c10_B', FB, SR), ('c10_C', FC, ['stack']), ('c10_D', FD, ['stack']), ('c10_F', FF, ['stack']), ('c10_R', FR, RR), ('c10_RB', FRB, RR), ('c10_dyn', FR + '; trampoline written into closure memory', RR), ('c10_old', 'ffi_prep_closure: ' + FR, RR), ('c10_nest', FW % 'one argument' + '; the handler calls the closure again', SR))),
 'C11': dict(runs=sig(('c11_A', FA % 'one argument' + ' / ' + FW % 'one argument' + '; all caller data write-protected, with and without a return buffer, called twice', SR), ('c11_R', FR + '; all ABIs, as above', RR), ('c11_nest', FA % 'one argument' + '; called again from the callee', SR), ('c11_alias', FR + '; all ABIs, the result stored over any of the arguments', RR + ['result over argument']), ('c11_D', FD, ['stack']), ('c11_F', FF + '; all ABIs', ['stack']), ('c11_go', 'static-chain calls, as c11_A', SR)) + [R('h_sig', 'c11_aliasA', FA % 'one argument' + ' / ' + FW % 'one argument' + '; all ABIs, the result stored over any of the arguments', cover=RR + ['result over argument'], tiers=('thorough',))]),
 'C12': dict(runs=sig(('c12_A', FA % 'one argument' + '; all ABIs', SR), ('c12_A2', FA % 'two arguments', SR), ('c12_R', FR, RR), ('c12_D', FD, ['stack']), ('c12_F', FF, ['stack']), ('c12_cF', 'closures: ' + FF, ['stack']), ('c12_cA', 'closures: ' + FA % 'one argument' + '; all ABIs', SR), ('c12_cR', 'closures: ' + FR, RR), ('c12_cD', 'closures: ' + FD, ['stack']), ('c12_old', 'ffi_prep_raw_closure: ' + FR, RR))),
 'C13': dict(runs=sig(('c13_A', FA % 'two arguments (scalars)' + '; all ABIs', SR), ('c13_R', FR + ' (scalars)', ['ret in registers']), ('c13_D', FD, ['stack']), ('c13_cA', 'closures: ' + FA % 'two arguments (scalars)', SR), ('c13_cR', 'closures: ' + FR + ' (scalars)', ['ret in registers']), ('c13_cD', 'closures: ' + FD, ['stack']), ('c13_old', 'ffi_prep_java_raw_closure: ' + FR + ' (scalars)', ['ret in registers']))),
 'C17': dict(runs=sig(('c17_call', FR + '; all ABIs', RR), ('c17_args', FA % 'one argument' + '; all ABIs', SR), ('c17_clo', 'closures: ' + FR, RR), ('c17_cloargs', 'closures: ' + FA % 'one argument', SR), ('c17_dyn', 'closures with a trampoline in closure memory: ' + FR, RR), ('c17_go', 'static-chain calls: ' + FR, RR), ('c17_goclo', 'static-chain closures: ' + FR, RR), ('c17_D', FD, ['stack']), ('c17_cloD', 'closures: ' + FD, ['stack']))),
 'C22': dict(runs=[R(S, e, b + '; unwind rules evaluated before every instruction', opts=['--cfi'], cover=c) for e, b, c in (('c17_call', FR + '; all ABIs', RR), ('c17_args', FA % 'one argument' + '; all ABIs', SR), ('c17_clo', 'closures: ' + FR, RR), ('c17_cloargs', 'closures: ' + FA % 'one argument', SR), ('c17_dyn', 'closures with a trampoline in closure memory: ' + FR, RR), ('c17_go', 'static-chain calls: ' + FR, RR), ('c17_goclo', 'static-chain closures: ' + FR, RR), ('c17_D', FD, ['stack']), ('c23_cA', 'static-chain closures: ' + FA % 'one argument', SR))]),
 'C23': dict(runs=sig(('c23_A', FA % 'one argument (thorough two)' + '; all ABIs', SR), ('c23_R', FR + '; all ABIs', RR), ('c23_C', FC, ['stack']), ('c23_cA', 'closures: ' + FA % 'one argument (thorough two)', SR), ('c23_cR', 'closures: ' + FR, RR), ('c23_cC', 'closures: ' + FC, ['stack']), ('c23_cD', 'closures: ' + FD, ['stack']), ('c23_F', FF, ['stack']), ('c23_cF', 'closures: ' + FF, ['stack']), ('c23_nest', 'the handler calls the closure again', SR)) + prep(('c23_abi', 'all 2^32 ABI values in an interface given to static-chain closure preparation', ['supported', 'unsupported']))),
 'C14': dict(runs=fold('h_mem', ('c14_tr', 'static trampolines: 4 operations (allocate any size of 5 (9) bands of up to 8 sizes 0..3904 (..69992), or release any closure), then use, three more cycles, release of everything', ['live', 'empty']), ('c14_tree', '6 (7) blocks in one of 3 sets of neighbouring and equal sizes 272..2824, five released in any order, then 2 (3) allocated of any of 4 sizes, then release of everything', ['reused']), ('c14_chain', '5 (6) blocks of one size (of 3) released, two of them in any order merged with a neighbour, then 3 (4) allocated of any of 2 sizes, then release of everything', ['merged']), ('c14_frag', '6 blocks of 24..2312 bytes (two sets), then 5 (6) operations: allocation of any of 3 sizes or release of any block', ['fragments']), ('c14_long', 'static trampolines: 6 (8) operations, sizes 0 and 25..32', ['live']), ('c14_wx', 'writable and executable memory: 3 (4) operations, sizes as c14_tr', ['live']), ('c24_hist', 'two mappings: 3 (4) operations under 4 (6) policies, sizes as c14_tr', ['live']), ('c14_any', 'one allocation of any 64-bit size above 2^30 or of 100000..100399 bytes between two others', ['large', 'impossible']), ('c14_seg', 'segments placed below, above or apart from each other: 5 (6) operations on sizes 56, 3000, 5000', ['segments']), ('c14_trim', 'closures of up to 2.6 MB so that memory is returned, 6 orders x 3 size sets, segments placed as above', ['memory returned']), ('c24_trim', 'as c14_trim, two mappings', ['memory returned']), ('c24_trimwx', 'as c14_trim, one writable and executable mapping', ['memory returned'])) + fold('h_os', ('c18_fault', 'allocations that fail because of one (thorough two) failing system calls leave the other closures as they are', ['fault', 'null']))),
 'C15': dict(runs=fold('h_tab', *((e, 'tables of 2..4 trampolines, library file present or gone; ' + b, ['several tables', 'spare table']) for e, b in (('c15_init', '8 (10) operations, each an allocation or the release of any live closure, then release of everything and as many allocations again'), ('c15_full', 'as above, 4 (6) operations starting with 4..7 (9) closures'), ('c15_drain', '1..9 (13) closures released from any start in 5 rotations, then allocated again')))) + fold('h_tab', FT)),
 'C16': dict(runs=[R('h_mem', 'c16_slot', 'three closures behind 0..132 (260) others in tables of real size, of three signatures (17 arguments in registers and memory; SysV and Win64), all argument registers and stack words symbolic; prepared again with another signature', cover=['slot', 'second table']), R('h_mem', 'c16_dyn', 'three closures behind 0..70 (130) others with the trampoline written into their memory, one or two mappings, as above', cover=['closure'])] + sig(('c06_dyn', FA % 'one argument' + '; trampoline written into closure memory', SR), ('c10_dyn', FR + '; trampoline written into closure memory', RR))),
 'C18': dict(runs=fold('h_os', ('c18_cfg', 'all combinations of 11 memory-map files, library file present/gone/replaced, mappable or not, W+X refused (EACCES, EPERM) or not, SELinux, PaX, noexec, page size 4096/8192; 11 allocations and releases with use', ['null', 'one mapping', 'two mappings', 'trampolines', 'refused', 'usable']), ('c18_fault', '64 configurations; any one (thorough two) of the calls mmap, open, write, fopen, malloc, ftruncate, memfd_create, mkstemp, fgets, getline, statfs, access, setmntent, read, lseek fails', ['fault', 'usable', 'trampolines']), ('c18_two', '32 configurations; any two of the calls mmap, write, open, ftruncate, lseek, malloc fail', ['fault', 'usable']), ('c18_always', '64 configurations; every subset of the 15 calls fails permanently', ['usable', 'refused']), ('c18_unmap', '64 configurations; any one (two) munmap fails while large segments are returned', ['fault'])) + [dict(r, only=True) for r in fold('h_tab', FT, FU)]),
 'C19': dict(runs=[dict(r, only=True) for r in fold('h_mem', ('c14_tr', 'static trampolines: 4 operations on closures of 5 (9) size bands', ['live']), ('c24_hist', 'two mappings: 3 (4) operations under 4 (6) policies', ['live']), ('c14_seg', 'static trampolines, segments placed below, above or apart', ['segments']), ('c24_seg', 'two mappings, segments as above', ['segments'])) + fold('h_tab', ('c15_init', 'tables of 2..4 trampolines, 8 (10) operations', ['several tables'])) + fold('h_os', ('c18_cfg', 'all configurations of c18_cfg (see C18)', ['one mapping', 'two mappings', 'trampolines']), ('c18_fault', 'the same with one (two) failing system calls', ['fault']), ('c18_always', 'the same with every subset of calls failing permanently', ['usable']))]),
 'C21': dict(runs=fold('h_thr', ('c21_cold_tr', 'two threads make the first use of the library at the same time: one operation each of 2 (3) kinds, up to 3 (4) preemptions', TH), ('c21_cold_du', 'the same with doubly mapped temporary files', TH), ('c21_cold_wx', 'the same with memory both writable and executable', TH), ('c21_tr', TW, TH), ('c21_du', TW + '; doubly mapped temporary files', TH), ('c21_wx', TW + '; memory both writable and executable', TH), ('c21_tab', 'trampoline tables of two entries created and removed: 0..3 closures before, then two threads with two operations each, up to 2 (3) preemptions', TH), ('c21_trim', TT, TH), ('c21_trimdu', TT + '; doubly mapped temporary files', TH), ('c21_trimwx', TT + '; memory both writable and executable', TH), ('c21_call', 'two threads, each without or with a closure: preparation of an interface, a call and a raw call to a function, calls to closures of four signatures (integers, structures, complex, long double; SysV and Win64), or allocation, use and release; up to 2 (3) preemptions, also while the function or handler runs', TH), ('c21_three', 'three threads with one operation each, first use or later, up to 2 preemptions', TH))),
 'C20': dict(runs=fold('h_os', ('c20_one', 'one search over memfd, 3 environment variables, 3 fixed directories and two mount tables: up to 2 (3) deviations (variable unset, open fails in 5 ways, table missing/empty/one entry, 7 mount options, no access), any subset of the locations refusing executable mappings, any subset of mkstemp calls failing', ['found', 'nothing found', 'found last']), ('c20_three', 'three searches in a row, up to 1 (2) deviations', ['found', 'nothing found']), ('c20_tramp', 'the search for the trampoline file followed by those for closure memory, 1 (2) deviations', ['found', 'nothing found', 'trampolines'])) + fold('h_os', ('c18_fault', '64 configurations; one (two) failing system calls', ['fault']))),
 'C24': dict(runs=fold('h_mem', ('c24_hist', '3 (4) operations under 4 (6) policies, 5 (9) bands of sizes', ['live']), ('c24_seg', 'segments of the two kinds placed below, above or apart independently: 4 (5) operations', ['segments']), ('c24_wx', 'one mapping: 4 (5) operations', ['segments']), ('c24_trim', 'closures of up to 2.6 MB so that memory is returned, 6 orders x 3 size sets', ['memory returned']), ('c24_trimwx', 'as c24_trim, one mapping', ['memory returned'])) + fold('h_os', ('c18_fault', '64 configurations; one (two) failing system calls', ['fault', 'two mappings']), ('c18_unmap', 'any one (two) munmap fails while segments are returned', ['fault']))),
}
