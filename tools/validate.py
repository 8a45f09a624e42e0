#!/usr/bin/env python3
"""Validates the calling-convention reference of the harnesses (h/abi.c and the Windows part of h/h_sig.c)
against gcc: functions and call sites that gcc compiles for many signatures take the place of closures and
of ffi_call, and the harness assertions must all hold for them.   validate.py [number of signatures] [seed]
Run by hand when the reference changes; it decides no property."""
import sys, os, random, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import vp
N = int(sys.argv[1]) if len(sys.argv) > 1 else 1500; random.seed(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
AT = dict(a='unsigned char', b='signed char', c='unsigned short', d='short', e='unsigned int', f='int', g='unsigned long', h='long', p='void*', x='float', y='double', l='long double', X='_Complex float', Y='_Complex double', L='_Complex long double', I='_Complex int', J='_Complex long', v='void')
INTS = 'abcdefghp'
import re
COMP = re.findall(r'"([^"]+)"', re.search(r'comp_types\[\]=\{(.*?)\};', open(V + '/h/abi.c').read()).group(1))
decl = []; names = {}
def ctype(d):
    if not d.startswith('{'): return AT[d]
    if d in names: return names[d]
    i = 1; m = []
    while d[i] != '}':
        j = i + 1
        if d[i] == '{':
            k = 1
            while k: k += {'{': 1, '}': -1}.get(d[j], 0); j += 1
        m.append(d[i:j]); i = j
    s = ' '.join(f'{ctype(x)} m{q};' for q, x in enumerate(m)); names[d] = 'S%d' % len(names); decl.append(f'typedef struct {{ {s} }} {names[d]};'); return names[d]
def rnd_struct(depth=2):
    return '{' + ''.join(rnd_struct(depth - 1) if depth and random.random() < .25 else random.choice('aacefghpxxyyblXYI') for _ in range(random.randint(1, 5))) + '}'
def rnd_type(): return random.choice(list('abcdefghpxyl') * 2 + COMP * 1 + [rnd_struct() for _ in range(25)])
sigs = [(r, a) for r in list('vabcdefghpxyl') + COMP for a in ([], ['g'], ['g'] * 6 + ['y'] * 8 + ['f'], ['{gy}', 'x'])]
sigs += [('v', [t]) for t in COMP] + [('{ggg}', [c] * k) for c in ('g', 'y', 'b', '{gy}', 'l') for k in (5, 9, 20, 60)]
while len(sigs) < N: sigs.append((random.choice(['v', rnd_type(), rnd_type(), rnd_type()]), [rnd_type() for _ in range(random.randint(0, 9))]))
body = []; tab = []
for k, (r, a) in enumerate(sigs):
    for conv in (0, 1):
        at = '__attribute__((ms_abi,noinline))' if conv else '__attribute__((noinline))'; R = ctype(r); A = [ctype(x) for x in a]
        body.append(f'static {R} {at} f{k}_{conv}({", ".join(f"{t} a{i}" for i, t in enumerate(A)) or "void"}) {{ void*v[]={{{", ".join(f"&a{i}" for i in range(len(A))) or 0}}}; u64 w[80] __attribute__((aligned(16))); void*b=retmem()?callerbuf:w; handler(cif,b,v,(void*)user); {"return *(%s*)b;" % R if r != "v" else ""} }}')
        call = f'(({R}({"__attribute__((ms_abi))" if conv else ""}*)({", ".join(A) or "void"}))fn)({", ".join(f"*({t}*)v[{i}]" for i, t in enumerate(A))})'
        st = call + ';' if r == 'v' else f'*(u64*)rb=(u64){call};' if r in INTS else f'*({R}*)rb={call};'
        body.append(f'static void g{k}_{conv}(void(*fn)(void),void*rb,void**v) {{ {st} }}')
    tab.append('{"%s",{%s},%d,{(void*)f%d_0,(void*)f%d_1},{g%d_0,g%d_1}},' % (r, ','.join('"%s"' % x for x in a) or '0', len(a), k, k, k, k))
src = '''#include <ffi.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
static void val_call(ffi_cif*c,void(*fn)(void),void*rb,void**v);
#define ffi_call val_call
#include "h_sig.c"
''' + '\n'.join(decl) + '\n' + '\n'.join(body) + '''
static const struct { const char*r; const char*a[64]; int n; void*f[2]; void(*g[2])(void(*)(void),void*,void**); } tab[]={ ''' + '\n'.join(tab) + '''};
/* gcc sets al for variadic callees only */
static void val_hook(struct vp_frame*f){ f->rax=8; hook_call(f); }
static int cur,conv; static void val_call(ffi_cif*c,void(*fn)(void),void*rb,void**v){ expect_ret=0; vp_on_call=val_hook; tab[cur].g[conv](fn,rb,v); }
void val_main(void){ int bad=0,done=0,k=sizeof tab/sizeof*tab; static const int abis[2]={FFI_UNIX64,FFI_GNUW64};
  for(cur=0;cur<k;cur++) for(conv=0;conv<2;conv++) for(int dir=0;dir<2;dir++){ fflush(stdout); pid_t p=fork(); if(!p){ abi=abis[conv]; mode=dir?M_CLODYN:M_CALL; t_reset(); n=0; for(int i=0;i<tab[cur].n;i++) t_build(&ty[n++],tab[cur].a[i]); t_build(&rt,tab[cur].r);
      if(dir){ do_prep(); for(int i=0;i<n;i++) mkval(i); code=tab[cur].f[conv]; runs=0; enter(); enter(); } else run_call(); _exit(0); }
    int s; waitpid(p,&s,0); done++; if(s){ bad++; printf("MISMATCH %s %s: %s(",conv?"ms":"sysv",dir?"function":"call",tab[cur].r); for(int i=0;i<tab[cur].n;i++) printf(" %s",tab[cur].a[i]); printf(" ) status %x\\n",s); } }
  printf("%d of %d checks failed\\n",bad,done); fflush(stdout); _exit(bad!=0); }
'''
b = vp.Build('validate', 'quick')
try:
    os.makedirs(b.d + '/nat', exist_ok=True); open(b.d + '/nat/val.c', 'w').write(src)
    vp.sh(['gcc', '-O2', '-DNATIVE', '-fno-strict-aliasing'] + b.I + b.tierdef + ['-I' + vp.H, '-c', b.d + '/nat/val.c', '-o', b.d + '/nat/h_sig.o'])
    exe = b.native('h_sig', 'val_main'); r = subprocess.run([exe, '/dev/null', '256'], stdout=subprocess.PIPE, text=True, errors='replace'); print(r.stdout[-6000:]); sys.exit(r.returncode)
finally: b.close()
