#!/usr/bin/env python3
"""Runs the checks: builds /repo's current tree to LLVM bitcode and machine code, executes the harness
entries of a property symbolically with build/symx (Z3 decides every branch and assertion), replays
counterexamples and sample paths natively on code compiled with the project's own flags, and writes
evidence/<id>.json.     vp.py check <id> [quick|thorough]   |   vp.py run <harness> <entry> [symx options]"""
import sys, os, re, json, time, subprocess, shutil, collections, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo'); H = V + '/h'; SYMX = V + '/build/symx'
LLVM_LINK = '/usr/lib/llvm-18/bin/llvm-link'
SRC = ['src/prep_cif.c', 'src/types.c', 'src/raw_api.c', 'src/java_raw_api.c', 'src/closures.c', 'src/tramp.c', 'src/x86/ffi64.c', 'src/x86/ffiw64.c']
ASM = ['src/x86/unix64.S', 'src/x86/win64.S']
TAB = 'src/x86/ffi64.c'  # defines ffi_tramp_arch, which these harnesses wrap
WRAP = ('h_tab', 'h_thr')
SUP = ['common', 'abi', 'os']
JOBS = 8
sys.path.insert(0, V)
import checks as T

class BuildError(Exception): pass
def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    if r.returncode: raise BuildError(' '.join(cmd[:4]) + ' ... ' + cmd[-1] + '\n' + r.stdout[-3000:])
    return r.stdout

class Build:
    def __init__(self, tag, tier):
        self.d = f'{V}/build/run-{tag}-{os.getpid()}'; os.makedirs(self.d + '/inc', exist_ok=True); self.tier = tier; self.natlib = None; self.nat = {}
        s = open(REPO + '/include/ffi.h.in').read()
        m = re.search(r'AC_INIT\(\[libffi\],\s*\[([^\]]*)\]', open(REPO + '/configure.ac').read()); ver = m.group(1) if m else '3.4'
        num = '%d%02d%02d' % tuple((list(map(int, re.findall(r'\d+', ver)[:3])) + [0, 0, 0])[:3])
        for a, b in (('@TARGET@', 'X86_64'), ('@HAVE_LONG_DOUBLE@', '1'), ('@FFI_EXEC_TRAMPOLINE_TABLE@', '0'), ('@FFI_VERSION_STRING@', ver), ('@FFI_VERSION_NUMBER@', num), ('@VERSION@', ver)): s = s.replace(a, b)
        open(self.d + '/inc/ffi.h', 'w').write(s)
        shutil.copy(REPO + '/src/x86/ffitarget.h', self.d + '/inc/ffitarget.h'); shutil.copy(H + '/inc/fficonfig.h', self.d + '/inc/fficonfig.h')
        self.I = ['-I' + self.d + '/inc', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + H, '-DHAVE_CONFIG_H', '-w']
        self.CL = ['clang', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fcf-protection=full', '-fexceptions', '-fomit-frame-pointer', '-U_FORTIFY_SOURCE', '-emit-llvm', '-c'] + self.I
        self.tierdef = ['-DVP_TIER=%d' % (2 if tier == 'thorough' else 1)]
    def bc(self, src, out, extra=()): sh(self.CL + list(extra) + self.tierdef + [src, '-o', out]); return out
    def base(self, harnesses):
        """bitcode of the library and support code, objects of the assembly"""
        jobs = []; d = self.d
        with ThreadPoolExecutor(8) as ex:
            for s in SRC: jobs.append(ex.submit(self.bc, f'{REPO}/{s}', f'{d}/{os.path.basename(s)[:-2]}.bc'))
            for s in SUP + list(harnesses): jobs.append(ex.submit(self.bc, f'{H}/{s}.c', f'{d}/{s}.bc', ['-fno-jump-tables']))  # the attribute marks what is not the library's
            jobs.append(ex.submit(self.bc, f'{H}/libc.c', f'{d}/libc.bc', ['-fno-builtin']))
            for s in ASM: jobs.append(ex.submit(sh, ['gcc', '-O3', '-c'] + self.I + [f'{REPO}/{s}', '-o', f'{d}/{os.path.basename(s)[:-2]}.o']))
            jobs.append(ex.submit(sh, ['gcc', '-c', f'{H}/helpers.S', '-o', f'{d}/helpers.o']))
            for j in jobs: j.result()
        lib = [f'{d}/{os.path.basename(s)[:-2]}.bc' for s in SRC]
        if set(WRAP) & set(harnesses): self.bc(f'{REPO}/{TAB}', d + '/tab.bc', ['-Dffi_tramp_arch=vp_real_tramp_arch'])
        for h in harnesses: sh([LLVM_LINK, '-o', f'{d}/{h}.x.bc'] + (lib if h not in WRAP else [d + '/tab.bc' if os.path.basename(TAB)[:-2] in l else l for l in lib]) + [f'{d}/{s}.bc' for s in SUP] + [f'{d}/libc.bc', f'{d}/{h}.bc'])
    def symx(self, h, entry, out, opts):
        cmd = [SYMX, '--ir', f'{self.d}/{h}.x.bc', '--obj', f'{self.d}/unix64.o', '--obj', f'{self.d}/win64.o', '--hobj', f'{self.d}/helpers.o', '--entry', entry, '--out', out, '--jobs', str(JOBS), '--keepeq'] + opts
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
    def native(self, h, entry, san=False):
        """the same harness linked with the library compiled as the project compiles it"""
        key = (h, entry, san)
        if key in self.nat: return self.nat[key]
        d = self.d + ('/san' if san else '/nat'); os.makedirs(d, exist_ok=True)
        cc = ['clang', '-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer'] if san else ['gcc', '-Wall', '-O3', '-fomit-frame-pointer', '-fstrict-aliasing', '-ffast-math']
        libf = cc + ['-fexceptions', '-U_FORTIFY_SOURCE', '-fPIC', '-c'] + self.I
        hcc = ['gcc', '-O1', '-g', '-DNATIVE', '-fno-strict-aliasing', '-U_FORTIFY_SOURCE', '-c'] + self.I + self.tierdef
        if not os.path.exists(d + '/libdone'):
            with ThreadPoolExecutor(8) as ex:
                js = [ex.submit(sh, libf + [f'{REPO}/{s}', '-o', f'{d}/{os.path.basename(s).rsplit(".",1)[0]}.o']) for s in SRC + ASM]
                js += [ex.submit(sh, hcc + [f'{H}/{s}.c', '-o', f'{d}/{s}.o']) for s in SUP] + [ex.submit(sh, ['gcc', '-c', f'{H}/helpers.S', '-o', f'{d}/helpers.o'])]
                for j in js: j.result()
            red = [l.split()[-1] for l in sh(['nm', d + '/os.o']).splitlines() if ' T vp_os_' in l]
            with open(d + '/redef', 'w') as f:
                for n in red: f.write(f'{n[6:]} {n}\n')
            for s in SRC: sh(['objcopy', '--redefine-syms=' + d + '/redef', f'{d}/{os.path.basename(s)[:-2]}.o'])
            open(d + '/libdone', 'w').close()
        if not os.path.exists(f'{d}/{h}.o'): sh(hcc + [f'{H}/{h}.c', '-o', f'{d}/{h}.o'])
        sh(['gcc', '-O1', '-g', '-DNATIVE', '-DENTRY=' + entry, '-w', '-I' + H, '-c', H + '/native.c', '-o', f'{d}/{entry}.main.o'])
        if h in WRAP and not os.path.exists(d + '/tab.o'): sh(libf + ['-Dffi_tramp_arch=vp_real_tramp_arch', f'{REPO}/{TAB}', '-o', d + '/tab.o']); sh(['objcopy', '--redefine-syms=' + d + '/redef', d + '/tab.o'])
        exe = f'{d}/{h}.{entry}'
        sh([cc[0]] + (['-fsanitize=address'] if san else []) + ['-no-pie', '-z', 'noexecstack', '-o', exe, f'{d}/{entry}.main.o', f'{d}/{h}.o'] + [f'{d}/{s}.o' for s in SUP] + [f'{d}/helpers.o'] + [f'{d}/tab.o' if h in WRAP and s == TAB else f'{d}/{os.path.basename(s).rsplit(".",1)[0]}.o' for s in SRC + ASM] + ['-lpthread'])
        self.nat[key] = exe; return exe
    def runnat(self, exe, inputs, fill):
        f = f'{self.d}/in-{hashlib.md5(inputs.encode()).hexdigest()[:12]}'; open(f, 'w').write(inputs + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:handle_segv=0:handle_abort=0:exitcode=1')
        try: r = subprocess.run([exe, f, str(fill)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=40, env=env)
        except subprocess.TimeoutExpired: return 1, 'VP-VIOLATION hang'
        return r.returncode, r.stdout
    def close(self): shutil.rmtree(self.d, ignore_errors=True)

def parse(path):
    R = dict(S=collections.Counter(), C={}, F=collections.Counter(), X=collections.Counter(), E=collections.Counter(), W=[], V=[], Q=collections.Counter(), T=False, D=False)
    if not os.path.exists(path): return R
    for l in open(path, errors='replace'):
        p = l.rstrip('\n').split('\t')
        if p[0] == 'S':
            if p[1] in ('zmax_us', 'maxdepth'): R['S'][p[1]] = max(R['S'][p[1]], int(p[2]))
            else: R['S'][p[1]] += int(p[2])
        elif p[0] == 'C': n, w = R['C'].get(p[1], (0, None)); R['C'][p[1]] = (n + int(p[2]), w or p[3])
        elif p[0] == 'F': R['F'][p[1]] += int(p[2])
        elif p[0] == 'X': R['X'][p[1]] += int(p[2])
        elif p[0] == 'Q': R['Q'][p[1]] += int(p[2])
        elif p[0] == 'E': R['E'][p[1]] += 1
        elif p[0] == 'W': R['W'].append(p[1] if len(p) > 1 else '')
        elif p[0] == 'V': R['V'].append(dict(kind=p[1], msg=p[2], where=p[3], notes=p[4], inputs=p[5] if len(p) > 5 else ''))
        elif p[0] == 'T': R['T'] = True
        elif p[0] == 'D': R['D'] = True
    return R

def short(inp, n=600):
    return inp if len(inp) <= n else inp[:n] + '...(%d chars)' % len(inp)

def check(pid, tier):
    t0 = time.time(); chk = T.CHECKS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    runs = [r for r in chk['runs'] if tier in r.get('tiers', ('quick', 'thorough'))]
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid and k.get('status') == 'known']
    viols, errs, knownhit = [], [], {}; tot = collections.Counter(); funcs = collections.Counter(); samples = []; traces = 0; tracebad = []; perrun = []; covers = collections.Counter()
    if not os.path.exists(SYMX): sh(['make', '-C', V + '/symx'])
    b = Build(pid, tier)
    try:
        try: b.base(sorted(set(r['h'] for r in runs)))
        except BuildError as e: print('BUILD ERROR', e); return 2
        for i, r in enumerate(runs):
            if viols and time.time() - t0 > 200: perrun.append(dict(harness=r['h'] + ':' + r['entry'], bounds=r.get('bounds', ''), skipped='violations found before')); continue
            out = f'{b.d}/out{i}'; tl = r.get('time', {}).get(tier, 400 if tier == 'quick' else 3600)
            opts = ['--time', str(tl), '--seed', str(seed), '--prop', pid] + r.get('opts', [])
            p = b.symx(r['h'], r['entry'], out, opts); R = parse(out); S = R['S']
            name = r['h'] + ':' + r['entry']
            if p.returncode or not R['D']: errs.append(f'{name}: executor failed: {p.stderr[-300:]}')
            for e, n in R['E'].items(): errs.append(f'{name}: {e} (x{n})')
            if R['T']: errs.append(f'{name}: not finished within {tl} s')
            allcov = set(R['C'])
            mine = []
            for v in R['V']:
                m = re.match(r'(C\d\d(?:,C\d\d)*): ', v['msg']); own = m.group(1).split(',') if m else None
                if own and pid not in own: tot['other_property_violations'] += 1; continue
                if own is None and v['kind'] == 'assert' and r.get('only'): continue
                mine.append(v)
            if not R['V']:
                for c in r.get('cover', []):
                    if c not in allcov: errs.append(f'{name}: vacuous, point "{c}" was never reached')
                if S['completed'] == 0: errs.append(f'{name}: vacuous, no path completed')
            seen = set()
            for v in mine:
                k = (v['kind'], v['msg'], v['where'].split(' < ')[0])
                kf = [q for q in known if q['entry'] == r['entry'] and re.search(q['msg'], v['msg']) and re.search(q.get('where', ''), v['where']) and re.search(q.get('notes', ''), v['notes'])]
                if kf: knownhit[kf[0]['id']] = kf[0]; continue
                if k in seen: continue
                seen.add(k); v['run'] = r; viols.append(v)
            # replay sample paths natively: the encoding and the compiled code must agree that they are fine
            wit = [w for _, w in R['C'].values() if w] + R['W']; wit = list(dict.fromkeys(w for w in wit if w is not None))[:r.get('traces', 24)]
            nbad = 0; nok = 0
            if not r.get('nonative') and not R['V'] and wit:
                try:
                    exe = b.native(r['h'], r['entry'])
                    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda w: b.runnat(exe, w, 0xA5), wit))
                    for w, (rc, o) in zip(wit, res):
                        if rc == 0: nok += 1
                        else: nbad += 1; tracebad.append(dict(run=name, rc=rc, out=o[-300:], inputs=w))
                except BuildError as e: errs.append(f'{name}: native build: {e}')
            traces += nok
            for k in ('queries', 'sat', 'unsat', 'paths', 'completed', 'killed', 'forks', 'steps', 'asmsteps', 'asserts', 'assertsSolver', 'memchk', 'cfi', 'ztime_us'): tot[k] += S[k]
            tot['zmax_us'] = max(tot['zmax_us'], S['zmax_us']); funcs.update(R['F'])
            for c, (n, _) in R['C'].items(): covers[c] += n
            for w in R['W'][:2]: samples.append(dict(harness=name, inputs=short(w)))
            perrun.append(dict(harness=name, bounds=r.get('bounds', ''), paths=S['completed'], queries=S['queries'], asserts=S['asserts'], solver_s=round(S['ztime_us'] / 1e6, 2), wall_s=round(S['wall_ms'] / 1e3, 2), ends=dict(R['X'].most_common(8)), replayed=nok))
        # a path the executor passes but the compiled code fails is a violation too (or an encoding error): report it
        for tb in tracebad:
            m = re.search(r'VP-VIOLATION (?:(C\d\d(?:,C\d\d)*): )?(.*)', tb['out'])
            if m and (m.group(1) is None or pid in m.group(1).split(',')):
                h, e = tb['run'].split(':'); viols.append(dict(kind='native', msg=m.group(2), where=tb['run'], notes='passes symbolically, fails natively', inputs=tb['inputs'], run=dict(h=h, entry=e), native=tb['out']))
            elif m: pass
            else: errs.append(f"native replay of a passing path ended with {tb['rc']}: {tb['out'][-200:]} {short(tb['inputs'],200)}")
        confirmed = []
        for v in viols:
            if v['kind'] == 'native': confirmed.append(v); continue
            how = None; r = v['run']
            if len(confirmed) >= 8 or (confirmed and time.time() - t0 > 400): continue
            if not r.get('nonative'):
                try:
                    for san in (False, True):
                        exe = b.native(r['h'], r['entry'], san)
                        for fill in (0xA5, 0, 0xFF):
                            rc, o = b.runnat(exe, v['inputs'], fill)
                            if rc == 1 and ('VP-VIOLATION' in o or 'AddressSanitizer' in o): how = ('native' + (' (AddressSanitizer)' if san else '')) + ': ' + re.sub(r'\s+', ' ', o)[-400:]; break
                        if how: break
                except BuildError as e: how = None; errs.append(f'native build: {e}')
            if not how:
                f = f'{b.d}/cin'; open(f, 'w').write(v['inputs']); o2 = f'{b.d}/cout'
                b.symx(r['h'], r['entry'], o2, ['--time', '120', '--prop', pid, '--inputs', f] + r.get('opts', [])); R2 = parse(o2)
                if any(x['kind'] == v['kind'] and x['msg'] == v['msg'] for x in R2['V']): how = 'concrete re-execution of the compiled code by the executor (not observable as a native crash or wrong value)'
            if how: v['how'] = how; confirmed.append(v)
            else: errs.append('counterexample not reproduced: %s: %s at %s inputs %s' % (v['kind'], v['msg'], v['where'], short(v['inputs'], 300)))
        for k in known:
            if k['id'] in knownhit: print(f"KNOWN-FINDING: property={pid} {k['what']}")
        rc = 0
        if confirmed:
            os.makedirs(V + '/build/replays', exist_ok=True)
            for i, v in enumerate(confirmed[:8]):
                rp = f'{V}/build/replays/{pid}-{i}.txt'
                with open(rp, 'w') as f: f.write(f"property {pid}\nharness {v['run']['h']} entry {v['run']['entry']}\n{v['kind']}: {v['msg']}\nwhere {v['where']}\nnotes {v['notes']}\nreproduced {v.get('how', v.get('native',''))}\ninputs {v['inputs']}\nreplay: {V}/vp.py replay {rp}\n")
                print(f"VIOLATION property={pid} replay={rp}"); print(f"  {v['kind']}: {v['msg']} [{v['where']}] {v['notes'][:300]}"); print(f"  inputs {short(v['inputs'], 400)}"); print(f"  {v.get('how', v.get('native',''))[:500]}")
            rc = 1
        elif errs: rc = 2
        for e in errs[:12]: print('CHECK-ERROR', e[:1500])
        ev = dict(property=pid, tier=tier, seed=seed, level=chk.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=len(confirmed),
            coverage=dict(states=tot['completed'], transitions=tot['steps'], traces_validated_against_impl=traces, samples=samples[:12] or [dict(note='no completed path')], exhaustive=not errs,
                functions_encoded=sorted(f for f in funcs if not f.startswith('h_')), assembly_instructions_executed=tot['asmsteps'], solver_queries=tot['queries'], solver_unsat=tot['unsat'], solver_time_s=round(tot['ztime_us'] / 1e6, 2), solver_longest_query_s=round(tot['zmax_us'] / 1e6, 3),
                assertions_discharged=tot['asserts'], assertions_needing_solver=tot['assertsSolver'], memory_accesses_checked=tot['memchk'], unwind_states_checked=tot['cfi'], reached=dict(covers), runs=perrun, errors=errs[:10]),
            assumptions=T.ASSUME + chk.get('assume', []))
        os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
        print(f"{pid} {tier}: rc={rc} paths={tot['completed']} queries={tot['queries']} solver={tot['ztime_us']/1e6:.1f}s asserts={tot['asserts']} replayed={traces} wall={time.time()-t0:.1f}s")
        return rc
    finally:
        if not os.environ.get('VP_KEEP'): b.close()

def dev(h, entry, opts):
    tier = os.environ.get('VP_TIERNAME', 'quick'); b = Build('dev', tier)
    try:
        b.base([h]); out = b.d + '/o'; t = time.time()
        o = [x for x in opts if x != '--native']; p = b.symx(h, entry, out, (['--time', '600'] if '--time' not in o else []) + o); R = parse(out)
        print(re.sub(r"[ \n]+", " ", p.stderr)[-6000:].replace("QUERY", "\nQUERY")); print({k: v for k, v in R['S'].items()}); print('ends', dict(R['X'].most_common(12))); print('covers', {k: v[0] for k, v in R['C'].items()})
        for w, n in R['Q'].most_common(25): print('Q', n, w)
        if R['T']: print('TIMEOUT')
        for e, n in R['E'].most_common(8): print('E', n, e[:500])
        for v in R['V'][:8]: print('V', v['kind'], '|', v['msg'], '|', v['where'], '|', v['notes'][:300], '|', short(v['inputs'], 500))
        if '--native' in opts:
            exe = b.native(h, entry)
            for v in R['V'][:6]:
                for fill in (0xA5, 0): print('NATIVE', b.runnat(exe, v['inputs'], fill))
            bad = 0; n = 0
            for w in ([w for _, w in R['C'].values()] + R['W'])[:40]:
                rc, o = b.runnat(exe, w or '', 0xA5); n += 1
                if rc: bad += 1; print('WIT', rc, o[-300:], short(w, 200))
            print('witnesses', n, 'bad', bad)
        print('wall %.1f' % (time.time() - t))
    finally:
        if not os.environ.get('VP_KEEP'): b.close()

def replay(path):
    d = open(path).read(); h, e = re.search(r'harness (\S+) entry (\S+)', d).groups(); inp = re.search(r'inputs (.*)', d).group(1); b = Build('replay', 'quick')
    try:
        for san in (False, True):
            exe = b.native(h, e, san)
            for fill in (0xA5, 0, 0xFF): print(san, hex(fill), b.runnat(exe, inp, fill))
        b.base([h]); f = b.d + '/cin'; open(f, 'w').write(inp); b.symx(h, e, b.d + '/cout', ['--inputs', f]); print(parse(b.d + '/cout')['V'])
    finally: b.close()

if __name__ == '__main__':
    if sys.argv[1] == 'check': sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')))
    elif sys.argv[1] == 'run': dev(sys.argv[2], sys.argv[3], sys.argv[4:])
    elif sys.argv[1] == 'replay': replay(sys.argv[2])
