#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py ID [--tier quick|thorough] [--jobs N] [--keep]
Compiles /repo's current sources and the property's harnesses to LLVM bitcode, executes them symbolically (build/symx),
replays every counterexample against a native build of the same sources and reports those that reproduce."""
import sys, os, subprocess, json, time, shutil, tempfile, glob, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.path.insert(0, V)
from registry import CHECKS

BCF = '-w -std=c++17 -O1 -fno-pic -ffp-contract=off -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -U_FORTIFY_SOURCE -DHAVE_SSE2 -msse2'.split()
NAT = {'plain': '-w -std=c++17 -O1 -g -DHAVE_SSE2 -msse2 -DREPLAY_HEAP -fno-builtin-malloc'.split(),
       'asan': '-w -std=c++17 -O1 -g -DHAVE_SSE2 -msse2 -fsanitize=address -fno-omit-frame-pointer'.split()}
LIBS = sorted(glob.glob(REPO + '/lib/*.cpp') + glob.glob(REPO + '/unicode/*.cpp'))
LIBS = [f for f in LIBS if not os.path.basename(f).startswith('matcher_')]

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        sys.stdout.write(p.stdout.decode('utf8', 'replace')[-4000:])
        raise RuntimeError('command failed: ' + ' '.join(cmd)[:300])
    return p.stdout

class Check:
    def __init__(self, pid, tier, workers):
        self.pid, self.tier, self.workers = pid, tier, workers
        self.t0 = time.time()
        os.makedirs(V + '/build', exist_ok=True)
        self.W = tempfile.mkdtemp(prefix='work-%s-' % pid, dir=V + '/build')
        self.pool = ThreadPoolExecutor(max_workers=max(4, os.cpu_count() or 4))
        self.cfg = CHECKS[pid]
        self.inc = ['-I' + REPO + '/include', '-I' + REPO + '/fuzzy', '-I' + V + '/rt', '-I' + V + '/harness', '-I' + self.W]
        self.nat_lock = threading.Lock(); self.nat = {}
        self.budget = self.cfg.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
        self.libf = self.cfg.get('libflags', [])
        self.extra = []  # generated sources linked into every harness
        self.defs = self.libf + ['-DTIER=%d' % (2 if tier == 'thorough' else 1)]

    def build_symx(self):
        out = V + '/build/symx'
        srcs = glob.glob(V + '/engine/*')
        if not os.path.exists(out) or any(os.path.getmtime(s) > os.path.getmtime(out) for s in srcs):
            tmp = self.W + '/symx_out'; os.makedirs(tmp)
            run([V + '/engine/build.sh', tmp]); os.replace(tmp + '/symx', out)

    def base(self):
        rt = self.pool.submit(run, ['clang++'] + BCF + ['-fno-builtin', '-fno-access-control', '-I' + V + '/rt', '-emit-llvm', '-c', V + '/rt/symrt.cpp', '-o', self.W + '/symrt.bc'])
        self.bases = {}
        for k in sorted({tuple(h.get('lib', [])) for h in self.cfg['harnesses'] if self.tier in h.get('tiers', ('quick', 'thorough'))}):   # a harness may want the library with more flags (hooks)
            d = '%s/l%d' % (self.W, len(self.bases)); os.makedirs(d)
            self.bases[k] = (d + '/base.bc', [self.pool.submit(run, ['clang++'] + BCF + self.inc + self.libf + list(k) + ['-emit-llvm', '-c', f, '-o', d + '/l_' + os.path.basename(f) + '.bc']) for f in LIBS])
        rt.result()
        for b, js in self.bases.values():
            for j in js: j.result()
            run(['llvm-link'] + sorted(glob.glob(os.path.dirname(b) + '/l_*.bc')) + [self.W + '/symrt.bc', '-o', b])

    def prepare(self):
        for g in self.cfg.get('gen', []):   # generated sources: callables (check) -> None
            g(self)

    def hsrc(self, h):
        s = h['src']
        return s if s.startswith('/') else (self.W + '/' + s[4:] if s.startswith('gen:') else V + '/harness/' + s)

    def compile_h(self, h):
        o = self.W + '/h_' + h['name']
        run(['clang++'] + BCF + self.inc + self.defs + ['-DSYMX'] + h.get('lib', []) + h.get('flags', []) + ['-emit-llvm', '-c', self.hsrc(h), '-o', o + '_h.bc'])
        objs = [o + '_h.bc'] + [x + '.bc' for x in self.extra]
        for r in h.get('rt', []):   # models of system libraries, for symbolic execution only
            run(['clang++'] + BCF + ['-fno-builtin', '-fno-access-control', '-I' + V + '/rt', '-emit-llvm', '-c', '%s/rt/%s' % (V, r), '-o', '%s_%s.bc' % (o, r)]); objs.append('%s_%s.bc' % (o, r))
        run(['llvm-link'] + objs + [self.bases[tuple(h.get('lib', []))][0], '-o', o + '.bc'])
        return o + '.bc'

    def pool2(self): return ThreadPoolExecutor(max_workers=os.cpu_count() or 4)

    # generators (called from the registry): a native tool that writes files into the work directory
    def tool(self, src, flags):
        exe = self.native({'src': src, 'name': 'tool_' + src.replace('.cpp', ''), 'flags': flags, 'tool': True}, 'plain')
        r = self.exec_native(exe, 0, '', 600)
        if r[0]: raise RuntimeError('%s failed: %s %s' % (src, r[0], r[2][-300:]))

    def scanners(self, jobs, pre='c15'):
        """runs /repo's reflex (built now) on the specifications <pre>_<i>.l and compiles the generated scanners"""
        self.tool(pre + 'gen.cpp', ['-DJOBS=%d' % jobs])
        lib = [o for o in self.nat[('lib', 'plain')] if not o.endswith('/replay.cpp.o')]
        run(['g++', '-w', '-O1', '-std=c++17', '-DHAVE_SSE2', '-msse2'] + self.inc + ['-I' + REPO + '/src', REPO + '/src/reflex.cpp'] + lib + ['-o', self.W + '/reflex'])
        def one(i):
            b = '%s/%s_%d' % (self.W, pre, i); args = open(b + '.args').read().split('\n')[:-1]; why = ''
            bc = ['clang++'] + BCF + self.inc + self.defs + ['-emit-llvm', '-c', b + '.cpp', '-o', b + '.cpp.bc']
            try:
                p = subprocess.run([self.W + '/reflex'] + args + ['-o', b + '.cpp', b + '.l'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.W, timeout=60)
                if p.returncode or not os.path.exists(b + '.cpp'): why = 'reflex rejects the specification: ' + p.stdout.decode('latin1')[-160:]
                else:
                    p = subprocess.run(bc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.W)
                    if p.returncode: why = 'the generated scanner does not compile: ' + '; '.join([l for l in p.stdout.decode('latin1').split('\n') if 'error' in l][:1])[-160:]
            except subprocess.TimeoutExpired: why = 'reflex does not terminate'
            if why:
                with open(b + '.cpp', 'w') as f: f.write('#include "sym.h"\n#include <stddef.h>\nextern "C" void %s_run_%d(const char*, size_t) { sym_fail(%s); }\n' % (pre, i, json.dumps(why.replace('\n', ' '))))
                run(bc)
            return b + '.cpp'
        self.extra = list(self.pool2().map(one, range(jobs)))

    # native builds (lazily, shared by all harnesses)
    def native_lib(self, kind, lib=()):
        d = '%s/nat_%s%s' % (self.W, kind, ''.join(lib)); os.makedirs(d, exist_ok=True)
        cs = [[ 'clang++' if kind == 'asan' else 'g++'] + NAT[kind] + self.inc + self.libf + list(lib) + ['-c', f, '-o', d + '/' + os.path.basename(f) + '.o'] for f in LIBS + [V + '/rt/replay.cpp']]
        list(self.pool.map(run, cs))
        return sorted(glob.glob(d + '/*.o'))

    def native(self, h, kind):
        with self.nat_lock:
            lib = tuple(h.get('lib', [])); lk = ('lib', kind) + lib
            if lk not in self.nat: self.nat[lk] = self.native_lib(kind, lib)
            k = (h['name'], kind)
            if k not in self.nat:
                exe = self.W + '/x_%s_%s' % k
                cc = 'clang++' if kind == 'asan' else 'g++'
                if ('extra', kind) not in self.nat and not h.get('tool'):
                    self.nat[('extra', kind)] = ['%s.%s.o' % (x, kind) for x in self.extra]
                    list(self.pool2().map(run, [[cc] + NAT[kind] + self.inc + self.defs + ['-c', x, '-o', '%s.%s.o' % (x, kind)] for x in self.extra]))
                run([cc] + NAT[kind] + self.inc + self.defs + list(lib) + h.get('flags', []) + [self.hsrc(h)] + ([] if h.get('tool') else self.nat[('extra', kind)]) + self.nat[lk] + h.get('ld', []) + ['-o', exe])
                self.nat[k] = exe
            return self.nat[k]

    def exec_native(self, exe, job, inputs, timeout=20, pre=[]):
        fd, fn = tempfile.mkstemp(dir=self.W); os.write(fd, inputs.encode()); os.close(fd)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0', LC_ALL='C')
        try:
            p = subprocess.run(pre + [exe, str(job), fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=self.W)
            r = (p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1'))
        except subprocess.TimeoutExpired:
            r = ('timeout', '', '')
        os.unlink(fn)
        return r

    def confirm(self, h, job, v):
        """does the counterexample break the real code?  returns (bool, how)"""
        kind = v['kind']
        def bad(r):
            if r[0] == 'timeout': return 'does not terminate' if kind == 'hang' else None
            if 'REPLAY-VIOLATION' in r[1]: return [l for l in r[1].split('\n') if 'REPLAY-VIOLATION' in l][0]
            if r[0] in (77, 78, 3): return None
            if 'AddressSanitizer' in r[2]: return [l for l in r[2].split('\n') if 'AddressSanitizer' in l][0]
            if 'terminate called' in r[2] or 'Assertion' in r[2]: return r[2].strip().split('\n')[0]
            if isinstance(r[0], int) and r[0] < 0: return 'killed by signal %d' % -r[0]
            return None
        if kind != 'uninit':
            order = ['asan', 'plain'] if kind in ('memory', 'alloc', 'stack', 'abort', 'exception', 'terminate', 'arith') else ['plain', 'asan']
            for k in order:
                b = bad(self.exec_native(self.native(h, k), job, v['inputs']))
                if b: return True, k + ' build: ' + b
        if kind in ('uninit', 'memory', 'assert'):
            r = self.exec_native(self.native(h, 'plain'), job, v['inputs'], 300, ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes'])
            if r[0] == 99: return True, 'valgrind: ' + ' '.join(r[2].split('\n')[:3])[:300]
        return False, ''

    def main(self):
        pid = self.pid
        f1 = self.pool.submit(self.build_symx)
        f2 = self.pool.submit(self.base)
        f1.result(); f2.result()
        self.prepare()
        hs = [dict(h) for h in self.cfg['harnesses'] if self.tier in h.get('tiers', ('quick', 'thorough'))]
        for h in hs: h.setdefault('name', h['src'].replace('gen:', '').replace('.cpp', ''))
        bcs = list(self.pool.map(self.compile_h, hs))
        findings = {}
        kfile = V + '/known_findings.json'
        if os.path.exists(kfile):
            for k in json.load(open(kfile))['findings']: findings.setdefault(k['property'], {})[k['id']] = k
        tot = dict(paths=0, assume_ended=0, forks=0, insts=0, asserts=0, assert_queries=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
        funcs, covers, samples, incompl, viol, unrepro, known = set(), set(), [], [], [], [], {}
        njobs = ndone = 0; per = []
        weights = [h.get('weight', 1.0) for h in hs]
        for i, (h, bc) in enumerate(zip(hs, bcs)):
            left = self.budget - (time.time() - self.t0)
            share = max(20.0, left * weights[i] / sum(weights[i:]))
            jt = h.get('job_time', {}).get(self.tier, 60 if self.tier == 'quick' else 600)
            out = '%s/out_%s.json' % (self.W, h['name'])
            cmd = [V + '/build/symx', bc, '--workers', str(self.workers), '--out', out, '--job-time', str(jt), '--total-time', str(share), '--samples', str(h.get('samples', 2))] + h.get('symx', [])
            t1 = time.time()
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                err = p.stderr.decode('utf8', 'replace')
                print(err[-2000:]); raise RuntimeError('symx failed on ' + h['name'])
            hj = hd = hp = 0
            for line in open(out, encoding='latin1'):
                d = json.loads(line)
                if 'done' in d: continue
                hj += 1
                if d.get('incomplete'): incompl.append('%s job %d: %s' % (h['name'], d['job'], d['incomplete']))
                else: hd += 1
                for k in tot: tot[k] += d.get(k, 0)
                hp += d.get('paths', 0)
                funcs.update(d.get('functions', [])); covers.update(d.get('covers', []))
                for v in d.get('violations', []): viol.append((h, d['job'], v))
                for k in d.get('known', []): known.setdefault(k['id'], []).append((h, d['job'], k['inputs']))
                for s in d.get('samples', []): samples.append((h, d['job'], s))
            njobs += hj; ndone += hd
            per.append({'harness': h['name'], 'bounds': h.get('bounds', ''), 'jobs': hj, 'jobs_complete': hd, 'paths': hp, 'wall_s': round(time.time() - t1, 1)})
        # violations: replay
        real = []; seen = set()
        for h, job, v in viol[:60]:
            key = (h['name'], v['msg'], v['func'])
            if len(real) >= 5 or (key in seen and len(real) > 0): continue
            seen.add(key)
            ok, how = self.confirm(h, job, v)
            if ok: real.append((h, job, v, how))
            else: unrepro.append('%s job %d: %s %s (%s)' % (h['name'], job, v['kind'], v['msg'], v['func'][:200]))
        # known findings
        for kid, occ in sorted(known.items()):
            h, job, inputs = occ[0]
            r = self.exec_native(self.native(h, 'plain'), job, inputs)
            rep = 'REPLAY-KNOWN ' + kid in r[1]
            if kid in findings.get(pid, {}):
                print('KNOWN-FINDING: property=%s %s: %s' % (pid, kid, findings[pid][kid]['what']))
            elif rep:
                real.append((h, job, {'kind': 'known', 'msg': 'unlisted finding ' + kid, 'func': '', 'note': '', 'inputs': inputs}, r[1]))
        # sampled paths against the native build
        validated = 0; mismatches = []
        maxs = 150 if self.tier == 'quick' else 600
        if len(samples) > maxs: step = len(samples) / maxs; samples_run = [samples[int(i * step)] for i in range(maxs)]
        else: samples_run = samples
        if samples_run:
            for h in hs: self.native(h, 'plain')
            def one(s):
                h, job, txt = s
                want = [l for l in txt.split('\n') if l.startswith('OUT ')]
                r = self.exec_native(self.native(h, 'plain'), job, txt, 60)
                got = [l for l in r[1].split('\n') if l.startswith('OUT ')]
                return r[0] == 0 and got == want, r, s
            for ok, r, s in self.pool.map(one, samples_run):
                if ok: validated += 1
                else: mismatches.append((s, r))
        # a sampled concrete path that violates natively is a violation too
        for (h, job, txt), r in mismatches[:5]:
            if 'REPLAY-VIOLATION' in r[1]:
                real.append((h, job, {'kind': 'assert', 'msg': r[1][r[1].index('REPLAY-VIOLATION'):][:200], 'func': '', 'note': 'native run of a sampled path', 'inputs': txt}, r[1][-300:]))
        os.makedirs(V + '/evidence', exist_ok=True)
        for f in glob.glob(V + '/evidence/replay_%s_*' % pid): os.unlink(f)
        for n, (h, job, v, how) in enumerate(real):
            fn = V + '/evidence/replay_%s_%d.txt' % (pid, n)
            with open(fn, 'w') as f:
                f.write('property %s\nharness %s (job %d)\nviolation %s: %s\nwhere %s\ncase %s\nreproduced %s\ninputs (replay: compile harness with rt/replay.cpp, run "exe %d FILE" on the lines below)\n%s' % (pid, h['name'], job, v['kind'], v['msg'], v['func'], v['note'], how, job, v['inputs']))
            print('VIOLATION property=%s replay=%s' % (pid, fn))
            print('  %s: %s | %s | %s | %s' % (v['kind'], v['msg'], v['note'], how, v['inputs'].replace('\n', '; ')[:400]))
        repofuncs = sorted(f for f in funcs if 'reflex' in f or f.startswith('reflex'))
        def dem(l):
            if not l: return []
            p = subprocess.run(['c++filt', '-p'], input='\n'.join(l).encode(), stdout=subprocess.PIPE); return p.stdout.decode().split('\n')
        names = sorted(set(x for x in dem(repofuncs) if x.startswith('reflex::') or 'reflex' in x))
        mm = ['%s job %d: rc=%s out=%s want=%s' % (s[0]['name'], s[1], r[0], r[1][-200:], s[2][-200:]) for s, r in mismatches[:5]]
        ev = {'property': pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(time.time() - self.t0, 1), 'violations': len(real),
              'coverage': {'states': tot['paths'] + tot['forks'], 'transitions': tot['insts'], 'traces_validated_against_impl': validated,
                           'samples': [{'harness': h['name'], 'job': j, 'path': t.strip().split('\n')[:14]} for h, j, t in samples[:: max(1, len(samples) // 6)][:6]],
                           'jobs': njobs, 'jobs_fully_explored': ndone, 'exhaustive': ndone == njobs and not unrepro, 'paths': tot['paths'], 'paths_ended_by_assumption': tot['assume_ended'], 'forks': tot['forks'],
                           'assertions_evaluated': tot['asserts'], 'assertions_decided_by_solver': tot['assert_queries'], 'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 2),
                           'harnesses': per, 'covers': sorted(covers)[:80], 'functions_encoded': len(funcs), 'library_functions': [x[:110] for x in names][:160],
                           'incomplete': incompl[:40], 'incomplete_count': len(incompl), 'unreproduced_alarms': unrepro[:10], 'native_mismatches': mm, 'known_findings_seen': sorted(known)},
              'assumptions': self.cfg.get('assumptions', []) + ['clang 18 -O1 bitcode of /repo sources, SSE2-only CPU model, C locale, allocation never fails', 'bounds: ' + '; '.join(x['harness'] + ': ' + x['bounds'] for x in per)]}
        json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
        print('%s %s: %d/%d jobs explored completely, %d paths, %d asserts, %d solver queries (%.1fs), %d traces validated, %d mismatches, %d unreproduced, %.0fs' % (pid, self.tier, ndone, njobs, tot['paths'], tot['asserts'], tot['queries'], tot['solver_s'], validated, len(mismatches), len(unrepro), time.time() - self.t0))
        for x in unrepro[:5]: print('  unreproduced: ' + x[:300])
        for x in mm[:3]: print('  mismatch: ' + x)
        for x in incompl[:5]: print('  incomplete: ' + x)
        miss = [c for c in self.cfg.get('covers', []) if c not in covers]
        if miss: print('  not covered: ' + ', '.join(miss))
        if real: return 1
        if tot['asserts'] == 0 and tot['paths'] == 0: print('nothing was explored'); return 2
        if miss and not incompl: print('vacuous: required situations not reached'); return 2
        return 0

if __name__ == '__main__':
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
    workers = os.cpu_count() or 4
    if '--jobs' in args: i = args.index('--jobs'); workers = int(args[i + 1]); del args[i:i + 2]
    keep = '--keep' in args
    if keep: args.remove('--keep')
    c = Check(args[0], tier, workers)
    try: rc = c.main()
    except RuntimeError as e: print('error: %s' % e); rc = 2
    finally:
        if not keep: shutil.rmtree(c.W, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
