#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree.
 1. the C sources are compiled to LLVM IR (clang -O0 + mem2reg) and every
    function named by dv/plan.py is verified against its contract (dv/job.py):
    symbolic execution of the IR, loop invariants, callees by contract, every
    obligation discharged by z3;
 2. the same sources are linked to a native falsifier (native/): it replays the
    property on the real code, finds a failing input where an obligation fails,
    and is the labelled bounded stand-in where the verifier gives no answer.
Exit 0 held, 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, signal, threading, re, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dv'))
import plan
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
NPROC = max(2, min(8, os.cpu_count() or 2))
WRAP = '''fcntl fcntl64 msync mlock mmap munmap malloc calloc realloc free socket bind getsockname connect
 epoll_create epoll_create1 epoll_ctl epoll_wait ftruncate ftruncate64 fstat fstat64 send ioctl open open64 read opendir
 close write kill'''.split()

def sh(cmd, timeout=120, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd, start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate()
        return -99, out

class Check:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.env = dict(os.environ, VERIF_WORK=work, VERIF_REPO=REPO, FZTMP=work, LC_ALL='C', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.notes = []; self.natfail = []; self.natruns = 0; self.natother = {}; self.natcases = {}; self.stop = False
        self.lock = threading.Lock()
    # ------------------------------------------------------------ native
    def build_native(self, asan):
        o = os.path.join(self.work, 'asan' if asan else 'plain'); os.makedirs(o)
        S = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined'] if asan and 0 else (['-fsanitize=address'] if asan else [])
        N = os.path.join(HERE, 'native')
        t = os.path.join(o, 'tool.o')
        cc = ['gcc', '-g', '-O1', '-w'] + S
        r, out = sh(cc + ['-I%s/src' % REPO, '-Dmain=tool_main', '-c', '-o', t, REPO + '/util/shr-tool.c'])
        if r: raise RuntimeError('shr-tool.c does not build: ' + out[-800:])
        r, out = sh(['objcopy', '--keep-global-symbol=tool_main', t])
        if r: raise RuntimeError('objcopy: ' + out[-800:])
        r, out = sh(cc + ['-I%s/src' % REPO, '-I%s/lib' % REPO, '-I' + N, '-DFULL', '-o', o + '/fz'] + [os.path.join(N, f) for f in ('fz.c', 'fz2.c', 'fz3.c', 'wrap.c')] +
                    [t] + [REPO + x for x in ('/src/shr.c', '/lib/bw.c', '/lib/ux.c')] + ['-Wl,--wrap=' + w for w in WRAP])
        if r: raise RuntimeError('falsifier does not build: ' + out[-800:])
        return o + '/fz'
    def layout(self):
        r, out = sh([PY, os.path.join(HERE, 'dv', 'lay.py')], env=self.env)
        if r: raise RuntimeError('layout: ' + out[-400:])
        return out.strip().split('\n')[-1]
    def nat_one(self, exe, mode, seed, args):
        cmd = [exe, '-L', self.lay, mode, str(seed)] + args.split()
        r, out = sh(cmd, timeout=150, env=self.env)
        return r, out, cmd
    def classify(self, r, out):
        """tags of a failed run, or None"""
        if r == 0: return None
        m = re.search(r'^FAIL (\S+) ?(.*)$', out, re.M)
        if m: return m.group(1).split(','), m.group(2)
        if 'AddressSanitizer' in out or 'LeakSanitizer' in out or 'runtime error' in out:
            k = re.search(r'(AddressSanitizer|LeakSanitizer|runtime error)[^\n]*', out).group(0)
            return (['P19', 'P15'] if 'Leak' in k else ['P15']), k
        if r in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL): return ['P15'], 'died on signal %d' % -r
        return [], 'harness error rc=%d' % r
    def native(self, mode, runs, args, base, deadline=None):
        def one(i):
            if self.stop or (deadline and time.time() > deadline): return
            seed = (base + i) % 1000000007
            exe = self.asan if i % 2 else self.plain
            r, out, cmd = self.nat_one(exe, mode, seed, args)
            with self.lock: self.natruns += 1; k = mode + ' ' + args; self.natcases[k] = self.natcases.get(k, 0) + 1
            c = self.classify(r, out)
            if c is None: return
            # a failure counts only when the same seed fails again
            tags, msg = c
            if self.prop not in tags:
                with self.lock: k = ','.join(tags) + ' ' + msg; self.natother[k] = self.natother.get(k, 0) + 1
                return
            for _ in range(2):
                r2, out2, _c = self.nat_one(exe, mode, seed, args)
                c2 = self.classify(r2, out2)
                if c2 and self.prop in c2[0]:
                    with self.lock:
                        self.natfail.append((mode, seed, args, msg, out2, cmd))
                        if len(self.natfail) >= 2: self.stop = True
                    return
            with self.lock: self.notes.append('not reproduced: %s %d %s: %s' % (mode, seed, args, msg))
        return one, range(runs)
    def campaign(self, camps, scale, salt, pool, deadline=None):
        futs = []
        for n, (mode, runs, args) in enumerate(camps):
            base = random.Random('%d %s %s %d' % (self.seed, mode, salt, n)).randrange(1, 900000000)
            one, rng = self.native(mode, max(1, int(runs * scale)), args, base, deadline)
            futs += [pool.submit(one, i) for i in rng]
        return futs
    # ------------------------------------------------------------ deductive
    def job(self, n, spec, budget):
        out = os.path.join(self.work, 'job%d.json' % n)
        t = time.time()
        if self.tier == 'quick' and t - T0 > 560: return dict(spec=spec, status='budget', msg='time of the check used up', obl=[], wall=0)
        if self.tier == 'quick': budget = max(12, min(budget, 450 - (t - T0)))     # a quick check answers within its time whatever happens to the proofs
        r, txt = sh([PY, os.path.join(HERE, 'dv', 'job.py'), spec, self.prop, str(budget), out], timeout=budget + 30, env=self.env)
        try: d = json.load(open(out))
        except Exception: d = dict(spec=spec, status='unsupported', msg='job ended with %d: %s' % (r, txt[-500:]), obl=[])
        d['wall'] = round(time.time() - t, 1)
        return d
    # ------------------------------------------------------------ main
    def run(self):
        P, quick = self.prop, self.tier == 'quick'
        jobs = plan.PLAN.get(P, []); camps = plan.NAT.get(P, [])
        budget = 240 if quick else 1200
        pool = ThreadPoolExecutor(NPROC)
        built = True
        try:
            fs = [pool.submit(self.layout), pool.submit(self.build_native, False), pool.submit(self.build_native, True)]
            self.lay, self.plain, self.asan = [f.result() for f in fs]
        except Exception as e:
            built = False; self.notes.append('no falsifier: %s' % e)
        jf = [pool.submit(self.job, n, s, budget) for n, s in enumerate(jobs)]
        nf = self.campaign(camps, 1 if quick else 12, 'base', pool) if built else []
        res = [f.result() for f in jf]
        for f in nf: f.result()
        obs = []; und = []; vac = []
        for d in res:
            mine = [o for o in d['obl'] if P in o['tags']]
            obs += [(d, o) for o in mine]
            if d['status'] != 'ok': und.append('%s: %s %s' % (d['spec'], d['status'], d['msg'].strip().split('\n')[-1][:300]))
            elif not d.get('setup_feasible'): und.append('%s: precondition is not satisfiable' % d['spec'])
            elif not d.get('paths'): und.append('%s: no path reaches a return' % d['spec'])
        bad = [(d, o) for d, o in obs if not o['ok']]
        firm = [(d, o) for d, o in bad if not o.get('approx') and o.get('why') != 'unknown']
        if jobs and not obs and not und: und.append('no obligation carries ' + P)
        und += ['%s: %s (line %s): not discharged over an inexact loop invariant or by the solver' % (d['spec'], o['name'], o['line']) for d, o in bad if (d, o) not in firm]
        esc = 0
        if built and not self.natfail and (bad or und):
            lim = 75 if quick else 400
            dl = time.time() + lim
            n0 = self.natruns
            rnd = 0
            while time.time() < dl and not self.natfail and rnd < 40:
                rnd += 1
                for f in self.campaign(camps, 2, 'esc%d' % rnd, pool, dl): f.result()
            esc = self.natruns - n0
        pool.shutdown()
        # ---- verdict
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        rp = os.path.join('evidence', 'replay-%s.txt' % P)
        viol = bool(self.natfail or firm)
        if viol:
            with open(os.path.join(HERE, rp), 'w') as f:
                f.write('property %s is violated on the working tree of %s\n\n' % (P, REPO))
                for mode, seed, args, msg, out, cmd in self.natfail:
                    f.write('== failing run of the real code: %s\n   native falsifier: fz -L %s %s %d %s\n%s\n\n' % (msg, self.lay, mode, seed, args, out[-6000:]))
                for d, o in bad[:20]:
                    f.write('== obligation not discharged: %s [%s]\n   contract %s, function %s, line %s: %s%s\n   path %s\n   goal %s\n   model %s\n\n' % (
                        o['name'], ','.join(o['tags']), d['spec'], o['fn'], o['line'], o.get('why'), ' (inexact loop invariant)' if o.get('approx') else '', o.get('trace'), o.get('goal'),
                        json.dumps(o.get('model'))[:3000]))
        elif os.path.exists(os.path.join(HERE, rp)): os.unlink(os.path.join(HERE, rp))
        self.evidence(jobs, camps, res, obs, bad, firm, und, esc, built, viol)
        for k, v in sorted(self.natother.items()): print('note: falsifier reports %s (%d runs); not this property' % (k[:200], v))
        for u in und[:12]: print('undecided by the verifier: ' + u)
        print('%s: %d obligations, %d discharged; %d native runs%s; %.1f s' % (P, len(obs), len(obs) - len(bad), self.natruns, ' (%d as bounded stand-in)' % esc if esc else '', time.time() - T0))
        if viol:
            seen = set()
            for d, o in firm:
                k = (o['name'], o['line'])
                if k in seen: continue
                seen.add(k)
                if len(seen) <= 6: print('  failed obligation: %s (%s line %s)' % (o['name'], o['fn'], o['line']))
            for mode, seed, args, msg, out, cmd in self.natfail: print('  failing run: %s seed %d: %s' % (mode, seed, msg))
            print('VIOLATION property=%s replay=%s%s' % (P, rp, '' if self.natfail else ' no-failing-input-found'))
            return 1
        return 0
    def evidence(self, jobs, camps, res, obs, bad, firm, und, esc, built, viol):
        P = self.prop
        assumed = sorted({a for d in res for a in d.get('assumed', [])})
        fns = sorted({f.lstrip('@') for d in res for f in d.get('fns', [])})
        be = {}
        for d, o in obs:
            if o['ok']: be[o['backend']] = be.get(o['backend'], 0) + 1
        cov = dict(
            obligations=len(obs), discharged=len(obs) - len(bad), discharged_by=be,
            distinct_obligations=len({(o['name'], o['fn'], o['line']) for d, o in obs}),
            checker_cmd='python3 check.py %s %s  (per contract: %s dv/job.py SPEC %s BUDGET OUT)' % (P, self.tier, os.path.basename(PY), P),
            trusted_base=['clang 18 -O0 front end and opt mem2reg/loop-simplify (the IR is what is verified)', 'dv/ symbolic engine: IR semantics, memory model, loop-invariant rule', 'z3'] +
                         ['contract of ' + a for a in assumed],
            functions_under_contract=fns,
            solver_s=round(sum(d.get('solver_s', 0) for d in res), 2), queries=sum(d.get('queries', 0) for d in res),
            paths=sum(d.get('paths', 0) for d in res), loop_invariants=sum(d.get('invs', 0) for d in res),
            contracts=[dict(contract=d['spec'], status=d['status'], paths=d.get('paths', 0), obligations=len([o for o in d['obl'] if P in o['tags']]), wall_s=d['wall'],
                            inexact_loops=d.get('approx', [])) for d in res],
            undecided=und,
            bounded_standin=dict(what='native falsifier on the real code: not counted as proved', runs=self.natruns, escalated=esc, campaigns=self.natcases, available=built),
            evaluations=self.natruns, distinct_nontrivial=self.natruns,
            rule='one run = one seeded operation history (or fault-injection sweep) of the real library with %s; every run is non-trivial by construction' % '/'.join(sorted({c[0] for c in camps})) if camps else 'none',
            samples=['fz %s SEED %s' % (m, a) for m, r, a in camps] or ['-'],
            notes=self.notes[:20])
        ev = dict(property=P, tier=self.tier, seed=self.seed, level=plan.LEVEL.get(P, 'proof' if jobs else 'exploration'), coverage=cov,
                  assumptions=plan.ASSUME + plan.ASSUMEP.get(P, []), wall_s=round(time.time() - T0, 1), violations=1 if viol else 0)
        with open(os.path.join(HERE, 'evidence', P + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='shrv.')
    try:
        return Check(prop, tier, seed, work).run()
    finally:
        shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__':
    sys.exit(main())
