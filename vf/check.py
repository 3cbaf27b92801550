#!/usr/bin/env python3
"""Decides one property:   check.py ID [--tier quick|thorough]
   Replays one case:       check.py --replay ID N HYBRID SEED CASE
1. parses /repo's current sources (clang), generates the proof obligations of every function the property
   depends on from its contract in specs/, and discharges them with SMT solvers;
2. runs the real code on generated cases against independent oracles (search for a failing input; bounded
   stand-in for what the verifier could not extract).
Exit 0: held. Exit 1 + VIOLATION line: broken."""
import sys, os, time, json, subprocess, traceback, shutil, tempfile, threading
sys.setrecursionlimit(200000)
threading.stack_size(512 << 20)
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src/HybridSolver'
CORES = os.cpu_count() or 4

CFLAGS = ['-O1', '-g', '-w', '-std=gnu11', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


def sources():
    out = []
    for d, _, fs in os.walk(SRC + '/main'):
        for f in sorted(fs):
            if f.endswith('.c') and f != 'main.c': out.append(os.path.join(d, f))
    return sorted(out)


class Harness:
    """the replay harness of one property, in several compile-time configurations"""

    def __init__(self, prop, spec, tmp):
        self.prop, self.name, self.configs, self.tmp = prop, spec['harness'], spec['configs'], tmp
        self.bin = {}; self.errors = []; self.runs = []

    def build1(self, cfg):
        n, h = cfg
        out = os.path.join(self.tmp, '%s_%d_%d' % (self.name, n, h))
        extra = []
        with open(os.path.join(ROOT, 'harness', self.name + '.c')) as f:
            for l in f:
                if l.startswith('/* LINK:'): extra = l[8:].replace('*/', '').split()
        flags = CFLAGS if h < 2 else [x.replace('address,undefined', 'memory') for x in CFLAGS]  # HYBRID 2, 3: MemorySanitizer instead
        cmd = ['clang'] + flags + ['-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % (h & 1), '-I' + SRC, '-I' + os.path.join(ROOT, 'harness'),
                                    os.path.join(ROOT, 'harness', self.name + '.c')] + sources() + ['-o', out, '-lm', '-lpthread'] + extra
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        if p.returncode == 0: self.bin[cfg] = out
        else: self.errors.append('N=%d HYBRID=%d: %s' % (n, h, p.stdout.decode('utf8', 'replace')[:1500]))

    def build(self):
        ts = [threading.Thread(target=self._b, args=(c,)) for c in self.configs]
        for t in ts: t.start()
        for t in ts: t.join()

    def _b(self, c):
        try: self.build1(c)
        except Exception as e: self.errors.append('%s: %s' % (c, e))

    def run(self, seed, secs, rounds=1):
        """-> failure dict or None. Runs every configuration in parallel (seeds seed, seed+1000, ...)"""
        jobs = []
        for r in range(rounds):
            for c in self.configs:
                if c in self.bin: jobs.append((c, seed + 1000 * r))
        if not jobs: return None
        while len(jobs) < CORES and rounds == 1 and len(jobs) * 2 <= CORES * 2:
            c, s = jobs[len(jobs) % len(self.bin)]
            jobs.append((c, seed + 1000 * (len(jobs) // len(self.bin))))
            if len(jobs) >= CORES: break
        fail = None
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3000:detect_stack_use_after_return=0',
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', MSAN_OPTIONS='exitcode=77')
        while jobs:
            batch, jobs = jobs[:CORES], jobs[CORES:]
            ps = []
            for c, s in batch:
                o = tempfile.TemporaryFile(); e = tempfile.TemporaryFile()
                ps.append((c, s, o, e, subprocess.Popen([self.bin[c], self.prop, str(s), str(secs)], stdout=o, stderr=e, env=env, cwd=self.tmp)))
            for c, s, o, e, p in ps:
                to = False
                try: p.wait(timeout=secs + 120)
                except subprocess.TimeoutExpired: p.kill(); p.wait(); to = True
                o.seek(0); e.seek(0)
                ot = o.read().decode('utf8', 'replace'); et = e.read().decode('utf8', 'replace')
                if p.returncode == 0 and 'OK cases=' in ot:
                    l = [x for x in ot.split('\n') if x.startswith('OK cases=')][0]
                    w = l.split(' ', 3)
                    self.runs.append(dict(N=c[0], HYBRID=c[1], seed=s, cases=int(w[1][6:]), distinct=int(w[2][9:]), sample=w[3][7:]))
                elif 'FAIL prop=' in ot:
                    case = ot.split('case=')[1].split()[0]
                    if fail is None:
                        fail = dict(N=c[0], HYBRID=c[1], seed=s, case=case, out=ot[-20000:], err=et[:6000])
                else:
                    self.errors.append('N=%d HYBRID=%d seed=%d: harness ended %s without a verdict%s: %s' % (c[0], c[1], s, p.returncode, ' (timeout)' if to else '', (ot + et)[:500]))
            if fail: break
        return fail


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, 'known-findings.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: '):])
    except OSError: pass
    return out


def main():
    if sys.argv[1] == '--replay': return replay(*sys.argv[2:7])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    spec = props.P[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    os.environ['VF_TMP'] = tmp
    try:
        return check(prop, spec, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, spec, tier, seed, t0, tmp):
    quick = tier == 'quick'
    hs = Harness(prop, spec, tmp)
    bt = threading.Thread(target=hs.build); bt.start()
    pr = None
    try:
        import prove
        pr = prove.Proof(REPO, ROOT, prop, spec)
        pr.generate()
    except Exception as e:
        perr = traceback.format_exc()
        if pr is None:
            class _N: pass
            pr = _N(); pr.functions = []; pr.failed = []; pr.unextracted = [(f, 'front end failed: %s' % e) for f in (spec['fns'] or ['all functions'])]
            pr.obligations = 0; pr.discharged = 0; pr.undecided = []; pr.vacuous = []; pr.assumptions = []; pr.solver = {}; pr.solver_time = 0; pr.crosschecked = 0
            pr.discharge = lambda *a, **k: None
        else: pr.unextracted.append(('*', perr[-500:]))
    bt.join()
    hfail = hs.run(seed, 12 if quick else 120)
    # the proof
    try:
        pr.discharge(deadline=t0 + (150 if hfail else 480 if quick else 3000), retry=not hfail, cross=not quick and not hfail)
    except Exception:
        pr.unextracted.append(('*', traceback.format_exc()[-800:]))
    if not hfail and (pr.failed or pr.unextracted or pr.undecided):
        left = 780 - (time.time() - t0) if quick else 600
        if left > 40: hfail = hs.run(seed + 7, min(60, left / 3) if quick else 200)
    elif not hfail and not quick:
        hfail = hs.run(seed + 500, 200)
    violation = None
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, '%s.replay.txt' % prop)
    if os.path.exists(rp): os.unlink(rp)
    if hfail:
        with open(rp, 'w') as f:
            f.write('property %s violated by the real code\nconfiguration: MAX_VERTEX_NUM=%d HYBRID=%d\n' % (prop, hfail['N'], hfail['HYBRID']))
            f.write('replay: python3 %s/vf/check.py --replay %s %d %d %d %s\n\n' % (ROOT, prop, hfail['N'], hfail['HYBRID'], hfail['seed'], hfail['case']))
            f.write(hfail['out'] + '\n' + hfail['err'] + '\n')
            if pr.failed:
                f.write('\nfailed obligations:\n'); f.write('\n'.join(pr.describe(x) for x in pr.failed[:40]))
        violation = 'VIOLATION property=%s replay=%s' % (prop, rp)
    elif pr.failed:
        with open(rp, 'w') as f:
            f.write('property %s: obligations generated from the current source are no longer accepted by the verifier\n' % prop)
            f.write('(no failing input found by the replay harness: %d cases)\n\n' % sum(r['cases'] for r in hs.runs))
            f.write('\n'.join(pr.describe(x, full=True) for x in pr.failed[:40]) + '\n')
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
    cases = sum(r['cases'] for r in hs.runs)
    cov = dict(obligations=pr.obligations, discharged=pr.discharged,
               checker_cmd='python3 vf/check.py %s' % prop,
               trusted_base=TRUSTED + list(getattr(pr, 'trusted', [])),
               functions=pr.functions, bounded_functions=[dict(function=f, reason=r) for f, r in pr.unextracted] + [dict(function=f, reason=r) for f, r in spec['bounded']],
               failed=[pr.describe(x) for x in pr.failed[:20]], undecided=[pr.describe(x) for x in pr.undecided[:20]], failed_but_of_other_properties=getattr(pr, 'elsewhere', [])[:20],
               vacuous_points=pr.vacuous, discharged_by=pr.solver, solver_seconds=round(pr.solver_time, 1), crosschecked=pr.crosschecked,
               evaluations=cases, distinct_nontrivial=sum(r['distinct'] for r in hs.runs), rule=spec['rule'],
               samples=[r['sample'] for r in hs.runs[:3]], bounded_runs=[{k: r[k] for k in ('N', 'HYBRID', 'seed', 'cases', 'distinct')} for r in hs.runs],
               harness_errors=hs.errors[:5], explanation=spec['notes'])
    e = dict(property=prop, tier=tier, seed=seed, level='proof' if pr.obligations else 'exploration', coverage=cov, assumptions=ASSUME + list(pr.assumptions), wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    with open(os.path.join(ev, prop + '.json'), 'w') as f: json.dump(e, f, indent=1)
    print('%s: %d/%d obligations discharged (%d functions), %d not extracted, %d undecided; %d cases run; %.0f s' % (
        prop, pr.discharged, pr.obligations, len(pr.functions), len(pr.unextracted), len(pr.undecided), cases, time.time() - t0))
    for f, r in pr.unextracted: print('  bounded only: %s (%s)' % (f, r.strip().split('\n')[-1][:200]))
    for x in hs.errors[:3]: print('  harness: ' + x[:300])
    for x in pr.vacuous: print('  vacuous: %s' % (x,))
    if hfail: print(hfail['out'][:1500])
    for x in pr.failed[:10]: print('  failed: ' + pr.describe(x))
    for k in known_findings(prop): print('KNOWN-FINDING: ' + k)
    if violation:
        print(violation); return 1
    return 0


def replay(prop, n, h, seed, case):
    import props
    spec = dict(props.P[prop]); spec['configs'] = [(int(n), int(h))]
    tmp = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        hs = Harness(prop, spec, tmp); hs.build()
        if hs.errors: print(hs.errors[0]); return 2
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', MSAN_OPTIONS='exitcode=77')
        return subprocess.run([hs.bin[(int(n), int(h))], prop, seed, '1', case], env=env, cwd=tmp).returncode
    finally: shutil.rmtree(tmp, ignore_errors=True)


TRUSTED = ['clang 18 parser (JSON syntax tree of the real sources)', 'vf: obligation generator of this framework (weakest-precondition style symbolic execution, /verif/vf/engine.py)',
           'SMT solvers z3 5.x, cvc5 1.1.2, z3 4.8.12']
ASSUME = ['double and float arithmetic is treated as exact real arithmetic', 'malloc and calloc succeed', 'MAX_VERTEX_NUM is a symbolic constant N with 3 <= N <= 361 and HYBRID is 0 or 1']

_rc = [1]


def _run():
    try: _rc[0] = main()
    except SystemExit as e: _rc[0] = e.code
    except BaseException: traceback.print_exc(); _rc[0] = 3


if __name__ == '__main__':
    t = threading.Thread(target=_run); t.start(); t.join()
    sys.stdout.flush()
    os._exit(_rc[0] or 0)
