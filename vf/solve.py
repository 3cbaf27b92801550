"""Discharging obligations with SMT solvers (z3 5.x, cvc5, z3 4.8), each obligation a separate process."""
import os, re, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
from terms import *
from engine import entries
import relevance

SYM = re.compile(r'[A-Za-z_][A-Za-z0-9_.!?]*')
KW = {'forall', 'exists', 'select', 'store', 'and', 'or', 'not', 'ite', 'as', 'const', 'Array', 'Int', 'Real', 'Bool',
      'true', 'false', 'div', 'mod', 'to_real', 'to_int', 'pattern', 'let', 'abs', 'distinct'}

SOLVERS = {
    'z3': lambda f, t, s: ['z3-new', '-T:%d' % t, 'smt.random_seed=%d' % s, 'sat.random_seed=%d' % s, 'smt.mbqi=false', 'auto_config=false', f],
    'z3mbqi': lambda f, t, s: ['z3-new', '-T:%d' % t, 'smt.random_seed=%d' % s, f],
    'cvc5': lambda f, t, s: ['cvc5', '--tlimit=%d' % (t * 1000), '--seed=%d' % s, f],
    'cvc5enum': lambda f, t, s: ['cvc5', '--enum-inst', '--tlimit=%d' % (t * 1000), '--seed=%d' % s, f],
    'z3old': lambda f, t, s: ['z3', '-T:%d' % t, 'smt.random_seed=%d' % s, 'smt.mbqi=false', 'auto_config=false', f],
}

_symcache = {}


def syms(t):
    r = _symcache.get(t)
    if r is None:
        r = _symcache[t] = frozenset(x for x in SYM.findall(t) if x not in KW)
    return r


def script(eng, path, goal, relevant=True):
    """SMT-LIB text whose unsatisfiability proves the goal"""
    ents = entries(path)
    defs = {e[2]: e[1] for e in ents if e[0] == 'def'}
    asserts = [e[1] for e in ents if e[0] != 'def']
    seen = set(); uniq = []
    for a in asserts:
        if a not in seen: seen.add(a); uniq.append(a)
    need = set(); work = []

    def add(t):
        for x in syms(t):
            if x not in need:
                need.add(x); work.append(x)
    for a in uniq: add(a)
    add(goal)
    funs = set()
    fax = []
    for b in eng.background: add(b)
    while work:
        x = work.pop()
        if x in defs: add(defs[x])
        if x in eng.funs and x not in funs:
            funs.add(x)
            for a in eng.fun_axioms.get(x, []):
                fax.append(a); add(a)
                if a in eng.axname: eng.axioms_used.add(eng.axname[a])
            d = eng.fun_defs.get(x)
            if d: add(d[1])
    out = ['(set-logic ALL)']
    for so in ('Int', 'Real', 'Bool'):
        if '(touch_%s ' % so in goal: out.append('(declare-fun touch_%s (%s) Bool)' % (so, so))
    for f in sorted(funs):
        a, r = eng.funs[f]
        out.append('(declare-fun %s (%s) %s)' % (f, ' '.join(a), r))
    for x in sorted(need):
        if x in eng.decl: out.append('(declare-fun %s () %s)' % (x, eng.decl[x]))
        elif x not in funs and not re.search(r'_q\d+$', x) and x not in ('x', 'y', 'z'):
            pass
    for b in eng.background: out.append('(assert %s)' % b)
    for a in fax: out.append('(assert %s)' % a)
    for e in ents:
        if e[0] == 'def':
            if e[2] in need: out.append('(assert (= %s %s))' % (e[2], e[1]))
        elif e[1] in seen:
            seen.discard(e[1])
            out.append('(assert %s)' % e[1])
    out.append('(assert (not %s))' % goal)
    out.append('(check-sat)')
    return '\n'.join(out) + '\n'


def sexp_args(t):
    """the elements of (a b c)"""
    out = []; i = 1; n = len(t) - 1
    while i < n:
        if t[i] == ' ': i += 1; continue
        j = i; d = 0
        while j < n:
            c = t[j]
            if c == '(': d += 1
            elif c == ')':
                d -= 1
                if d == 0: j += 1; break
            elif c == ' ' and d == 0: break
            j += 1
        out.append(t[i:j]); i = j
    return out


def conjuncts(t, sort, touch=True):
    """goals which together are equivalent to t"""
    if t.startswith('(and '):
        return [x for a in sexp_args(t)[1:] for x in conjuncts(a, sort, touch)]
    if t.startswith('(=> '):
        a = sexp_args(t)
        if len(a) == 3:
            c = conjuncts(a[2], sort, touch)
            if len(c) > 1: return ['(=> %s %s)' % (a[1], x) for x in c]
        return [t]
    if t.startswith('(forall '):
        a = sexp_args(t)
        b = a[2]; w = None
        if b.startswith('(! '):
            w = sexp_args(b); b = w[1]
        c = conjuncts(b, sort, touch)
        if len(c) > 1:
            # the trigger terms stay in the goal (touch_* are uninterpreted, so this changes nothing else)
            tch = []
            if w and touch:
                for p, q in zip(w[2:], w[3:]):
                    if p == ':pattern':
                        for t1 in sexp_args(q):
                            so = sort(t1)
                            if so: tch.append('(touch_%s %s)' % (so, t1))
            if tch: c = ['(=> %s %s)' % (And(*tch), x) for x in c]
            return ['(forall %s %s)' % (a[1], '(! %s %s)' % (x, ' '.join(w[2:])) if w else x) for x in c]
    return [t]


QV = re.compile(r'[A-Za-z_][A-Za-z0-9_.!?]*_q[0-9]+')
_canon = {}


def strip_patterns(t):
    while True:
        i = t.find('(! ')
        if i < 0: return t
        d = 0; j = i
        while True:
            c = t[j]
            if c == '(': d += 1
            elif c == ')':
                d -= 1
                if d == 0: break
            j += 1
        t = t[:i] + sexp_args(t[i:j + 1])[1] + t[j + 1:]


def canon(t):
    r = _canon.get(t)
    if r is None:
        m = {}
        r = _canon[t] = QV.sub(lambda x: m.setdefault(x.group(0), '?%d' % len(m)), strip_patterns(t))
    return r


_asm = {}


def canon_conjuncts(t):
    r = _asm.get(t)
    if r is None: r = _asm[t] = frozenset(canon(x) for x in conjuncts(t, None, False))
    return r


def assumed(eng, path):
    s = set()
    for e in entries(path):
        if e[0] != 'def': s |= canon_conjuncts(e[1])
    return s


def run1(solver, fn, tmo, seed=0):
    cmd = SOLVERS[solver](fn, tmo, seed)
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo + 5)
        o = p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        o = 'timeout'
    o = '\n'.join(l for l in o.split('\n') if not l.startswith('WARNING'))
    r = o.strip().split('\n')[0].strip() if o.strip() else 'unknown'
    if r.startswith('(error') or 'rror' in o[:200]:
        if 'unsat' not in o.split('\n'): return 'error', time.time() - t, o[:300]
    if r not in ('sat', 'unsat', 'unknown'): r = 'unknown' if 'time' in o or 'interrupted' in o else 'error'
    return r, time.time() - t, o[:300]


class Portfolio:
    def __init__(self, jobs=8, budget=30, plan=None):
        self.jobs = jobs
        self.plan = plan or [('tail', 1, 30), ('tail', 2, 80), ('z3', 4, 0), ('cvc5', 6, 0), ('z3', 15, 7), ('cvc5enum', 10, 0), ('z3mbqi', 10, 0), ('z3old', 10, 0)]
        self.stats = {}
        self.time = 0.0
        self.lock = threading.Lock()
        self.dir = tempfile.mkdtemp(prefix='vf_smt_', dir=os.environ.get('VF_TMP'))
        self.deadline = None

    def prove(self, text, tag, plan=None):
        fn = os.path.join(self.dir, '%s.smt2' % tag)
        with open(fn, 'w') as f: f.write(text)
        trail = []
        t0 = time.time()
        res = 'unknown'
        for solver, tmo, seed in (plan or self.plan):
            if self.deadline and time.time() > self.deadline:
                trail.append('deadline'); break
            if solver in ('slice', 'tail'):
                x = relevance.slice_text(text) if solver == 'slice' else relevance.tail_text(text, seed)
                if x is None: continue
                with open(fn + '.s', 'w') as f: f.write(x)
                r, t, o = run1('z3', fn + '.s', tmo, 0)
                os.unlink(fn + '.s')
                if r == 'sat': r = 'unknown'
            else:
                r, t, o = run1(solver, fn, tmo, seed)
            with self.lock: self.time += t
            trail.append('%s:%s:%.1fs' % (solver, r if r != 'error' else 'error ' + o.replace('\n', ' ')[:120], t))
            if r == 'unsat':
                res = 'unsat'
                with self.lock: self.stats[solver] = self.stats.get(solver, 0) + 1
                break
            if r == 'sat' and solver in ('z3mbqi', 'cvc5'):
                res = 'sat'; break
        if res == 'unsat' and not os.environ.get('VF_KEEP'): os.unlink(fn)
        return res, time.time() - t0, trail, fn

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


QUICK = [('z3', 1, 0), ('slice', 1, 0), ('cvc5', 1, 0), ('z3old', 1, 0)]


def discharge(eng, obls, pf, plan=None, progress=None):
    """[(obl, result, time, trail, file)]"""
    out = [None] * len(obls)
    texts = {}
    done = {}

    def job(i):
        o = obls[i]
        pl = plan or pf.plan
        tag = '%s_%d' % (o.fn.replace(' ', '_'), i)
        parts = conjuncts(o.goal, eng.psort); goal = o.goal
        plain = conjuncts(o.goal, eng.psort, False)
        if len(plain) == len(parts):
            # conjuncts that are (up to names of bound variables) among the assumptions need no solver
            asm = assumed(eng, o.path)
            left = [k for k in range(len(parts)) if canon(plain[k]) not in asm]
            if not left:
                with pf.lock: pf.stats['syntactic'] = pf.stats.get('syntactic', 0) + 1
                return i, ('unsat', 0.0, ['syntactic'], None)
            if len(left) < len(parts):
                parts = [parts[k] for k in left]
                goal = And(*[plain[k] for k in left])
        tx = script(eng, o.path, goal)
        if len(parts) == 1: return i, pf.prove(tx, tag, QUICK + pl)
        r = pf.prove(tx, tag, QUICK)
        if r[0] == 'unsat': return i, r
        if len(parts) > 60: return i, pf.prove(tx, tag, pl)
        tm = r[1]; trail = list(r[2])
        if os.environ.get('VF_TRAIL'): trail.append('|')
        for k, g in enumerate(parts):
            if tm > 150: return i, ('unknown', tm, trail + ['gave up at part %d of %d' % (k + 1, len(parts))], None)
            q = pf.prove(script(eng, o.path, '(or (not %s) %s)' % (And(*parts[:k]), g) if k else g), '%s_%d' % (tag, k), QUICK + pl)
            tm += q[1]
            if os.environ.get('VF_TRAIL'): trail += q[2] + ['|']
            if q[0] != 'unsat':
                trail += ['part %d of %d (%s)' % (k + 1, len(parts), g[:300])] + q[2]
                if len(pl) > 2 and tm < 60: q = pf.prove(tx, tag, pl)
                if q[0] == 'unsat': return i, (q[0], tm + q[1], trail + q[2], q[3])
                return i, (q[0], tm, trail, q[3])
        return i, ('unsat', tm, trail + ['%d parts' % len(parts)], None)
    with ThreadPoolExecutor(pf.jobs) as ex:
        futs = [ex.submit(job, i) for i in range(len(obls))]
        for f in as_completed(futs):
            i, r = f.result()
            out[i] = (obls[i],) + r
            if progress: progress(out[i])
    return out


def vacuity(eng, pf):
    """the points whose path condition is contradictory (a proof there would be empty)"""
    bad = {}

    def job(c):
        tx = script(eng, c[2], F)
        r, t, trail, fn = pf.prove(tx, 'cover_%s_%s' % (c[0], abs(hash((c[1], id(c[2]))))), [('z3', 2, 0)])
        return c, r
    with ThreadPoolExecutor(pf.jobs) as ex:
        for c, r in ex.map(job, eng.covers):
            bad.setdefault((c[0], c[1]), []).append(r)
    return [k for k, v in bad.items() if all(r == 'unsat' for r in v)]
