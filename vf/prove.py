"""Obligations of the functions a property depends on, and their discharge."""
import os, time, traceback
import cast, spec, engine, solve

LONG = [('z3', 20, 3), ('cvc5', 25, 1), ('cvc5enum', 20, 1), ('z3', 20, 11), ('z3mbqi', 15, 1), ('z3old', 20, 5)]


class Proof:
    def __init__(self, repo, root, prop, sp):
        self.prop, self.sp = prop, sp
        self.failed = []; self.unextracted = []; self.undecided = []; self.vacuous = []; self.functions = []
        self.obligations = 0; self.discharged = 0; self.solver = {}; self.solver_time = 0; self.crosschecked = 0
        self.assumptions = []; self.trusted = []; self.elsewhere = []
        self.prog = cast.load(repo)
        self.specs = spec.Specs()
        for f in sp['specs']: self.specs.load(os.path.join(root, 'specs', f + '.spec'))
        self.eng = engine.Engine(self.prog, self.specs)
        self.fns = list(sp['fns']) if sp['fns'] is not None else list(self.specs.fns)
        self.lemmas = sp['lemmas'] if sp['lemmas'] != ['*'] else list(self.specs.lemmas)

    def generate(self):
        eng = self.eng
        for f in self.fns + ['lemma:' + l for l in self.lemmas]:
            n0 = len(eng.obls); c0 = len(eng.covers)
            try:
                if f.startswith('lemma:'): eng.verify_lemma(f[6:])
                elif f not in self.specs.fns: continue
                else: eng.verify(f)
            except Exception as e:
                del eng.obls[n0:]; del eng.covers[c0:]
                self.unextracted.append((f, '%s: %s' % (type(e).__name__, str(e)[:300] or traceback.format_exc()[-300:])))
                continue
            k = len(eng.obls) - n0
            if k == 0 and not f.startswith('lemma:'):
                self.unextracted.append((f, 'no obligation was generated'))
                continue
            self.functions.append(dict(function=f, obligations=k))
        done = set(self.lemmas)
        while True:
            more = [l for l in sorted(eng.lemmas_used) if l not in done]
            if not more: break
            for l in more:
                done.add(l)
                if self.specs.lemmas[l].trusted: self.trusted.append('lemma %s: %s' % (l, self.specs.lemmas[l].trusted)); continue
                n0 = len(eng.obls)
                eng.verify_lemma(l)
                self.functions.append(dict(function='lemma:' + l, obligations=len(eng.obls) - n0))
        ok = set(f['function'] for f in self.functions)
        import props
        for c in sorted(eng.contracts_used - ok):
            by = [k for k, v in props.P.items() if v['fns'] is not None and c in v['fns'] or v['fns'] is None and any(c in open(os.path.join(os.path.dirname(__file__), '..', 'specs', f + '.spec')).read().split() for f in v['specs'])]
            self.trusted.append('contract of %s, %s' % (c, 'discharged by the check of ' + ', '.join(by) if by else 'ASSUMED: discharged by no check'))
        for f, why in sorted(eng.trusts): self.trusted.append('assumed in %s: %s' % (f, why))
        if eng.externals_used: self.trusted.append('library functions by stub contract: ' + ', '.join(sorted(eng.externals_used)))
        self.obligations = len(eng.obls)

    def describe(self, r, full=False):
        o = r[0]
        s = 'function %s, line %s: %s [%s]' % (o.fn, o.line, o.name, o.kind)
        if full: s += '\n   goal: %s\n   solvers: %s' % (o.goal[:1500], ' | '.join(r[3]))
        return s

    def counts(self, o):
        """does a failure of this obligation break the property by itself?  (properties with a focus)"""
        if o.origin is not None: return False
        if o.kind in ('post', 'pre'):
            w = o.name.split()
            return len(w) < 2 or w[1] not in self.sp['focus']
        return True

    def refocus(self, rs, bad, pf):
        """a failed auxiliary fact (assertion, invariant) or a failed clause that belongs to another property is no violation of
        this one by itself: the item is set aside - neither checked nor assumed - and the function redone without it, until
        what is left fails only where the property itself is concerned"""
        eng = self.eng
        fns = set(f['function'] for f in self.functions)
        for rnd in range(5):
            items = {}
            for r in bad:
                if r[0].origin is not None and r[0].fn in fns: items.setdefault(r[0].fn, set()).add(r[0].origin)
            if not items: break
            for f, o in sorted(items.items()):
                eng.drop |= o
                n0 = len(eng.obls); c0 = len(eng.covers)
                try: eng.verify(f)
                except Exception as e:
                    self.unextracted.append((f, 'without the failed assertions: %s: %s' % (type(e).__name__, str(e)[:200])))
                    bad = [r for r in bad if r[0].fn != f]
                    continue
                new = eng.obls[n0:]; del eng.obls[n0:]; del eng.covers[c0:]
                self.elsewhere += [self.describe(r) for r in bad if r[0].fn == f and r[0].origin is not None]
                r1 = [r for r in solve.discharge(eng, new, pf) if r[1] != 'unsat']
                short = [r for r in r1 if self.counts(r[0])]
                if short and len(short) <= 24 and time.time() < pf.deadline:
                    m = {id(r[0]): r for r in solve.discharge(eng, [r[0] for r in short], pf, LONG)}
                    r1 = [r for r in (m.get(id(r[0]), r) for r in r1) if r[1] != 'unsat']
                bad = [r for r in bad if r[0].fn != f] + r1
        self.elsewhere += [self.describe(r) for r in bad if not self.counts(r[0])]
        return [r for r in bad if self.counts(r[0])]

    def discharge(self, deadline, retry=True, cross=False):
        eng = self.eng
        pf = solve.Portfolio(); pf.deadline = deadline
        rs = solve.discharge(eng, eng.obls, pf)
        bad = [r for r in rs if r[1] != 'unsat']
        if bad and retry and len(bad) <= 24 and time.time() < deadline:
            r2 = solve.discharge(eng, [r[0] for r in bad], pf, LONG)
            m = {id(r[0]): r for r in r2}
            rs = [m.get(id(r[0]), r) for r in rs]
            bad = [r for r in rs if r[1] != 'unsat']
        if bad and self.sp.get('focus'): bad = self.refocus(rs, bad, pf)
        for r in bad:
            if r[1] != 'sat' and r[3] and r[3][-1] == 'deadline' and len(r[3]) < 3: self.undecided.append(r)
            else: self.failed.append(r)
        self.discharged = len(rs) - len(bad)
        self.trusted += ['axiom %s' % a for a in sorted(eng.axioms_used)]
        for c in solve.vacuity(eng, pf):
            self.vacuous.append('%s: %s' % (c[0], c[1]))
            if c[1] == 'return': self.unextracted.append((c[0], 'no path to the end of the function is consistent with its contract: nothing was shown'))
        if cross:
            # thorough: a second, independent solver run per obligation
            pf2 = solve.Portfolio(); pf2.deadline = deadline
            r3 = solve.discharge(eng, eng.obls, pf2, [('cvc5', 10, 5), ('z3old', 10, 5), ('z3mbqi', 10, 5)])
            self.crosschecked = sum(1 for r in r3 if r[1] == 'unsat')
            self.solver_time += pf2.time; pf2.close()
        by = {}
        for r in rs: by.setdefault(r[0].fn, [0, 0.0]); by[r[0].fn][0] += r[1] == 'unsat'; by[r[0].fn][1] += r[2]
        for f in self.functions:
            b = by.get(f['function'], by.get(f['function'].replace('lemma:', 'lemma '), [0, 0.0]))
            f['discharged'] = b[0]; f['solver_seconds'] = round(b[1], 2)
        self.solver = pf.stats; self.solver_time += pf.time
        pf.close()
