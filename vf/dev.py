import sys, os, time
sys.setrecursionlimit(100000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cast, spec, engine, solve

def load(files):
    prog = cast.load(os.environ.get('VF_REPO','/repo'))
    sp = spec.Specs()
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs')
    for f in files: sp.load(os.path.join(d, f + '.spec'))
    return prog, sp

def main():
    a = sys.argv[1:]
    opt = {x for x in a if x.startswith('-')}
    a = [x for x in a if not x.startswith('-')]
    files = a[0].split(',')
    prog, sp = load(files)
    fns = a[1:] or list(sp.fns) + ['lemma:' + l for l in sp.lemmas]
    eng = engine.Engine(prog, sp)
    for f in fns:
        t = time.time()
        n0 = len(eng.obls)
        try:
            if f.startswith('lemma:'): eng.verify_lemma(f[6:])
            else: eng.verify(f)
        except (engine.StructMismatch, cast.Unsupported, spec.SpecError) as e:
            print('%s: %s: %s' % (f, type(e).__name__, e))
            if '-v' in opt: raise
            continue
        print('%s: %d obligations, %.1fs' % (f, len(eng.obls) - n0, time.time() - t), flush=True)
    if '-n' in opt: return
    plan = None
    if '-q' in opt: plan = [('z3', 4, 0), ('cvc5', 5, 0)]
    if '-qq' in opt: plan = [('z3', 3, 0)]
    pf = solve.Portfolio()
    t = time.time()
    slow = []
    bad = 0
    pat = [x[3:] for x in opt if x.startswith('-k=')]
    ob = [o for o in eng.obls if not pat or pat[0] in o.name]
    def pr(r):
        o, res, tm, trail, fn = r
        if res != 'unsat':
            print('  FAIL %s line %s: %s [%s] %s %s' % (o.fn, o.line, o.name, o.kind, trail, fn))
            print('       goal', o.goal[:200], flush=True)
        elif tm > 3: print('  slow %s line %s: %s %.1fs %s' % (o.fn, o.line, o.name, tm, trail), flush=True)
    rs = solve.discharge(eng, ob, pf, plan, pr)
    bad = sum(1 for r in rs if r[1] != 'unsat')
    print('%d obligations, %d failed, %.1fs wall, %s' % (len(rs), bad, time.time() - t, pf.stats))
    if '-c' in opt or not bad:
        for c in solve.vacuity(eng, pf): print('  VACUOUS', c[0], c[1])
    if not bad and not os.environ.get("VF_KEEP"): pf.close()
main()
