"""Dropping hypotheses that look irrelevant to a goal (sound: fewer hypotheses).  Ground facts all stay; quantified facts
are selected by the symbols they share with the goal and with the facts selected before (rare symbols count)."""
import re, functools

SYM = re.compile(r'[A-Za-z_][A-Za-z0-9_.!?]*')
KW = {'forall', 'exists', 'select', 'store', 'and', 'or', 'not', 'ite', 'as', 'const', 'Array', 'Int', 'Real', 'Bool', 'assert',
      'true', 'false', 'div', 'mod', 'to_real', 'to_int', 'pattern', 'let', 'abs', 'distinct', 'touch_Int', 'touch_Real', 'touch_Bool'}
DEF = re.compile(r'\(= ([A-Za-z_][A-Za-z0-9_.!?]*) ')
BV = re.compile(r'_q[0-9]+$')


@functools.lru_cache(maxsize=200000)
def syms(t):
    return frozenset(x for x in SYM.findall(t) if x not in KW and not BV.search(x) and x not in ('x', 'y', 'z'))


_parts = {}


def parts(t):
    from solve import conjuncts
    r = _parts.get(t)
    if r is None: r = _parts[t] = conjuncts(t, None, False)
    return r


def slice_text(text, rounds=2, tol=1.5):
    lines = text.rstrip('\n').split('\n')
    i = 0
    while not lines[i].startswith('(assert '): i += 1
    head, body, goal = lines[:i], lines[i:-2], lines[-2]
    ground = []; quant = []
    for l in body:
        t = l[8:-1]
        for p in ([t] if l.startswith('(assert (= ') else parts(t)):
            (quant if '(forall' in p or '(exists' in p else ground).append(p)
    occ = {}
    for p in quant:
        for s in syms(p): occ[s] = occ.get(s, 0) + 1
    have = set(syms(goal))
    sel = []; left = list(quant)
    for r in range(rounds):
        new = []; rest = []
        for p in left:
            ss = syms(p)
            g = min((occ[s] for s in ss), default=0)
            d = DEF.match(p)
            if ss <= have or d and d.group(1) in have or any(occ[s] <= tol * g for s in ss & have): new.append(p)
            else: rest.append(p)
        if not new: break
        left = rest; sel += new
        for p in new: have |= syms(p)
    if not left: return None
    keep = set(sel)
    out = head[:]
    for l in body:
        t = l[8:-1]
        for p in ([t] if l.startswith('(assert (= ') else parts(t)):
            if '(forall' not in p and '(exists' not in p or p in keep: out.append('(assert %s)' % p)
    return '\n'.join(out + [goal, '(check-sat)']) + '\n'


def tail_text(text, k):
    """only the last k facts"""
    lines = text.rstrip('\n').split('\n')
    i = 0
    while not lines[i].startswith('(assert '): i += 1
    head, body, goal = lines[:i], lines[i:-2], lines[-2]
    if len(body) <= k: return None
    return '\n'.join(head + body[-k:] + [goal, '(check-sat)']) + '\n'
