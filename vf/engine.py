"""Verification-condition generator: symbolic execution of clang's AST of the real C code, loops cut by
invariants, calls by contracts, everything else inlined."""
import re, struct, zlib
from fractions import Fraction
from terms import *
import cast
from cast import CT, INTK, RANGES, Unsupported
from spec import parse_expr, SpecError


def f32(x):
    return struct.unpack('f', struct.pack('f', float(x)))[0]


_conj = {}


_bops = ('(and ', '(or ', '(not ', '(=> ', '(ite ')


def batoms(t):
    """the atoms of a propositional formula"""
    if t in (T, F): return set()
    if t.startswith(_bops):
        out = set()
        for x in args(t): out |= batoms(x)
        return out
    return {t}


def beval(t, env):
    if t == T: return True
    if t == F: return False
    if t in env: return env[t]
    a = args(t)
    if t.startswith('(and '): return all(beval(x, env) for x in a)
    if t.startswith('(or '): return any(beval(x, env) for x in a)
    if t.startswith('(not '): return not beval(a[0], env)
    if t.startswith('(=> '): return not beval(a[0], env) or beval(a[1], env)
    return beval(a[1], env) if beval(a[0], env) else beval(a[2], env)


def conjuncts(t):
    """what a condition states in particular: (and a b) -> a, b; (not (or a b)) -> (not a), (not b)"""
    if t in _conj: return _conj[t]
    out = {t}
    if t.startswith('(and '):
        for x in args(t): out |= conjuncts(x)
    elif t.startswith('(not (or '):
        for x in args(t[5:-1]): out |= conjuncts(Not(x))
    _conj[t] = out
    return out


class StructMismatch(Exception):
    """the contract refers to something the code no longer has"""


SORT = {'bool': 'Bool', 'double': 'Real', 'float': 'Real', 'ptr': 'Int'}
def _consort(t):
    i = j = len('((as const '); d = 0
    while True:
        c = t[j]
        d += (c == '(') - (c == ')')
        j += 1
        if d == 0 and (c == ')' or t[j] in ' )'): return t[i:j]


def litid(text):
    """number standing for a string constant (as written in the source, quotes included)"""
    return 2 ** 33 + zlib.crc32(text.encode())


ALIAS = {'AInt': '(Array Int Int)', 'AReal': '(Array Int Real)', 'ABool': '(Array Int Bool)',
         'AAInt': '(Array Int (Array Int Int))', 'AABool': '(Array Int (Array Int Bool))',
         'AAReal': '(Array Int (Array Int Real))'}


def asort(base, dims):
    for _ in range(dims): base = '(Array Int %s)' % base
    return base


def elemsort(s):
    assert s.startswith('(Array Int '), s
    return s[len('(Array Int '):-1]


class Val:
    __slots__ = ('t', 's', 'ct')

    def __init__(self, t, s, ct=None): self.t, self.s, self.ct = t, s, ct

    def __repr__(self): return 'Val(%s:%s)' % (self.t, self.s)


class LV:
    __slots__ = ('root', 'path', 'idx', 'ct', 'dim')

    def __init__(self, root, path, idx, ct, dim=None):
        self.root, self.path, self.idx, self.ct, self.dim = root, path, idx, ct, dim

    def __repr__(self): return 'LV(%s,%s,%s:%r)' % (self.root, '.'.join(self.path), self.idx, self.ct)


class PLV:
    """pointer to an lvalue; dim: size of the array the last index ranges over (None: not an element)"""
    __slots__ = ('lv',)

    def __init__(self, lv): self.lv = lv

    def __repr__(self): return 'PLV(%r)' % self.lv


class PC:
    """pointer given by an Int code (region reference, or registered address); to: pointee type"""
    __slots__ = ('t', 'to')

    def __init__(self, t, to): self.t, self.to = t, to

    def __repr__(self): return 'PC(%s)' % self.t


class PM:
    """one of several pointers: [(cond, ptr)], last is default"""
    __slots__ = ('alts',)

    def __init__(self, alts): self.alts = alts


PTRS = (PLV, PC, PM)


class SV:
    """struct rvalue: {subpath: (term, sort)}"""
    __slots__ = ('m', 'ct')

    def __init__(self, m, ct): self.m, self.ct = m, ct


class Fn:
    def __init__(self, name): self.name = name


class Str:
    pass


class Frame:
    __slots__ = ('fn', 'vars', 'names', 'chain', 'ghosts')

    def __init__(self, fn, vars=None, names=None, chain=(), ghosts=None):
        self.fn, self.vars, self.names, self.chain = fn, vars or {}, names or {}, chain

    def copy(self): return Frame(self.fn, dict(self.vars), dict(self.names), self.chain)


class State:
    __slots__ = ('store', 'frames', 'path', 'ranged', 'snaps')

    def __init__(self):
        self.store = {}; self.frames = (); self.path = None; self.ranged = frozenset(); self.snaps = {}

    def fork(self):
        s = State()
        s.store = dict(self.store); s.frames = self.frames; s.path = self.path; s.ranged = self.ranged
        s.snaps = self.snaps
        return s

    def add(self, kind, term, sym=None):
        d = self.path[2] + 1 if self.path else 1
        self.path = (self.path, (kind, term, sym), d)

    def assume(self, t, kind='as'):
        if t == T: return
        self.add(kind, t)

    def dead(self):
        return self.path is not None and self.path[1][1] == F and self.path[1][0] != 'def'


def entries(path, base=None):
    out = []
    while path is not base and path is not None:
        out.append(path[1]); path = path[0]
    out.reverse()
    return out


class Obl:
    __slots__ = ('fn', 'name', 'line', 'path', 'goal', 'kind', 'id', 'origin')

    def __init__(self, fn, name, line, path, goal, kind, origin=None):
        self.fn, self.name, self.line, self.path, self.goal, self.kind, self.origin = fn, name, line, path, goal, kind, origin


NOSTR = '((as const (Array Int Bool)) false)'
IOSORT = {'str': '(Array Int Int)', 'live': '(Array Int Bool)', 'file': 'Int', 'pos': 'Int', 'open': 'Int', 'buf': 'Int',
          'tk': 'Int', 'td': 'Int', 'tp': 'Int', 'tb': 'Int', 'bad': 'Bool', 'on': 'Int', 'out': '(Array Int Int)',
          'perm': '(Array Int Bool)', 'rn': 'Int', 'rout': '(Array Int Real)', 'sn': 'Int', 'sout': '(Array Int Int)'}
NOEFFECT = {'perror', 'puts', 'putchar', 'fflush', 'fputs'}


def strlen(lit):
    return len(re.sub(r'\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)', '_', lit[1:-1]))


class Engine:
    def __init__(self, prog, specs):
        self.p, self.sp = prog, specs
        self.ty = cast.Types(prog)
        self.decl = {}           # symbol -> sort
        self.ctr = 0
        self.inst = 0
        self.obls = []
        self.quiet = 0
        self.drop = set()      # specification items set aside (prove.py, focus)
        self.reg = {}            # registered address blocks: (root, path, idxprefix) -> k
        self.regtype = {}
        self.covers = []         # (fn, name, path)
        self.used_contracts = set()
        self.inlined = set()
        self.externs = set()
        self.contracts_used = set(); self.externals_used = set()
        self.lemmas_used = set(); self.trusts = set()
        self.cur = None
        self.curspec = None
        self.loops_seen = {}
        self.lits = {}           # number -> string constant
        self.calls_seen = {}
        self.noinv = False
        self.decl['N'] = 'Int'; self.decl['E'] = 'Int'; self.decl['HYB'] = 'Bool'
        self.decl['DBLMAX'] = 'Real'; self.decl['FLTMAX'] = 'Real'; self.decl['CPS'] = 'Int'
        self.background = ['(<= 3 N 361)', '(= (* 2 E) (* N (- N 1)))', '(<= 3 E)', '(<= E 64980)', '(<= N E)',
                           '(> FLTMAX 1000000000000.0)', '(> DBLMAX (* 1000000.0 FLTMAX))', '(> CPS 0)']
        self.funs = {'Sqrt': (['Real'], 'Real'), 'Pow': (['Real', 'Real'], 'Real'), 'Log': (['Real'], 'Real'),
                     'Ceil': (['Real'], 'Real'), 'Float': (['Real'], 'Real')}
        for nm, (a, r) in specs.logic.items():
            self.funs[nm] = ([self.sort(x) for x in a], self.sort(r))
        self.axname = {}; self.axioms_used = set()
        self.fun_defs = {}
        self.fun_axioms = {'Pow': ['(forall ((x Real)) (! (= (Pow x 2.0) (* x x)) :pattern ((Pow x 2.0))))'], 'Sqrt': ['(forall ((x Real)) (! (=> (> x 0.0) (and (> (Sqrt x) 0.0) (=> (>= x 1.0) (<= (Sqrt x) x)))) :pattern ((Sqrt x))))']}

        for nm, e in specs.axioms:
            st = State()
            t = Ctx(self, st, lemma=True, fn='axiom ' + nm).boolean(e)
            self.axname[t] = nm
            for f in self.funs:
                if re.search(r'\b%s\b' % f, t):
                    self.fun_axioms.setdefault(f, []).append(t)

    # ------------------------------------------------------------ helpers
    def sort(self, s): return ALIAS.get(s, s)

    def fresh(self, hint, sort):
        self.ctr += 1
        nm = re.sub(r'[^A-Za-z0-9_.]', '_', hint)
        if not re.match(r'^[A-Za-z_]', nm): nm = 'r' + nm
        s = '%s!%d' % (nm, self.ctr)
        self.decl[s] = sort
        return s

    def name(self, st, hint, term, sort):
        """give a name to a large term"""
        if len(term) < 40 and not term.startswith('(store'): return term
        s = self.fresh(hint, sort)
        st.add('def', term, s)
        return s

    def base(self, ct):
        if ct.kind == 'ghost': return ct.name
        if ct.kind == 'struct' and self.ty.is_region(ct): return 'Int'
        if ct.kind in ('struct', 'arr', 'void', 'func'): raise Unsupported('base sort of %r' % ct)
        return SORT.get(ct.kind, 'Int')

    def fields(self, name):
        fl = list(self.ty.fields(name))
        for f, so in self.sp.ghostfields.get(name, {}).items():
            fl.append((f, CT('ghost', name=self.sort(so))))
        return fl

    def fieldtype(self, ct, f):
        for n, t in self.fields(ct.name):
            if n == f: return t
        raise StructMismatch('no field %s in %s' % (f, ct.name))

    def leaves(self, ct):
        """[(subpath, dims, base ctype)]"""
        if ct.kind == 'arr':
            t = ct.to
            if self.ty.is_region(t): return [((), 0, CT('blk', name=t.name))]
            return [(p, d + 1, b) for p, d, b in self.leaves(t)]
        if ct.kind == 'struct':
            if self.ty.is_region(ct): return [((), 0, CT('blk', name=ct.name))]
            out = []
            for f, t in self.fields(ct.name):
                out += [((f,) + p, d, b) for p, d, b in self.leaves(t)]
            return out
        return [((), 0, ct)]

    def bsort(self, b):
        if b.kind == 'blk': return 'Int'
        return self.base(b)

    def rootsym(self, root): return root.replace('@', 'R_').replace('*', 'p_')

    def get(self, st, root, path, sort):
        k = (root, path)
        v = st.store.get(k)
        if v is None:
            s = '%s.%s!0' % (self.rootsym(root), '.'.join(path))
            s = re.sub(r'[^A-Za-z0-9_.!]', '_', s)
            if s not in self.decl: self.decl[s] = sort
            elif self.decl[s] != sort: raise Unsupported('sort clash at %s: %s / %s' % (s, self.decl[s], sort))
            return s
        return v

    def read_leaf(self, st, lv, sub, dims, b):
        so = asort(self.bsort(b), dims + len(lv.idx))
        t = self.get(st, lv.root, lv.path + sub, so)
        if isinstance(t, PTRS):
            return t, None
        for i in lv.idx: t = Sel(t, i); so = elemsort(so)
        return t, so

    def write_leaf(self, st, lv, sub, dims, b, term):
        so = asort(self.bsort(b), dims + len(lv.idx))
        k = (lv.root, lv.path + sub)
        if not lv.idx:
            st.store[k] = term if isinstance(term, PTRS) else self.name(st, lv.root + '.' + '.'.join(k[1]), term, so)
            return
        cur = self.get(st, lv.root, lv.path + sub, so)

        def upd(a, idx):
            if len(idx) == 1: return Sto(a, idx[0], term)
            return Sto(a, idx[0], upd(Sel(a, idx[0]), idx[1:]))
        st.store[k] = self.name(st, lv.root + '.' + '.'.join(k[1]), upd(cur, lv.idx), so)

    # ---- address registry
    def code(self, p):
        if isinstance(p, PC): return p.t
        if isinstance(p, PM):
            t = self.code(p.alts[-1][1])
            for c, q in reversed(p.alts[:-1]): t = Ite(c, self.code(q), t)
            return t
        if isinstance(p, PLV):
            lv = p.lv
            if lv.root.startswith('@') and lv.path == () and len(lv.idx) == 1: return lv.idx[0]
            if lv.idx and lv.dim is not False:
                key = (lv.root, lv.path, tuple(lv.idx[:-1])); off = lv.idx[-1]
            else:
                key = (lv.root, lv.path, tuple(lv.idx)); off = '0'
            if key not in self.reg:
                self.reg[key] = len(self.reg) + 1
                self.regtype[key] = (lv.ct, bool(lv.idx and lv.dim is not False), lv.dim)
            k = self.reg[key]
            return Sub(I(-k * 1000000 - 1), off)
        raise Unsupported('address of %r' % (p,))

    def ptr_eq(self, p, q):
        if isinstance(p, PM):
            return Ite_list([(c, self.ptr_eq(x, q)) for c, x in p.alts])
        if isinstance(q, PM): return self.ptr_eq(q, p)
        if isinstance(p, PLV) and isinstance(q, PLV):
            a, b = p.lv, q.lv
            if a.root != b.root or a.path != b.path or len(a.idx) != len(b.idx): return F
            return And(*[Eq(x, y) for x, y in zip(a.idx, b.idx)])
        for x, y in ((p, q), (q, p)):
            if isinstance(x, PC) and isinstance(y, PLV) and x.t == '0' and not (y.lv.root.startswith('@') and y.lv.path == ()):
                return F
        return Eq(self.code(p), self.code(q))

    def decode(self, st, p, line, what='deref', check=True):
        """pointer value -> [(cond, LV)]"""
        if isinstance(p, PLV): 
            lv = p.lv
            if check and lv.root.startswith('@') and lv.path == () and len(lv.idx) == 1:
                self.valid(st, lv.root[1:], lv.idx[0], line)
            return [(T, lv)]
        if isinstance(p, PM):
            out = []; neg = []
            for c, q in p.alts:
                if isinstance(q, PC) and q.t == '0' and len(p.alts) > 1:
                    if check: self.oblige(st, Not(And(*(neg + [c]))), 'pointer is not null', line, 'mem')
                    neg.append(Not(c)); continue
                for c2, lv in self.decode(st, q, line, what, check): out.append((And(*(neg + [c, c2])), lv))
                neg.append(Not(c))
            return out
        if isinstance(p, PC):
            to = p.to
            if to is None or to.kind != 'struct': raise Unsupported('dereference of %r' % (to,))
            cands = [(k, self.regtype[k]) for k in self.reg if self.regtype[k][0].key() == to.key()]
            if self.ty.is_region(to) or not cands:
                if check: self.valid(st, to.name, p.t, line)
                return [(T, LV('@' + to.name, (), [p.t], to, False))]
            out = []
            for key, (ct, arr, dim) in cands:
                k = self.reg[key]
                root, path, pre = key
                if arr:
                    off = Sub(I(-k * 1000000 - 1), p.t)
                    c = And(Cmp('<=', '0', off), Cmp('<', off, '1000000'))
                    out.append((c, LV(root, path, list(pre) + [off], ct, dim)))
                else:
                    out.append((Eq(p.t, I(-k * 1000000 - 1)), LV(root, path, list(pre), ct, False)))
            if check: self.oblige(st, Or(*[c for c, _ in out]), 'pointer designates a known object', line, 'mem')
            return out
        raise Unsupported('deref of %r' % (p,))

    def valid(self, st, tname, ref, line):
        al = self.get(st, '@' + tname, ('$alive',), '(Array Int Bool)')
        self.oblige(st, And(Not(Eq(ref, '0')), Sel(al, ref)), 'valid pointer to ' + tname, line, 'mem')

    def oblige(self, st, goal, name, line, kind, origin=None):
        if self.quiet or goal == T: return
        if st.dead(): return
        self.obls.append(Obl(self.cur, name, line, st.path, goal, kind, origin))
        # what has been checked may be used afterwards
        st.assume(goal)

    # ------------------------------------------------------------ values
    def as_int(self, v):
        if isinstance(v, PTRS): return self.code(v)
        if v.s == 'Int': return v.t
        if v.s == 'Bool': return Ite(v.t, '1', '0')
        raise Unsupported('int from %s' % v.s)

    def as_real(self, v):
        if isinstance(v, PTRS): raise Unsupported('real from pointer')
        if v.s == 'Real': return v.t
        t = self.as_int(v)
        n = num(t)
        if n is not None: return R(n)
        return '(to_real %s)' % t

    def as_bool(self, v):
        if isinstance(v, PTRS): return Not(self.ptr_eq(v, PC('0', None)))
        if v.s == 'Bool': return v.t
        if v.s == 'Int': return Not(Eq(v.t, '0'))
        return Not(Eq(v.t, '0.0'))

    def read(self, st, lv, in_code=True):
        ct = lv.ct
        if ct.kind == 'arr': return self.decay(lv)
        if self.ty.is_region(ct) and not (lv.root == '@' + ct.name and lv.path == ()):
            # an embedded or local region object: its leaf holds the reference
            t, so = self.read_leaf(st, lv, (), 0, CT('blk'))
            lv = LV('@' + ct.name, (), [t], ct, False)
        if ct.kind == 'struct':
            m = {}
            for sub, dims, b in self.leaves_in(lv):
                t, so = self.read_leaf(st, lv, sub, dims, b)
                m[sub] = (t, asort(self.bsort(b), dims), dims, b)
            return SV(m, ct)
        if ct.kind == 'ghost':
            so = ct.name
            full = so
            for _ in lv.idx: full = '(Array Int %s)' % full
            t = self.get(st, lv.root, lv.path, full)
            for i in lv.idx: t = Sel(t, i)
            return Val(t, so, ct)
        t, so = self.read_leaf(st, lv, (), 0, ct)
        if isinstance(t, PTRS): return t
        if ct.kind == 'ptr': return PC(t, ct.to)
        if in_code and so == 'Int' and ct.kind in RANGES and num(t) is None and t not in st.ranged:
            st.ranged = st.ranged | {t}
            lo, hi = RANGES[ct.kind]
            st.assume(Cmp('<=', I(lo), t))
            if hi is not None: st.assume(Cmp('<=', t, I(hi)))
        return Val(t, so, ct)

    def leaves_in(self, lv):
        """leaves of a region object or of a value object"""
        if self.ty.is_region(lv.ct) and lv.root == '@' + lv.ct.name and lv.path == ():
            out = []
            for f, t in self.fields(lv.ct.name):
                out += [((f,) + p, d, b) for p, d, b in self.leaves(t)]
            return out
        return self.leaves(lv.ct)

    def write(self, st, lv, v, line=0):
        ct = lv.ct
        if ct.kind == 'struct':
            if isinstance(v, PTRS): raise Unsupported('struct := pointer')
            if self.ty.is_region(ct) and not (lv.root == '@' + ct.name and lv.path == ()):
                t, so = self.read_leaf(st, lv, (), 0, CT('blk'))
                lv = LV('@' + ct.name, (), [t], ct, False)
            for sub, dims, b in self.leaves_in(lv):
                if sub in v.m: self.write_leaf(st, lv, sub, dims, b, v.m[sub][0])
            return
        if ct.kind == 'ptr':
            if not lv.idx and lv.path == () and lv.root[0] in 'Lg':
                st.store[(lv.root, lv.path)] = v
            else:
                self.write_leaf(st, lv, (), 0, ct, self.code(v))
            return
        if ct.kind == 'ghost':
            so = ct.name
            full = so
            for _ in lv.idx: full = '(Array Int %s)' % full
            k = (lv.root, lv.path)
            if not lv.idx:
                st.store[k] = self.name(st, lv.root + '.' + '.'.join(lv.path), v.t, full)
            else:
                cur = self.get(st, lv.root, lv.path, full)

                def upd(a, idx):
                    if len(idx) == 1: return Sto(a, idx[0], v.t)
                    return Sto(a, idx[0], upd(Sel(a, idx[0]), idx[1:]))
                st.store[k] = self.name(st, '.'.join(lv.path), upd(cur, lv.idx), full)
            return
        so = self.base(ct)
        t = self.as_bool(v) if so == 'Bool' else self.as_real(v) if so == 'Real' else self.as_int(v)
        self.write_leaf(st, lv, (), 0, ct, t)

    def decay(self, lv):
        """array lvalue -> pointer to element 0"""
        ct = lv.ct
        return PLV(LV(lv.root, lv.path, lv.idx + ['0'], ct.to, self.dim(ct)) if not self.ty.is_region(ct.to) else LV(lv.root, lv.path, lv.idx, ct, 'blk'))

    def dim(self, ct): return ct.n if ct.n is not None else None

    def subscript(self, st, p, i, line, check=True):
        """p[i] -> LV"""
        if isinstance(p, PLV):
            lv = p.lv
            if lv.dim == 'blk':      # array of region objects embedded in an object or local
                t, _ = self.read_leaf(st, LV(lv.root, lv.path, lv.idx, lv.ct), (), 0, CT('blk'))
                if check and lv.ct.n is not None:
                    self.oblige(st, And(Cmp('<=', '0', i), Cmp('<', i, self.dimval(st, lv.ct.n))), 'array index in bounds', line, 'bounds')
                return LV('@' + lv.ct.to.name, (), [Add(t, i)], lv.ct.to, False)
            if lv.dim is False:
                if i == '0': return lv
                raise Unsupported('pointer arithmetic')
            if lv.idx:
                j = Add(lv.idx[-1], i)
                if check and lv.dim is not None:
                    self.oblige(st, And(Cmp('<=', '0', j), Cmp('<', j, self.dimval(st, lv.dim))), 'array index in bounds', line, 'bounds')
                return LV(lv.root, lv.path, lv.idx[:-1] + [j], lv.ct, lv.dim)
            if i == '0': return lv
        if isinstance(p, PC) and p.to is not None and self.ty.is_region(p.to):
            r = Add(p.t, i)
            if check: self.valid(st, p.to.name, r, line)
            return LV('@' + p.to.name, (), [r], p.to, False)
        raise Unsupported('subscript of %r' % (p,))

    def dimval(self, st, n): return n

    # ------------------------------------------------------------ states
    def snapshot(self, st):
        s = State(); s.store = dict(st.store); s.frames = st.frames; s.path = st.path
        return s

    def merge(self, rs):
        """merge [(st, v)] when only scalars differ"""
        rs = [r for r in rs if not r[0].dead()]
        if len(rs) < 2: return rs
        # common ancestor
        paths = [r[0].path for r in rs]
        mind = min(p[2] if p else 0 for p in paths)
        tr = []
        for p in paths:
            while p and p[2] > mind: p = p[0]
            tr.append(p)
        while not all(x is tr[0] for x in tr):
            tr = [x[0] for x in tr]
        base = tr[0]
        keys = set()
        stores = [r[0].store for r in rs]
        for s in stores[1:]:
            for k in s:
                if k not in stores[0] or (stores[0][k] is not s[k] and stores[0][k] != s[k]): keys.add(k)
            for k in stores[0]:
                if k not in s: keys.add(k)
        vs = [r[1] for r in rs]
        fr = rs[0][0].frames
        visible = set()
        for f in fr:
            for (root, ct) in f.vars.values(): visible.add(root)
        diff = []
        for k in keys:
            if k[0][0] == 'L' and k[0] not in visible: continue
            ts = []
            for (s, _) in rs:
                t = s.store.get(k)
                if t is None:
                    so = None
                    for s2 in stores:
                        if k in s2 and not isinstance(s2[k], PTRS): so = self.tsort(s2[k])
                    if so is None: return rs
                    t = self.get(s, k[0], k[1], so)
                ts.append(t)
            if any(isinstance(t, PTRS) for t in ts):
                if not all(isinstance(t, PC) for t in ts): return rs
            else:
                so = self.tsort(ts[0])
                if so not in ('Int', 'Real', 'Bool') and (not self.merge_arrays or rs[0][0].snaps.get('nomerge')): return rs
            diff.append((k, ts))
        if vs[0] is not None:
            if all(isinstance(v, Val) for v in vs):
                if any(v.s != vs[0].s for v in vs): return rs
            elif all(isinstance(v, PC) for v in vs): pass
            elif all(isinstance(v, PTRS) for v in vs): pass
            else: return rs
        new = rs[0][0].fork()
        new.path = base
        conds = []
        for (s, _) in rs:
            ents = entries(s.path, base)
            c = And(*[e[1] for e in ents if e[0] == 'br'])
            for e in ents:
                if e[0] == 'def': new.add('def', e[1], e[2])
            if len(c) > 60: c = self.name(new, 'c', c, 'Bool')
            for e in ents:
                if e[0] == 'as': new.assume(Imp(c, e[1]))
            conds.append(c)
        new.assume(Or(*conds))
        new.ranged = frozenset.intersection(*[s.ranged for s, _ in rs])

        def comb(ts):
            t = ts[-1]
            for c, u in reversed(list(zip(conds[:-1], ts[:-1]))): t = Ite(c, u, t)
            return t
        for k, ts in diff:
            if isinstance(ts[0], PTRS):
                new.store[k] = PC(self.name(new, k[0] + '.ptr', comb([x.t for x in ts]), 'Int'), ts[0].to)
            else:
                new.store[k] = self.name(new, k[0] + '.' + '.'.join(k[1]), comb(ts), self.tsort(ts[0]))
        v = None
        if vs[0] is not None:
            if isinstance(vs[0], Val):
                v = Val(self.name(new, 'v', comb([x.t for x in vs]), vs[0].s), vs[0].s, vs[0].ct)
            elif all(isinstance(x, PC) for x in vs):
                v = PC(self.name(new, 'v', comb([x.t for x in vs]), 'Int'), vs[0].to)
            else:
                v = PM(list(zip(conds, vs)))
        # keep variables not visible out of the store
        return [(new, v)]

    merge_arrays = False
    itctx = (None, None)

    def psort(self, t):
        try: s = self.tsort(t)
        except Exception: return None
        return s if s in ('Int', 'Real', 'Bool') else None

    def tsort(self, t):
        if t in self.decl: return self.decl[t]
        if t in (T, F) or re.match(r'^\((not|and|or|=>|=|<|<=|>|>=) ', t): return 'Bool'
        if num(t) is not None: return 'Int'
        if rnum(t) is not None: return 'Real'
        m = re.match(r'^\((ite|\+|-|\*|select|store|div|mod|to_real|/|to_int) ', t)
        if m:
            op = m.group(1)
            a = args(t)
            if op == 'ite': return self.tsort(a[1])
            if op in ('+', '-', '*'): return self.tsort(a[0])
            if op in ('div', 'mod', 'to_int'): return 'Int'
            if op in ('to_real', '/'): return 'Real'
            if op == 'select': return elemsort(self.tsort(a[0]))
            if op == 'store': return self.tsort(a[0])
        m = re.match(r'^\((\S+) ', t)
        if m and m.group(1) in self.funs: return self.funs[m.group(1)][1]
        if t in self.funs and not self.funs[t][0]: return self.funs[t][1]
        if t.startswith('((as const '): return _consort(t)
        raise Unsupported('sort of ' + t)

    # ------------------------------------------------------------ expressions
    def line(self, n): return n.get('_line', 0)

    def qt(self, n): return self.ty.parse(n['type'].get('desugaredQualType') if False else n['type']['qualType'])

    def lookup(self, st, declid):
        f = st.frames[-1]
        if declid in f.vars: return f.vars[declid]
        return None

    def lval(self, n, st):
        k = n['kind']
        if k == 'ParenExpr': return self.lval(n['inner'][0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            v = self.lookup(st, d['id'])
            if v: return [(st, LV(v[0], (), [], v[1], False))]
            return [(st, LV('g' + d['name'], (), [], self.qt(n), False))]
        if k == 'MemberExpr':
            if n.get('isArrow'):
                out = []
                for s, p in self.ev(n['inner'][0], st):
                    for s2, lv in self.deref(s, p, self.line(n)):
                        out.append((s2, self.field(s2, lv, n['name'])))
                return out
            if n['inner'][0].get('valueCategory') == 'lvalue':
                return [(s, self.field(s, lv, n['name'])) for s, lv in self.lval(n['inner'][0], st)]
            raise Unsupported('member of rvalue')
        if k == 'ArraySubscriptExpr':
            out = []
            for s, p in self.ev(n['inner'][0], st):
                for s2, i in self.ev(n['inner'][1], s):
                    out.append((s2, self.subscript(s2, p, self.as_int(i), self.line(n))))
            return out
        if k == 'UnaryOperator' and n['opcode'] == '*':
            out = []
            for s, p in self.ev(n['inner'][0], st): out += self.deref(s, p, self.line(n))
            return out
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.lval(n['inner'][0], st)
        raise Unsupported('lvalue ' + k)

    def impossible(self, st, cs):
        """the conditions contradict each other, or branch conditions of the path, by propositional reasoning alone"""
        ats = set()
        for c in cs: ats |= batoms(c)
        if len(ats) > 10: return False
        facts = list(cs)
        p = st.path; d = 0
        while p is not None and d < 400:
            e = p[1]
            if e[0] == 'br' and len(e[1]) < 20000:
                b = batoms(e[1])
                if b and b <= ats: facts.append(e[1])
            p = p[0]; d += 1
        al = sorted(ats)
        for m in range(1 << len(al)):
            env = {a: bool(m >> i & 1) for i, a in enumerate(al)}
            if all(beval(f, env) for f in facts): return False
        return True

    def split(self, st, p):
        """one state per target of a pointer that is one of several known objects"""
        out = []; neg = []
        for c, q in p.alts:
            s = st.fork()
            for n in neg: s.assume(n, 'br')
            neg.append(Not(c))
            if self.known_false(st, c) or self.impossible(st, neg[:-1] + [c]): continue
            s.assume(c, 'br')
            for k, v in list(s.store.items()):
                if isinstance(v, PM) and [a[0] for a in v.alts] == [a[0] for a in p.alts]: s.store[k] = v.alts[len(neg) - 1][1]
            out.append((s, q))
        return out

    def deref(self, st, p, line):
        if isinstance(p, PM) and len(p.alts) > 1 and all(isinstance(q, PLV) and not q.lv.root.startswith('@') for _, q in p.alts):
            return [(s, q.lv) for s, q in self.split(st, p)]
        alts = self.decode(st, p, line)
        if len(alts) == 1: return [(st, alts[0][1])]
        out = []
        for c, lv in alts:
            s = st.fork(); s.assume(c, 'br')
            if not self.known_false(st, c): out.append((s, lv))
        return out

    def field(self, st, lv, f):
        ct = lv.ct
        if ct.kind != 'struct': raise Unsupported('field %s of %r' % (f, ct))
        if self.ty.is_region(ct) and not (lv.root == '@' + ct.name and lv.path == ()):
            t, _ = self.read_leaf(st, lv, (), 0, CT('blk'))
            lv = LV('@' + ct.name, (), [t], ct, False)
        return LV(lv.root, lv.path + (f,), lv.idx, self.fieldtype(ct, f), False)

    def known_false(self, st, c):
        if c == F: return True
        return self.known(st, Not(c))

    def known(self, st, c):
        p = st.path; d = 0
        while p is not None and d < 400:
            e = p[1]
            if e[0] != 'def' and (e[1] == c or e[0] == 'br' and c in conjuncts(e[1])): return True
            p = p[0]; d += 1
        return False

    def known_true(self, st, c):
        if c == T: return True
        return self.known(st, c)

    def branch(self, st, c):
        """[(state, bool)]"""
        if c == T: return [(st, True)]
        if c == F: return [(st, False)]
        if self.known_true(st, c): return [(st, True)]
        if self.known_false(st, c): return [(st, False)]
        if c.startswith(_bops) and len(c) < 5000:
            if self.impossible(st, [c]): return [(st, False)]
            if self.impossible(st, [Not(c)]): return [(st, True)]
        a = st.fork(); a.assume(c, 'br')
        b = st.fork(); b.assume(Not(c), 'br')
        return [(a, True), (b, False)]

    def constfold(self, n):
        """numeric value of an integer constant expression built on literals, else None"""
        k = n['kind']
        if k == 'IntegerLiteral': return int(n['value'])
        if k in ('ParenExpr', 'ConstantExpr'): return self.constfold(n['inner'][0])
        if k == 'ImplicitCastExpr' and n['castKind'] in ('IntegralCast', 'NoOp', 'IntegralToBoolean'): return self.constfold(n['inner'][0])
        if k == 'BinaryOperator' and n['opcode'] in '+-*/':
            a = self.constfold(n['inner'][0]); b = self.constfold(n['inner'][1])
            if a is None or b is None: return None
            if n['opcode'] == '+': return a + b
            if n['opcode'] == '-': return a - b
            if n['opcode'] == '*': return a * b
            if b != 0 and a % b == 0: return a // b
        return None

    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n, st)

    def ev_IntegerLiteral(self, n, st):
        v = int(n['value'])
        return [(st, Val(cast.SPECIAL.get(v, I(v)) if v > 900 else I(v), 'Int', CT('int')))]

    def ev_CharacterLiteral(self, n, st):
        return [(st, Val(I(int(n['value'])), 'Int', CT('int')))]

    def ev_FloatingLiteral(self, n, st):
        x = float(n['value'])
        if n['type']['qualType'] == 'float': x = f32(x)
        return [(st, Val(R(Fraction(x)), 'Real', CT('double')))]

    def ev_StringLiteral(self, n, st): return [(st, self.literal(n['value']))]

    def literal(self, text):
        k = litid(text)
        self.lits[k] = text
        return PC(I(k), CT('char'))

    def ev_ParenExpr(self, n, st): return self.ev(n['inner'][0], st)

    def ev_ConstantExpr(self, n, st): return self.ev(n['inner'][0], st)

    def ev_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl': return [(st, Val(I(self.p.enums[d['name']]), 'Int', CT('enum')))]
        if d['kind'] == 'FunctionDecl': return [(st, Fn(d['name']))]
        raise Unsupported('rvalue use of ' + d['name'])

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') == 'sizeof': return [(st, Val(self.fresh('sizeof', 'Int'), 'Int', CT('ulong')))]
        raise Unsupported(n.get('name'))

    def ev_InitListExpr(self, n, st): raise Unsupported('initializer list')

    def ev_CompoundLiteralExpr(self, n, st): raise Unsupported('compound literal')

    def ev_ImplicitCastExpr(self, n, st): return self.cast(n, st)

    def ev_CStyleCastExpr(self, n, st): return self.cast(n, st)

    def cast(self, n, st):
        ck = n['castKind']; sub = n['inner'][0]
        if ck == 'LValueToRValue':
            if sub['kind'] == 'DeclRefExpr' and not self.lookup(st, sub['referencedDecl']['id']):
                g = self.globalval(sub['referencedDecl']['name'])
                if g: return [(st, g)]
            return [(s, self.read(s, lv)) for s, lv in self.lval(sub, st)]
        if ck == 'ArrayToPointerDecay':
            if sub['kind'] == 'StringLiteral': return [(st, self.literal(sub['value']))]
            return [(s, self.decay(lv)) for s, lv in self.lval(sub, st)]
        if ck in ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr'):
            return self.ev(sub, st)
        if ck == 'NullToPointer': return [(st, PC('0', self.qt(n).to))]
        if ck == 'ToVoid': return self.ev(sub, st)
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating'):
            cf = self.constfold(n) if ck == 'IntegralCast' else None
            if cf is not None and (cf in cast.SPECIAL): return [(st, Val(cast.SPECIAL[cf], 'Int', self.qt(n)))]
        out = []
        ct = self.qt(n)
        for s, v in self.ev(sub, st):
            if ck == 'IntegralCast':
                t = self.as_int(v)
                out.append((s, Val(self.convert(s, t, v.ct if isinstance(v, Val) else None, ct, self.line(n)), 'Int', ct)))
            elif ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean' or ck == 'PointerToBoolean':
                out.append((s, Val(self.as_bool(v), 'Bool', ct)))
            elif ck == 'IntegralToFloating':
                out.append((s, Val(self.as_real(v), 'Real', ct)))
            elif ck == 'FloatingCast':
                out.append((s, Val(v.t, 'Real', ct)))
            elif ck == 'FloatingToIntegral':
                # truncation: exact for non-negative values
                self.oblige(s, Cmp('>=', v.t, '0.0'), 'non-negative value truncated', self.line(n), 'arith')
                out.append((s, Val('(to_int %s)' % v.t, 'Int', ct)))
            elif ck == 'BitCast':
                if isinstance(v, PC): v = PC(v.t, ct.to if ct.to.kind != 'void' else v.to)
                out.append((s, v))
            elif ck == 'NoOp':
                out.append((s, v))
            else: raise Unsupported('cast ' + ck)
        return out

    def convert(self, st, t, frm, to, line):
        if to.kind == 'bool': return t
        if to.kind not in RANGES: return t
        lo, hi = RANGES[to.kind]
        if to.kind == 'enum': return t
        nv = num(t)
        if nv is not None:
            if hi is None: hi2 = 2 ** (32 if to.kind == 'uint' else 64) - 1
            else: hi2 = hi
            if lo <= nv <= hi2: return t
            return I((nv - lo) % (hi2 - lo + 1) + lo)
        if frm is not None:
            if frm.kind == to.kind: return t
            if frm.kind in RANGES and frm.kind != 'enum':
                l2, h2 = RANGES[frm.kind]
                if l2 >= lo and (hi is None or (h2 is not None and h2 <= hi)): return t
            if frm.kind == 'enum': return t
        if hi is None: g = Cmp('<=', I(lo), t)
        else: g = And(Cmp('<=', I(lo), t), Cmp('<=', t, I(hi)))
        self.oblige(st, g, 'conversion to %s preserves the value' % to.kind, line, 'conv')
        return t

    def globalval(self, nm):
        if nm == 'vf_hybrid': return Val('HYB', 'Bool', CT('bool'))
        if nm == 'vf_DBL_MAX': return Val('DBLMAX', 'Real', CT('double'))
        if nm == 'vf_FLT_MAX': return Val('FLTMAX', 'Real', CT('double'))
        if nm == 'vf_CLOCKS_PER_SEC': return Val('1000000', 'Int', CT('long'))
        if nm in ('stdout', 'stderr', 'stdin'): return PC('1', CT('struct', name='FILE'))
        return None

    def ev_MemberExpr(self, n, st):
        # member of an rvalue struct is the only case that gets here without LValueToRValue
        return [(s, self.read(s, lv)) for s, lv in self.lval(n, st)]

    def ev_ArraySubscriptExpr(self, n, st):
        return [(s, self.read(s, lv)) for s, lv in self.lval(n, st)]

    def ev_UnaryOperator(self, n, st):
        op = n['opcode']; sub = n['inner'][0]; line = self.line(n)
        if op == '&':
            return [(s, PLV(lv) if not (self.ty.is_region(lv.ct) and not lv.root.startswith('@')) else self.regionptr(s, lv))
                    for s, lv in self.lval(sub, st)]
        if op == '*':
            return [(s, self.read(s, lv)) for s, lv in self.lval(n, st)]
        if op in ('++', '--'):
            out = []
            for s, lv in self.lval(sub, st):
                v = self.read(s, lv)
                if isinstance(v, PTRS):
                    if isinstance(v, PLV) and v.lv.idx and v.lv.dim not in (False, 'blk'):
                        l2 = v.lv
                        w = PLV(LV(l2.root, l2.path, l2.idx[:-1] + [Add(l2.idx[-1], I(1 if op == '++' else -1))], l2.ct, l2.dim))
                        self.write(s, lv, w)
                        out.append((s, v if n.get('isPostfix') else w)); continue
                    raise Unsupported('pointer increment')
                if v.s == 'Real': t = Add(v.t, R(1 if op == '++' else -1), 'Real')
                else:
                    t = Add(self.as_int(v), I(1 if op == '++' else -1))
                    self.range_check(s, t, lv, line)
                w = Val(t, v.s if v.s != 'Bool' else 'Int', v.ct)
                self.write(s, lv, w)
                if n.get('isPostfix'): out.append((s, v))
                else: out.append((s, w))
            return out
        out = []
        for s, v in self.ev(sub, st):
            if op == '!': out.append((s, Val(Not(self.as_bool(v)), 'Bool', CT('int'))))
            elif op == '-':
                if v.s == 'Real': out.append((s, Val(Neg(v.t, 'Real'), 'Real', v.ct)))
                else: out.append((s, Val(Neg(self.as_int(v)), 'Int', CT('int'))))
            elif op == '+': out.append((s, v))
            else: raise Unsupported('unary ' + op)
        return out

    def range_check(self, st, t, lv, line):
        ct = lv.ct
        if ct.kind in ('short', 'ushort', 'char', 'uchar', 'uint', 'ulong'):
            fld = lv.path[-1] if lv.path else self.varname(st, lv.root)
            if self.curspec and fld in self.curspec.norange: return
            lo, hi = RANGES[ct.kind]
            g = [Cmp('<=', I(lo), t)]
            if hi is not None: g.append(Cmp('<=', t, I(hi)))
            self.oblige(st, And(*g), 'no wrap-around of %s' % fld, line, 'conv')

    def varname(self, st, root):
        for f in st.frames:
            for d, (r, ct) in f.vars.items():
                if r == root:
                    for nm, dd in f.names.items():
                        if dd == d: return nm
        return root

    def regionptr(self, st, lv):
        t, _ = self.read_leaf(st, lv, (), 0, CT('blk'))
        return PC(t, lv.ct)

    def ev_BinaryOperator(self, n, st):
        op = n['opcode']; a, b = n['inner']; line = self.line(n)
        cf = self.constfold(n)
        if cf is not None:
            return [(st, Val(cast.SPECIAL[cf] if cf in cast.SPECIAL and cf > 900 else I(cf), 'Int', CT('int')))]
        if op == '=':
            out = []
            for s, v in self.ev(b, st):
                for s2, lv in self.lval(a, s):
                    if isinstance(v, Val) and v.s == 'Int' and v.ct is not None and lv.ct.kind in INTK and lv.ct.kind != v.ct.kind:
                        pass
                    self.write(s2, lv, v, line)
                    out.append((s2, v))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(a, st): out += self.ev(b, s)
            return out
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(a, st):
                c = self.as_bool(v)
                if op == '||': c = Not(c)
                if c == F:
                    out.append((s, Val(F if op == '&&' else T, 'Bool', CT('int')))); continue
                s1 = s.fork(); s1.assume(c, 'br')
                p1 = s1.path
                rs = self.ev(b, s1)
                if len(rs) == 1 and rs[0][0].store == s.store and len(rs[0][0].frames) == len(s.frames):
                    s2, w = rs[0]
                    new = s.fork()
                    ents = entries(s2.path, p1) if c != T else entries(s2.path, s.path)
                    for e in ents:
                        if e[0] == 'def': new.add('def', e[1], e[2])
                        else: new.assume(Imp(c, e[1]))
                    r = self.as_bool(w)
                    out.append((new, Val(And(c, r) if op == '&&' else Or(Not(c), r), 'Bool', CT('int'))))
                else:
                    if c != T:
                        s0 = s.fork(); s0.assume(Not(c), 'br')
                        out.append((s0, Val(F if op == '&&' else T, 'Bool', CT('int'))))
                    for s2, w in rs: out.append((s2, Val(self.as_bool(w), 'Bool', CT('int'))))
            return out
        out = []
        for s, x in self.ev(a, st):
            for s2, y in self.ev(b, s):
                out.append((s2, self.binop(s2, op, x, y, n)))
        return out

    def binop(self, st, op, x, y, n):
        line = self.line(n)
        ptr = isinstance(x, PTRS) or isinstance(y, PTRS)
        if op in ('==', '!='):
            if ptr:
                r = self.ptr_eq(x, y)
            elif x.s == 'Real' or y.s == 'Real': r = Eq(self.as_real(x), self.as_real(y))
            elif x.s == 'Bool' and y.s == 'Bool': r = Eq(x.t, y.t)
            else: r = Eq(self.as_int(x), self.as_int(y))
            return Val(r if op == '==' else Not(r), 'Bool', CT('int'))
        if ptr:
            if op == '+' and isinstance(x, PTRS): return PLV(self.subscript(st, x, self.as_int(y), line, check=False))
            if op == '-' and isinstance(x, PTRS) and isinstance(y, Val): return PLV(self.subscript(st, x, Neg(self.as_int(y)), line, check=False))
            if op == '-' and isinstance(x, PLV) and isinstance(y, PLV) and x.lv.root == y.lv.root and x.lv.path == y.lv.path and x.lv.idx:
                return Val(Sub(x.lv.idx[-1], y.lv.idx[-1]), 'Int', CT('long'))
            if op == '-' and isinstance(x, PC) and isinstance(y, PC): return Val(Sub(x.t, y.t), 'Int', CT('long'))
            raise Unsupported('pointer ' + op)
        if op in ('<', '<=', '>', '>='):
            if x.s == 'Real' or y.s == 'Real': return Val(Cmp(op, self.as_real(x), self.as_real(y)), 'Bool', CT('int'))
            return Val(Cmp(op, self.as_int(x), self.as_int(y)), 'Bool', CT('int'))
        ct = self.qt(n)
        if x.s == 'Real' or y.s == 'Real':
            a, b = self.as_real(x), self.as_real(y)
            if op == '+': t = Add(a, b, 'Real')
            elif op == '-': t = Sub(a, b, 'Real')
            elif op == '*': t = Mul(a, b, 'Real')
            elif op == '/':
                p, q = rnum(a), rnum(b)
                if q is not None and q != 0: t = R(p / q) if p is not None else '(/ %s %s)' % (a, R(q))
                else:
                    self.oblige(st, Not(Eq(b, '0.0')), 'division by zero', line, 'arith')
                    t = '(/ %s %s)' % (a, b)
            else: raise Unsupported('real ' + op)
            return Val(t, 'Real', ct)
        a, b = self.as_int(x), self.as_int(y)
        if op == '+': t = Add(a, b)
        elif op == '-':
            t = Sub(a, b)
            if ct.kind in ('ulong', 'uint') and num(t) is None:
                self.oblige(st, Cmp('<=', '0', t), 'unsigned subtraction does not wrap', line, 'conv')
        elif op == '*': t = Mul(a, b)
        elif op in ('/', '%'):
            self.oblige(st, Not(Eq(b, '0')), 'division by zero', line, 'arith')
            if num(a) is not None and num(b) not in (None, 0):
                q = abs(num(a)) // abs(num(b)); q = q if num(a) * num(b) >= 0 else -q
                t = I(q) if op == '/' else I(num(a) - q * num(b))
            else:
                self.oblige(st, And(Cmp('<=', '0', a), Cmp('<', '0', b)), 'operands of %s are non-negative' % op, line, 'arith')
                t = '(%s %s %s)' % ('div' if op == '/' else 'mod', a, b)
        elif op == '&' and num(b) == 1: t = '(mod %s 2)' % a
        elif op == '<<' and num(b) is not None: t = Mul(a, I(2 ** num(b)))
        elif op == '>>' and num(b) is not None: t = '(div %s %d)' % (a, 2 ** num(b))
        else: raise Unsupported('int ' + op)
        return Val(t, 'Int', ct)

    def ev_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]; a, b = n['inner']; line = self.line(n)
        out = []
        for s, y in self.ev(b, st):
            for s2, lv in self.lval(a, s):
                x = self.read(s2, lv)
                m = dict(n); m['type'] = n.get('computeResultType', n['type'])
                v = self.binop(s2, op, x, y, m)
                if isinstance(v, Val) and v.s == 'Int': self.range_check(s2, v.t, lv, line)
                if isinstance(v, Val) and v.s == 'Real' and self.base(lv.ct) == 'Int': raise Unsupported('int op= real')
                self.write(s2, lv, v)
                out.append((s2, v))
        return out

    def ev_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        out = []
        for s, v in self.ev(c, st):
            rs = []
            for s2, tr in self.branch(s, self.as_bool(v)):
                rs += self.ev(a if tr else b, s2)
            if len(rs) > 1:
                if any(isinstance(r[1], Val) and r[1].s == 'Real' for r in rs):
                    rs = [(q, Val(self.as_real(r), 'Real', CT('double'))) for q, r in rs]
                elif len({r[1].s for r in rs if isinstance(r[1], Val)}) > 1:
                    rs = [(q, Val(self.as_int(r), 'Int', CT('int'))) for q, r in rs]
                rs = self.merge(rs)
            out += rs
        return out

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, n, st):
        outs = []
        for s, f in self.ev(n['inner'][0], st):
            if not isinstance(f, Fn): raise Unsupported('indirect call')
            acc = [(s, [])]
            # malloc and friends look at the type of their context: handled through sizeof
            if f.name in ('malloc', 'calloc'):
                ct = self.sizeof_type(n)
                r = self.alloc(s, ct.name, zero=(f.name == 'calloc'))
                outs.append((s, PC(r, ct))); continue
            if f.name in NOEFFECT:
                for a in n['inner'][1:]:
                    acc = [(s2, None) for s1, _ in acc for s2, _ in self.ev(a, s1)]
                    acc = self.merge(acc) if len(acc) > 1 else acc
                outs += [(s1, Val(self.fresh('ret', 'Int'), 'Int', CT('int'))) for s1, _ in acc]; continue
            for a in n['inner'][1:]:
                acc = [(s2, vs + [v]) for s1, vs in acc for s2, v in self.ev(a, s1)]
            for s1, vs in acc: outs += self.call(f.name, vs, s1, n)
        return outs

    def sizeof_type(self, n):
        found = []

        def w(x):
            if isinstance(x, dict):
                if x.get('kind') == 'UnaryExprOrTypeTraitExpr':
                    if 'argType' in x: found.append(self.ty.parse(x['argType']['qualType']))
                    else: found.append(self.ty.parse(x['inner'][0]['type']['qualType']))
                for c in x.get('inner', []) or []: w(c)
        w(n)
        if len(found) != 1 or not self.ty.is_region(found[0]): raise Unsupported('allocation of unknown type')
        return found[0]

    def alloc(self, st, tname, zero=False, count=None):
        root = '@' + tname
        nx = self.get(st, root, ('$nxt',), 'Int')
        al = self.get(st, root, ('$alive',), '(Array Int Bool)')
        if not self.known_true(st, '(< 0 %s)' % nx): st.assume(Cmp('<', '0', nx))
        # nothing at or above the allocation mark is alive
        if count is None:
            st.store[(root, ('$alive',))] = self.name(st, 'alive_' + tname, Sto(al, nx, T), '(Array Int Bool)')
            st.store[(root, ('$nxt',))] = self.name(st, 'nxt_' + tname, Add(nx, '1'), 'Int')
            if zero:
                lv = LV(root, (), [nx], CT('struct', name=tname), False)
                for sub, dims, b in self.leaves_in(lv):
                    if dims or b.kind in ('blk', 'ghost'): continue
                    so = self.bsort(b)
                    self.write_leaf(st, lv, sub, dims, b, {'Int': '0', 'Bool': F, 'Real': '0.0'}[so])
            return nx
        na = self.fresh('alive_' + tname, '(Array Int Bool)')
        st.assume('(forall ((q Int)) (! (= (select %s q) (or (select %s q) (and (<= %s q) (< q (+ %s %s))))) :pattern ((select %s q)) :pattern ((select %s q))))' % (na, al, nx, nx, count, na, al))
        st.store[(root, ('$alive',))] = na
        st.store[(root, ('$nxt',))] = self.name(st, 'nxt_' + tname, Add(nx, count), 'Int')
        return nx

    def call(self, name, vs, st, n):
        line = self.line(n)
        for i, v in enumerate(vs):
            if isinstance(v, PM) and len(v.alts) > 1 and all(isinstance(q, PLV) and not q.lv.root.startswith('@') for _, q in v.alts):
                return [r for s, q in self.split(st, v) for r in self.call(name, list(vs[:i]) + [q] + list(vs[i + 1:]), s, n)]
        h = getattr(self, 'x_' + name, None)
        if h and name not in self.p.funcs:
            self.externals_used.add(name)
            return h(vs, st, n)
        ordinal = self.ordinals.get((st.frames[-1].chain, n['id'])) if self.ordinals else None
        self.point(st, ('before', 'call', name), ordinal, line)
        sp = self.sp.fns.get(name)
        if sp is not None and 'inline' not in sp.flags:
            self.contracts_used.add(name)
            rs = self.call_contract(sp, vs, st, n)
        elif name in self.p.funcs:
            rs = self.inline(name, vs, st, n)
        else:
            raise Unsupported('external function ' + name)
        for s, v in rs: self.point(s, ('after', 'call', name), ordinal, line)
        return rs

    def newroot(self, nm):
        self.inst += 1
        return 'L%d.%s' % (self.inst, nm)

    def params(self, fn):
        return [c for c in fn.get('inner', []) if c['kind'] == 'ParmVarDecl']

    def body(self, fn):
        return [c for c in fn['inner'] if c['kind'] == 'CompoundStmt'][0]

    def inline(self, name, vs, st, n):
        if len(st.frames) > 12 or any(f.fn == name for f in st.frames): raise Unsupported('recursion without contract: ' + name)
        fn = self.p.funcs[name]
        self.inlined.add(name)
        fr = Frame(name, chain=st.frames[-1].chain + (n['id'],))
        st = st.fork()
        for d, v in zip(self.params(fn), vs):
            ct = self.qt(d)
            if ct.kind == 'arr': ct = CT('ptr', ct.to)
            root = self.newroot(d.get('name', '_'))
            fr.vars[d['id']] = (root, ct); fr.names[d.get('name')] = d['id']
            self.write(st, LV(root, (), [], ct, False), v)
        st.frames = st.frames + (fr,)
        rs = []
        rt = fn['type']['qualType'].split('(')[0].strip()
        for k, s, v in self.ex(self.body(fn), st):
            if k in ('n', 'ret'):
                s.frames = s.frames[:-1]
                rs.append((s, v if v is not None else Val('0', 'Int', CT('int'))))
            else: raise Unsupported('break out of function')
        return self.merge(rs) if len(rs) > 1 else rs

    def frame_for(self, sp, vs):
        """environment for evaluating a contract at a call"""
        fn = self.p.funcs.get(sp.name) or self.p.protos.get(sp.name)
        ps = self.params(fn)
        env = {}
        for d, v in zip(ps, vs): env[d.get('name')] = v
        if sp.params:
            pass
        return env

    def call_contract(self, sp, vs, st, n):
        line = self.line(n)
        self.used_contracts.add(sp.name)
        fn = self.p.funcs[sp.name]
        env = self.argenv(sp, fn, vs, st)
        ctx = Ctx(self, st, env=env, old=None, fn=sp.name)
        for i, (lab, e) in enumerate(sp.requires):
            self.oblige(st, ctx.boolean(e), 'precondition %s of %s' % (lab or i + 1, sp.name), line, 'pre')
        if sp.decreases is not None and self.curspec and sp.name == self.cur:
            m = ctx.int(sp.decreases)
            m0 = self.measure0
            self.oblige(st, And(Cmp('<=', '0', m), Cmp('<', m, m0)), 'recursion decreases', line, 'term')
        self.separation(sp, env, st, ctx, line)
        pre = self.snapshot(st)
        st = st.fork()
        for e in (sp.assigns or []): self.havoc_lv(st, ctx, e, pre)
        rt = self.ty.parse(fn['type']['qualType'].split('(')[0].strip())
        res = None
        ctx2 = Ctx(self, st, env=env, old=pre, fn=sp.name)
        for (nm, so, init) in sp.locals: pass
        if rt.kind == 'void': res = Val('0', 'Int', CT('int'))
        elif sp.ret is not None:
            res = ctx2.value(sp.ret)
            if rt.kind == 'ptr' and isinstance(res, Val): res = PC(res.t, rt.to)
        elif rt.kind == 'ptr':
            res = PC(self.fresh(sp.name + '_ret', 'Int'), rt.to)
        elif rt.kind == 'struct': raise Unsupported('contract returning struct')
        else:
            so = self.base(rt)
            res = Val(self.fresh(sp.name + '_ret', so), so, rt)
            if so == 'Int' and rt.kind in RANGES:
                lo, hi = RANGES[rt.kind]
                st.assume(Cmp('<=', I(lo), res.t))
                if hi is not None: st.assume(Cmp('<=', res.t, I(hi)))
        ctx2.result = res
        for (lab, e) in sp.ensures: st.assume(ctx2.boolean(e))
        return [(st, res)]

    def argenv(self, sp, fn, vs, st):
        env = {}
        for d, v in zip(self.params(fn), vs):
            env[d.get('name')] = v
        return env

    def footprint(self, v):
        if isinstance(v, PLV):
            if v.lv.root.startswith('@') : return []
            return [(v.lv.root, v.lv.path)]
        if isinstance(v, PM):
            return [f for c, q in v.alts for f in self.footprint(q)]
        return []

    def uses_global(self, name, var):
        """does the function, its contract or anything it calls mention the global variable?"""
        key = (name, var)
        if not hasattr(self, '_ug'): self._ug = {}
        if key in self._ug: return self._ug[key]
        self._ug[key] = False
        sp = self.sp.fns.get(name)
        r = sp is not None and any(repr(var) in repr(v) for v in vars(sp).values())
        todo = [self.p.funcs[name]] if name in self.p.funcs else []
        while todo and not r:
            x = todo.pop()
            if isinstance(x, list): todo += x
            elif isinstance(x, dict):
                if x.get('kind') == 'DeclRefExpr':
                    d = x.get('referencedDecl') or {}
                    if d.get('name') == var: r = True
                    elif d.get('kind') == 'FunctionDecl' and self.uses_global(d.get('name'), var): r = True
                todo += list(x.get('inner') or [])
        self._ug[key] = r
        return r

    def separation(self, sp, env, st, ctx, line):
        """contracts are proved for separate pointer arguments: check that at the call"""
        items = []
        for nm, v in env.items():
            for f in self.footprint(v): items.append((nm, f))
        g = st.store.get(('gproblem', ()))
        if g is not None and self.uses_global(sp.name, 'problem'):
            for f in self.footprint(g): items.append(('problem', f))
        asg = []
        for e in (sp.assigns or []):
            if e[0] == 'call' and e[1] in ('alloc', 'clock', 'io'): continue
            for lv in ctx.lvalues(e): asg.append((lv.root, lv.path))

        def overlap(a, b):
            if a[0] != b[0]: return False
            m = min(len(a[1]), len(b[1]))
            return a[1][:m] == b[1][:m]
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                if items[i][0] != items[j][0] and overlap(items[i][1], items[j][1]):
                    a, b = items[i][1], items[j][1]
                    small = a if len(a[1]) >= len(b[1]) else b
                    if any(overlap(small, x) for x in asg):
                        raise Unsupported('aliased arguments %s, %s of %s' % (items[i][0], items[j][0], sp.name))

    def havoc_lv(self, st, ctx, e, pre):
        if e[0] == 'call' and e[1] == 'alloc':
            t = e[2][0][1]
            nx = self.get(st, '@' + t, ('$nxt',), 'Int')
            n2 = self.fresh('nxt_' + t, 'Int'); al = self.fresh('alive_' + t, '(Array Int Bool)')
            st.store[('@' + t, ('$nxt',))] = n2
            st.store[('@' + t, ('$alive',))] = al
            self.marks(st, nx, n2, al)
            return
        if e[0] == 'call' and e[1] == 'clock':
            return
        if e[0] == 'call' and e[1] == 'io':
            for nm, so in IOSORT.items():
                if nm != 'perm' and (not e[2] or any(a[1] == nm for a in e[2])): st.store[('gio', (nm,))] = self.fresh('io_' + nm, so)
            return
        for lv in ctx.lvalues(e):
            self.havoc(st, lv)

    def marks(self, st, nx, n2, al):
        """allocation marks only grow, and nothing at or above the mark is alive"""
        st.assume(Cmp('<=', nx, n2)); st.assume(Cmp('<', '0', n2))
        st.assume('(forall ((q Int)) (! (=> (select %s q) (and (< 0 q) (< q %s))) :pattern ((select %s q))))' % (al, n2, al))

    def havoc(self, st, lv):
        ct = lv.ct
        if ct.kind == 'ghost' :
            so = ct.name
            self.write(st, lv, Val(self.fresh('.'.join(lv.path), so), so)); return
        if self.ty.is_region(ct) and not (lv.root == '@' + ct.name and lv.path == ()):
            return    # the reference itself does not change
        ls = self.leaves_in(lv) if ct.kind == 'struct' else self.leaves(ct)
        for sub, dims, b in ls:
            if b.kind == 'blk': continue
            if b.kind == 'ghost':
                so = b.name
                l2 = LV(lv.root, lv.path + sub, lv.idx, b, False)
                if dims == 0: self.write(st, l2, Val(self.fresh('.'.join(l2.path), so), so)); continue
            so = asort(self.bsort(b), dims)
            t = self.fresh('.'.join((lv.root,) + lv.path + sub), so)
            if dims == 0 and so == 'Int' and b.kind in RANGES:
                lo, hi = RANGES[b.kind]
                st.assume(Cmp('<=', I(lo), t))
                if hi is not None: st.assume(Cmp('<=', t, I(hi)))
            self.write_leaf(st, lv, sub, dims, b, t)

    # externals
    def x_exit(self, vs, st, n):
        if self.curspec and self.curspec.exits:
            ctx = Ctx(self, st, old=self.pre, fn=self.cur)
            self.oblige(st, Not(Eq(self.as_int(vs[0]), '0')) if vs else T, 'the exit reports an error', self.line(n), 'exit')
            for i, (lab, e) in enumerate(self.curspec.exits):
                self.oblige(st, ctx.boolean(e), 'error exit only if %s' % (lab or i + 1), self.line(n), 'exit')
        elif not (self.curspec and 'may_exit' in self.curspec.flags):
            self.oblige(st, F, 'error exit is not reached', self.line(n), 'exit')
        return []

    x_abort = x_exit

    def x_free(self, vs, st, n):
        p = vs[0]
        if isinstance(p, PLV) or (isinstance(p, PC) and p.to is not None and self.ty.is_region(p.to)):
            if isinstance(p, PLV): tn, r = p.lv.root[1:], p.lv.idx[0]
            else: tn, r = p.to.name, p.t
            al = self.get(st, '@' + tn, ('$alive',), '(Array Int Bool)')
            self.oblige(st, Or(Eq(r, '0'), Sel(al, r)), 'freed pointer is allocated', self.line(n), 'mem')
            st.store[('@' + tn, ('$alive',))] = self.name(st, 'alive_' + tn, Sto(al, r, F), '(Array Int Bool)')
            return [(st, Val('0', 'Int', CT('int')))]
        if isinstance(p, PC) and p.to is not None and p.to.kind == 'char':
            buf = self.io(st, 'buf')
            self.oblige(st, Or(Eq(p.t, '0'), Eq(p.t, buf)), 'freed buffer is the live one', self.line(n), 'mem')
            self.setio(st, 'buf', Ite(Eq(p.t, '0'), buf, '0'))
            self.setio(st, 'live', Ite(Eq(p.t, '0'), self.io(st, 'live'), NOSTR))
            return [(st, Val('0', 'Int', CT('int')))]
        raise Unsupported('free of unknown pointer')

    # input files and strings.  State (root 'gio'): str = content of the string at an address, live = readable strings, perm = strings readable throughout,
    # file/pos/open = content of the open file, lines consumed, stream; buf = the buffer of getline; tk/td/tp/tb = the
    # string being cut by strtok (content, separators, pieces delivered, address); bad = an input/output call failed.
    def io(self, st, nm): return self.get(st, 'gio', (nm,), IOSORT[nm])

    def setio(self, st, nm, t): st.store[('gio', (nm,))] = self.name(st, 'io_' + nm, t, IOSORT[nm])

    def canread(self, st, c): return And(Not(Eq(c, '0')), Or(Sel(self.io(st, 'live'), c), Sel(self.io(st, 'perm'), c)))

    def content(self, st, p, line, what):
        k = num(self.code(p))
        if k is not None and k in self.lits: return I(k)
        c = self.code(p)
        self.oblige(st, self.canread(st, c), '%s reads a live string' % what, line, 'mem')
        return Sel(self.io(st, 'str'), c)

    def logicf(self, f, *a):
        if f not in self.funs: raise Unsupported('no specification of ' + f)
        return '(%s %s)' % (f, ' '.join(a))

    def lit_of(self, p):
        k = num(self.code(p)) if isinstance(p, PTRS) else None
        if k is None or k not in self.lits: raise Unsupported('string constant expected')
        return self.lits[k]

    def text(self, st, p, line, what):
        """p is a string that can be read"""
        c = self.code(p)
        k = num(c)
        if k is not None and k in self.lits: return
        if isinstance(p, PLV):
            self.content_len(st, p, line, what); return
        g = [Eq(c, I(k)) for k in sorted(self.lits)] + [self.canread(st, c)]
        self.oblige(st, Or(*g), '%s reads a live string' % what, line, 'mem')

    def printed(self, fmt, vs, st, n):
        """output: the conversions fit the arguments; integers printed by a function with flag prints are recorded"""
        line = self.line(n)
        conv = re.findall(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|z)?([a-zA-Z%])', self.lit_of(fmt))
        k = 0
        good = True

        def take(kinds):
            nonlocal k, good
            v = vs[k] if k < len(vs) else None
            k += 1
            kd = 'p' if isinstance(v, PTRS) else 'r' if isinstance(v, Val) and v.s == 'Real' else 'i' if isinstance(v, Val) else '?'
            if kd not in kinds: good = False; return None
            return v
        rec = 'prints' in (self.curspec.flags if self.curspec else ())

        def put(num_, arr, t):
            if not rec: return
            on = self.io(st, num_)
            self.setio(st, arr, Sto(self.io(st, arr), on, t))
            self.setio(st, num_, Add(on, '1'))
        for fl, w, pr, ln, c in conv:
            if c == '%': continue
            for x in (w, pr):
                if x == '*': take('i')
            if c in 'diuxXoc':
                v = take('i')
                if v is not None: put('on', 'out', self.as_int(v))
            elif c in 'feEgGaA':
                v = take('r')
                if v is not None: put('rn', 'rout', v.t)
            elif c == 's':
                v = take('p')
                if v is not None:
                    self.text(st, v, line, 'printf')
                    if rec:
                        q = self.code(v)
                        put('sn', 'sout', Ite(Or(*[Eq(q, I(x)) for x in sorted(self.lits)]), q, Sel(self.io(st, 'str'), q)) if num(q) is None else q)
            elif c == 'p': take('p')
            else: raise Unsupported('output format %' + c)
        if not good or k != len(vs): self.oblige(st, F, 'the arguments fit the conversions of the format', line, 'mem')

    def x_printf(self, vs, st, n):
        self.printed(vs[0], vs[1:], st, n)
        return [(st, Val(self.fresh('ret', 'Int'), 'Int', CT('int')))]

    def x_fprintf(self, vs, st, n):
        self.printed(vs[1], vs[2:], st, n)
        return [(st, Val(self.fresh('ret', 'Int'), 'Int', CT('int')))]

    # text built in a local character array: the length of the string it holds
    def arrlen(self, st, p, line, what):
        if not (isinstance(p, PLV) and p.lv.idx == ['0'] and not p.lv.path and p.lv.root.startswith('L')) or p.lv.dim is None: raise Unsupported('text outside a local array')
        return p.lv.root, p.lv.dim

    def content_len(self, st, p, line, what):
        if isinstance(p, PC):
            k = num(self.code(p))
            if k is None or k not in self.lits: raise Unsupported('text of unknown length')
            return I(strlen(self.lits[k]))
        root, _ = self.arrlen(st, p, line, what)
        t = st.store.get((root, ('$len',)))
        if t is None:
            self.oblige(st, F, '%s reads an initialised string' % what, line, 'mem')
            t = self.fresh('len', 'Int')
        return t

    def settext(self, st, p, ln, line, what):
        root, dim = self.arrlen(st, p, line, what)
        self.oblige(st, Cmp('<', ln, dim), 'the text fits the array (%s)' % what, line, 'bounds')
        st.store[(root, ('$len',))] = self.name(st, 'len', ln, 'Int')

    def x_sprintf(self, vs, st, n):
        line = self.line(n)
        fmt = self.lit_of(vs[1])
        self.printed(vs[1], vs[2:], st, n)
        if not re.fullmatch(r'"([^%"\\]|\\.|%[idus]|%%)*"', fmt): raise Unsupported('output format ' + fmt)
        t = I(strlen(re.sub(r'%%', '_', re.sub(r'%[idus]', '', fmt))))
        for c, v in zip(re.findall(r'%([idus%])', fmt.replace('%%', '')), vs[2:]):
            t = Add(t, self.content_len(st, v, line, 'sprintf') if c == 's' else self.logicf('digits', self.as_int(v)))
        self.settext(st, vs[0], t, line, 'sprintf')
        return [(st, Val(t, 'Int', CT('int')))]

    def x_strcat(self, vs, st, n):
        line = self.line(n)
        self.settext(st, vs[0], Add(self.content_len(st, vs[0], line, 'strcat'), self.content_len(st, vs[1], line, 'strcat')), line, 'strcat')
        return [(st, vs[0])]

    def x_freopen(self, vs, st, n):
        self.text(st, vs[0], self.line(n), 'freopen')
        if num(self.code(vs[2])) != 1: raise Unsupported('freopen of another stream')
        r = self.fresh('stream', 'Int'); st.assume(Cmp('>=', r, '0'))
        return [(st, PC(r, CT('struct', name='vf_file')))]

    def x_fopen(self, vs, st, n):
        line = self.line(n)
        if self.lit_of(vs[1]) not in ('"r"', '"rb"', '"rt"'): raise Unsupported('file not opened for reading')
        c = self.content(st, vs[0], line, 'fopen')
        self.oblige(st, Eq(self.io(st, 'open'), '0'), 'one file at a time', line, 'mem')
        r = self.fresh('fp', 'Int'); st.assume(Cmp('>=', r, '0'))
        self.setio(st, 'open', r)
        self.setio(st, 'bad', Or(self.io(st, 'bad'), Eq(r, '0')))
        self.setio(st, 'file', self.logicf('fileof', c))
        self.setio(st, 'pos', '0')
        return [(st, PC(r, CT('struct', name='vf_file')))]

    def x_fclose(self, vs, st, n):
        c = self.code(vs[0])
        if num(c) == 1: return [(st, Val(self.fresh('closed', 'Int'), 'Int', CT('int')))]    # a standard stream
        self.oblige(st, And(Not(Eq(c, '0')), Eq(c, self.io(st, 'open'))), 'closed file is open', self.line(n), 'mem')
        r = self.fresh('closed', 'Int')
        st.assume(Or(Eq(r, '0'), Eq(r, '(- 1)')))
        self.setio(st, 'open', '0')
        self.setio(st, 'bad', Or(self.io(st, 'bad'), Not(Eq(r, '0'))))
        return [(st, Val(r, 'Int', CT('int')))]

    def x_getline(self, vs, st, n):
        line = self.line(n)
        if not isinstance(vs[0], PLV) or not isinstance(vs[1], PLV): raise Unsupported('getline into unknown variables')
        c = self.code(vs[2])
        self.oblige(st, And(Not(Eq(c, '0')), Eq(c, self.io(st, 'open'))), 'file read from is open', line, 'mem')
        p = self.code(self.read(st, vs[0].lv))
        self.oblige(st, Eq(p, self.io(st, 'buf')), 'getline is given its own buffer or none', line, 'mem')
        f, pos = self.io(st, 'file'), self.io(st, 'pos')
        ok = self.name(st, 'got', Cmp('<', pos, self.logicf('fnum', f)), 'Bool')
        q = self.fresh('buf', 'Int')
        st.assume(And(Cmp('>=', q, '0'), Imp(ok, Cmp('>', q, '0')), Not(Sel(self.io(st, 'perm'), q))))
        self.write(st, vs[0].lv, PC(q, CT('char')))
        ln = self.fresh('len', 'Int'); st.assume(Cmp('>=', ln, '0'))
        self.write(st, vs[1].lv, Val(ln, 'Int', CT('ulong')))
        self.setio(st, 'buf', q)
        self.setio(st, 'live', Ite(ok, Sto(NOSTR, q, T), NOSTR))
        self.setio(st, 'str', Ite(ok, Sto(self.io(st, 'str'), q, self.logicf('fline', f, pos)), self.io(st, 'str')))
        self.setio(st, 'pos', Ite(ok, Add(pos, '1'), pos))
        r = self.fresh('chars', 'Int')
        st.assume(And(Imp(ok, Cmp('>', r, '0')), Imp(Not(ok), Eq(r, '(- 1)'))))
        return [(st, Val(r, 'Int', CT('long')))]

    def x_strtok(self, vs, st, n):
        line = self.line(n)
        d = self.content(st, vs[1], line, 'strtok')
        c = self.code(vs[0])
        if c == '0':
            tb = self.io(st, 'tb')
            self.oblige(st, And(Not(Eq(tb, '0')), Sel(self.io(st, 'live'), tb)), 'string being cut is live', line, 'mem')
            self.oblige(st, Eq(d, self.io(st, 'td')), 'the separators stay the same', line, 'mem')
        elif num(c) is not None: raise Unsupported('strtok on a constant')
        else:
            t = self.content(st, vs[0], line, 'strtok')
            self.oblige(st, And(Not(Eq(c, '0')), Not(Sel(self.io(st, 'perm'), c))), 'strtok starts with a buffer', line, 'mem')
            self.setio(st, 'tk', t); self.setio(st, 'td', d); self.setio(st, 'tp', '0'); self.setio(st, 'tb', c)
        tk, td, tp, tb = [self.io(st, x) for x in ('tk', 'td', 'tp', 'tb')]
        more = self.name(st, 'more', Cmp('<', tp, self.logicf('ntok', tk, td)), 'Bool')
        r = self.fresh('token', 'Int')
        st.assume(And(Cmp('>=', r, '0'), Eq(Cmp('>', r, '0'), more), Not(Sel(self.io(st, 'perm'), r))))
        cut = self.fresh('cut', 'Int')
        s1 = Sto(self.io(st, 'str'), tb, cut)
        self.setio(st, 'str', Ite(more, Sto(s1, r, self.logicf('tok', tk, td, tp)), s1))
        self.setio(st, 'live', Ite(more, Sto(self.io(st, 'live'), r, T), self.io(st, 'live')))
        self.setio(st, 'tp', Ite(more, Add(tp, '1'), tp))
        return [(st, PC(r, CT('char')))]

    def x_strcmp(self, vs, st, n):
        a, b = [self.content(st, v, self.line(n), 'strcmp') for v in vs[:2]]
        r = self.fresh('cmp', 'Int')
        st.assume(Eq(Eq(r, '0'), Eq(a, b)))
        return [(st, Val(r, 'Int', CT('int')))]

    def x_strstr(self, vs, st, n):
        a, b = [self.content(st, v, self.line(n), 'strstr') for v in vs[:2]]
        r = self.fresh('at', 'Int')
        st.assume(And(Cmp('>=', r, '0'), Eq(Cmp('>', r, '0'), self.logicf('has', a, b))))
        return [(st, PC(r, CT('char')))]

    def x_sscanf(self, vs, st, n):
        line = self.line(n)
        a = self.content(st, vs[0], line, 'sscanf')
        fmt = self.lit_of(vs[1])
        conv = re.findall(r'%(\*?)\d*(hh|h|ll|l|L)?([a-zA-Z%\[])', fmt)
        if any(x[0] or x[2] in '%[' for x in conv): raise Unsupported('input format ' + fmt)
        want = [{'lf': 'double', 'f': 'float', 'hu': 'ushort', 'hd': 'short', 'd': 'int', 'i': 'int', 'u': 'uint', 'lu': 'ulong', 'ld': 'long',
                 'le': 'double', 'lg': 'double', 'e': 'float', 'g': 'float'}.get((x[1] or '') + x[2]) for x in conv]
        if None in want: raise Unsupported('input format ' + fmt)
        b = I(litid(fmt))
        r = self.logicf('scn', a, b)
        st.assume(And(Cmp('<=', '(- 1)', r), Cmp('<=', r, I(len(conv)))))
        got = [v.lv.ct.kind if isinstance(v, PLV) else '?' for v in vs[2:]]
        if got != want:
            self.oblige(st, F, 'the variables have the types of the conversions (%s for %s)' % (', '.join(got), fmt), line, 'mem')
            return [(st, Val(r, 'Int', CT('int')))]
        for k, v in enumerate(vs[2:]):
            so = 'Real' if want[k] in ('double', 'float') else 'Int'
            old = self.read(st, v.lv, in_code=False)
            t = self.logicf('scv' if so == 'Real' else 'sci', a, b, I(k))
            if so == 'Int' and want[k] in RANGES:
                lo, hi = RANGES[want[k]]
                st.assume(Cmp('<=', I(lo), t))
                if hi is not None: st.assume(Cmp('<=', t, I(hi)))
            t = Ite(Cmp('<', I(k), r), t, self.as_real(old) if so == 'Real' else self.as_int(old))
            self.write(st, v.lv, Val(self.name(st, 'scanned', t, so), so, v.lv.ct))
        return [(st, Val(r, 'Int', CT('int')))]

    def x_clock(self, vs, st, n):
        t0 = self.get(st, 'gclock', ('$t',), 'Int')
        t = self.fresh('clock', 'Int')
        st.assume(Cmp('<=', t0, t))
        st.store[('gclock', ('$t',))] = t
        return [(st, Val(t, 'Int', CT('long')))]

    def fun1(self, f, v): return Val('(%s %s)' % (f, self.as_real(v)), 'Real', CT('double'))

    def x_sqrt(self, vs, st, n): return [(st, self.fun1('Sqrt', vs[0]))]

    def x_log(self, vs, st, n): return [(st, self.fun1('Log', vs[0]))]

    def x_ceil(self, vs, st, n): return [(st, self.fun1('Ceil', vs[0]))]

    def x_pow(self, vs, st, n):
        return [(st, Val('(Pow %s %s)' % (self.as_real(vs[0]), self.as_real(vs[1])), 'Real', CT('double')))]

    def x_fabs(self, vs, st, n):
        t = self.name(st, 'fabs', self.as_real(vs[0]), 'Real')
        return [(st, Val(Ite(Cmp('>=', t, '0.0'), t, Neg(t, 'Real')), 'Real', CT('double')))]

    def x_abs(self, vs, st, n):
        t = self.as_int(vs[0])
        return [(st, Val(Ite(Cmp('>=', t, '0'), t, Neg(t)), 'Int', CT('int')))]

    def x_fmax(self, vs, st, n):
        a, b = self.as_real(vs[0]), self.as_real(vs[1])
        return [(st, Val(Ite(Cmp('>=', a, b), a, b), 'Real', CT('double')))]

    def x_fmin(self, vs, st, n):
        a, b = self.as_real(vs[0]), self.as_real(vs[1])
        return [(st, Val(Ite(Cmp('<=', a, b), a, b), 'Real', CT('double')))]

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        """[(kind, state, value)], kind in n, ret, brk, cnt"""
        if st.dead(): return []
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m: return m(n, st)
        return [('n', s, None) for s, _ in self.ev(n, st)]

    top = None

    def ex_CompoundStmt(self, n, st):
        saved = st.frames
        cur = [('n', st, None)]
        done = []
        for c in n.get('inner', []) or []:
            nxt = []
            for _, s, _ in cur:
                for r in self.ex(c, s):
                    (nxt if r[0] == 'n' else done).append(r)
            if len(nxt) > 1:
                nxt = [('n', s, None) for s, _ in self.merge([(s, None) for _, s, _ in nxt])]
            cur = nxt
            if len(cur) > 400: raise Unsupported('too many paths')
        out = done + cur
        if n is self.top: return out        # the variables of the function stay visible at its end
        for r in out:
            if len(r[1].frames) == len(saved): r[1].frames = saved[:-1] + (self.scoped(saved[-1], r[1].frames[-1]),)
        return out

    def scoped(self, old, new): return old

    def ex_NullStmt(self, n, st): return [('n', st, None)]

    def ex_DeclStmt(self, n, st):
        sts = [st]
        for d in n['inner']:
            if d['kind'] != 'VarDecl': continue
            nxt = []
            for s in sts: nxt += self.declare(d, s)
            sts = nxt
        return [('n', s, None) for s in sts]

    def resolve_dims(self, ct, st):
        if ct.kind == 'arr':
            to = self.resolve_dims(ct.to, st)
            n = ct.n
            if isinstance(n, tuple):
                v = Ctx(self, st, fn=self.cur).int(parse_expr(n[1]))
                n = v
            return CT('arr', to, n)
        return ct

    def declare(self, d, st):
        ct = self.resolve_dims(self.qt(d), st)
        root = self.newroot(d['name'])
        init = [c for c in d.get('inner', []) or [] if c.get('kind') and c['kind'] not in ('FullComment',) and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            if self.cur != 'main' or len(st.frames) != 1 or init: raise Unsupported('static local')
            fr = st.frames[-1].copy()
            fr.vars[d['id']] = (root, ct); fr.names[d['name']] = d['id']
            st.frames = st.frames[:-1] + (fr,)
            self.zero(st, LV(root, (), [], ct, False))
            return [st]

        def bind(s):
            fr = s.frames[-1].copy()
            fr.vars[d['id']] = (root, ct); fr.names[d['name']] = d['id']
            s.frames = s.frames[:-1] + (fr,)
        lv = LV(root, (), [], ct, False)
        if not init or 'init' not in d:
            bind(st)
            self.uninit(st, lv)
            return [st]
        i = init[-1]
        if i['kind'] == 'InitListExpr':
            bind(st)
            return [s for s in self.initlist(st, lv, i)]
        out = []
        for s, v in self.ev(i, st):
            s = s.fork()
            bind(s)
            if isinstance(v, Val) and v.s == 'Int' and ct.kind == 'struct': raise Unsupported('init')
            if self.ty.is_region(ct): self.uninit(s, lv)
            self.write(s, lv, v)
            out.append(s)
        return out

    def uninit(self, st, lv):
        ct = lv.ct
        if self.ty.is_region(ct):
            r = self.alloc(st, ct.name)
            self.write_leaf(st, lv, (), 0, CT('blk'), r)
        elif ct.kind == 'arr' and self.ty.is_region(ct.to):
            r = self.alloc(st, ct.to.name, count=ct.n)
            self.write_leaf(st, lv, (), 0, CT('blk'), r)
        elif ct.kind == 'ptr':
            st.store[(lv.root, ())] = PC(self.fresh(lv.root, 'Int'), ct.to)
        elif ct.kind == 'struct':
            for sub, dims, b in self.leaves(ct):
                if b.kind == 'blk':
                    # find the block's length
                    f = ct
                    for x in sub: f = self.fieldtype(f, x)
                    r = self.alloc(st, b.name, count=f.n if f.kind == 'arr' else '1')
                    self.write_leaf(st, lv, sub, dims, b, r)
        elif ct.kind not in ('arr',):
            so = self.base(ct)
            self.havoc(st, lv)

    def initlist(self, st, lv, n):
        ct = lv.ct
        if ct.kind == 'arr':
            # {0} / {false} / = {0}: array of zeros
            els = n.get('inner', []) or n.get('array_filler', [])
            vals = []
            for e in n.get('inner', []) or []:
                if e.get('kind') in ('ImplicitValueInitExpr',): continue
                vals.append(e)
            if ct.to.kind in ('arr', 'struct'): raise Unsupported('nested initializer')
            b = self.base(ct.to)
            zero = {'Int': '0', 'Real': '0.0', 'Bool': F}[b]
            a = '((as const (Array Int %s)) %s)' % (b, zero)
            st.store[(lv.root, ())] = self.name(st, lv.root, a + ' ' * 0, '(Array Int %s)' % b)
            src = n.get('array_filler')
            if src: vals = [e for e in src if e.get('kind') != 'ImplicitValueInitExpr']
            for j, e in enumerate(vals):
                rs = self.ev(e, st)
                if len(rs) != 1: raise Unsupported('initializer')
                st = rs[0][0]
                self.write(st, LV(lv.root, (), [I(j)], ct.to, ct.n), rs[0][1])
            return [st]
        if ct.kind == 'struct':
            fl = self.ty.fields(ct.name)
            els = n.get('inner', []) or []
            for (f, t), e in zip(fl, els):
                l2 = self.field(st, lv, f)
                if e['kind'] == 'ImplicitValueInitExpr':
                    self.zero(st, l2); continue
                if e['kind'] == 'InitListExpr':
                    st = self.initlist(st, l2, e)[0]; continue
                rs = self.ev(e, st)
                if len(rs) != 1: raise Unsupported('initializer')
                st = rs[0][0]
                self.write(st, l2, rs[0][1])
            for (f, t) in fl[len(els):]: self.zero(st, self.field(st, lv, f))
            return [st]
        raise Unsupported('initializer list')

    def zero(self, st, lv):
        for sub, dims, b in self.leaves(lv.ct):
            if b.kind == 'ghost': continue
            so = self.bsort(b)
            z = {'Int': '0', 'Real': '0.0', 'Bool': F}[so]
            for _ in range(dims):
                so = '(Array Int %s)' % so
                z = '((as const %s) %s)' % (so, z)
            self.write_leaf(st, lv, sub, dims, b, z)

    def ex_IfStmt(self, n, st):
        inner = n['inner']
        out = []
        for s, v in self.ev(inner[0], st):
            rs = []
            for s2, tr in self.branch(s, self.as_bool(v)):
                if tr: rs += self.ex(inner[1], s2)
                elif len(inner) > 2: rs += self.ex(inner[2], s2)
                else: rs.append(('n', s2, None))
            nn = [(s2, None) for k, s2, _ in rs if k == 'n']
            if len(nn) > 1: nn = self.merge(nn)
            out += [r for r in rs if r[0] != 'n'] + [('n', s2, None) for s2, _ in nn]
        return out

    def ex_ReturnStmt(self, n, st):
        if not n.get('inner'): return [('ret', st, None)]
        return [('ret', s, v) for s, v in self.ev(n['inner'][0], st)]

    def ex_BreakStmt(self, n, st): return [('brk', st, None)]

    def ex_ContinueStmt(self, n, st): return [('cnt', st, None)]

    def ex_ForStmt(self, n, st):
        inner = n['inner']
        init, cv, cond, inc, body = inner
        saved = st.frames
        sts = [st]
        if init.get('kind'):
            sts = [s for k, s, _ in self.ex(init, st)]
        out = []
        for s in sts: out += self.loop(n, s, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, 'for')
        for r in out:
            if len(r[1].frames) == len(saved): r[1].frames = saved
        return out

    def ex_WhileStmt(self, n, st):
        return self.loop(n, st, n['inner'][0], None, n['inner'][1], 'while')

    def ex_DoStmt(self, n, st):
        return self.loop(n, st, n['inner'][1], None, n['inner'][0], 'do')

    def loop(self, n, st, cond, inc, body, kind):
        line = self.line(n)
        k = self.ordinals.get((st.frames[-1].chain, n['id'])) if self.ordinals else None
        ls = self.curspec.loops.get(k) if self.curspec else None
        if not self.quiet and k is not None: self.loops_seen.setdefault(self.cur, set()).add(k)
        self.point(st, ('loop', k, 'enter'), None, line)
        if ls is None or ls.unroll:
            r = self.unroll(n, st, cond, inc, body, kind, 8)
            if r is not None: return r
            if ls is None: self.noinv = True
        entry = self.snapshot(st)
        inv = [x for x in ls.inv if ('inv', self.cur, k, x[0]) not in self.drop] if ls else []
        auto = self.auto_inv(st, n, cond, inc, body)
        if kind == 'do':
            # first iteration peeled into: body; while (cond) body
            out = []
            firsts = []
            for r in self.ex(body, st):
                if r[0] in ('n', 'cnt'): firsts.append(r[1])
                elif r[0] == 'brk': out.append(('n', r[1], None))
                else: out.append(r)
            for s in firsts: out += self.loop_core(n, s, cond, inc, body, inv, ls, [], k, line)
            return out
        return self.loop_core(n, st, cond, inc, body, inv, ls, auto, k, line)

    def loop_core(self, n, st, cond, inc, body, inv, ls, auto, k, line):
        entry = self.snapshot(st)
        # invariants hold on entry
        ctx = Ctx(self, st, old=self.pre, entry=entry, fn=self.cur)
        for i, (lab, e) in enumerate(inv):
            self.oblige(st, ctx.boolean(e), 'invariant %s of loop %s holds on entry' % (lab or i + 1, k), line, 'inv-entry', ('inv', self.cur, k, lab))
        # which locations does the body modify
        inst0 = self.inst
        mod = {}
        self.quiet += 1
        loops_q = self.noinv
        for rnd in range(6):
            h = st.fork()
            tags = self.havoc_mod(h, entry, mod)
            h0 = dict(h.store)      # the state may be updated in place
            new = False
            backs = []
            sv = self.itctx; self.itctx = (self.snapshot(h), entry)
            for s, tr in self.loop_iter(h, cond, body, inc, n, k):
                if tr == 'back': backs.append(s)
            self.itctx = sv
            for s in backs:
                for key, t in s.store.items():
                    if key[0][0] == 'L' and int(key[0][1:].split('.')[0]) > inst0: continue
                    t0 = h0.get(key)
                    if t0 is None and isinstance(t, str):
                        t0 = self.get(h, key[0], key[1], self.tsort(t)) if key not in h.store else self.get(State(), key[0], key[1], self.tsort(t))
                    if t is t0 or t == t0: continue
                    if isinstance(t, PTRS) and isinstance(t0, PTRS):
                        if repr(t) == repr(t0) and not isinstance(t, PM): continue
                        cur = mod.setdefault(key, [])
                        for q in (entry.store.get(key), t):
                            if isinstance(q, PLV) and not (q.lv.root[0] == 'L' and int(q.lv.root[1:].split('.')[0]) > inst0):
                                if not any(repr(q) == repr(x) for x in cur): cur.append(q); new = True
                            elif not isinstance(q, PLV) and not isinstance(q, PM):
                                if not any(isinstance(x, PC) for x in cur): cur.append(PC('0', q.to)); new = True
                        continue
                    if key not in mod: mod[key] = self.tsort(t) if isinstance(t, str) else None; new = True
            if not new: break
        else: raise Unsupported('loop frame does not stabilise')
        self.quiet -= 1
        h = st.fork()
        self.havoc_mod(h, entry, mod)
        ctx = Ctx(self, h, old=self.pre, entry=entry, fn=self.cur)
        # an invariant about a location outside the modified set is still assumed as it was proved on entry
        for lab, e in inv: h.assume(ctx.boolean(e))
        for a in auto:
            t = a(entry, h)
            if t: h.assume(t)
        m0 = None
        if ls and ls.dec is not None: m0 = [ctx.int(x) for x in ls.dec]
        hsnap = self.snapshot(h)
        out = []
        nback = 0
        sv = self.itctx; self.itctx = (hsnap, entry)
        its = self.loop_iter(h, cond, body, inc, n, k)
        self.itctx = sv
        for s, tr in its:
            if tr == 'exit':
                self.point(s, ('loop', k, 'exit'), None, line)
                out.append(('n', s, None))
            elif tr == 'back':
                nback += 1
                ctx = Ctx(self, s, old=self.pre, entry=entry, fn=self.cur, iter0=hsnap)
                if not self.quiet: self.covers.append((self.cur, 'loop %s body' % k, s.path))
                for i, (lab, e) in enumerate(inv):
                    self.oblige(s, ctx.boolean(e), 'invariant %s of loop %s is preserved' % (lab or i + 1, k), line, 'inv-step', ('inv', self.cur, k, lab))
                if m0 is not None:
                    m1 = [ctx.int(x) for x in ls.dec]
                    self.oblige(s, Or(*[And(*([Eq(m0[j], m1[j]) for j in range(q)] + [Cmp('<=', '0', m0[q]), Cmp('<', m1[q], m0[q])])) for q in range(len(m0))]), 'variant of loop %s decreases' % k, line, 'term')
            else:
                out.append((tr[0], s, tr[1]))
        nn = [(s, None) for kd, s, _ in out if kd == 'n']
        if len(nn) > 1: nn = self.merge(nn)
        return [r for r in out if r[0] != 'n'] + [('n', s, None) for s, _ in nn]

    def loop_iter(self, h, cond, body, inc, n, k):
        """one iteration from h: yields (state, 'exit'|'back'|('ret', v))"""
        res = []
        cs = [(h, Val(T, 'Bool'))] if cond is None else self.ev(cond, h)
        for s, v in cs:
            for s2, tr in self.branch(s, self.as_bool(v)):
                if not tr:
                    res.append((s2, 'exit')); continue
                fr = s2.frames
                self.point(s2, ('loop', k, 'body'), None, self.line(n))
                cont = []
                for kd, s3, val in self.ex(body, s2):
                    if kd in ('n', 'cnt'):
                        s3.frames = fr; cont.append(s3)
                    elif kd == 'brk':
                        s3.frames = fr; res.append((s3, 'exit'))
                    else: res.append((s3, ('ret', val)))
                if len(cont) > 1: cont = [s for s, _ in self.merge([(s, None) for s in cont])]
                for s3 in cont:
                    self.point(s3, ('loop', k, 'end'), None, self.line(n))
                    if inc is not None:
                        for s4, _ in self.ev(inc, s3): res.append((s4, 'back'))
                    else: res.append((s3, 'back'))
        return res

    def havoc_mod(self, h, entry, mod):
        for key, so in mod.items():
            if isinstance(so, list):       # pointer variable
                if len(so) == 1 and isinstance(so[0], PC) or all(isinstance(x, PC) for x in so):
                    h.store[key] = PC(self.fresh(key[0], 'Int'), so[0].to)
                else:
                    tag = self.fresh(key[0] + '_tag', 'Int')
                    alts = [(Eq(tag, I(j)), q if isinstance(q, PLV) else PC(self.fresh(key[0], 'Int'), q.to)) for j, q in enumerate(so)]
                    h.assume(And(Cmp('<=', '0', tag), Cmp('<', tag, I(len(so)))))
                    h.store[key] = PM(alts) if len(alts) > 1 else alts[0][1]
                continue
            if so is None: raise Unsupported('modified location of unknown sort')
            s = self.fresh(key[0] + '.' + '.'.join(key[1]), so)
            h.store[key] = s
            if so == 'Int':
                ct = self.keytype(h, key)
                if ct is not None and ct.kind in RANGES:
                    lo, hi = RANGES[ct.kind]
                    h.assume(Cmp('<=', I(lo), s))
                    if hi is not None: h.assume(Cmp('<=', s, I(hi)))
                    h.ranged = h.ranged | {s}
        for key in list(mod):
            if key[1] in (('$nxt',), ('$alive',)):
                r = key[0]
                if ((r, ('$nxt',)) in mod) and key[1] == ('$alive',): continue
                self.marks(h, self.get(entry, r, ('$nxt',), 'Int'), self.get(h, r, ('$nxt',), 'Int'), self.get(h, r, ('$alive',), '(Array Int Bool)'))

    def keytype(self, st, key):
        root, path = key
        ct = None
        for f in st.frames:
            for r, c in f.vars.values():
                if r == root: ct = c
        if ct is None:
            ct = self.roottype.get(root)
        if ct is None: return None
        try:
            for f in path:
                while ct.kind == 'arr': ct = ct.to
                ct = self.fieldtype(ct, f)
            return ct
        except (StructMismatch, AttributeError): return None

    def unroll(self, n, st, cond, inc, body, kind, limit):
        if kind == 'do': return None
        self.quiet += 1
        try:
            if cond is None: return None
            probe = self.ev(cond, st.fork())
            if len(probe) != 1 or self.as_bool(probe[0][1]) not in (T, F): return None
        finally:
            self.quiet -= 1
        out = []; cur = [st]
        obl_mark = len(self.obls)
        for it in range(limit + 1):
            nxt = []
            for s in cur:
                for s2, v in self.ev(cond, s):
                    c = self.as_bool(v)
                    if c == F: out.append(('n', s2, None)); continue
                    if c != T or it == limit:
                        del self.obls[obl_mark:]
                        return None
                    fr = s2.frames
                    for kd, s3, val in self.ex(body, s2):
                        s3.frames = fr if kd != 'ret' else s3.frames
                        if kd in ('n', 'cnt'):
                            if inc is not None: nxt += [s4 for s4, _ in self.ev(inc, s3)]
                            else: nxt.append(s3)
                        elif kd == 'brk': out.append(('n', s3, None))
                        else: out.append((kd, s3, val))
            cur = nxt
            if not cur: break
        return out

    def auto_inv(self, st, n, cond, inc, body):
        """bounds of a counting loop variable that only the loop header changes"""
        if cond is None or inc is None: return []
        if inc['kind'] != 'UnaryOperator' or inc['opcode'] not in ('++',): return []
        v = inc['inner'][0]
        if v['kind'] != 'DeclRefExpr': return []
        vid = v['referencedDecl']['id']
        if self.assigned(body, vid) or self.assigned(cond, vid): return []
        loc = self.lookup(st, vid)
        if not loc: return []
        root = loc[0]
        e0 = st.store.get((root, ()))
        if not isinstance(e0, str): return []
        res = [lambda entry, h: Cmp('<=', e0, h.store[(root, ())]) if (root, ()) in h.store else None]
        # upper bound: a conjunct  i < e
        conj = []

        def split(c):
            while c['kind'] in ('ParenExpr',): c = c['inner'][0]
            if c['kind'] == 'BinaryOperator' and c['opcode'] == '&&':
                split(c['inner'][0]); split(c['inner'][1])
            else: conj.append(c)
        split(cond)
        for c in conj:
            if c['kind'] == 'BinaryOperator' and c['opcode'] in ('<', '!='):
                l = c['inner'][0]
                while l['kind'] in ('ImplicitCastExpr', 'ParenExpr'): l = l['inner'][0]
                if l['kind'] == 'DeclRefExpr' and l['referencedDecl']['id'] == vid:
                    def up(entry, h, c=c):
                        self.quiet += 1
                        try:
                            a = self.ev(c['inner'][1], self.snapshot(entry))
                            b = self.ev(c['inner'][1], self.snapshot(h))
                        except Unsupported:
                            return None
                        finally: self.quiet -= 1
                        if len(a) == 1 and len(b) == 1 and isinstance(a[0][1], Val) and a[0][1].t == b[0][1].t and a[0][1].s == 'Int':
                            e = a[0][1].t; i = h.store[(root, ())]
                            return Or(Cmp('<=', i, e), Eq(i, e0))
                        return None
                    if c['opcode'] == '<': res.append(up)
        return res

    def assigned(self, n, vid):
        if not isinstance(n, dict): return False
        k = n.get('kind')
        if (k in ('BinaryOperator',) and n.get('opcode') == '=') or k == 'CompoundAssignOperator' or (k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&')):
            x = n['inner'][0]
            while x['kind'] == 'ParenExpr': x = x['inner'][0]
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] == vid: return True
        return any(self.assigned(c, vid) for c in n.get('inner', []) or [])

    # ------------------------------------------------------------ ghost points
    def point(self, st, pt, ordinal, line):
        if not self.curspec: return
        keys = []
        if pt[0] in ('before', 'after'):
            keys = [(pt[0], 'call', pt[2], str(ordinal)), (pt[0], 'call', pt[2], '*')]
        else: keys = [tuple(str(x) for x in pt)]
        for key in keys:
            for stmt in self.curspec.ghosts.get(key, []):
                if not self.quiet: self.points_hit.add(key)
                self.ghost(st, stmt, line)

    def ghost(self, st, stmt, line, cond=T):
        if id(stmt) in self.drop: return
        ctx = Ctx(self, st, old=self.pre, fn=self.cur, result=self.result, iter0=self.itctx[0], entry=self.itctx[1])
        if stmt[0] == 'if':
            c = ctx.boolean(stmt[1])
            self.ghost(st, stmt[2], line, And(cond, c))
        elif stmt[0] == 'set':
            v = ctx.value(stmt[2])
            if isinstance(v, LV) and v.ct.kind == 'arr': v = self.lvterm(st, v)
            for lv in ctx.lvalues(stmt[1]):
                if lv.ct.kind != 'ghost': raise SpecError('ghost assignment to a real location')
                if cond != T:
                    o = self.read(st, lv)
                    v = Val(Ite(cond, v.t, o.t), v.s)
                self.write(st, lv, v)
        elif stmt[0] == 'assert':
            g = Imp(cond, ctx.boolean(stmt[1]))
            self.oblige(st, g, 'assertion', line, 'assert', id(stmt))
        elif stmt[0] == 'points':     # the pointer variable is one of two known objects
            lv = ctx.ident(stmt[1], want_lv=True)
            old = self.read(st, lv)
            new = PM([(ctx.boolean(stmt[2]), ctx.ev(stmt[3])), (T, ctx.ev(stmt[4]))])
            self.oblige(st, Eq(self.code(old), self.code(new)), 'the pointer %s is as stated' % stmt[1], line, 'assert')
            if repr(new.alts[0][1]) == repr(new.alts[1][1]): new = new.alts[0][1]
            st.store[(lv.root, lv.path)] = new
        elif stmt[0] == 'pick':       # ghost locals with a property, if there are any values with it
            for nm in stmt[1]:
                for lv in ctx.lvalues(('id', nm)):
                    if lv.ct.kind != 'ghost': raise SpecError('pick into a real location')
                    o = self.read(st, lv)
                    self.write(st, lv, Val(self.fresh(nm, o.s), o.s))
            ctx = Ctx(self, st, old=self.pre, fn=self.cur, result=self.result, iter0=self.itctx[0], entry=self.itctx[1])
            st.assume(Imp(cond, Or(ctx.boolean(stmt[3]), ctx.boolean(stmt[2]))))
        elif stmt[0] == 'trust':
            st.assume(Imp(cond, ctx.boolean(stmt[1])))
            if not self.quiet: self.trusts.add((self.cur, stmt[2]))
        elif stmt[0] == 'nomerge': st.snaps = dict(st.snaps, nomerge=True)
        elif stmt[0] == 'useall':
            self.lemmas_used.add(stmt[1]); st.assume(Imp(cond, self.closure(st, stmt[1])))
        elif stmt[0] == 'use':
            _, f, a = stmt[1]
            L = self.sp.lemmas.get(f)
            if L is None: raise SpecError('unknown lemma ' + f)
            self.lemmas_used.add(f)
            vals = [ctx.value(x) for x in a]
            env = {}
            for (nm, so), v in zip(L.params, vals):
                if isinstance(v, LV): v = self.lvterm(st, v)
                if isinstance(v, PTRS): v = Val(self.code(v), 'Int')
                if self.sort(so) == 'Real' and v.s == 'Int': v = Val(self.as_real(v), 'Real')
                env[nm] = v
            c2 = Ctx(self, st, env=env, fn=self.cur, lemma=True)
            req = And(*[c2.boolean(e) for _, e in L.requires])
            self.oblige(st, Imp(cond, req), 'precondition of lemma ' + f, line, 'lemma-pre', id(stmt))
            for _, e in L.ensures: st.assume(Imp(cond, c2.boolean(e)))

    def lvterm(self, st, lv):
        """an array-valued lvalue as a term"""
        ls = self.leaves(lv.ct)
        if len(ls) != 1 or ls[0][0] != (): raise SpecError('aggregate used as a term: %r' % lv)
        sub, dims, b = ls[0]
        t, so = self.read_leaf(st, lv, sub, dims, b)
        return Val(t, asort(self.bsort(b), dims))

    # ------------------------------------------------------------ function verification
    def number(self, fname, sp):
        """static ordinals of loops and calls in the function flattened through its inlined callees"""
        ords = {}; cnt = {}

        def w(n, chain, stack):
            if not isinstance(n, dict): return
            k = n.get('kind')
            if k == 'IfStmt':
                v = self.constfold(n['inner'][0])
                if v is not None:       # code that is compiled out
                    for c in (n['inner'][1:2] if v else n['inner'][2:3]): w(c, chain, stack)
                    return
            if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
                cnt['loop'] = cnt.get('loop', 0) + 1
                ords[(chain, n['id'])] = cnt['loop']
            if k == 'CallExpr':
                f = n['inner'][0]
                while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'): f = f['inner'][0]
                nm = f.get('referencedDecl', {}).get('name') if f['kind'] == 'DeclRefExpr' else None
                for c in n['inner'][1:]: w(c, chain, stack)
                if nm:
                    cnt[('call', nm)] = cnt.get(('call', nm), 0) + 1
                    ords[(chain, n['id'])] = cnt[('call', nm)]
                    cs = self.sp.fns.get(nm)
                    if (cs is None or 'inline' in cs.flags) and nm in self.p.funcs and nm not in stack:
                        w(self.body(self.p.funcs[nm]), chain + (n['id'],), stack + (nm,))
                return
            for c in n.get('inner', []) or []: w(c, chain, stack)
        w(self.body(self.p.funcs[fname]), (), (fname,))
        return ords, cnt

    def uses_subscript(self, fn, pid):
        def w(n):
            if not isinstance(n, dict): return False
            if n.get('kind') == 'ArraySubscriptExpr':
                x = n['inner'][0]
                while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
                if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] == pid: return True
            return any(w(c) for c in n.get('inner', []) or [])
        return w(fn)

    def verify(self, fname):
        """generate the obligations of one function under contract"""
        sp = self.sp.fns[fname]
        if fname not in self.p.funcs: raise StructMismatch('function %s is gone' % fname)
        fn = self.p.funcs[fname]
        self.cur, self.curspec = fname, sp
        self.quiet = 0; self.result = None; self.pre = None; self.opaque = {}
        self.points_hit = set()
        self.itctx = (None, None)
        self.reg = {}; self.regtype = {}; self.roottype = {}
        self.merge_arrays = 'mergearrays' in sp.flags
        self.ordinals, cnt = self.number(fname, sp)
        nloops = cnt.get('loop', 0)
        for k in sp.loops:
            if k > nloops: raise StructMismatch('%s: loop %d is gone' % (fname, k))
        st = State()
        fr = Frame(fname)
        env = {}
        for d in self.params(fn):
            nm = d.get('name', '_')
            ct = self.qt(d)
            if ct.kind == 'arr': ct = CT('ptr', ct.to)
            root = self.newroot(nm)
            fr.vars[d['id']] = (root, ct); fr.names[nm] = d['id']
            if ct.kind == 'ptr':
                to = ct.to
                if to.kind == 'struct' and not self.ty.is_region(to):
                    if nm in sp.paramlen or self.uses_subscript(fn, d['id']):
                        v = PLV(LV('*' + nm, (), ['0'], to, None))
                        self.roottype['*' + nm] = CT('arr', to, None)
                    else:
                        v = PLV(LV('*' + nm, (), [], to, False))
                        self.roottype['*' + nm] = to
                elif to.kind in ('double', 'int', 'ushort', 'bool', 'short', 'float', 'uint', 'ulong'):
                    if nm in sp.paramlen or self.uses_subscript(fn, d['id']):
                        v = PLV(LV('*' + nm, (), ['0'], to, None))
                        self.roottype['*' + nm] = CT('arr', to, None)
                    else:
                        v = PLV(LV('*' + nm, (), [], to, False))
                        self.roottype['*' + nm] = to
                elif to.kind == 'ptr' and to.to.kind == 'char' and nm in sp.paramlen:
                    v = PLV(LV('*' + nm, (), ['0'], to, None))
                    self.roottype['*' + nm] = CT('arr', to, None)
                else:
                    s = '%s!p' % nm
                    self.decl[s] = 'Int'
                    v = PC(s, to)
                st.store[(root, ())] = v
            else:
                if ct.kind == 'struct':
                    v = self.read(st, LV('*' + nm, (), [], ct, False))
                    self.roottype['*' + nm] = ct
                    self.write(st, LV(root, (), [], ct, False), v)
                else:
                    so = self.base(ct)
                    s = '%s!p' % nm
                    self.decl[s] = so
                    v = Val(s, so, ct)
                    st.store[(root, ())] = s
                    if so == 'Int' and ct.kind in RANGES:
                        lo, hi = RANGES[ct.kind]
                        st.assume(Cmp('<=', I(lo), s))
                        if hi is not None: st.assume(Cmp('<=', s, I(hi)))
            env[nm] = v
        if 'problem' in self.p.globals:
            pt = self.ty.parse(self.p.globals['problem']['type']['qualType'])
            st.store[('gproblem', ())] = PLV(LV('*problem', (), [], pt.to, False))
            self.roottype['*problem'] = pt.to
        for t in self.ty.regions: self.roottype['@' + t] = CT('arr', CT('struct', name=t), None)
        st.frames = (fr,)
        # ghost locals
        for nm, so, init in sp.locals:
            root = self.newroot('ghost_' + nm)
            ct = CT('ghost', name=self.sort(so))
            fr.vars['ghost:' + nm] = (root, ct); fr.names[nm] = 'ghost:' + nm
        ctx = Ctx(self, st, env=env, fn=fname)
        for lab, e in sp.requires: st.assume(ctx.boolean(e))
        # array parameters: lengths
        for nm, e in sp.paramlen.items():
            v = env.get(nm)
            if isinstance(v, PLV): v.lv.dim = ctx.int(e)
        # allocation marks
        for tname in sorted(self.ty.regions):
            nx = self.get(st, '@' + tname, ('$nxt',), 'Int'); al = self.get(st, '@' + tname, ('$alive',), '(Array Int Bool)')
            st.assume('(< 0 %s)' % nx)
            st.assume('(forall ((q Int)) (! (=> (select %s q) (and (< 0 q) (< q %s))) :pattern ((select %s q))))' % (al, nx, al))
        self.pre = self.snapshot(st)
        for nm, so, init in sp.locals:
            if init is not None:
                v = Ctx(self, st, env=env, fn=fname).value(init)
                if self.sort(so) == 'Real' and v.s == 'Int': v = Val(self.as_real(v), 'Real')
                if isinstance(v, LV): v = self.lvterm(st, v)
                if isinstance(v, PTRS): v = Val(self.code(v), 'Int')
                self.write(st, LV(fr.vars['ghost:' + nm][0], (), [], CT('ghost', name=self.sort(so)), False), v)
        self.penv = env
        self.measure0 = ctx.int(sp.decreases) if sp.decreases is not None else None
        self.covers.append((fname, 'precondition', st.path))
        self.point(st, ('entry',), None, self.line(fn))
        rt = self.ty.parse(fn['type']['qualType'].split('(')[0].strip())
        self.top = self.body(fn)
        rets = self.ex(self.top, st)
        self.top = None
        k = 0
        for kd, s, v in rets:
            if kd not in ('n', 'ret'): raise Unsupported('stray break')
            k += 1
            line = self.line(fn)
            self.result = v
            s.frames = (Frame(fname, dict(fr.vars), dict(fr.names)),) if len(s.frames) != 1 else s.frames
            self.point(s, ('return',), None, line)
            self.covers.append((fname, 'return', s.path))
            ctx = Ctx(self, s, env=dict(env), old=self.pre, fn=fname, result=v, post=True)
            if sp.ret is not None:
                w = ctx.value(sp.ret)
                if rt.kind == 'ptr':
                    w2 = w if isinstance(w, PTRS) else PC(w.t, rt.to)
                    g = self.ptr_eq(v, w2)
                elif w.s == 'Real': g = Eq(self.as_real(v), w.t)
                elif w.s == 'Bool': g = Eq(self.as_bool(v), w.t)
                else: g = Eq(self.as_int(v), w.t)
                self.oblige(s, g, 'result', line, 'post')
            for i, (lab, e) in enumerate(sp.ensures):
                self.oblige(s, ctx.boolean(e), 'postcondition %s' % (lab or i + 1), line, 'post')
            self.frame_check(s, sp, ctx, line)
            self.result = None
        missing = [k for k in sp.ghosts if k not in self.points_hit and k[-1] != '*' and not (k[0] == 'loop')]
        if missing: raise StructMismatch('%s: ghost point(s) %s not found' % (fname, missing))
        for k in sp.loops:
            if k not in self.loops_seen.get(fname, ()):
                if 'optloops' not in sp.flags: raise StructMismatch('%s: loop %d not reached' % (fname, k))

    def verify_lemma(self, name):
        L = self.sp.lemmas[name]
        if L.trusted: return
        self.cur, self.curspec = 'lemma ' + name, None
        self.opaque = {}
        self.quiet = 0; self.result = None; self.pre = None
        st = State()
        env = {}
        for nm, so in L.params:
            s = self.fresh(nm, self.sort(so)); env[nm] = Val(s, self.sort(so))
        ctx = Ctx(self, st, env=env, fn=self.cur, lemma=True)
        for _, e in L.requires: st.assume(ctx.boolean(e))
        self.covers.append((self.cur, 'hypotheses', st.path))
        self.lemma_env = env
        m0 = ctx.int(L.measure) if L.measure is not None else None
        for stmt in L.steps: self.lemma_step(st, L, stmt, env, m0, T)
        ctx = Ctx(self, st, env=env, fn=self.cur, lemma=True)
        for i, (_, e) in enumerate(L.ensures):
            self.oblige(st, ctx.boolean(e), 'conclusion %d' % (i + 1), 0, 'lemma')

    def closure(self, st, name):
        """a lemma as a universally quantified fact"""
        L = self.sp.lemmas.get(name)
        if L is None: raise SpecError('unknown lemma ' + name)
        self.lemmas_used.add(name)
        env = {}; decls = []
        for nm, so in L.params:
            self.ctr += 1
            s = '%s_q%d' % (nm, self.ctr); env[nm] = Val(s, self.sort(so)); decls.append('(%s %s)' % (s, self.sort(so)))
        c = Ctx(self, st, env=env, fn=self.cur, lemma=True)
        b = Imp(And(*[c.boolean(e) for _, e in L.requires]), And(*[c.boolean(e) for _, e in L.ensures]))
        if not L.triggers: raise SpecError('lemma %s has no trigger' % name)
        pats = ''.join(' :pattern (%s)' % ' '.join(c.term(x).t for x in tr) for tr in L.triggers)
        return '(forall (%s) (! %s%s))' % (' '.join(decls), b, pats)

    def lemma_step(self, st, L, stmt, env, m0, cond):
        ctx = Ctx(self, st, env=env, fn=self.cur, lemma=True)
        if stmt[0] == 'useall':
            if list(self.sp.lemmas).index(stmt[1]) >= list(self.sp.lemmas).index(L.name): raise SpecError('lemma %s used before it is proved' % stmt[1])
            st.assume(Imp(cond, self.closure(st, stmt[1]))); return
        if stmt[0] == 'if':
            self.lemma_step(st, L, stmt[2], env, m0, And(cond, ctx.boolean(stmt[1]))); return
        if stmt[0] == 'set':     # x := expr introduces a name
            v = ctx.term(stmt[2]); env[stmt[1][1]] = v; return
        if stmt[0] == 'obtain':  # obtain x: P(x)   (existence is an obligation)
            nm, so, e = stmt[1], stmt[2], stmt[3]
            ex = ('q', 'exists', [(nm, so)], [], e)
            self.oblige(st, Imp(cond, ctx.boolean(ex)), 'existence of ' + nm, 0, 'assert')
            s = self.fresh(nm, self.sort(so)); env[nm] = Val(s, self.sort(so))
            st.assume(Imp(cond, Ctx(self, st, env=env, fn=self.cur, lemma=True).boolean(e))); return
        if stmt[0] == 'assert':
            self.oblige(st, Imp(cond, ctx.boolean(stmt[1])), 'assertion', 0, 'assert'); return
        _, f, a = stmt[1]
        M = self.sp.lemmas.get(f)
        if M is None: raise SpecError('unknown lemma ' + f)
        if f != L.name:
            self.lemmas_used.add(f)
            if list(self.sp.lemmas).index(f) > list(self.sp.lemmas).index(L.name):
                raise SpecError('lemma %s used before it is proved' % f)
        e2 = {}
        for (nm, so), x in zip(M.params, a):
            v = ctx.term(x)
            if self.sort(so) == 'Real' and v.s == 'Int': v = Val(self.as_real(v), 'Real')
            e2[nm] = v
        c2 = Ctx(self, st, env=e2, fn=self.cur, lemma=True)
        req = And(*[c2.boolean(e) for _, e in M.requires])
        if f == L.name:
            m = c2.int(L.measure)
            req = And(req, Cmp('<=', '0', m), Cmp('<', m, m0))
        self.oblige(st, Imp(cond, req), 'hypotheses of lemma ' + f, 0, 'lemma-pre')
        for _, e in M.ensures: st.assume(Imp(cond, c2.boolean(e)))

    def frame_check(self, st, sp, ctx, line):
        allowed = []
        allocs = set()
        c0 = Ctx(self, self.snapshot(self.pre), env=dict(self.penv), old=self.pre, fn=self.cur)
        for e in (sp.assigns or []):
            if e[0] == 'call' and e[1] == 'alloc': allocs.add('@' + e[2][0][1]); continue
            if e[0] == 'call' and e[1] == 'clock': allocs.add('gclock'); continue
            if e[0] == 'call' and e[1] == 'io':
                allocs |= set(('gio', a[1]) for a in e[2]) if e[2] else {'gio'}
                continue
            for lv in c0.lvalues(e): allowed.append(lv)
        for key, t in st.store.items():
            root, path = key
            if root[0] == 'L': continue
            if root == 'gclock' or root == 'gio' and ('gio' in allocs or ('gio', path[0]) in allocs): continue
            if path in (('$nxt',), ('$alive',)):
                if root in allocs: continue
            t0 = self.pre.store.get(key)
            if t0 is None:
                if isinstance(t, PTRS): t0 = None
                else: t0 = self.get(self.pre, root, path, self.tsort(t))
            if isinstance(t, PTRS):
                if repr(t) == repr(t0): continue
                if any(lv.root == root and lv.path == path[:len(lv.path)] for lv in allowed): continue
                self.oblige(st, F, 'frame: %s is not modified' % root, line, 'frame'); continue
            if t == t0: continue
            if path and path[-1].startswith('$ghost'): continue
            cov = [lv for lv in allowed if lv.root == root and lv.path == path[:len(lv.path)]]
            if any(not lv.idx for lv in cov): continue
            nm = root.lstrip('*@') + '.' + '.'.join(path)
            if root.startswith('@') and path[0] not in ('$nxt', '$alive') and not cov:
                # objects allocated by the function itself may be written
                nx = self.get(self.pre, root, ('$nxt',), 'Int')
                so = self.tsort(t)
                q = self.fresh('q', 'Int')
                self.oblige(st, Eq(Sel(t, q), Sel(t0, q)), 'frame: %s is not modified' % nm, line, 'frame')
                continue
            if root.startswith('@') and path == ('$alive',):
                nx = self.get(self.pre, root, ('$nxt',), 'Int')
                q = self.fresh('q', 'Int')
                self.oblige(st, Imp(Cmp('<', q, nx), Eq(Sel(t, q), Sel(t0, q))), 'frame: no %s is freed' % root[1:], line, 'frame')
                continue
            if root.startswith('@') and path == ('$nxt',): continue
            if cov:
                conds = []
                q = [self.fresh('q', 'Int') for _ in cov[0].idx]
                a, b = t, t0
                for x in q: a, b = Sel(a, x), Sel(b, x)
                for lv in cov: conds.append(And(*[Eq(x, y) for x, y in zip(q, lv.idx)]))
                extra = T
                self.oblige(st, Imp(And(extra, Not(Or(*conds))), Eq(a, b)), 'frame: %s changes only where allowed' % nm, line, 'frame')
                continue
            self.oblige(st, Eq(t, t0), 'frame: %s is not modified' % nm, line, 'frame')


def Ite_list(xs):
    t = xs[-1][1]
    for c, u in reversed(xs[:-1]): t = Ite(c, u, t)
    return t


# ================================================================ specification expressions
class Ctx:
    def __init__(self, eng, st, env=None, old=None, entry=None, fn=None, result=None, iter0=None, post=False, lemma=False, bound=None):
        self.g, self.st, self.env, self.old, self.entry, self.fn = eng, st, env or {}, old, entry, fn
        self.result = result; self.iter0 = iter0; self.post = post; self.lemma = lemma
        self.bound = bound or {}

    def sub(self, **kw):
        c = Ctx(self.g, self.st, self.env, self.old, self.entry, self.fn, self.result, self.iter0, self.post, self.lemma, self.bound)
        if 'outer' in self.__dict__: c.outer = self.outer
        for k, v in kw.items(): setattr(c, k, v)
        return c

    # --- public
    def boolean(self, e):
        v = self.value(e)
        if isinstance(v, LV): v = self.rd(v)
        return self.g.as_bool(v)

    def int(self, e):
        v = self.value(e)
        return self.g.as_int(v)

    def term(self, e):
        v = self.value(e)
        if isinstance(v, LV): v = self.g.lvterm(self.st, v)
        if isinstance(v, PTRS): return Val(self.g.code(v), 'Int')
        return v

    def rd(self, lv):
        if lv.ct.kind == 'struct' and not self.g.ty.is_region(lv.ct): return lv
        if lv.ct.kind == 'arr': return lv
        if self.g.ty.is_region(lv.ct): return lv
        return self.g.read(self.st, lv, in_code=False)

    def value(self, e):
        v = self.ev(e)
        return v

    def lvalues(self, e):
        """lvalue expression -> list of LV (regions: @T.f)"""
        if e[0] == 'regall': raise SpecError('use @T.field')
        if e[0] == 'fld' and e[1][0] == 'regall':
            t = e[1][1]
            ct = self.g.fieldtype(CT('struct', name=t), e[2])
            return [RegLV('@' + t, (e[2],), ct)] if False else self.reglv(t, (e[2],), ct)
        if e[0] == 'fld' and e[1][0] == 'fld' and e[1][1][0] == 'regall':
            t = e[1][1][1]
            ct = self.g.fieldtype(self.g.fieldtype(CT('struct', name=t), e[1][2]), e[2])
            return self.reglv(t, (e[1][2], e[2]), ct)
        if e[0] == 'call' and e[1] == 'col': return [self.col(e)]
        if e[0] == 'id' and e[1] in self.g.p.globals:
            return [LV('g' + e[1], (), [], self.g.ty.parse(self.g.p.globals[e[1]]['type']['qualType']), False)]
        if e[0] == 'deref':
            p = self.ev(e[1])
            if isinstance(p, PLV) and p.lv.idx and p.lv.dim not in (False, 'blk') and p.lv.idx[-1] == '0':
                return [LV(p.lv.root, p.lv.path, p.lv.idx[:-1], CT('arr', p.lv.ct, p.lv.dim), False)]
            return [lv for c, lv in self.g.decode(self.st, p, 0, check=False)]
        if e[0] == 'arrow':
            p = self.ev(e[1])
            return [self.g.field(self.st, lv, e[2]) for c, lv in self.g.decode(self.st, p, 0, check=False)]
        v = self.lv(e)
        return [v]

    def col(self, e):
        """col(array of structs, field[.field]): the array of one field"""
        a = self.ev(e[2][0], want_lv=True)
        if isinstance(a, PLV): a = LV(a.lv.root, a.lv.path, a.lv.idx[:-1], CT('arr', a.lv.ct, a.lv.dim), False)
        if not isinstance(a, LV) or a.ct.kind != 'arr': raise SpecError('col of non-array %r' % (e,))
        f = e[2][1]; path = []
        while f[0] == 'fld': path.insert(0, f[2]); f = f[1]
        path.insert(0, f[1])
        dims = []; t = a.ct
        while t.kind == 'arr': dims.append(t.n); t = t.to
        for x in path: t = self.g.fieldtype(t, x)
        for n in reversed(dims): t = CT('arr', t, n) if t.kind != 'ghost' else CT('ghost', name='(Array Int %s)' % t.name)
        r = LV(a.root, a.path + tuple(path), a.idx, t, False)
        if isinstance(a, OLV): r = OLV(r, a.st)
        return r

    def reglv(self, t, path, ct):
        # whole-region field: an array lvalue over all references
        return [LV('@' + t, path, [], CT('arr', ct, None) if ct.kind != 'ghost' else CT('ghost', name='(Array Int %s)' % ct.name), False)]

    def lv(self, e):
        v = self.ev(e, want_lv=True)
        if isinstance(v, PLV) and e[0] == 'id' and v.lv.idx and v.lv.dim not in (False, 'blk') and v.lv.idx[-1] == '0':
            v = LV(v.lv.root, v.lv.path, v.lv.idx[:-1], CT('arr', v.lv.ct, v.lv.dim), False)
        if not isinstance(v, LV): raise SpecError('not an lvalue: %r' % (e,))
        return v

    # --- names
    def ident(self, nm, want_lv=False):
        g = self.g
        if nm in self.bound: return self.bound[nm]
        if nm == 'result':
            if self.result is None: raise SpecError('result not available')
            return self.result
        if nm == 'true': return Val(T, 'Bool')
        if nm == 'false': return Val(F, 'Bool')
        if nm in ('NULL', 'null'): return PC('0', None)
        if nm == 'N' or nm == 'MAX_VERTEX_NUM': return Val('N', 'Int')
        if nm == 'E' or nm == 'MAX_EDGES_NUM': return Val('E', 'Int')
        if nm == 'HYBRID': return Val('HYB', 'Bool')
        if nm == 'DBL_MAX' or nm == 'INFINITE': return Val('DBLMAX', 'Real')
        if nm == 'FLT_MAX': return Val('FLTMAX', 'Real')
        if nm in g.p.enums: return Val(I(g.p.enums[nm]), 'Int')
        if (self.post or not self.st.frames) and nm in self.env: return self.env[nm]
        for f in reversed(self.st.frames if not (self.env and not self.post) else ()):
            if nm in f.names:
                root, ct = f.vars[f.names[nm]]
                lv = LV(root, (), [], ct, False)
                if want_lv: return lv
                if ct.kind in ('struct', 'arr'): return lv
                return g.read(self.st, lv, in_code=False)
        if nm in self.env: return self.env[nm]
        if self.lemma: raise SpecError('unknown name %s' % nm)
        if nm in g.p.globals:
            ct = g.ty.parse(g.p.globals[nm]['type']['qualType'])
            if want_lv: return LV('g' + nm, (), [], ct, False)
            return g.read(self.st, LV('g' + nm, (), [], ct, False), in_code=False)
        if nm in g.sp.preds and not g.sp.preds[nm][0]: return self.pred(nm, [])
        if nm in g.sp.consts: return g.sp.consts[nm]
        raise StructMismatch('%s: name %s not found' % (self.fn, nm))

    def pred(self, nm, a):
        ps, body = self.g.sp.preds[nm]
        if len(ps) != len(a): raise SpecError('predicate %s: %d arguments' % (nm, len(a)))
        outer = getattr(self, 'outer', None)
        if outer is None: outer = self.env or {}
        env = dict(outer); env.update(zip(ps, a))
        c = self.sub(env=env, bound={}, post=True)
        c.predctx = True
        c.outer = outer
        if nm in getattr(self.g.curspec, 'hidden', ()):
            return self.hide(nm, c.boolean(body))
        return c.ev(body)

    def hide(self, nm, t):
        """the same opaque constant for every occurrence of the same closed formula: a sound abstraction"""
        if t in ('true', 'false'): return Val(t, 'Bool')
        used = set(re.findall(r'[A-Za-z_][A-Za-z0-9_.!?]*_q[0-9]+', t))
        bound = set(re.findall(r'[( ]\(([A-Za-z_][A-Za-z0-9_.!?]*_q[0-9]+) (?:Int|Real|Bool|\(Array)', t))
        if used - bound: return Val(t, 'Bool')
        m = {}
        k = re.sub(r'[A-Za-z_][A-Za-z0-9_.!?]*_q[0-9]+', lambda x: m.setdefault(x.group(0), '?%d' % len(m)), t)
        g = self.g
        if k not in g.opaque: g.opaque[k] = g.fresh('opaque_' + nm, 'Bool')
        return Val(g.opaque[k], 'Bool')

    def ev(self, e, want_lv=False):
        g = self.g; k = e[0]
        if k == 'num': return Val(I(e[1]), 'Int')
        if k == 'real': return Val(R(e[1]), 'Real')
        if k == 'id': return self.ident(e[1], want_lv)
        if k == 'lit': return Val(I(litid(e[1])), 'Int')
        if k == 'ite':
            c = self.boolean(e[1]); a = self.val(e[2]); b = self.val(e[3])
            if isinstance(a, PTRS) or isinstance(b, PTRS):
                pa = a if isinstance(a, PTRS) else PC(a.t, None); pb = b if isinstance(b, PTRS) else PC(b.t, None)
                if isinstance(pa, PC) and isinstance(pb, PC): return PC(Ite(c, pa.t, pb.t), pa.to or pb.to)
                return PM([(c, pa), (Not(c), pb)])
            a, b = self.unify(a, b)
            return Val(Ite(c, a.t, b.t), a.s)
        if k == 'let':
            v = self.ev(e[2])
            if isinstance(v, LV): v = self.rd(v)
            return self.sub(bound=dict(self.bound, **{e[1]: v})).ev(e[3])
        if k == 'un':
            if e[1] == '!': return Val(Not(self.boolean(e[2])), 'Bool')
            v = self.val(e[2])
            if v.s == 'Real': return Val(Neg(v.t, 'Real'), 'Real')
            return Val(Neg(g.as_int(v)), 'Int')
        if k == 'bin': return self.binop(e)
        if k == 'q': return self.quant(e)
        if k == 'reg':
            r = self.int(e[2])
            return LV('@' + e[1], (), [r], CT('struct', name=e[1]), False)
        if k == 'addr':
            lv = self.lv(e[1])
            if g.ty.is_region(lv.ct) and not lv.root.startswith('@'): return g.regionptr(self.st, lv)
            return PLV(lv)
        if k == 'deref':
            p = self.ev(e[1])
            return self.alts(p, lambda lv: lv)
        if k == 'fld':
            if e[1][0] == 'regall':
                return self.lvalues(e)[0]
            v = self.ev(e[1], want_lv=True)
            if isinstance(v, PTRS): return self.arrow(v, e[2], want_lv)
            if isinstance(v, MLV):
                if want_lv: return MLV([(c, g.field(self.st, lv, e[2])) for c, lv in v.alts])
                vs = [(c, self.rd(g.field(self.st, lv, e[2]))) for c, lv in v.alts]
                if all(isinstance(x, Val) for _, x in vs): return Val(Ite_list([(c, x.t) for c, x in vs]), vs[0][1].s)
                return MLV([(c, g.field(self.st, lv, e[2])) for c, lv in v.alts])
            if not isinstance(v, LV): raise SpecError('field of non-object %r' % (e,))
            r = g.field(self.st, v, e[2])
            return r if want_lv else self.rd(r)
        if k == 'arrow':
            p = self.ev(e[1])
            if isinstance(p, Val): raise SpecError('-> on non-pointer in %r' % (e,))
            if isinstance(p, LV): return self.rd2(g.field(self.st, p, e[2]), want_lv)
            return self.arrow(p, e[2], want_lv)
        if k == 'idx':
            return self.index(e, self.ev(e[1], want_lv=True), self.int(e[2]), want_lv)
        if k == 'call': return self.call(e, want_lv)
        raise SpecError('cannot evaluate %r' % (e,))

    def index(self, e, a, i, want_lv):
        g = self.g
        if isinstance(a, MLV):
            vs = [(c, self.index(e, lv, i, want_lv)) for c, lv in a.alts]
            if not want_lv and all(isinstance(v, Val) for _, v in vs): return Val(Ite_list([(c, v.t) for c, v in vs]), vs[0][1].s)
            return MLV(vs)
        if isinstance(a, LV):
            if a.ct.kind == 'arr':
                if g.ty.is_region(a.ct.to):
                    return g.subscript(self.st, PLV(LV(a.root, a.path, a.idx, a.ct, 'blk')), i, 0, check=False)
                r = LV(a.root, a.path, a.idx + [i], a.ct.to, a.ct.n)
                return r if want_lv else self.rd(r)
            if a.ct.kind == 'ptr': a = g.read(self.st, a, in_code=False)
            elif a.ct.kind == 'ghost':
                if want_lv and a.ct.name.startswith('(Array'):
                    return LV(a.root, a.path, a.idx + [i], CT('ghost', name=elemsort(a.ct.name)), False)
                a = g.read(self.st, a, in_code=False)
            else: raise SpecError('index of %r' % a)
        if isinstance(a, PTRS):
            r = g.subscript(self.st, a, i, 0, check=False)
            return r if want_lv else self.rd(r)
        if a.s.startswith('(Array'):
            return Val(Sel(a.t, i), elemsort(a.s))
        raise SpecError('index of non-array %r' % (e,))

    def rd2(self, lv, want_lv): return lv if want_lv else self.rd(lv)

    def arrow(self, p, f, want_lv):
        alts = self.g.decode(self.st, p, 0, check=False)
        if len(alts) == 1: return self.rd2(self.g.field(self.st, alts[0][1], f), want_lv)
        if want_lv: return MLV([(c, self.g.field(self.st, lv, f)) for c, lv in alts])
        vs = [(c, self.rd(self.g.field(self.st, lv, f))) for c, lv in alts]
        if all(isinstance(v, Val) for _, v in vs): return Val(Ite_list([(c, v.t) for c, v in vs]), vs[0][1].s)
        return MLV([(c, self.g.field(self.st, lv, f)) for c, lv in alts])

    def alts(self, p, f):
        alts = self.g.decode(self.st, p, 0, check=False)
        if len(alts) == 1: return f(alts[0][1])
        return MLV([(c, f(lv)) for c, lv in alts])

    def val(self, e):
        v = self.ev(e)
        if isinstance(v, LV):
            if v.ct.kind in ('struct',): return v
            return self.g.lvterm(self.st, v) if v.ct.kind == 'arr' else self.rd(v)
        return v

    def unify(self, a, b):
        if isinstance(a, PTRS): a = Val(self.g.code(a), 'Int')
        if isinstance(b, PTRS): b = Val(self.g.code(b), 'Int')
        if a.s != b.s:
            if 'Real' in (a.s, b.s): return Val(self.g.as_real(a), 'Real'), Val(self.g.as_real(b), 'Real')
            if 'Int' in (a.s, b.s): return Val(self.g.as_int(a), 'Int'), Val(self.g.as_int(b), 'Int')
            raise SpecError('sorts %s / %s' % (a.s, b.s))
        return a, b

    def binop(self, e):
        g = self.g; _, op, x, y = e
        if op == '&&': return Val(And(self.boolean(x), self.boolean(y)), 'Bool')
        if op == '||': return Val(Or(self.boolean(x), self.boolean(y)), 'Bool')
        if op == '==>': return Val(Imp(self.boolean(x), self.boolean(y)), 'Bool')
        if op == '<==>': return Val(Eq(self.boolean(x), self.boolean(y)), 'Bool')
        a, b = self.val(x), self.val(y)
        if op in ('==', '!='):
            if isinstance(a, LV) or isinstance(b, LV):
                r = self.same(a, b)
            elif isinstance(a, PTRS) and isinstance(b, PTRS): r = g.ptr_eq(a, b)
            else:
                a, b = self.unify(a, b); r = Eq(a.t, b.t)
            return Val(r if op == '==' else Not(r), 'Bool')
        a, b = self.unify(a, b)
        if op in ('<', '<=', '>', '>='): return Val(Cmp(op, a.t, b.t), 'Bool')
        if a.s == 'Bool': a, b = Val(g.as_int(a), 'Int'), Val(g.as_int(b), 'Int')
        if op == '+': return Val(Add(a.t, b.t, a.s), a.s)
        if op == '-': return Val(Sub(a.t, b.t, a.s), a.s)
        if op == '*': return Val(Mul(a.t, b.t, a.s), a.s)
        if op == '/':
            if a.s == 'Real':
                p, q = rnum(a.t), rnum(b.t)
                if p is not None and q: return Val(R(p / q), 'Real')
                return Val('(/ %s %s)' % (a.t, b.t), 'Real')
            return Val('(div %s %s)' % (a.t, b.t), 'Int')
        if op == '%': return Val('(mod %s %s)' % (a.t, b.t), 'Int')
        raise SpecError(op)

    def same(self, a, b):
        """leafwise equality of two objects (ghost fields of list elements and the like excepted)"""
        g = self.g
        if not isinstance(a, LV) or not isinstance(b, LV): raise SpecError('comparing object with non-object')
        cs = []
        sa = getattr(a, 'st', None) or self.st
        sb = getattr(b, 'st', None) or self.st
        for sub, dims, bt in g.leaves_in(a) if a.ct.kind == 'struct' else g.leaves(a.ct):
            if bt.kind == 'ghost' and g.ty.is_region(a.ct): continue
            t1, _ = g.read_leaf(self.st, a, sub, dims, bt)
            t2, _ = g.read_leaf(self.st, b, sub, dims, bt)
            cs.append(Eq(t1, t2))
        return And(*cs)

    def quant(self, e):
        g = self.g; _, kind, vs, trig, body = e
        b = dict(self.bound); decls = []
        for n, so in vs:
            g.ctr += 1
            s = '%s?%d' % (n, g.ctr)
            s = s.replace('?', '_q')
            b[n] = Val(s, g.sort(so)); decls.append('(%s %s)' % (s, g.sort(so)))
        c = self.sub(bound=b)
        if kind == 'lam':
            if len(vs) != 1: raise SpecError('lam takes one variable')
            v = c.term(body)
            A = g.fresh('lam', '(Array Int %s)' % v.s)
            s = b[vs[0][0]].t
            ax = '(forall ((%s Int)) (! (= (select %s %s) %s) :pattern ((select %s %s))))' % (s, A, s, v.t, A, s)
            bv = [x.t for x in self.bound.values() if isinstance(x, Val) and re.search(r'_q\d+$', x.t)]
            if any(x in v.t for x in bv): raise SpecError('lam under a quantifier')
            self.st.assume(ax)
            return Val(A, '(Array Int %s)' % v.s)
        t = c.boolean(body)
        if t in (T, F): return Val(t, 'Bool')
        pats = ''
        for tr in trig:
            pats += ' :pattern (%s)' % ' '.join(c.term(x).t for x in tr)
        inner = '(! %s%s)' % (t, pats) if pats else t
        return Val('(%s (%s) %s)' % (kind, ' '.join(decls), inner), 'Bool')

    def at(self, st, e, want_lv=False):
        c = self.sub(st=State())
        c.st.store = st.store; c.st.frames = self.st.frames; c.st.path = None
        v = c.ev(e, want_lv)
        if isinstance(v, LV) and not want_lv:
            v = OLV(v, st)
        for en in entries(c.st.path): self.st.add(*en[:2], en[2])
        return v

    def call(self, e, want_lv=False):
        g = self.g; _, f, a = e
        if f == 'old':
            if self.old is None: raise SpecError('old() not available')
            return self.freeze(a[0], self.old)
        if f == 'entry':
            if self.entry is None: raise SpecError('entry() only in loop invariants')
            return self.freeze(a[0], self.entry)
        if f == 'iter':
            if self.iter0 is None: raise SpecError('iter()')
            return self.freeze(a[0], self.iter0)
        if f in g.sp.preds:
            vals = []
            for x in a:
                v = self.ev(x, want_lv=True) if x[0] in ('id', 'fld', 'arrow', 'idx', 'deref', 'reg') else self.ev(x)
                if isinstance(v, LV) and v.ct.kind not in ('struct', 'arr'): v = self.rd(v)
                vals.append(v)
            return self.pred(f, vals)
        if f == 'alive':
            t = a[0][1]
            return Val(Sel(g.get(self.st, '@' + t, ('$alive',), '(Array Int Bool)'), self.int(a[1])), 'Bool')
        if f == 'nxt': return Val(g.get(self.st, '@' + a[0][1], ('$nxt',), 'Int'), 'Int')
        if f == 'ptr': return PC(self.int(a[1]), CT('struct', name=a[0][1]))
        if f == 'valid':        # the code designates an object of the type
            ct = CT('struct', name=a[0][1]); c = self.int(a[1])
            cs = []
            for cond, lv in g.decode(self.st, PC(c, ct), 0, check=False):
                if lv.root.startswith('@'): cs.append(And(cond, Not(Eq(c, '0')), Sel(g.get(self.st, lv.root, ('$alive',), '(Array Int Bool)'), c)))
                elif lv.idx and lv.dim not in (None, False, 'blk'): cs.append(And(cond, Cmp('<', lv.idx[-1], lv.dim if isinstance(lv.dim, str) else I(lv.dim))))
                else: cs.append(cond)
            return Val(Or(*cs), 'Bool')
        if f == 'alivemap': return Val(g.get(self.st, '@' + a[0][1], ('$alive',), '(Array Int Bool)'), '(Array Int Bool)')
        if f == 'io': return Val(g.io(self.st, a[0][1]), IOSORT[a[0][1]])
        if f == 'str': return Val(Sel(g.io(self.st, 'str'), g.code(self.ev(a[0]))), 'Int')
        if f == 'readable': return Val(g.canread(self.st, g.code(self.ev(a[0]))), 'Bool')
        if f == 'lasting':
            c = g.code(self.ev(a[0]))
            return Val(And(Not(Eq(c, '0')), Sel(g.io(self.st, 'perm'), c)), 'Bool')
        if f == 'clocknow': return Val(g.get(self.st, 'gclock', ('$t',), 'Int'), 'Int')
        if f == 'code': return Val(g.code(self.ev(a[0])), 'Int')
        if f == 'ref':
            lv = self.lv(a[0])
            t, _ = g.read_leaf(self.st, lv, (), 0, CT('blk')); return Val(t, 'Int')
        if f == 'real': return Val(g.as_real(self.val(a[0])), 'Real')
        if f == 'toint':
            v = self.val(a[0])
            return Val('(to_int %s)' % v.t, 'Int') if v.s == 'Real' else v
        if f in ('f32', 'f64'):      # a decimal constant as the code's float / double literal
            x = a[0][1]
            return Val(R(Fraction(f32(x) if f == 'f32' else float(x))), 'Real')
        if f == 'sqrt': return Val('(Sqrt %s)' % g.as_real(self.val(a[0])), 'Real')
        if f == 'log': return Val('(Log %s)' % g.as_real(self.val(a[0])), 'Real')
        if f == 'ceil': return Val('(Ceil %s)' % g.as_real(self.val(a[0])), 'Real')
        if f == 'pow': return Val('(Pow %s %s)' % (g.as_real(self.val(a[0])), g.as_real(self.val(a[1]))), 'Real')
        if f == 'abs':
            v = self.val(a[0])
            return Val(Ite(Cmp('>=', v.t, '0' if v.s == 'Int' else '0.0'), v.t, Neg(v.t, v.s)), v.s)
        if f in ('min', 'max'):
            x, y = self.unify(self.val(a[0]), self.val(a[1]))
            return Val(Ite(Cmp('<=' if f == 'min' else '>=', x.t, y.t), x.t, y.t), x.s)
        if f == 'store':
            ar, i, v = self.term(a[0]), self.int(a[1]), self.term(a[2])
            if elemsort(ar.s) == 'Real' and v.s == 'Int': v = Val(g.as_real(v), 'Real')
            return Val(Sto(ar.t, i, v.t), ar.s)
        if f == 'constarr':   # constarr(v)
            v = self.term(a[0]); return Val('((as const (Array Int %s)) %s)' % (v.s, v.t), '(Array Int %s)' % v.s)
        if f == 'unchanged':
            cs = []
            for x in a:
                now = self.val(x); old = self.freeze(x, self.old)
                if isinstance(now, LV):
                    cs.append(self.same2(now, old))
                else:
                    cs.append(Eq(now.t if isinstance(now, Val) else g.code(now), old.t if isinstance(old, Val) else g.code(old)))
            return Val(And(*cs), 'Bool')
        if f == 'same':
            return Val(self.same2(self.ev(a[0]), self.ev(a[1])), 'Bool')
        if f == 'arr': return self.term(a[0])
        if f == 'col':
            lv = self.col(e)
            if want_lv: return lv
            return g.lvterm(lv.st if isinstance(lv, OLV) else self.st, lv.lv if isinstance(lv, OLV) else lv)
        if f in g.funs:
            ss, r = g.funs[f]
            ts = []
            for x, so in zip(a, ss):
                v = self.term(x)
                ts.append(g.as_real(v) if so == 'Real' else g.as_int(v) if so == 'Int' else v.t)
            return Val('(%s %s)' % (f, ' '.join(ts)) if ts else f, r)
        raise SpecError('unknown function %s' % f)

    def freeze(self, e, st):
        """value of e in another state; objects are returned with the state attached"""
        c = self.sub()
        s = State(); s.store = st.store; s.frames = self.st.frames; s.path = None
        c.st = s
        v = c.ev(e)
        for en in entries(s.path): self.st.add(*en)
        if isinstance(v, LV): 
            if v.ct.kind == 'arr' and all(x[0] == () for x in self.g.leaves(v.ct)):
                ls = self.g.leaves(v.ct)
                if len(ls) == 1: return c.g.lvterm(s, v)
            return OLV(v, s)
        return v

    def same2(self, a, b):
        g = self.g
        la, sa = (a.lv, a.st) if isinstance(a, OLV) else (a, self.st)
        lb, sb = (b.lv, b.st) if isinstance(b, OLV) else (b, self.st)
        if isinstance(la, Val) and isinstance(lb, Val):
            return Eq(la.t, lb.t)
        if isinstance(la, LV) and isinstance(lb, Val): la = g.lvterm(sa, la); return Eq(la.t, lb.t)
        if isinstance(lb, LV) and isinstance(la, Val): lb = g.lvterm(sb, lb); return Eq(la.t, lb.t)
        cs = []
        for sub, dims, bt in (g.leaves_in(la) if la.ct.kind == 'struct' else g.leaves(la.ct)):
            if bt.kind == 'ghost' and g.ty.is_region(la.ct): continue
            t1, _ = g.read_leaf(sa, la, sub, dims, bt)
            t2, _ = g.read_leaf(sb, lb, sub, dims, bt)
            cs.append(Eq(t1, t2))
        return And(*cs)


class OLV(LV):
    """an object as it was in another state"""
    __slots__ = ('lv', 'st')

    def __init__(self, lv, st):
        LV.__init__(self, lv.root, lv.path, lv.idx, lv.ct, lv.dim)
        self.lv, self.st = lv, st


class MLV:
    def __init__(self, alts): self.alts = alts
