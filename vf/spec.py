"""Specification language: parser for expressions and for contract files."""
import re
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
   (?P<num>\d+\.\d+|\d+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<id>\\?[A-Za-z_$][A-Za-z0-9_$]*)
 | (?P<op><==>|==>|->|\|\||&&|==|!=|<=|>=|:=|[-+*/%<>!\[\](){}.,:?&@=])
)''', re.X)


class SpecError(Exception):
    pass


def tokenize(s):
    out = []; i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise SpecError('cannot tokenize %r at %r' % (s, s[i:i + 20]))
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    out.append(('eof', ''))
    return out


class P:
    def __init__(self, s):
        self.s = s; self.t = tokenize(s); self.i = 0

    def pk(self): return self.t[self.i][1]
    def kind(self): return self.t[self.i][0]

    def nx(self):
        t = self.t[self.i]; self.i += 1
        return t

    def eat(self, v):
        if self.pk() != v or self.kind() == 'eof':
            raise SpecError('expected %r, found %r in %r' % (v, self.pk(), self.s))
        self.i += 1

    def acc(self, v):
        if self.kind() != 'eof' and self.pk() == v:
            self.i += 1; return True
        return False

    def expr(self): return self.iff()

    def iff(self):
        a = self.imp()
        while self.acc('<==>'):
            b = self.imp(); a = ('bin', '<==>', a, b)
        return a

    def imp(self):
        a = self.tern()
        if self.acc('==>'):
            b = self.imp(); return ('bin', '==>', a, b)
        return a

    def tern(self):
        a = self.or_()
        if self.acc('?'):
            b = self.tern(); self.eat(':'); c = self.tern()
            return ('ite', a, b, c)
        return a

    def or_(self):
        a = self.and_()
        while self.acc('||'): a = ('bin', '||', a, self.and_())
        return a

    def and_(self):
        a = self.cmp()
        while self.acc('&&'): a = ('bin', '&&', a, self.cmp())
        return a

    def cmp(self):
        a = self.add()
        parts = []
        while self.kind() == 'op' and self.pk() in ('==', '!=', '<', '<=', '>', '>='):
            op = self.nx()[1]; b = self.add()
            parts.append(('bin', op, a, b)); a = b
        if not parts: return a
        r = parts[0]
        for p in parts[1:]: r = ('bin', '&&', r, p)
        return r

    def add(self):
        a = self.mul()
        while self.kind() == 'op' and self.pk() in ('+', '-'):
            op = self.nx()[1]; a = ('bin', op, a, self.mul())
        return a

    def mul(self):
        a = self.un()
        while self.kind() == 'op' and self.pk() in ('*', '/', '%'):
            op = self.nx()[1]; a = ('bin', op, a, self.un())
        return a

    def un(self):
        if self.kind() == 'op':
            if self.acc('!'): return ('un', '!', self.un())
            if self.acc('-'): return ('un', '-', self.un())
            if self.acc('&'): return ('addr', self.un())
            if self.acc('*'): return ('deref', self.un())
        return self.post()

    def post(self):
        a = self.prim()
        while True:
            if self.acc('['):
                i = self.expr(); self.eat(']'); a = ('idx', a, i)
            elif self.acc('.'):
                a = ('fld', a, self.nx()[1])
            elif self.acc('->'):
                a = ('arrow', a, self.nx()[1])
            else: return a

    def prim(self):
        k, v = self.t[self.i]
        if k == 'num':
            self.i += 1
            return ('real', Fraction(v)) if '.' in v else ('num', int(v))
        if k == 'str':
            self.i += 1
            return ('lit', v)
        if v == '(':
            self.i += 1
            # C casts in array sizes
            if self.kind() == 'id' and self.pk() in ('int', 'short', 'long', 'size_t') and self.t[self.i + 1][1] == ')':
                self.i += 2
                return ('call', 'toint', [self.un()])
            e = self.expr(); self.eat(')'); return e
        if v == '@':
            self.i += 1
            nm = self.nx()[1]
            if self.acc('['):
                e = self.expr(); self.eat(']'); return ('reg', nm, e)
            return ('regall', nm)
        if k == 'id':
            if v in ('forall', 'exists', 'lam'):
                self.i += 1
                vs = []
                while self.pk() not in (':', '{'):
                    n = self.nx()[1]; so = 'Int'
                    if self.acc('@'): so = self.nx()[1]
                    vs.append((n, so)); self.acc(',')
                trig = []
                while self.acc('{'):
                    t = [self.expr()]
                    while self.acc(','): t.append(self.expr())
                    self.eat('}'); trig.append(t)
                self.eat(':')
                b = self.expr()
                return ('q', v, vs, trig, b)
            if v == 'let':
                self.i += 1
                n = self.nx()[1]; self.eat('='); e = self.expr(); self.eat(':'); b = self.expr()
                return ('let', n, e, b)
            self.i += 1
            if self.acc('('):
                a = []
                if not self.acc(')'):
                    a.append(self.expr())
                    while self.acc(','): a.append(self.expr())
                    self.eat(')')
                return ('call', v, a)
            return ('id', v)
        raise SpecError('unexpected %r in %r' % (v, self.s))


_cache = {}


def parse_expr(s):
    if s not in _cache:
        p = P(s)
        e = p.expr()
        if p.kind() != 'eof': raise SpecError('trailing %r in %r' % (p.pk(), s))
        _cache[s] = e
    return _cache[s]


def parse_stmt(s):
    """ghost statement:  lv := e | use L(args) | assert e | if c: stmt"""
    s = s.strip()
    if s.startswith('use '):
        return ('use', parse_expr(s[4:]))
    m = re.match(r'^trust \[(.*?)\] (.*)$', s)
    if m: return ('trust', parse_expr(m.group(2)), m.group(1))
    m = re.match(r'^points (\w+): (.*?) \? (.*) : (.*)$', s)
    if m: return ('points', m.group(1), parse_expr(m.group(2)), parse_expr(m.group(3)), parse_expr(m.group(4)))
    m = re.match(r'^pick ((?:\w+, )*\w+)( \{[^:]*\})?: (.*)$', s)
    if m: return ('pick', m.group(1).split(', '), parse_expr('forall %s%s: !(%s)' % (m.group(1), m.group(2) or '', m.group(3))), parse_expr(m.group(3)))
    if s == 'nomerge': return ('nomerge',)
    if s.startswith('useall '): return ('useall', s[7:].strip())
    if s.startswith('assert '):
        return ('assert', parse_expr(s[7:]))
    m = re.match(r'^obtain (\w+)(?:@(\w+))?: (.*)$', s)
    if m: return ('obtain', m.group(1), m.group(2) or 'Int', parse_expr(m.group(3)))
    m = re.match(r'^if (.*?) then (.*)$', s)
    if m:
        return ('if', parse_expr(m.group(1)), parse_stmt(m.group(2)))
    i = s.index(':=')
    return ('set', parse_expr(s[:i]), parse_expr(s[i + 2:]))


class FnSpec:
    def __init__(self, name):
        self.name = name
        self.requires = []   # (label, expr)
        self.ensures = []
        self.exits = []      # what holds where the program is ended with an error
        self.assigns = None  # list of expr
        self.decreases = None
        self.loops = {}      # k -> LoopSpec
        self.ghosts = {}     # (point) -> [stmt]
        self.locals = []     # ghost locals (name, sort, init or None)
        self.ret = None
        self.flags = set()
        self.hidden = set()   # predicates taken as opaque in this function
        self.paramlen = {}
        self.norange = set()
        self.allocs = []
        self.file = None
        self.params = None


class LoopSpec:
    def __init__(self):
        self.inv = []; self.dec = None; self.unroll = None; self.opaque = False


class Lemma:
    def __init__(self, name, params):
        self.name, self.params = name, params
        self.requires = []; self.ensures = []; self.steps = []; self.measure = None; self.trusted = None; self.triggers = []


class Specs:
    def __init__(self):
        self.fns = {}; self.preds = {}; self.logic = {}; self.axioms = []; self.ghostfields = {}; self.lemmas = {}
        self.consts = {}

    def load(self, path):
        cur = None; loop = None
        lines = []
        for raw in open(path):
            l = raw.rstrip('\n')
            if l.strip().startswith('#') or not l.strip(): continue
            l = re.sub(r'\s+//.*$', '', l)
            if l.lstrip().startswith('|'):
                lines[-1] += ' ' + l.lstrip()[1:].strip()
            else:
                lines.append(l)
        for l in lines:
            s = l.strip()
            try:
                cur, loop = self.line(s, cur, loop, path)
            except (SpecError, ValueError, IndexError) as e:
                raise SpecError('%s: %s: %s' % (path, s[:100], e))

    def line(self, s, cur, loop, path):
        w, _, rest = s.partition(' ')
        rest = rest.strip()
        if w == 'fn':
            f = FnSpec(rest.split()[0]); f.flags |= set(rest.split()[1:]); f.file = path
            if f.name in self.fns: raise SpecError('duplicate contract for ' + f.name)
            self.fns[f.name] = f
            return f, None
        if w == 'pred':
            m = re.match(r'^(\w+)\(([^)]*)\)\s*=\s*(.*)$', rest)
            new = ([x.strip() for x in m.group(2).split(',') if x.strip()], parse_expr(m.group(3)))
            if self.preds.get(m.group(1), new) != new: raise SpecError('two definitions of ' + m.group(1))
            self.preds[m.group(1)] = ([x.strip() for x in m.group(2).split(',') if x.strip()], parse_expr(m.group(3)))
            return cur, loop
        if w == 'logic':
            m = re.match(r'^(\w+)\(([^)]*)\)\s*:\s*(.*)$', rest)
            new = ([x.strip() for x in m.group(2).split(',') if x.strip()], m.group(3).strip())
            if self.logic.get(m.group(1), new) != new: raise SpecError('two definitions of ' + m.group(1))
            self.logic[m.group(1)] = ([x.strip() for x in m.group(2).split(',') if x.strip()], m.group(3).strip())
            return cur, loop
        if w == 'axiom':
            nm, _, e = rest.partition(':')
            self.axioms.append((nm.strip(), parse_expr(e)))
            return cur, loop
        if w == 'ghostfield':   # ghostfield List.gs AInt
            a, so = rest.split()
            t, f = a.split('.')
            self.ghostfields.setdefault(t, {})[f] = so
            return cur, loop
        if w == 'lemma':
            m = re.match(r'^(\w+)\(([^)]*)\)\s*(.*)$', rest)
            ps = []
            for p in m.group(2).split(','):
                p = p.strip()
                if not p: continue
                n, _, so = p.partition('@')
                ps.append((n.strip(), so.strip() or 'Int'))
            L = Lemma(m.group(1), ps)
            if m.group(3).startswith('trusted'): L.trusted = m.group(3)[7:].strip(' :') or 'trusted'
            self.lemmas[L.name] = L
            return L, None
        if isinstance(cur, Lemma):
            if w in ('requires', 'ensures'):
                getattr(cur, w).append(('', parse_expr(rest)))
            elif w == 'measure': cur.measure = parse_expr(rest)
            elif w == 'trigger': cur.triggers.append([parse_expr(x) for x in split_commas(rest)])
            elif w == 'step': cur.steps.append(parse_stmt(rest))
            else: raise SpecError('unknown lemma clause ' + w)
            return cur, loop
        f = cur
        if w in ('requires', 'ensures', 'exits'):
            m = re.match(r'^(\w+):(?!=)\s*(.*)$', rest)
            lab, e = (m.group(1), m.group(2)) if m else ('', rest)
            getattr(f, w).append((lab, parse_expr(e)))
        elif w == 'assigns':
            f.assigns = (f.assigns or []) + ([] if rest == 'nothing' else [parse_expr(x) for x in split_commas(rest)])
        elif w == 'decreases': f.decreases = parse_expr(rest)
        elif w == 'returns': f.ret = parse_expr(rest)
        elif w == 'param':   # param nodes[num_nodes]
            m = re.match(r'^(\w+)\[(.*)\]$', rest)
            f.paramlen[m.group(1)] = parse_expr(m.group(2))
        elif w == 'norange': f.norange |= set(rest.replace(',', ' ').split())
        elif w == 'flag': f.flags |= set(rest.split())
        elif w == 'hide': f.hidden |= set(rest.replace(',', ' ').split())
        elif w == 'local':   # local name sort [= init]
            m = re.match(r'^(\w+)\s+(\w+)\s*(?:=\s*(.*))?$', rest)
            f.locals.append((m.group(1), m.group(2), parse_expr(m.group(3)) if m.group(3) else None))
        elif w == 'loop':
            k = int(rest.split()[0].rstrip(':'))
            loop = f.loops.setdefault(k, LoopSpec())
            m = re.search(r'unroll (\d+)', rest)
            if m: loop.unroll = int(m.group(1))
        elif w == 'inv':
            m = re.match(r'^(\w+):(?!=)\s*(.*)$', rest)
            lab, e = (m.group(1), m.group(2)) if m else ('', rest)
            loop.inv.append((lab, parse_expr(e)))
        elif w == 'dec': loop.dec = [parse_expr(x) for x in rest.split(';;')]
        elif w == 'at':   # at loop 1 body: stmt
            pt, _, st = rest.partition(': ')
            f.ghosts.setdefault(tuple(pt.split()), []).append(parse_stmt(st))
        else:
            raise SpecError('unknown clause ' + w)
        return cur, loop


def split_commas(s):
    out = []; d = 0; c = ''
    for ch in s:
        if ch in '([{': d += 1
        if ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append(c); c = ''
        else: c += ch
    out.append(c)
    return [x.strip() for x in out if x.strip()]
