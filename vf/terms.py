"""SMT terms are strings; a few smart constructors with constant folding."""
import re
from fractions import Fraction

_int = re.compile(r'^\d+$')
_neg = re.compile(r'^\(- (\d+)\)$')


def num(t):
    """python int of a literal Int term, else None"""
    if _int.match(t):
        return int(t)
    m = _neg.match(t)
    return -int(m.group(1)) if m else None


def I(n):
    return str(n) if n >= 0 else '(- %d)' % -n


_real = re.compile(r'^(\d+)\.(\d+)$')
_realneg = re.compile(r'^\(- (\d+\.\d+)\)$')


def rnum(t):
    m = _real.match(t)
    if m:
        return Fraction(int(m.group(1) + m.group(2)), 10 ** len(m.group(2)))
    m = _realneg.match(t)
    if m:
        return -rnum(m.group(1))
    m = re.match(r'^\(/ (\d+)\.0 (\d+)\.0\)$', t)
    if m:
        return Fraction(int(m.group(1)), int(m.group(2)))
    m = re.match(r'^\(- \(/ (\d+)\.0 (\d+)\.0\)\)$', t)
    if m:
        return -Fraction(int(m.group(1)), int(m.group(2)))
    return None


def R(fr):
    fr = Fraction(fr)
    a = abs(fr)
    if a.denominator == 1:
        s = '%d.0' % a.numerator
    else:
        s = '(/ %d.0 %d.0)' % (a.numerator, a.denominator)
    return s if fr >= 0 else '(- %s)' % s


T, F = 'true', 'false'


def Not(a):
    if a == T: return F
    if a == F: return T
    if a.startswith('(not ') :
        return a[5:-1]
    return '(not %s)' % a


def And(*xs):
    ys = []
    for x in xs:
        if x == F: return F
        if x == T or x in ys: continue
        ys.append(x)
    if not ys: return T
    if len(ys) == 1: return ys[0]
    return '(and %s)' % ' '.join(ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x == T: return T
        if x == F or x in ys: continue
        ys.append(x)
    if not ys: return F
    if len(ys) == 1: return ys[0]
    return '(or %s)' % ' '.join(ys)


def Imp(a, b):
    if a == T: return b
    if a == F or b == T: return T
    return '(=> %s %s)' % (a, b)


def Ite(c, a, b):
    if c == T: return a
    if c == F: return b
    if a == b: return a
    if a == T and b == F: return c
    if a == F and b == T: return Not(c)
    return '(ite %s %s %s)' % (c, a, b)


def Eq(a, b):
    if a == b: return T
    x, y = num(a), num(b)
    if x is not None and y is not None: return T if x == y else F
    if a == T: return b
    if b == T: return a
    if a == F: return Not(b)
    if b == F: return Not(a)
    if y is not None and a.startswith('(ite ') and len(a) < 4000:
        c, p, q = args(a)
        if num(p) is not None and num(q) is not None:
            p, q = num(p) == y, num(q) == y
            return (T if q else c) if p else Not(c) if q else F
    return '(= %s %s)' % (a, b)


_peel_c = re.compile(r'^\((\+|-) (.*) (\d+)\)$')


def _off(t):
    """t as (base, constant)"""
    n = num(t)
    if n is not None: return ('', n)
    if t.startswith('(+ ') or t.startswith('(- '):
        a = args(t)
        if len(a) == 2:
            n = num(a[1])
            if n is not None:
                return (a[0], n if t[1] == '+' else -n)
    return (t, 0)


def args(t):
    """top-level arguments of (op a b ...)"""
    out = []; d = 0; cur = ''
    s = t[1:-1]
    i = s.index(' ') + 1
    for ch in s[i:]:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ' ' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def Add(a, b, sort='Int'):
    if sort == 'Int':
        x, y = _off(a), _off(b)
        if x[0] == '' and y[0] == '': return I(x[1] + y[1])
        if x[0] == '' or y[0] == '':
            base = y[0] or x[0]; c = x[1] + y[1]
            if c == 0: return base
            return '(+ %s %d)' % (base, c) if c > 0 else '(- %s %d)' % (base, -c)
        return '(+ %s %s)' % (a, b)
    p, q = rnum(a), rnum(b)
    if p is not None and q is not None: return R(p + q)
    if p == 0: return b
    if q == 0: return a
    return '(+ %s %s)' % (a, b)


def Sub(a, b, sort='Int'):
    if sort == 'Int':
        y = num(b)
        if y is not None: return Add(a, I(-y))
        if a == b: return '0'
        return '(- %s %s)' % (a, b)
    p, q = rnum(a), rnum(b)
    if p is not None and q is not None: return R(p - q)
    if q == 0: return a
    return '(- %s %s)' % (a, b)


def Neg(a, sort='Int'):
    if sort == 'Int':
        n = num(a)
        if n is not None: return I(-n)
    else:
        p = rnum(a)
        if p is not None: return R(-p)
    return '(- %s)' % a


def Mul(a, b, sort='Int'):
    if sort == 'Int':
        x, y = num(a), num(b)
        if x is not None and y is not None: return I(x * y)
        if x == 1: return b
        if y == 1: return a
        if x == 0 or y == 0: return '0'
    else:
        p, q = rnum(a), rnum(b)
        if p is not None and q is not None: return R(p * q)
        if p == 1: return b
        if q == 1: return a
    return '(* %s %s)' % (a, b)


def Cmp(op, a, b):
    x, y = num(a), num(b)
    if x is None or y is None:
        x, y = rnum(a), rnum(b)
    if x is not None and y is not None:
        return T if {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op] else F
    if a == b:
        return T if op in ('<=', '>=') else F
    return '(%s %s %s)' % (op, a, b)


def Sel(a, i):
    return '(select %s %s)' % (a, i)


def Sto(a, i, v):
    return '(store %s %s %s)' % (a, i, v)


_sym = re.compile(r'\|[^|]*\||[A-Za-z_$@][A-Za-z0-9_$@.!#*~]*')


def symbols(t):
    return set(_sym.findall(t))
