"""Rational functions in normal form: the value domain of the numeric analysis.

A polynomial is a dictionary  monomial -> coefficient, a monomial a sorted tuple of (variable, exponent).  Variables that
stand for a root, a sine or a component of a unit quaternion carry a relation  v**n = polynomial,  which is applied until it
no longer applies; two values are equal exactly if the cross product of their fractions reduces to the zero polynomial."""
from fractions import Fraction

ONE = ((), )


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


def pmul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


class Relations(object):
    """v**n -> polynomial"""

    def __init__(self):
        self.rule = {}

    def add(self, var, n, poly):
        if var not in self.rule:
            self.rule[var] = (n, poly)

    def reduce(self, p):
        rule = self.rule
        if not rule:
            return p
        out = {}
        work = dict(p)
        guard = 0
        while work:
            m, c = work.popitem()
            guard += 1
            if guard > 400000:
                raise TooBig()
            for i, (v, e) in enumerate(m):
                r = rule.get(v)
                if r is not None and e >= r[0]:
                    rest = m[:i] + (((v, e - r[0]),) if e > r[0] else ()) + m[i + 1:]
                    for n, d in r[1].items():
                        k = mmul(rest, n)
                        x = work.get(k, 0) + c * d
                        if x:
                            work[k] = x
                        else:
                            work.pop(k, None)
                    break
            else:
                x = out.get(m, 0) + c
                if x:
                    out[m] = x
                else:
                    out.pop(m, None)
        return out


REL = Relations()


def _content(a, b):
    """monomial dividing every term of both"""
    com = None
    for m in list(a) + list(b):
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {v: min(e, d[v]) for v, e in com.items() if v in d}
        if not com:
            return ()
    return tuple(sorted(com.items()))


def _divmono(p, q):
    d = dict(q)
    r = {}
    for m, c in p.items():
        r[tuple((v, e - d.get(v, 0)) for v, e in m if e - d.get(v, 0))] = c
    return r


class Rat(object):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        if d is None:
            d = pconst(1)
        n = REL.reduce(n)
        d = REL.reduce(d)
        if not n:
            d = pconst(1)
        elif len(d) == 1 and () in d:
            c = d[()]
            if c != 1:
                n = {m: x / c for m, x in n.items()}
                d = pconst(1)
        elif d:
            m = _content(n, d)
            if m:
                n, d = _divmono(n, m), _divmono(d, m)
            c = d[min(d)]
            if c != 1:
                n = {m: x / c for m, x in n.items()}
                d = {m: x / c for m, x in d.items()}
            if n == d:
                n, d = pconst(1), pconst(1)
            elif len(n) == len(d) and set(n) == set(d):
                k = next(iter(n))
                q = n[k] / d[k]
                if all(n[m] == q * d[m] for m in n):
                    n, d = pconst(q), pconst(1)
        self.n, self.d = n, d

    @staticmethod
    def c(x):
        return Rat(pconst(Fraction(x)))

    @staticmethod
    def var(name):
        return Rat({((name, 1),): Fraction(1)})

    def const(self):
        """the constant it is, or None"""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and () in self.n and len(self.d) == 1 and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def __add__(a, b):
        if a.d == b.d:
            return Rat(padd(a.n, b.n), a.d)
        return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))

    def __sub__(a, b):
        if a.d == b.d:
            return Rat(padd(a.n, b.n, -1), a.d)
        return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d), -1), pmul(a.d, b.d))

    def __neg__(a):
        return Rat({m: -c for m, c in a.n.items()}, a.d)

    def __mul__(a, b):
        return Rat(pmul(a.n, b.n), pmul(a.d, b.d))

    def __truediv__(a, b):
        if not b.n:
            return Rat.var('1/0') * a
        return Rat(pmul(a.n, b.d), pmul(a.d, b.n))

    def eq(a, b):
        return not REL.reduce(padd(pmul(a.n, b.d), pmul(b.n, a.d), -1))

    def vars(self):
        return set(v for p in (self.n, self.d) for m in p for v, _ in m)

    def sign_free(self):
        """(value with a positive leading coefficient, sign)"""
        if not self.n:
            return self, 1
        k = min(self.n)
        return (self, 1) if self.n[k] > 0 else (-self, -1)

    def diff(self, var):
        def dp(p):
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(var, 0)
                if e:
                    if e == 1:
                        del d[var]
                    else:
                        d[var] = e - 1
                    k = tuple(sorted(d.items()))
                    r[k] = r.get(k, 0) + c * e
            return r
        return Rat(padd(pmul(dp(self.n), self.d), pmul(self.n, dp(self.d)), -1), pmul(self.d, self.d))

    def subst(self, env):
        """replace variables by values"""
        def sp(p):
            tot = Rat({})
            for m, c in p.items():
                t = Rat.c(c)
                for v, e in m:
                    x = env[v] if v in env else Rat.var(v)
                    for _ in range(e):
                        t = t * x
                tot = tot + t
            return tot
        return sp(self.n) / sp(self.d)

    def __str__(self):
        def ps(p):
            if not p:
                return '0'
            out = []
            for m in sorted(p):
                c = p[m]
                f = '*'.join('%s^%d' % (v, e) if e > 1 else str(v) for v, e in m)
                if not f:
                    out.append(str(c))
                elif c == 1:
                    out.append(f)
                elif c == -1:
                    out.append('-' + f)
                else:
                    out.append('%s*%s' % (c, f))
            return ' + '.join(out)
        n = ps(self.n)
        if len(self.d) == 1 and () in self.d and self.d[()] == 1:
            return n
        return '(%s) / (%s)' % (n, ps(self.d))
    __repr__ = __str__


ZERO, UNIT = Rat({}), Rat.c(1)
ARGS = {}       # variable -> (function, arguments)


def fn(name, *args):
    """value of an elementary function of normal-form arguments"""
    if name == 'sqrt':
        a = args[0]
        c = a.const()
        if c is not None and c >= 0:
            r = Fraction(int(round(float(c.numerator) ** .5)), int(round(float(c.denominator) ** .5)))
            if r * r == c:
                return Rat.c(r)
        if len(a.d) == 1 and () in a.d:
            v = 'sqrt(%s)' % a
            REL.add(v, 2, a.n)
            return Rat.var(v)
        return fn('sqrt', Rat(pmul(a.n, a.d))) / Rat(a.d)
    if name in ('sin', 'cos'):
        a, s = args[0].sign_free()
        if a.const() == 0:
            return ZERO if name == 'sin' else UNIT
        sv, cv = 'sin(%s)' % a, 'cos(%s)' % a
        REL.add(cv, 2, {(): Fraction(1), ((sv, 2),): Fraction(-1)})
        if name == 'cos':
            return Rat.var(cv)
        r = Rat.var(sv)
        return r if s > 0 else -r
    if name == 'fabs':
        a, s = args[0].sign_free()
        c = a.const()
        if c is not None:
            return Rat.c(abs(c))
        v = 'fabs(%s)' % a
        ARGS[v] = (name, (a,))
        return Rat.var(v)
    if name == 'cbrt':
        a = args[0]
        if len(a.d) == 1 and () in a.d:
            v = 'cbrt(%s)' % a
            REL.add(v, 3, a.n)
            return Rat.var(v)
    v = '%s(%s)' % (name, ', '.join(str(x) for x in args))
    ARGS[v] = (name, args)
    return Rat.var(v)
