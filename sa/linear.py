"""polynomial normal form of address and size expressions over loop counters"""
from engine import subterms, contains


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            x = tuple(sorted(m + n, key=repr))
            r[x] = r.get(x, 0) + c * d
    return {m: c for m, c in r.items() if c}


class Loops(object):
    """the loops of a path: spaces, initial values and bodies, nested ones included"""

    def __init__(self, events):
        self.by = {}
        self.nest = {}
        self.early = False
        self.go(events, ())

    def go(self, events, stack):
        for e in events:
            if e[0] in ('brk', 'iter'):
                self.early = True
            if e[0] == 'loop':
                self.by[e[1]] = e
                self.nest[e[1]] = stack
                for (_f, b, _u) in e[3]:
                    self.go(b, stack + (e[1],))

    def step(self, lid, loc):
        """(initial value, increment per iteration) of a variable of the loop, or None"""
        e = self.by.get(lid)
        if e is None:
            return None
        init = dict(e[4]).get(loc)
        if init is None:
            return None
        inc = None
        me = ('loopv', lid, loc)
        for (_f, _b, u) in e[3]:
            v = dict(u).get(loc, me)
            d = add(self.poly(v, {lid}), {(me,): -1})
            if any(contains(a, lid) for m in d for a in m):
                return None
            if inc is not None and d != inc:
                return None
            inc = d
        return (init, inc) if inc is not None else None

    def poly(self, t, frozen=()):
        if t[0] == 'c' and isinstance(t[1], int):
            return {(): t[1]} if t[1] else {}
        if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-', '*'):
            a, b = self.poly(t[2], frozen), self.poly(t[3], frozen)
            return mul(a, b) if t[1] == '*' else add(a, b, 1 if t[1] == '+' else -1)
        if t[0] == 'op' and len(t) == 3 and t[1] in ('neg', '-', 'u-'):
            return add({}, self.poly(t[2], frozen), -1)
        if t[0] == 'idx' and len(t) == 3:
            return add(self.poly(t[2], frozen), {(('ctr', t[1]),): 1})
        if t[0] == 'loopv' and t[1] not in frozen:
            s = self.step(t[1], t[2])
            if s is not None:
                return add(self.poly(s[0], frozen), mul(s[1], {(('ctr', t[1]),): 1}))
        return {(t,): 1}

    def addr(self, t, frozen=()):
        """address of the object that the read term t denotes"""
        if t[0] == 'deref':
            return self.poly(t[1], frozen)
        if t[0] == 'at' and t[1][0] == 'deref':
            return add(self.poly(t[1][1], frozen), self.poly(t[2], frozen))
        return None

    def locaddr(self, l, frozen=()):
        if l[0] == 'P':
            return self.poly(l[1], frozen)
        if l[0] == 'I' and l[1][0] == 'P':
            return add(self.poly(l[1][1], frozen), self.poly(l[2], frozen))
        return None


def counters(p):
    """{loop id: coefficient polynomial} and the part without counters"""
    by, rest = {}, {}
    for m, c in p.items():
        cs = [a for a in m if a[0] == 'ctr']
        if len(cs) == 1:
            n = list(m)
            n.remove(cs[0])
            q = by.setdefault(cs[0][1], {})
            q[tuple(n)] = q.get(tuple(n), 0) + c
        else:
            rest[m] = c
    return by, rest


def single(p):
    """the atom, when the polynomial is just one atom"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def showp(p):
    from engine import show
    return ' + '.join('*'.join([str(c)] * (c != 1 or not m) + [('ctr%s' % (a[1],) if a[0] == 'ctr' else show(a)) for a in m]) for m, c in p.items()) or '0'
