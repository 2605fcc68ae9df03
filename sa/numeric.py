"""Algebraic value analysis of the numeric types.

Propagates values through the syntax tree of a function: scalars are rational functions (algebra.Rat) of the symbolic
inputs, matrices are grids of such cells, objects are their fields.  Library operations have their mathematical meaning,
functions of the repository are entered.  A condition that the values do not decide splits the analysis; the signs assumed on a
path are kept with it.  Nothing is executed and no solver is involved: the result of a path is a normal form, compared with the
normal form the property demands."""
import re
from fractions import Fraction
from algebra import Rat, ZERO, UNIT, REL, fn, TooBig

MAXPATHS = 300


class Unknown(Exception):
    """a construct this analysis has no meaning for"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Thrown(Exception):
    def __init__(self, t, line):
        self.t, self.line = t, line


class Stop(Exception):
    """the path ends (failed assertion)"""


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Cell(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Mat(object):
    """grid of cells; views share the cells"""
    __slots__ = ('r', 'c', 'cells', 'arr')

    def __init__(self, r, c, cells, arr=False):
        self.r, self.c, self.cells, self.arr = r, c, cells, arr

    @staticmethod
    def of(r, c, f):
        return Mat(r, c, [Cell(f(i, j)) for i in range(r) for j in range(c)])

    def at(self, i, j):
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise Thrown('out of bounds: element (%d,%d) of a %dx%d matrix' % (i, j, self.r, self.c), 0)
        return self.cells[i * self.c + j]

    def lin(self, k):
        if not 0 <= k < self.r * self.c:
            raise Thrown('out of bounds: element %d of %d' % (k, self.r * self.c), 0)
        if self.c == 1 or self.r == 1:
            return self.cells[k]
        return self.at(k % self.r, k // self.r)

    def get(self, i, j):
        return self.at(i, j).v

    def copy(self):
        return Mat(self.r, self.c, [Cell(x.v) for x in self.cells], self.arr)

    def sub(self, i, j, r, c):
        return Mat(r, c, [self.at(i + a, j + b) for a in range(r) for b in range(c)])

    def T(self):
        return Mat(self.c, self.r, [self.at(j, i) for i in range(self.c) for j in range(self.r)])

    def map(self, f):
        return Mat(self.r, self.c, [Cell(f(x.v)) for x in self.cells])

    def same(self, o):
        if (self.r, self.c) != (o.r, o.c):
            raise Unknown('shapes %dx%d and %dx%d' % (self.r, self.c, o.r, o.c))

    def __str__(self):
        return '[' + '; '.join(', '.join(str(self.get(i, j)) for j in range(self.c)) for i in range(self.r)) + ']'


class Quat(object):
    """quaternion: cells w, x, y, z"""
    __slots__ = ('cells', 'of')

    def __init__(self, cells, of=None):
        self.cells = cells
        self.of = of            # rotation matrix it was made from

    def vals(self):
        return [c.v for c in self.cells]

    def copy(self):
        return Quat([Cell(c.v) for c in self.cells], self.of)

    def matrix(self):
        if self.of is not None:
            return self.of.copy()
        w, x, y, z = self.vals()
        two = Rat.c(2)
        ww, xx, yy, zz = w * w, x * x, y * y, z * z
        return Mat(3, 3, [Cell(v) for v in (
            ww + xx - yy - zz, two * (x * y - w * z), two * (x * z + w * y),
            two * (x * y + w * z), ww - xx + yy - zz, two * (y * z - w * x),
            two * (x * z - w * y), two * (y * z + w * x), ww - xx - yy + zz)])

    def __str__(self):
        return 'q(%s)' % (', '.join(str(v) for v in self.vals()) if self.of is None else 'of %s' % self.of)


class Obj(object):
    """object of a class of the repository"""

    def __init__(self, rec, name=None, exact=True):
        self.rec, self.name, self.exact = rec, name, exact
        self.f = {}

    def __str__(self):
        return '%s{%s}' % (self.name or short(typename(self.rec)), ', '.join('%s=%s' % (k, text(v)) for k, v in self.f.items()))


class Ptr(object):
    """pointer to a target; shared pointers alike"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class ArrP(object):
    """pointer into an array"""
    __slots__ = ('cells', 'i')

    def __init__(self, cells, i):
        self.cells, self.i = cells, i


class SymPtr(object):
    """pointer that is an input"""
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    def __str__(self):
        return self.name


class Vec(object):
    """std::vector of known length"""

    def __init__(self, cells):
        self.cells = cells

    def __str__(self):
        return '{%s}' % ', '.join(text(c) for c in self.cells)


class Sym(object):
    """value about which only its origin is known"""
    __slots__ = ('key', 'ty')

    def __init__(self, key, ty=''):
        self.key, self.ty = key, ty

    def __str__(self):
        return self.key


class Comma(object):
    def __init__(self, m):
        self.m, self.k, self.i, self.j, self.h = m, 0, 0, 0, 1


class Svd(object):
    def __init__(self, m):
        self.m = m


class Axis(object):
    def __init__(self, angle, axis):
        self.angle, self.axis = angle, axis


class Dec(object):
    """a decomposition of a matrix, able to solve"""

    def __init__(self, m):
        self.m = m


NULL = Ptr(None)


def short(q):
    return re.sub(r'kwiver::vital::|Eigen::', '', q)


def text(v):
    if isinstance(v, Cell):
        return text(v.v)
    if isinstance(v, Ptr):
        return 'null' if v.t is None else '->' + text(v.t)
    return str(v)


def typename(rec):
    for m in rec['methods']:
        if m.get('ctor'):
            return m['q'].rsplit('::', 1)[0]
    for m in rec['methods'] + rec['fields']:
        return m['q'].rsplit('::', 1)[0]
    return rec['q']


def norm_t(t):
    t = re.sub(r'\b(const|volatile|struct|class|enum)\b ?', '', t).strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def shape(t):
    m = re.match(r'Eigen::Matrix<[\w ]+, (-?\d+), (-?\d+)', t)
    return (int(m.group(1)), int(m.group(2))) if m else None


NUM = re.compile(r'^(unsigned |signed )?(double|float|int|long|short|char|bool|unsigned|long long|long double|unsigned int)( int)?$')
INT = re.compile(r'^(unsigned |signed )?(int|long|short|char|bool|unsigned|long long|unsigned int|unsigned long)( int)?$')
SIZES = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'unsigned char': 1, 'char': 1, 'long': 8, 'unsigned long': 8}


class World(object):
    """what is shared by the analyses of one program"""

    def __init__(self, P):
        self.P = P
        self.rec = {}
        for c in P.classes.values():
            if '/kwiversys/' in c['file']:
                continue
            self.rec.setdefault(typename(c), c)
            self.rec.setdefault(c['q'], c)
        self.by_clsu = {}
        for f in P.funcs.values():
            if f.get('clsu') and f.get('body') is not None:
                self.by_clsu.setdefault(f['clsu'], []).append(f)

    def record(self, t):
        return self.rec.get(norm_t(t))

    def base_recs(self, rec):
        for b in rec['bases']:
            r = self.P.classes.get(b.get('u')) or self.record(b['t'])
            if r:
                yield r

    def all_fields(self, rec):
        out = []
        for b in self.base_recs(rec):
            out += self.all_fields(b)
        return out + list(rec['fields'])

    def special(self, rec, flag):
        """user written special member (cc, ca)"""
        for f in self.by_clsu.get(rec['u'], ()):
            if f.get(flag) and not f.get('dflt'):
                return f
        return None

    def conversions(self, rec, pat):
        return [f for f in self.by_clsu.get(rec['u'], ()) if re.match(r'operator ' + pat, f['n'])]

    def overrider(self, rec, u):
        cands = self.P.overriders(u) | {u}
        todo = [rec]
        while todo:
            c = todo.pop(0)
            for m in c['methods']:
                if m['u'] in cands:
                    return self.P.funcs.get(m['u'])
            todo += list(self.base_recs(c))
        return None

    def derives(self, rec, base):
        return rec['u'] == base['u'] or any(self.derives(b, base) for b in self.base_recs(rec))


class Path(object):
    def __init__(self, kind, val, signs, choices, this, args, line=0, glob=None):
        self.kind, self.val, self.signs, self.choices, self.this, self.args, self.line = kind, val, signs, choices, this, args, line
        self.glob = glob

    def given(self):
        out = []
        names = {frozenset('-'): '< 0', frozenset('0'): '= 0', frozenset('+'): '> 0', frozenset('-0'): '<= 0', frozenset('0+'): '>= 0', frozenset('-+'): '!= 0'}
        for d, (rat, s) in self.signs.items():
            out.append('%s %s' % (d, names.get(frozenset(s), 'in ' + ''.join(sorted(s)))))
        out += ['%s%s' % ('' if b else 'not ', k) for k, b in self.choices.items()]
        return ' and '.join(out) or 'always'


class Num(object):
    """one analysis: run(function, this, args) -> paths"""

    def __init__(self, W, dyn=3, opaque=(), depth=40):
        self.W, self.P = W, W.P
        self.dyn = dyn
        self.opaque = opaque
        self.depth = depth
        self.entered = set()
        self.fresh = 0
        self.on_solve = None
        self.asked = []

    # --- inputs ---------------------------------------------------------
    def sym(self, t, name, exact=True):
        t = norm_t(t)
        s = shape(t)
        if s:
            r, c = s
            n = self.dyn.get(name, 3) if isinstance(self.dyn, dict) else self.dyn
            r, c = (n if r < 0 else r), (n if c < 0 else c)
            if r == 1 or c == 1:
                return Mat.of(r, c, lambda i, j: Rat.var('%s[%d]' % (name, i + j)))
            return Mat.of(r, c, lambda i, j: Rat.var('%s(%d,%d)' % (name, i, j)))
        if t.startswith('Eigen::Quaternion<'):
            w, x, y, z = ('%s.%s' % (name, k) for k in 'wxyz')
            REL.add(w, 2, {(): Fraction(1), ((x, 2),): Fraction(-1), ((y, 2),): Fraction(-1), ((z, 2),): Fraction(-1)})
            return Quat([Cell(Rat.var(v)) for v in (w, x, y, z)])
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            return Mat(int(m.group(2)), 1, [self.cell(m.group(1), '%s[%d]' % (name, i)) for i in range(int(m.group(2)))], True)
        m = re.match(r'std::(?:shared_ptr|unique_ptr)<(.*)>$', t)
        if m:
            return Cell(SymPtr(name, norm_t(m.group(1))))
        if t.endswith('*'):
            return Cell(SymPtr(name, norm_t(t[:-1])))
        m = re.match(r'std::vector<(double|float|int|unsigned int|unsigned char)[,>]', t)
        if m:
            n = self.dyn.get(name, 3) if isinstance(self.dyn, dict) else self.dyn
            return Vec([Cell(Rat.var('%s[%d]' % (name, i))) for i in range(n)])
        rec = self.W.record(t)
        if rec is not None and not rec['union'] and '/vital/' in rec['file']:
            o = Obj(rec, name, exact and not rec.get('abs'))
            for f in self.W.all_fields(rec):
                o.f[f['n']] = self.sym(f['t'], '%s.%s' % (name, f['n']))
            return o
        return self.cell(t, name)

    def cell(self, t, name):
        t = norm_t(t)
        if NUM.match(t) or t in self.P.enums:
            return Cell(Rat.var(name))
        return Cell(Sym(name, t))

    def blank(self, t):
        """object of a type before initialisation"""
        self.fresh += 1
        return self.sym(t, 'uninitialised#%d' % self.fresh)

    # --- running ---------------------------------------------------------
    def run(self, f, make):
        """all paths of f; make() builds (this, args) anew for every path"""
        box = []

        def proc():
            this, args = make()
            box[:] = [this, args]
            return self.invoke(f, this, args, 0)
        return self.paths(proc, box)

    def paths(self, proc, box=None):
        """every way through proc(), which builds its inputs itself"""
        out, todo = [], [[]]
        while todo:
            script = todo.pop()
            self.script, self.pos, self.signs, self.choices, self.glob, self.objs = script, 0, {}, {}, {}, {}
            self.opq = {}
            self.asked = []         # calls of unknown implementations: (name, object, arguments, result)
            self.fresh = 0
            n0 = len(script)
            line = 0
            try:
                kind, val = 'ret', proc()
            except Thrown as e:
                kind, val, line = 'throw', e.t, e.line
            except Stop:
                kind, val = 'stop', None
            for i in range(n0, len(self.script)):
                if self.script[i][1]:
                    todo.append([(s, False) for s, _ in self.script[:i]] + [(not self.script[i][0], False)])
            if kind != 'stop':
                this, args = box if box else (None, None)
                out.append(Path(kind, val, self.signs, self.choices, this, args, line, self.glob))
            if len(out) + len(todo) > MAXPATHS:
                raise Unknown('more than %d paths' % MAXPATHS)
        return out

    def choose(self):
        if self.pos < len(self.script):
            v = self.script[self.pos][0]
        else:
            v = True
            self.script.append((True, True))
        self.pos += 1
        return v

    def decide(self, key):
        if key not in self.choices:
            self.choices[key] = self.choose()
        return self.choices[key]

    def compare(self, op, a, b):
        d = a - b
        c = d.const()
        if c is not None:
            return {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        if op == '!=':
            return not self.compare('==', a, b)
        d, s = d.sign_free()
        want = {'==': '0', '<': '-', '<=': '-0', '>': '+', '>=': '0+'}[op]
        if s < 0:
            want = want.translate({ord('-'): '+', ord('+'): '-'})
        want = set(want)
        k = str(d)
        poss = self.signs[k][1] if k in self.signs else (set('0+n') if k.startswith(('fabs(', 'sqrt(')) and k.count('(') == k.count(')') and ' + ' not in k.split(')')[-1] and k.endswith(')') else set('-0+n'))
        if poss <= want:
            return True
        if not poss & want:
            return False
        r = self.choose()
        self.signs[k] = (d, poss & want if r else poss - want)
        return r

    # --- calls -------------------------------------------------------------
    def invoke(self, f, this, args, depth):
        if depth > self.depth:
            raise Unknown('call depth')
        self.entered.add(f['u'])
        env = {}
        for p, a in zip(f['p'], args or ()):
            env[p['id']] = a
        env['this'] = this
        env['depth'] = depth
        if f.get('ctor'):
            self.construct(f, env)
        if f.get('body') is None:
            if f.get('ctor'):
                return None
            raise Unknown('%s has no body' % f['q'])
        try:
            self.stmt(f['body'], env)
        except Ret as r:
            v = r.v
            rt = f['rt']
            if rt.endswith('*'):
                return self.ptr_of(self.un(v))
            if f.get('rtc') == 'ref' or rt.endswith('&'):
                return v
            return self.result(rt, v)
        return None

    def result(self, t, v):
        """value returned by value as type t"""
        t = norm_t(t)
        if v is None or t == 'void':
            return None
        return self.convert(t, v)

    def construct(self, f, env):
        this = env['this']
        rec = this.rec
        done = set()
        deleg = any(i.get('d') for i in f['inits'])
        for i in f['inits']:
            e = i['e']
            if i.get('d'):
                self.ctor_into(this, e, env)
            elif 'b' in i:
                b = self.W.record(i['b'])
                if b is not None and e.get('k') == 'ctor':
                    self.ctor_into(this, e, env, b)
            elif 'f' in i:
                fr = next((x for x in self.W.all_fields(rec) if x['n'] == i['f']), None)
                if fr is None:
                    raise Unknown('field %s' % i['f'])
                done.add(i['f'])
                self.init_field(this, fr, e, env)
        if not deleg:
            for fr in rec['fields']:
                if fr['n'] not in done and fr['n'] not in this.f:
                    this.f[fr['n']] = self.blank(fr['t'])

    def init_field(self, this, fr, e, env):
        if e is None:
            return
        if e.get('k') == 'ilist' and not e['a'] and '[' in fr['t']:
            this.f[fr['n']] = self.zero(fr['t'])
            return
        v = self.ev(e, env)
        this.f[fr['n']] = self.holder(fr['t'], v)

    def zero(self, t):
        v = self.sym(t, '0')
        return self.fill(v, ZERO)

    def fill(self, v, x):
        if isinstance(v, Mat):
            for c in v.cells:
                c.v = x
        elif isinstance(v, Cell):
            v.v = x if isinstance(v.v, Rat) else NULL if isinstance(v.v, SymPtr) else v.v
        return v

    def holder(self, t, v):
        """storage of type t holding a copy of v"""
        if norm_t(t).endswith('*'):
            return Cell(self.ptr_of(self.un(v)))
        v = self.convert(norm_t(t), v)
        if isinstance(v, (Mat, Quat, Obj, Vec)):
            return v
        return Cell(self.un(v))

    def convert(self, t, v):
        """copy of v as a value of type t"""
        s = shape(t)
        v = self.un(v)
        if s:
            m = self.mat(v)
            m = m.copy()
            if s[0] not in (-1, m.r) and s[0] == m.c and m.r == 1 or s[1] not in (-1, m.c) and s[1] == m.r and m.c == 1 and s[1] > 1:
                m = m.T().copy()
            return m
        if t.startswith('Eigen::Quaternion<'):
            return self.quat(v).copy()
        if isinstance(v, (Mat, Quat)):
            rec = self.W.record(t)
            if rec is not None:
                return self.make(rec, [v])
            if isinstance(v, Mat) and NUM.match(t) and v.r == v.c == 1:
                return v.get(0, 0)
            return v.copy()
        if isinstance(v, Obj):
            return self.copy_obj(v)
        if isinstance(v, Vec):
            return Vec([Cell(self.copyval(c.v)) for c in v.cells])
        rec = self.W.record(t)
        if rec is not None and isinstance(v, Rat) and t not in self.P.enums:
            return self.make(rec, [v])
        return v

    def copyval(self, v):
        v = self.un(v)
        if isinstance(v, (Mat, Quat)):
            return v.copy()
        if isinstance(v, Obj):
            return self.copy_obj(v)
        if isinstance(v, Vec):
            return Vec([Cell(self.copyval(c.v)) for c in v.cells])
        return v

    def make(self, rec, args):
        """object of class rec from already evaluated arguments, by the constructor that takes them"""
        for f in self.W.by_clsu.get(rec['u'], ()):
            if f.get('ctor') and len(f['p']) == len(args) and all(self.accepts(p['t'], a) for p, a in zip(f['p'], args)):
                o = Obj(rec)
                self.invoke(f, o, args, 1)
                return o
        raise Unknown('constructor of %s' % rec['q'])

    def accepts(self, t, a):
        t = norm_t(t)
        a = self.un(a)
        if isinstance(a, Mat):
            return shape(t) in ((a.r, a.c), (-1, a.c))
        if isinstance(a, Quat):
            return t.startswith('Eigen::Quaternion<')
        if isinstance(a, Obj):
            r = self.W.record(t)
            return r is not None and self.W.derives(a.rec, r)
        if isinstance(a, Rat):
            return bool(NUM.match(t))
        return True

    def copy_obj(self, o, into=None):
        cc = self.W.special(o.rec, 'cc')
        n = into or Obj(o.rec, None, True)
        if cc is not None:
            self.invoke(cc, n, [o], 1)
            return n
        n.exact = True
        if not o.exact:
            n.exact, n.name = False, o.name
        for k, v in o.f.items():
            n.f[k] = self.copy_holder(v)
        return n

    def copy_holder(self, v):
        if isinstance(v, Cell):
            return Cell(v.v)
        return self.copyval(v)

    def ctor_into(self, this, e, env, base=None):
        f = self.P.funcs.get(e.get('u'))
        rec = base or this.rec
        args = self.args(e, f, env)
        if f is not None and (f.get('body') is not None) and not f.get('dflt'):
            if base is not None:
                part = Obj(base)
                part.f = this.f
                self.invoke(f, part, args, env['depth'] + 1)
            else:
                self.invoke(f, this, args, env['depth'] + 1)
            return
        if (e.get('copy') or e.get('move')) and args:
            src = self.un(args[0])
            if isinstance(src, Obj):
                for fr in self.W.all_fields(rec):
                    if fr['n'] in src.f:
                        this.f[fr['n']] = self.copy_holder(src.f[fr['n']])
                return
        if not args:
            self.default_fields(this, rec, env)
            return
        raise Unknown('constructor %s' % e.get('q'))

    def default_fields(self, this, rec, env):
        for fr in self.W.all_fields(rec):
            if fr['n'] not in this.f:
                this.f[fr['n']] = self.default(fr['t'], env)

    def default(self, t, env):
        """default-initialised storage"""
        t = norm_t(t)
        r = self.W.record(t)
        if r is not None and '/vital/' in r['file'] and not shape(t):
            o = Obj(r)
            for f in self.W.by_clsu.get(r['u'], ()):
                if f.get('ctor') and (not f['p'] or all(p.get('d') for p in f['p'])) and not f.get('dflt') and not f['p']:
                    self.invoke(f, o, [], env['depth'] + 1)
                    return o
            self.default_fields(o, r, env)
            return o
        if t.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            return Cell(NULL)
        s = shape(t)
        if s and -1 in s:
            return Mat(0, 1, [])
        if t.startswith('std::vector<'):
            return Vec([])
        return self.blank(t)

    def args(self, e, f, env):
        out = []
        for i, a in enumerate(e.get('a', ())):
            v = self.ev(a, env)
            p = f['p'][i] if f is not None and i < len(f['p']) else None
            if p is not None and p.get('m') == 'v':
                v = self.holder(p['t'], v)
            elif p is not None and p['t'].startswith('const ') and p['t'].endswith('&'):
                u = self.un(v)
                if isinstance(u, Rat) and not isinstance(v, Cell):
                    v = Cell(u)
                t = norm_t(p['t'])
                if isinstance(u, Obj) and shape(t) or isinstance(u, Mat) and self.W.record(t) is not None and not shape(t):
                    v = self.convert(t, u)
            out.append(v)
        return out

    # --- statements ----------------------------------------------------------
    def stmt(self, s, env):
        if s is None:
            return
        k = s['s']
        if k == '{':
            for x in s['b']:
                self.stmt(x, env)
        elif k == 'e':
            self.ev(s['e'], env)
        elif k == 'decl':
            for v in s['v']:
                self.declare(v, env)
        elif k == 'return':
            raise Ret(self.ev(s['e'], env) if s.get('e') else None)
        elif k == 'if':
            if s.get('init'):
                self.stmt(s['init'], env)
            if s.get('cvr'):
                self.declare(s['cvr'], env)
            if self.test(s['c'], env):
                self.stmt(s['T'], env)
            elif s.get('F'):
                self.stmt(s['F'], env)
        elif k in ('for', 'while', 'do'):
            if k == 'for' and s.get('i'):
                self.stmt(s['i'], env)
            first = k == 'do'
            for n in range(2000):
                if not first and s.get('c') and not self.test(s['c'], env):
                    return
                first = False
                try:
                    self.stmt(s['b'], env)
                except Brk:
                    return
                except Cont:
                    pass
                if k == 'for' and s.get('n'):
                    self.ev(s['n'], env)
            raise Unknown('loop does not end')
        elif k == 'rfor':
            r = self.un(self.ev(s['r'], env))
            cells = r.cells if isinstance(r, (Vec, Mat)) else None
            if cells is None:
                raise Unknown('range of %s' % type(r).__name__)
            for c in list(cells):
                v = s['v']
                env[v['id']] = c if v.get('ref') else self.holder(v['t'], c)
                try:
                    self.stmt(s['b'], env)
                except Brk:
                    return
                except Cont:
                    pass
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'switch':
            v = self.num(self.ev(s['c'], env))
            body = s['b']['b'] if s['b']['s'] == '{' else [s['b']]
            flat = []
            for x in body:
                labels = []
                while x is not None and x['s'] in ('case', 'default'):
                    labels.append(x)
                    x = x.get('b')
                flat.append((labels, x))
            start = None
            for i, (labels, _) in enumerate(flat):
                for lb in labels:
                    if lb['s'] == 'case' and start is None and self.compare('==', v, Rat.c(int(lb['cv']))):
                        start = i
            if start is None:
                start = next((i for i, (ls, _) in enumerate(flat) if any(x['s'] == 'default' for x in ls)), None)
            if start is not None:
                try:
                    for _, x in flat[start:]:
                        self.stmt(x, env)
                except Brk:
                    pass
        elif k == 'try':
            try:
                self.stmt(s['b'], env)
            except Thrown as t:
                for h in s['h']:
                    ht = norm_t(h['t'])
                    if ht == '...' or self.P.derives(norm_t(t.t), ht):
                        self.stmt(h['b'], env)
                        return
                raise
        elif k in (';', 'label'):
            if s.get('b'):
                self.stmt(s['b'], env)
        else:
            raise Unknown('statement %s' % k)

    def declare(self, v, env):
        if v.get('static'):
            key = v['u']
            if key not in self.glob:
                self.glob[key] = self.holder(v['t'], self.ev(v['i'], env)) if v.get('i') else self.zero(v['t'])
            env[key] = self.glob[key]
            return
        if v.get('ref'):
            env[v['id']] = self.ev(v['i'], env)
            if isinstance(env[v['id']], Rat):
                env[v['id']] = Cell(env[v['id']])
            return
        if v.get('i') is None:
            env[v['id']] = self.blank(v['t'])
            return
        if v['i'].get('k') == 'ctor' and not v['i']['a']:
            x = self.ev(v['i'], env)
            env[v['id']] = x if not isinstance(x, Rat) else Cell(x)
            if isinstance(x, Obj) or isinstance(x, (Mat, Quat, Vec, Cell)):
                return
            env[v['id']] = Cell(x)
            return
        env[v['id']] = self.holder(v['t'], self.ev(v['i'], env))

    # --- expressions ---------------------------------------------------------
    def un(self, v):
        while isinstance(v, Cell):
            v = v.v
        return v

    def num(self, v):
        v = self.un(v)
        if isinstance(v, bool):
            return UNIT if v else ZERO
        if isinstance(v, Rat):
            return v
        if isinstance(v, Mat) and v.r == v.c == 1:
            return v.get(0, 0)
        if isinstance(v, Sym):
            return Rat.var(v.key)
        raise Unknown('number expected, not %s' % type(v).__name__)

    def mat(self, v):
        v = self.un(v)
        if isinstance(v, Mat):
            return v
        if isinstance(v, Comma):
            return v.m
        if isinstance(v, Obj):
            for f in self.W.conversions(v.rec, 'Eigen::Matrix|operator'):
                return self.mat(self.invoke(f, v, [], 1))
            for f in self.W.by_clsu.get(v.rec['u'], ()):
                if f['n'].startswith('operator ') and shape(norm_t(f['rt'])):
                    return self.mat(self.invoke(f, v, [], 1))
        if isinstance(v, Quat):
            return v.matrix()
        if isinstance(v, Axis):
            return self.quat(v).matrix()
        if isinstance(v, Rat):
            return Mat(1, 1, [Cell(v)])
        raise Unknown('matrix expected, not %s' % type(v).__name__)

    def quat(self, v):
        v = self.un(v)
        if isinstance(v, Quat):
            return v
        if isinstance(v, Axis):
            h = v.angle * Rat.c(Fraction(1, 2))
            s, c = fn('sin', h), fn('cos', h)
            return Quat([Cell(c)] + [Cell(s * x.v) for x in v.axis.cells])
        if isinstance(v, Mat):
            if v.r * v.c == 4:
                x, y, z, w = (c.v for c in v.cells)
                return Quat([Cell(w), Cell(x), Cell(y), Cell(z)])
            if (v.r, v.c) == (3, 3):
                m = v.copy()
                key = str(m)
                return Quat([Cell(Rat.var('%s(quaternion of %s)' % (k, key))) for k in 'wxyz'], m)
        raise Unknown('quaternion expected, not %s' % type(v).__name__)

    def test(self, e, env):
        v = self.un(self.ev(e, env))
        return self.truth(v)

    def truth(self, v):
        v = self.un(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, Rat):
            return not self.compare('==', v, ZERO)
        if isinstance(v, Ptr):
            return v.t is not None
        if isinstance(v, ArrP):
            return True
        if isinstance(v, SymPtr):
            return not self.decide('%s is null' % v.name)
        if isinstance(v, Sym):
            return self.decide(v.key)
        raise Unknown('condition %s' % type(v).__name__)

    def deref(self, v):
        v = self.un(v)
        if isinstance(v, Ptr):
            if v.t is None:
                raise Thrown('null pointer dereferenced', 0)
            return v.t
        if isinstance(v, ArrP):
            if not 0 <= v.i < len(v.cells):
                raise Thrown('out of bounds: element %d of %d' % (v.i, len(v.cells)), 0)
            return v.cells[v.i]
        if isinstance(v, SymPtr):
            if v.name not in self.objs:
                self.objs[v.name] = self.sym(v.ty, '*' + v.name, exact=False)
            return self.objs[v.name]
        if isinstance(v, Sym):
            return Cell(Sym('*' + v.key))
        raise Unknown('dereferencing %s' % type(v).__name__)

    def store(self, dst, v, t=None):
        """assign v to the storage dst"""
        v = self.un(v)
        if isinstance(dst, Cell):
            old = dst.v
            if isinstance(old, (Mat, Quat, Obj)) and not isinstance(v, (Ptr, SymPtr)):
                return self.store(old, v)
            if isinstance(v, (Mat, Quat, Obj, Vec)) and not (isinstance(v, Mat) and v.arr):
                v = self.copyval(v)
            dst.v = v
            return dst
        if isinstance(dst, Mat):
            m = self.mat(v)
            vals = [c.v for c in m.cells]
            if dst.r * dst.c != m.r * m.c or (dst.r, dst.c) != (m.r, m.c) and 1 not in (dst.r, dst.c):
                dst.r, dst.c, dst.cells = m.r, m.c, [Cell(x) for x in vals]
            else:
                for c, x in zip(dst.cells, vals):
                    c.v = x
            return dst
        if isinstance(dst, Quat):
            q = self.quat(v)
            vals = q.vals()
            for c, x in zip(dst.cells, vals):
                c.v = x
            dst.of = q.of.copy() if q.of is not None else None
            return dst
        if isinstance(dst, Obj):
            if not isinstance(v, Obj):
                v = self.make(dst.rec, [v])
            if v is dst:
                return dst
            ca = self.W.special(dst.rec, 'ca')
            if ca is not None:
                self.invoke(ca, dst, [v], 1)
                return dst
            for k, x in v.f.items():
                if k in dst.f:
                    if isinstance(dst.f[k], Cell):
                        dst.f[k].v = self.un(x)
                    else:
                        self.store(dst.f[k], x)
                else:
                    dst.f[k] = self.copy_holder(x)
            return dst
        if isinstance(dst, Vec) and isinstance(v, Vec):
            dst.cells = [Cell(self.copyval(c.v)) for c in v.cells]
            return dst
        if isinstance(dst, Comma):
            return dst
        raise Unknown('assignment to %s' % type(dst).__name__)

    def ev(self, e, env):
        if e is None:
            return None
        k = e.get('k')
        if 'cv' in e and k not in ('asg',):
            return Rat.c(int(e['cv']))
        m = getattr(self, 'ev_' + k.replace('?', 'other'), None)
        if m is None:
            raise Unknown('expression %s line %s' % (k, e.get('l')))
        return m(e, env)

    def ev_int(self, e, env):
        return Rat.c(int(e['v']))

    def ev_flt(self, e, env):
        return Rat.c(Fraction(repr(e['v'])) if isinstance(e['v'], float) else Fraction(e['v']))

    def ev_bool(self, e, env):
        return bool(e['v'])

    def ev_null(self, e, env):
        return NULL

    def ev_str(self, e, env):
        return Sym(repr(e['v']), 'string')

    def ev_zero(self, e, env):
        return self.zero(e['t']) if not NUM.match(norm_t(e['t'])) else ZERO

    def ev_typeid(self, e, env):
        return Sym('typeid')

    def ev_sizeof(self, e, env):
        raise Unknown('sizeof')

    def ev_this(self, e, env):
        return Ptr(env['this'])

    def ev_lambda(self, e, env):
        raise Unknown('lambda')

    def ev_ref(self, e, env):
        s = e['s']
        if s in ('l', 'p'):
            if e['id'] not in env:
                raise Unknown('variable %s' % e['n'])
            return env[e['id']]
        if s == 'sl':
            if e['u'] in env:
                return env[e['u']]
            return self.glob[e['u']]
        if s == 'g':
            v = self.P.vars.get(e['u'])
            if e['u'] not in self.glob:
                if v is not None and v.get('const') and v.get('i'):
                    self.glob[e['u']] = self.holder(v['t'], self.ev(v['i'], dict(this=None, depth=0)))
                else:
                    self.glob[e['u']] = self.sym(e['t'], e['q'])
            return self.glob[e['u']]
        return Sym(e.get('q') or e['n'])

    def ev_mem(self, e, env):
        b = self.ev(e['b'], env)
        if e.get('arrow'):
            b = self.deref(b)
        b = self.un(b)
        if isinstance(b, Obj):
            if e['n'] not in b.f:
                fr = next((x for x in self.W.all_fields(b.rec) if x['n'] == e['n']), None)
                if fr is None:
                    raise Unknown('member %s' % e['n'])
                b.f[e['n']] = self.blank(fr['t'])
            return b.f[e['n']]
        if isinstance(b, Sym):
            return self.cell(e['t'], '%s.%s' % (b.key, e['n']))
        raise Unknown('member of %s' % type(b).__name__)

    def ev_cast(self, e, env):
        v = self.ev(e['e'], env)
        t = norm_t(e['t'])
        u = self.un(v)
        if isinstance(u, Rat):
            if INT.match(t) and not INT.match(norm_t(e.get('ft', ''))) and e.get('ft') and norm_t(e['ft']) in ('double', 'float'):
                c = u.const()
                if c is not None:
                    return Rat.c(int(c))
                return Rat.var('trunc(%s)' % u)
            return v if isinstance(v, Cell) and e['t'].endswith('&') else u
        if t == 'void':
            return None
        if e.get('ck') == 'dynamic':
            return self.dyncast(u, t)
        if t.endswith('*') or t.endswith('&') or not isinstance(u, Obj):
            return v
        return v

    def dyncast(self, u, t):
        if isinstance(u, Ptr) and isinstance(u.t, Obj) and u.t.exact:
            r = self.W.record(t.rstrip('* '))
            if r is not None:
                return u if self.W.derives(u.t.rec, r) else NULL
        raise Unknown('dynamic_cast')

    def ev_un(self, e, env):
        op = e['op']
        if op == '!':
            return not self.test(e['e'], env)
        v = self.ev(e['e'], env)
        if op == '*':
            return self.deref(v)
        if op == '&':
            return ArrP(v.cells, 0) if isinstance(v, Mat) and v.arr else Ptr(v)
        if op in ('++', '--'):
            old = self.un(v)
            d = 1 if op == '++' else -1
            if isinstance(old, ArrP):
                v.v = ArrP(old.cells, old.i + d)
            else:
                v.v = self.num(old) + Rat.c(d)
            return old if e.get('post') else v
        if op == '-':
            return -self.num(v)
        if op == '+':
            return self.num(v)
        raise Unknown('operator ' + op)

    def ev_bin(self, e, env):
        op = e['op']
        if op == '&&':
            return self.test(e['L'], env) and self.test(e['R'], env)
        if op == '||':
            return self.test(e['L'], env) or self.test(e['R'], env)
        if op == ',':
            self.ev(e['L'], env)
            return self.ev(e['R'], env)
        a, b = self.un(self.ev(e['L'], env)), self.un(self.ev(e['R'], env))
        return self.arith(op, a, b, e.get('t', ''))

    def ptr_of(self, a):
        return ArrP(a.cells, 0) if isinstance(a, Mat) else a

    def arith(self, op, a, b, t):
        if isinstance(a, Mat) and a.arr:
            a = self.ptr_of(a)
        if isinstance(b, Mat) and b.arr:
            b = self.ptr_of(b)
        if isinstance(a, ArrP) or isinstance(b, ArrP):
            if isinstance(b, ArrP) and not isinstance(a, ArrP):
                a, b = b, a
            if isinstance(b, ArrP):
                if a.cells is not b.cells:
                    if op in ('==', '!='):
                        return op == '!='
                    raise Unknown('pointers into different arrays')
                if op == '-':
                    return Rat.c(a.i - b.i)
                return {'==': a.i == b.i, '!=': a.i != b.i, '<': a.i < b.i, '<=': a.i <= b.i, '>': a.i > b.i, '>=': a.i >= b.i}[op]
            if isinstance(b, Rat):
                return ArrP(a.cells, a.i + (1 if op == '+' else -1) * self.index(b))
            if op in ('==', '!='):
                return op == '!='
        if isinstance(a, (Ptr, SymPtr)) or isinstance(b, (Ptr, SymPtr)):
            if op in ('==', '!='):
                r = self.ptr_eq(a, b)
                return r if op == '==' else not r
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, bool) and isinstance(b, bool) and op in ('==', '!='):
                return (a == b) == (op == '==')
            if isinstance(a, Sym) and isinstance(b, Sym):
                if a.key == b.key and op in ('==', '!='):
                    return op == '=='
                return self.decide('%s %s %s' % (a.key, op, b.key))
            return self.compare(op, self.num(a), self.num(b))
        a, b = self.num(a), self.num(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op in ('/', '%'):
            if INT.match(norm_t(t)):
                x, y = a.const(), b.const()
                if x is not None and y is not None and y != 0:
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return Rat.c(q) if op == '/' else Rat.c(x - q * y)
                return Rat.var('(%s) %s (%s)' % (a, 'div' if op == '/' else 'mod', b))
            return a / b
        x, y = a.const(), b.const()
        if x is not None and y is not None:
            x, y = int(x), int(y)
            if op in ('<<', '>>', '&', '|', '^'):
                return Rat.c({'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]())
        return Rat.var('(%s) %s (%s)' % (a, op, b))

    def ptr_eq(self, a, b):
        if isinstance(a, SymPtr) and isinstance(b, SymPtr):
            return a.name == b.name or self.decide('%s == %s' % tuple(sorted((a.name, b.name))))
        if isinstance(a, SymPtr) or isinstance(b, SymPtr):
            s, o = (a, b) if isinstance(a, SymPtr) else (b, a)
            if isinstance(o, Ptr) and o.t is None or isinstance(o, Rat):
                return self.decide('%s is null' % s.name)
            return o.t is self.objs.get(s.name)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.t is b.t
        return self.decide('pointers equal')

    def ev_asg(self, e, env):
        op = e['op']
        if op == '=':
            r = self.ev(e['R'], env)
            l = self.ev(e['L'], env)
            v = self.un(r)
            if isinstance(v, Mat) and v.arr:
                v = ArrP(v.cells, 0)
            if not isinstance(l, (Cell, Mat, Quat, Obj, Vec)):
                raise Unknown('assignment to a value')
            return self.store(l, v)
        l = self.ev(e['L'], env)
        r = self.ev(e['R'], env)
        v = self.arith(op[:-1], self.un(l), self.un(r), e.get('t', ''))
        l.v = v
        return l

    def ev_cond(self, e, env):
        return self.ev(e['T'] if self.test(e['c'], env) else e['F'], env)

    def ev_sub(self, e, env):
        b = self.un(self.ev(e['b'], env))
        i = self.index(self.ev(e['i'], env))
        if isinstance(b, Mat):
            return b.lin(i)
        if isinstance(b, ArrP):
            return self.deref(ArrP(b.cells, b.i + i))
        raise Unknown('subscript of %s' % type(b).__name__)

    def index(self, v):
        c = self.num(v).const()
        if c is None or c.denominator != 1:
            raise Unknown('index %s' % self.num(v))
        return int(c)

    def ev_throw(self, e, env):
        raise Thrown(norm_t(e.get('t') or '?'), e.get('l'))

    def ev_ilist(self, e, env):
        t = norm_t(e.get('t', ''))
        if len(e['a']) == 1 and '[' not in t:
            return self.ev(e['a'][0], env)
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            v = self.zero(t)
            for c, x in zip(v.cells, e['a']):
                c.v = self.un(self.ev(x, env))
            return v
        if not e['a']:
            return ZERO
        raise Unknown('initialiser list')

    def ev_new(self, e, env):
        if e.get('arr'):
            n = self.index(self.ev(e['n'], env)) if e.get('n') else 0
            self.fresh += 1
            return ArrP([self.cell(e['t'], 'uninitialised#%d[%d]' % (self.fresh, k)) for k in range(n)], 0)
        i = e.get('i')
        v = self.ev(i, env) if i else self.blank(e['t'])
        v = self.un(v)
        if isinstance(v, Rat):
            v = Cell(v)
        return Ptr(v)

    def ev_stmtexpr(self, e, env):
        raise Unknown('statement expression')

    def ev_delete(self, e, env):
        return None

    def ev_other(self, e, env):
        raise Unknown('expression %s' % e.get('c'))

    # --- constructors ---------------------------------------------------------
    def ev_ctor(self, e, env):
        c = norm_t(e['c'])
        s = shape(c)
        if s:
            return self.ctor_mat(s, [self.ev(a, env) for a in e['a']])
        if c.startswith('Eigen::Quaternion<'):
            a = [self.un(self.ev(x, env)) for x in e['a']]
            if not a:
                return self.blank(c)
            if len(a) == 4:
                return Quat([Cell(self.num(x)) for x in a])
            if len(a) == 1:
                return self.quat(a[0]).copy()
            raise Unknown('quaternion constructor')
        if c.startswith('Eigen::AngleAxis<'):
            a = [self.ev(x, env) for x in e['a']]
            if len(a) == 2:
                return Axis(self.num(a[0]), self.mat(a[1]).copy())
            return self.un(a[0])
        if re.match(r'Eigen::(LDLT|LLT|FullPivLU|PartialPivLU|HouseholderQR|ColPivHouseholderQR)<', c):
            a = [self.ev(x, env) for x in e['a']]
            return self.un(a[0]) if a and isinstance(self.un(a[0]), Dec) else Dec(self.mat(a[0]).copy())
        if re.match(r'Eigen::(JacobiSVD|BDCSVD)<', c):
            return Svd(self.mat(self.ev(e['a'][0], env)).copy())
        if c.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            a = [self.ev(x, env) for x in e['a']]
            if not a:
                return NULL
            return self.un(a[0])
        if c.startswith('std::vector<'):
            a = [self.un(self.ev(x, env)) for x in e['a'][:3]]
            a = [x for x, y in zip(a, e['a']) if not str(y.get('c', '')).startswith('std::allocator<')]
            if not a:
                return Vec([])
            if isinstance(a[0], Vec):
                return Vec([Cell(self.copyval(x.v)) for x in a[0].cells])
            a = [self.ptr_of(x) for x in a]
            if len(a) >= 2 and isinstance(a[0], ArrP) and isinstance(a[1], ArrP):
                if a[0].cells is not a[1].cells:
                    raise Unknown('vector from two arrays')
                return Vec([Cell(x.v) for x in a[0].cells[a[0].i:a[1].i]])
            if isinstance(a[0], Rat):
                n = self.index(a[0])
                x = self.num(a[1]) if len(a) > 1 and isinstance(a[1], Rat) else ZERO
                return Vec([Cell(x) for _ in range(n)])
            if isinstance(a[0], Sym):
                return a[0]
            raise Unknown('vector constructor')
        rec = self.P.classes.get(re.sub(r'@F@.*$', '', e.get('u', ''))) or self.W.record(c)
        f = self.P.funcs.get(e.get('u'))
        if rec is not None and '/vital/' in rec['file'] and not rec['lam']:
            if f is None or f.get('body') is None or f.get('dflt'):
                a = [self.ev(x, env) for x in e['a']]
                if (e.get('copy') or e.get('move')) and len(a) == 1:
                    u = self.un(a[0])
                    if isinstance(u, Obj):
                        return u if e.get('el') else self.copy_obj(u)
                    return a[0]
                o = Obj(rec)
                if not a:
                    self.default_fields(o, rec, env)
                    return o
                return Sym('%s(%s)' % (short(c), ', '.join(text(x) for x in a)), c)
            args = self.args(e, f, env)
            if e.get('el') and len(args) == 1 and isinstance(self.un(args[0]), Obj):
                return self.un(args[0])
            o = Obj(rec)
            self.invoke(f, o, args, env['depth'] + 1)
            return o
        a = [self.ev(x, env) for x in e['a']]
        if (e.get('copy') or e.get('move')) and len(a) == 1:
            return a[0]
        return Sym('%s(%s)' % (short(c), ', '.join(text(x) for x in a)), c)

    def ctor_mat(self, s, a):
        r, c = s
        if not a:
            if -1 in s:
                return Mat(0 if r < 0 else r, 0 if c < 0 else c, [])
            return self.blank('Eigen::Matrix<double, %d, %d>' % s)
        u = [self.un(x) for x in a]
        if len(u) == 1:
            if isinstance(u[0], (ArrP,)):
                n = r * c
                cells = u[0].cells[u[0].i:u[0].i + n]
                if len(cells) != n:
                    raise Unknown('matrix from a short array')
                return Mat(r, c, [Cell(cells[j * r + i].v) for i in range(r) for j in range(c)])
            if isinstance(u[0], Rat) and -1 in s:
                n = self.index(u[0])
                return self.blank('Eigen::Matrix<double, %d, %d>' % (n if r < 0 else r, n if c < 0 else c))
            m = self.mat(u[0])
            return self.convert('Eigen::Matrix<double, %d, %d>' % s, m)
        if -1 in s and len(u) == 2:
            return self.blank('Eigen::Matrix<double, %d, %d>' % (self.index(u[0]), self.index(u[1])))
        if len(u) == r * c:
            return Mat(r, c, [Cell(self.num(x)) for x in u])
        raise Unknown('matrix constructor')

    # --- calls ------------------------------------------------------------------
    def ev_call(self, e, env):
        q = e.get('q', '')
        n = q.rsplit('::', 1)[-1] if '<' not in q.rsplit('::', 1)[-1] else re.sub(r'<.*', '', q.split('::')[-1])
        n = callee_name(q)
        f = self.P.funcs.get(e.get('u'))
        if n in ('__assert_fail', 'abort', 'exit', '__assert'):
            raise Stop()
        repo = f is not None and f.get('body') is not None and not f['file'].startswith('/usr')
        if 'o' in e:
            ov = self.ev(e['o'], env)
            if e.get('arrow'):
                ov = self.deref(ov)
            o = self.un(ov)
            if isinstance(o, Obj):
                if e.get('virt'):
                    g = self.W.overrider(o.rec, e['u']) if e.get('u') else None
                    if not o.exact and (g is None or g.get('body') is None or len(self.P.overriders(e['u'])) > 0):
                        return self.opaque_call(o, n, e, env)
                    if g is not None and g.get('body') is not None:
                        return self.invoke(g, o, self.args(e, g, env), env['depth'] + 1)
                    return self.opaque_call(o, n, e, env)
                if e.get('op') == '=' and (f is None or f.get('body') is None or f.get('dflt')):
                    return self.store(o, self.ev(e['a'][0], env))
                if repo:
                    part = o
                    return self.invoke(f, part, self.args(e, f, env), env['depth'] + 1)
                return self.opaque_call(o, n, e, env)
            a = [self.ev(x, env) for x in e.get('a', ())]
            self._last_args = a
            return self.method(ov, o, n, e.get('op'), a, e)
        if repo and e.get('u') not in self.opaque:
            return self.invoke(f, None, self.args(e, f, env), env['depth'] + 1)
        a = [self.ev(x, env) for x in e.get('a', ())]
        return self.free(n, q, e.get('op'), a, e)

    def opaque_call(self, o, n, e, env):
        f = self.P.funcs.get(e.get('u'))
        a = [self.ev(x, env) for x in e.get('a', ())]
        if not e.get('cm') and o.exact:
            raise Unknown('call of %s' % e.get('q'))
        key = '%s.%s(%s)' % (o.name or '?', n, ', '.join(text(x) for x in a))
        if key not in self.opq:
            self.opq[key] = self.sym(e['rt'], key, exact=False) if norm_t(e['rt']) != 'void' else None
            self.asked.append((n, o, [self.un(x) for x in a], self.opq[key]))
        return self.opq[key]

    def method(self, ov, o, n, op, a, e):
        u = [self.un(x) for x in a]
        if isinstance(o, Comma):
            if n in ('operator,',):
                return self.comma(o, u[0])
            if n == 'finished':
                return o.m
        if isinstance(o, Mat):
            return self.m_mat(o, n, u, e)
        if isinstance(o, Quat):
            return self.m_quat(o, n, u, e)
        if isinstance(o, Dec):
            if n == 'solve':
                if self.on_solve is not None:
                    return self.on_solve(self, o.m, self.mat(u[0]))
                return matmul(inverse(o.m), self.mat(u[0]))
        if isinstance(o, Axis):
            if n == 'toRotationMatrix':
                return self.mat(o)
            if n == 'angle':
                return o.angle
            if n == 'axis':
                return o.axis
            return self.m_quat(self.quat(o), n, u, e)
        if isinstance(o, (Ptr, SymPtr, ArrP)):
            if n in ('operator->', 'get', 'operator*'):
                return ov if n != 'operator*' else self.deref(o)
            if n in ('operator bool',):
                return self.truth(o)
            if n in ('operator=', 'reset'):
                self.un_cell(ov).v = u[0] if u else NULL
                return ov
            if n in ('operator[]',):
                return self.deref(ArrP(o.cells, o.i + self.index(u[0])))
        if isinstance(o, Vec):
            return self.m_vec(o, n, u, e)
        if isinstance(o, Svd):
            if n in ('matrixU', 'matrixV'):
                k = n[-1]
                return self.svd_of(o.m)[k == 'V']
            if n == 'singularValues':
                return Mat.of(min(o.m.r, o.m.c), 1, lambda i, j: self.singular_of(o.m)[i])
        if isinstance(o, Sym):
            if n == 'operator=' and isinstance(ov, Cell):
                ov.v = u[0]
                return ov
            if n in ('str', 'c_str', 'operator bool', 'empty', 'size') or e.get('cm'):
                return self.sym(e['rt'], '%s.%s(%s)' % (o.key, n, ', '.join(text(x) for x in u)))
            return ov
        raise Unknown('%s of %s' % (n, type(o).__name__))

    def svd_of(self, m):
        """symbolic factors of a singular value decomposition"""
        return tuple(Mat.of(d, d, lambda i, j: Rat.var('%s%d%d{%s}' % (k, i, j, m))) for k, d in (('U', m.r), ('V', m.c)))

    def singular_of(self, m):
        return [Rat.var('S%d{%s}' % (i, m)) for i in range(min(m.r, m.c))]

    def un_cell(self, v):
        while isinstance(v, Cell) and isinstance(v.v, Cell):
            v = v.v
        return v

    def comma(self, o, v):
        v = self.un(v)
        b = self.mat(v)
        if o.j >= o.m.c:
            o.i, o.j = o.i + o.h, 0
            o.h = b.r
        if o.j == 0:
            o.h = b.r
        for i in range(b.r):
            for j in range(b.c):
                o.m.at(o.i + i, o.j + j).v = b.get(i, j)
        o.j += b.c
        return o

    def m_vec(self, o, n, u, e):
        if n in ('size',):
            return Rat.c(len(o.cells))
        if n == 'empty':
            return not o.cells
        if n in ('operator[]', 'at'):
            i = self.index(u[0])
            if not 0 <= i < len(o.cells):
                raise Thrown('out of bounds: element %d of %d' % (i, len(o.cells)), e.get('l'))
            return o.cells[i]
        if n in ('data', 'begin', 'cbegin'):
            return ArrP(o.cells, 0)
        if n in ('end', 'cend'):
            return ArrP(o.cells, len(o.cells))
        if n in ('push_back', 'emplace_back'):
            o.cells.append(Cell(self.copyval(u[0])))
            return None
        if n == 'clear':
            o.cells = []
            return None
        if n == 'capacity':
            return Rat.c(len(o.cells))
        if n == 'reserve':
            return None
        if n == 'resize':
            k = self.index(u[0])
            o.cells = (o.cells + [Cell(ZERO) for _ in range(k)])[:k]
            return None
        if n in ('front', 'back') and o.cells:
            return o.cells[0 if n == 'front' else -1]
        if n == 'operator=':
            return self.store(o, u[0])
        raise Unknown('vector::%s' % n)

    def m_mat(self, o, n, u, e):
        if n in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
            if len(u) == 2:
                return o.at(self.index(u[0]), self.index(u[1]))
            return o.lin(self.index(u[0]))
        if n in ('x', 'y', 'z', 'w'):
            return o.lin('xyzw'.index(n))
        if n == 'operator*':
            if isinstance(u[0], Rat):
                return o.map(lambda x: x * u[0])
            return matmul(o, self.mat(u[0]))
        if n == 'operator/':
            d = self.num(u[0])
            return o.map(lambda x: x / d)
        if n == 'operator+' and u or n == 'operator-' and u:
            b = self.mat(u[0])
            o.same(b)
            return Mat(o.r, o.c, [Cell(x.v + y.v if n == 'operator+' else x.v - y.v) for x, y in zip(o.cells, b.cells)])
        if n == 'operator-':
            return o.map(lambda x: -x)
        if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            if n in ('operator+=', 'operator-='):
                b = self.mat(u[0])
                o.same(b)
                vals = [x.v + y.v if n == 'operator+=' else x.v - y.v for x, y in zip(o.cells, b.cells)]
            elif isinstance(u[0], Rat):
                vals = [x.v * u[0] if n == 'operator*=' else x.v / u[0] for x in o.cells]
            else:
                vals = [x.v for x in matmul(o, self.mat(u[0])).cells]
            for c, v in zip(o.cells, vals):
                c.v = v
            return o
        if n == 'operator=':
            return self.store(o, u[0])
        if n in ('operator==', 'operator!='):
            b = self.mat(u[0])
            r = (o.r, o.c) == (b.r, b.c) and all([self.compare('==', x.v, y.v) for x, y in zip(o.cells, b.cells)])
            return r if n == 'operator==' else not r
        if n == 'operator<<':
            c = Comma(o)
            return self.comma(c, u[0])
        if n in ('rows', 'cols', 'size'):
            return Rat.c({'rows': o.r, 'cols': o.c, 'size': o.r * o.c}[n])
        if n == 'squaredNorm':
            return sqnorm(o)
        if n == 'norm':
            return fn('sqrt', sqnorm(o))
        if n in ('normalized', 'normalize'):
            d = fn('sqrt', sqnorm(o))
            vals = [x.v / d for x in o.cells]
            if n == 'normalized':
                return Mat(o.r, o.c, [Cell(v) for v in vals])
            for c, v in zip(o.cells, vals):
                c.v = v
            return None
        if n == 'dot':
            b = self.mat(u[0])
            return sum_([x.v * y.v for x, y in zip(o.cells, b.cells)])
        if n == 'cross':
            b = self.mat(u[0])
            p, q = [x.v for x in o.cells], [x.v for x in b.cells]
            return Mat(o.r, o.c, [Cell(p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3]) for i in range(3)])
        if n in ('transpose', 'adjoint'):
            return o.T()
        if n == 'transposeInPlace':
            return self.store(o, o.T().copy())
        if n == 'inverse':
            return inverse(o)
        if n == 'determinant':
            return det(o)
        if n == 'trace':
            return sum_([o.get(i, i) for i in range(o.r)])
        if n == 'sum':
            return sum_([x.v for x in o.cells])
        if n in ('cast', 'eval', 'derived', 'noalias', 'finished', 'array', 'matrix', 'const_cast_derived', 'lazyProduct', 'template'):
            return o
        if n == 'computeInverseWithCheck':
            d = det(o)
            ok = not self.compare('==', d, ZERO)
            self.un_cell(self._lv(e, 1)).v = ok
            self.choices['invertible'] = ok
            if ok:
                self.store(self._lv(e, 0), inverse(o))
            return None
        if n in ('setZero', 'setOnes', 'setIdentity', 'fill', 'setConstant'):
            for i in range(o.r):
                for j in range(o.c):
                    o.at(i, j).v = {'setZero': ZERO, 'setOnes': UNIT, 'setIdentity': UNIT if i == j else ZERO}.get(n) or (self.num(u[0]) if n in ('fill', 'setConstant') else ZERO)
            return o
        if n == 'resize':
            k = [self.index(x) for x in u]
            r, c = (k[0], 1) if len(k) == 1 else k
            if r * c != o.r * o.c:
                m = self.blank('Eigen::Matrix<double, %d, %d>' % (r, c)) if r * c else Mat(r, c, [])
                o.cells = m.cells
            o.r, o.c = r, c
            return None
        if n == 'data':
            return ArrP(o.cells if 1 in (o.r, o.c) or not o.cells else [o.lin(k) for k in range(o.r * o.c)], 0)
        rt = e.get('rt', '')
        if n in ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'row', 'col', 'head', 'tail', 'segment'):
            k = [self.index(x) for x in u]
            m = re.search(r', (-?\d+)(?:, (-?\d+), (?:true|false))?>( &)?$', rt.strip())
            fr, fc = (int(m.group(1)), int(m.group(2))) if m and m.group(2) else (int(m.group(1)), None) if m else (-1, -1)
            if n == 'row':
                return o.sub(k[0], 0, 1, o.c)
            if n == 'col':
                return o.sub(0, k[0], o.r, 1)
            if n in ('head', 'tail', 'segment'):
                cnt = fr if fr > 0 else k[-1]
                st = 0 if n == 'head' else o.r * o.c - cnt if n == 'tail' else k[0]
                return o.sub(st, 0, cnt, 1) if o.c == 1 else o.sub(0, st, 1, cnt)
            if n == 'block':
                return o.sub(k[0], k[1], fr if fr > 0 else k[2], fc if fc and fc > 0 else k[3])
            if 'Corner' in n:
                r, c = (fr if fr > 0 else k[0]), (fc if fc and fc > 0 else k[1])
                return o.sub(0 if 'top' in n else o.r - r, 0 if 'Left' in n else o.c - c, r, c)
            r = fr if fr > 0 and 'Rows' in n else fc if fc and fc > 0 and 'Cols' in n else k[0]
            return {'topRows': lambda: o.sub(0, 0, r, o.c), 'bottomRows': lambda: o.sub(o.r - r, 0, r, o.c),
                    'leftCols': lambda: o.sub(0, 0, o.r, r), 'rightCols': lambda: o.sub(0, o.c - r, o.r, r)}[n]()
        if n == 'asDiagonal':
            return Mat.of(o.r, o.r, lambda i, j: o.cells[i].v if i == j else ZERO)
        if n == 'diagonal':
            return Mat(min(o.r, o.c), 1, [o.at(i, i) for i in range(min(o.r, o.c))])
        if n in ('homogeneous',):
            return Mat(o.r + 1, 1, [Cell(x.v) for x in o.cells] + [Cell(UNIT)])
        if n == 'hnormalized':
            d = o.cells[-1].v
            return Mat(o.r - 1, 1, [Cell(x.v / d) for x in o.cells[:-1]])
        if n in ('ldlt', 'llt', 'lu', 'fullPivLu', 'partialPivLu', 'colPivHouseholderQr', 'householderQr', 'fullPivHouseholderQr'):
            return Dec(o.copy())
        if n in ('cwiseAbs', 'abs'):
            return o.map(lambda x: fn('fabs', x))
        if n in ('cwiseProduct',):
            b = self.mat(u[0])
            return Mat(o.r, o.c, [Cell(x.v * y.v) for x, y in zip(o.cells, b.cells)])
        if n in ('maxCoeff', 'minCoeff', 'hasNaN', 'isZero', 'isIdentity', 'isApprox', 'isMuchSmallerThan'):
            return Rat.var('%s(%s)' % (n, ', '.join([str(o)] + [text(x) for x in u])))
        raise Unknown('matrix method %s' % n)

    def _lv(self, e, i):
        return self._last_args[i]

    def m_quat(self, o, n, u, e):
        if n in ('x', 'y', 'z', 'w'):
            return o.cells['wxyz'.index(n)]
        if n == 'coeffs':
            w, x, y, z = o.cells
            return Mat(4, 1, [x, y, z, w])
        if n == 'vec':
            return Mat(3, 1, o.cells[1:])
        if n in ('inverse', 'conjugate'):
            if o.of is not None:
                return Quat([Cell(o.cells[0].v)] + [Cell(-c.v) for c in o.cells[1:]], o.of.T().copy())
            w, x, y, z = o.vals()
            if n == 'inverse':
                s = w * w + x * x + y * y + z * z
                return Quat([Cell(w / s), Cell(-x / s), Cell(-y / s), Cell(-z / s)])
            return Quat([Cell(w), Cell(-x), Cell(-y), Cell(-z)])
        if n == 'operator*':
            if isinstance(u[0], (Quat, Axis)):
                b = self.quat(u[0])
                if o.of is not None or b.of is not None:
                    return self.quat(matmul(o.matrix(), b.matrix()))
                a1, b1, c1, d1 = o.vals()
                a2, b2, c2, d2 = b.vals()
                return Quat([Cell(a1 * a2 - b1 * b2 - c1 * c2 - d1 * d2), Cell(a1 * b2 + b1 * a2 + c1 * d2 - d1 * c2),
                             Cell(a1 * c2 - b1 * d2 + c1 * a2 + d1 * b2), Cell(a1 * d2 + b1 * c2 - c1 * b2 + d1 * a2)])
            return matmul(o.matrix(), self.mat(u[0]))
        if n == 'operator*=':
            return self.store(o, self.m_quat(o, 'operator*', u, e))
        if n in ('toRotationMatrix', 'matrix'):
            return o.matrix()
        if n == 'setIdentity':
            o.of = None
            for c, v in zip(o.cells, (UNIT, ZERO, ZERO, ZERO)):
                c.v = v
            return o
        if n == 'operator=':
            return self.store(o, u[0])
        if n in ('cast', 'derived'):
            return o
        if n in ('squaredNorm', 'norm'):
            s = sum_([c.v * c.v for c in o.cells])
            return s if n == 'squaredNorm' else fn('sqrt', s)
        if n in ('normalized', 'normalize'):
            d = fn('sqrt', sum_([c.v * c.v for c in o.cells]))
            r = Quat([Cell(c.v / d) for c in o.cells], o.of)
            if n == 'normalized':
                return r
            self.store(o, r)
            return None
        raise Unknown('quaternion method %s' % n)

    def free(self, n, q, op, a, e):
        u = [self.un(x) for x in a]
        self._last_args = a
        st = re.match(r'Eigen::(?:DenseBase|MatrixBase|PlainObjectBase|Quaternion)<(.*)>::(\w+)$', q)
        if n in ('Identity', 'Zero', 'Ones', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Random'):
            if 'Quaternion' in q.split('::')[1]:
                return Quat([Cell(UNIT), Cell(ZERO), Cell(ZERO), Cell(ZERO)])
            s = shape(st.group(1)) if st else None
            if s is None:
                m = re.search(r'Eigen::Matrix<[\w ]+, (-?\d+), (-?\d+)', q + ' ' + e.get('rt', ''))
                s = (int(m.group(1)), int(m.group(2))) if m else None
            if s is None:
                raise Unknown(q)
            r, c = s
            dims = [x for x in u if isinstance(x, Rat)]
            if r < 0:
                r = self.index(dims.pop(0))
            if c < 0:
                c = self.index(dims.pop(0))
            if n.startswith('Unit'):
                k = 'XYZ'.index(n[-1])
                return Mat.of(r, c, lambda i, j: UNIT if i + j == k else ZERO)
            if n == 'Constant':
                return Mat.of(r, c, lambda i, j: dims[-1])
            return Mat.of(r, c, lambda i, j: ZERO if n == 'Zero' or n == 'Identity' and i != j else UNIT)
        if n == 'Map':
            p = self.ptr_of(u[0])
            cnt = self.index(u[1]) if len(u) > 1 else None
            if cnt is None:
                s = shape(st.group(1)) if st else None
                cnt = s[0] * s[1]
            if isinstance(p, ArrP):
                cells = p.cells[p.i:p.i + cnt]
                if len(cells) < cnt:
                    raise Thrown('out of bounds: %d elements mapped of %d' % (cnt, len(cells)), e.get('l'))
                return Mat(cnt, 1, cells)
            raise Unknown('Map')
        if op in ('*', '/', '+', '-') and len(u) == 2:
            x, y = u
            if isinstance(y, (Mat,)) and isinstance(x, Rat) and op == '*':
                return y.map(lambda v: x * v)
            if isinstance(x, Mat):
                return self.m_mat(x, 'operator' + op, [y], e)
            if isinstance(x, (Quat,)):
                return self.m_quat(x, 'operator' + op, [y], e)
            if isinstance(x, Obj) or isinstance(y, Obj):
                raise Unknown(q)
        if op in ('==', '!='):
            x, y = u
            if isinstance(x, Mat):
                return self.m_mat(x, 'operator' + op, [y], e)
            return self.arith(op, x, y, '')
        if n in ('sqrt', 'sin', 'cos', 'tan', 'fabs', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'floor', 'ceil', 'abs', 'round'):
            return fn('fabs' if n == 'abs' else n, *[self.num(x) for x in u])
        if n in ('sqrtf', 'fabsf', 'sinf', 'cosf', 'atan2f'):
            return fn(n[:-1], *[self.num(x) for x in u])
        if n == 'pow':
            x, y = self.num(u[0]), self.num(u[1])
            c = y.const()
            if c is not None and c.denominator == 1 and 0 <= c <= 8:
                r = UNIT
                for _ in range(int(c)):
                    r = r * x
                return r
            if c is not None and abs(c - Fraction(1, 3)) < Fraction(1, 10 ** 7):
                return fn('cbrt', x)
            if c == Fraction(1, 2):
                return fn('sqrt', x)
            return fn('pow', x, y)
        if n in ('isnan', 'isinf', 'isfinite', 'signbit'):
            x = self.num(u[0])
            if x.const() is not None:
                return n == 'isfinite'
            return Sym('%s(%s)' % (n, x))
        if n in ('max', 'min') and len(u) == 2:
            x, y = self.num(u[0]), self.num(u[1])
            return a[0] if self.compare('>=' if n == 'max' else '<=', x, y) else a[1]
        if n in ('memcpy', 'memmove'):
            d, s = self.ptr_of(u[0]), self.ptr_of(u[1])
            by = self.index(u[2])
            t = norm_t(e['a'][0].get('t', '') if e['a'][0].get('k') != 'cast' else e['a'][0]['e'].get('t', ''))
            t = re.sub(r'\[\d+\]$|\*$', '', t).strip()
            sz = SIZES.get(t)
            if sz is None or by % sz or not isinstance(d, ArrP) or not isinstance(s, ArrP):
                raise Unknown('memcpy of %s' % t)
            cnt = by // sz
            if d.i + cnt > len(d.cells) or s.i + cnt > len(s.cells):
                raise Thrown('out of bounds: %d elements copied' % cnt, e.get('l'))
            vals = [s.cells[s.i + k].v for k in range(cnt)]
            for k, v in enumerate(vals):
                d.cells[d.i + k].v = v
            return u[0]
        if n in ('copy',):
            b, en, d = (self.ptr_of(x) for x in u)
            if isinstance(b, ArrP) and isinstance(d, ArrP):
                vals = [b.cells[k].v for k in range(b.i, en.i)]
                if d.i + len(vals) > len(d.cells):
                    raise Thrown('out of bounds: %d elements copied' % len(vals), e.get('l'))
                for k, v in enumerate(vals):
                    d.cells[d.i + k].v = v
                return ArrP(d.cells, d.i + len(vals))
        if n in ('copy_n',):
            b, cnt, d = self.ptr_of(u[0]), self.index(u[1]), self.ptr_of(u[2])
            if isinstance(b, ArrP) and isinstance(d, ArrP):
                if d.i + cnt > len(d.cells) or b.i + cnt > len(b.cells):
                    raise Thrown('out of bounds: %d elements copied' % cnt, e.get('l'))
                vals = [b.cells[b.i + k].v for k in range(cnt)]
                for k, v in enumerate(vals):
                    d.cells[d.i + k].v = v
                return ArrP(d.cells, d.i + cnt)
        if n in ('fill', 'fill_n') and isinstance(self.ptr_of(u[0]), ArrP):
            b = self.ptr_of(u[0])
            en = b.i + self.index(u[1]) if n == 'fill_n' else self.ptr_of(u[1]).i
            if en > len(b.cells):
                raise Thrown('out of bounds: %d elements filled' % (en - b.i), e.get('l'))
            for k in range(b.i, en):
                b.cells[k].v = self.num(u[2])
            return None
        if n in ('begin', 'cbegin') and isinstance(u[0], (Mat, Vec)):
            return ArrP(u[0].cells, 0)
        if n in ('end', 'cend') and isinstance(u[0], (Mat, Vec)):
            return ArrP(u[0].cells, len(u[0].cells))
        if n == 'swap' and len(a) == 2 and isinstance(a[0], Cell) and isinstance(a[1], Cell):
            a[0].v, a[1].v = a[1].v, a[0].v
            return None
        if n in ('move', 'forward', 'static_pointer_cast', 'ref', 'cref'):
            return a[0]
        if n == 'dynamic_pointer_cast':
            m = re.match(r'std::shared_ptr<(.*)>', norm_t(e['rt']))
            return self.dyncast(u[0], m.group(1)) if m else u[0]
        if n in ('make_shared',):
            m = re.match(r'std::shared_ptr<(.*)>', norm_t(e['rt']))
            rec = self.W.record(m.group(1)) if m else None
            if rec is not None:
                if len(u) == 1 and isinstance(u[0], Obj) and u[0].rec is rec:
                    return Ptr(self.copy_obj(u[0]))
                return Ptr(self.make(rec, a))
        if n in ('dummy_precision', 'epsilon', 'max', 'min', 'lowest', 'highest', 'infinity', 'quiet_NaN') and not u:
            return Rat.var(short(q) + '()')
        rt = norm_t(e.get('rt') or e.get('t') or '')
        key = '%s(%s)' % (short(q), ', '.join(text(x) for x in u))
        if rt == 'void':
            return None
        if key not in self.opq:
            self.opq[key] = self.sym(rt, key)
        return self.opq[key]


def callee_name(q):
    """last component of a qualified name, template arguments and all before it removed"""
    depth, i = 0, len(q)
    m = re.search(r'::(operator\s*(?:\(\)|\[\]|->\*?|<<=?|>>=?|<=|>=|<|>|,|[^\w\s:<>]{1,3}|.*))$', q)
    if m:
        return m.group(1)
    out = re.sub(r'<.*>$', '', q)
    depth = 0
    for k in range(len(out) - 1, 0, -1):
        ch = out[k]
        if ch == '>':
            depth += 1
        elif ch == '<':
            depth -= 1
        elif ch == ':' and depth == 0:
            return out[k + 1:]
    return out


def sum_(xs):
    t = ZERO
    for x in xs:
        t = t + x
    return t


def sqnorm(m):
    return sum_([c.v * c.v for c in m.cells])


def matmul(a, b):
    if a.c != b.r:
        raise Unknown('product of %dx%d and %dx%d' % (a.r, a.c, b.r, b.c))
    return Mat.of(a.r, b.c, lambda i, j: sum_([a.get(i, k) * b.get(k, j) for k in range(a.c)]))


def det(m):
    if m.r == 0:
        return UNIT
    if m.r == 1:
        return m.get(0, 0)
    t = ZERO
    for j in range(m.c):
        minor = Mat(m.r - 1, m.c - 1, [m.at(i, k) for i in range(1, m.r) for k in range(m.c) if k != j])
        x = m.get(0, j) * det(minor)
        t = t + x if j % 2 == 0 else t - x
    return t


def inverse(m):
    d = det(m)

    def cof(i, j):
        minor = Mat(m.r - 1, m.c - 1, [m.at(a, b) for a in range(m.r) if a != i for b in range(m.c) if b != j])
        x = det(minor)
        return x if (i + j) % 2 == 0 else -x
    return Mat.of(m.r, m.c, lambda i, j: cof(j, i) / d)


def equal(a, b):
    """same value (structure and normal forms)"""
    while isinstance(a, Cell):
        a = a.v
    while isinstance(b, Cell):
        b = b.v
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, Rat) and isinstance(b, Rat):
        return a.eq(b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return (a.r, a.c) == (b.r, b.c) and all(equal(x, y) for x, y in zip(a.cells, b.cells))
    if isinstance(a, Quat) and isinstance(b, Quat):
        if a.of is not None or b.of is not None:
            return equal(a.matrix(), b.matrix())
        return all(equal(x, y) for x, y in zip(a.cells, b.cells))
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b:
            return True
        if a.name is not None and a.name == b.name and not a.exact:
            return True
        ka = set(k for k in a.f if k != 'm_logger')
        kb = set(k for k in b.f if k != 'm_logger')
        return ka == kb and bool(ka) and all(equal(a.f[k], b.f[k]) for k in ka)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.cells) == len(b.cells) and all(equal(x, y) for x, y in zip(a.cells, b.cells))
    if isinstance(a, SymPtr) and isinstance(b, SymPtr):
        return a.name == b.name
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.t is b.t or a.t is not None and b.t is not None and equal(a.t, b.t)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.key == b.key
    if isinstance(a, ArrP) and isinstance(b, ArrP):
        return len(a.cells) - a.i == len(b.cells) - b.i and all(equal(x, y) for x, y in zip(a.cells[a.i:], b.cells[b.i:]))
    return False


def leaves(v, name=''):
    """(path, value) of every scalar below v"""
    while isinstance(v, Cell):
        v = v.v
    if isinstance(v, (Mat, Vec)):
        for i, c in enumerate(v.cells):
            yield from leaves(c, '%s[%d]' % (name, i))
    elif isinstance(v, Quat):
        if v.of is not None:
            yield from leaves(v.of, name)
        else:
            for k, c in zip('wxyz', v.cells):
                yield from leaves(c, name + '.' + k)
    elif isinstance(v, Obj):
        for k, x in v.f.items():
            yield from leaves(x, (name + '.' if name else '') + k)
    elif isinstance(v, Ptr):
        if v.t is not None:
            yield from leaves(v.t, name + '->')
    else:
        yield name, v
