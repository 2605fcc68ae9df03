"""Abstract interpreter over the resolved AST facts.

Disjunctive (path-sensitive) abstract interpretation: an abstract state maps
abstract locations to symbolic terms (global value numbering), together with a
set of path facts and the ordered list of effects ("events") of the path.
Infeasible combinations of facts are pruned by a small closure over equality,
order and nullness (no solver).  Loops are analysed for one arbitrary iteration
with all locations the body can modify forgotten; in-repository callees are
interpreted in place (depth bounded, never recursively) so that extracting or
inlining a helper leaves the result unchanged.
"""
from facts import walk
import os
import sys
sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ terms
def C(n):
    return ('c', n)


TRUE, FALSE, NULL = ('c', 1), ('c', 0), ('c', 0)
VOID = ('void',)
EMPTYSTR = ('s', '')

STR_CLASS = ('std::basic_string<char>', 'std::string', 'std::__cxx11::basic_string<char>')


def is_str_type(t):
    if not t:
        return False
    t = t.replace('const ', '').replace(' &', '').strip()
    return t.startswith('std::basic_string<') or t.startswith('std::__cxx11::basic_string<') or t == 'std::string'


def base_type(t):
    t = (t or '').strip()
    while True:
        o = t
        for s in ('&', '*'):
            if t.endswith(s):
                t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if t == o:
            return t


def strip_targs(q):
    """drop template arguments from a qualified name"""
    out, d = [], 0
    i = 0
    n = len(q)
    while i < n:
        c = q[i]
        if q.startswith('operator', i) and d == 0:
            # keep operator spelling intact
            j = i + 8
            while j < n and q[j] in '<>=!+-*/%&|^~[]()':
                j += 1
            out.append(q[i:j])
            i = j
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def show(t, d=0):
    """compact printable form of a term or location"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 14:
        return '..'
    s = lambda x: show(x, d + 1)
    if k == 'c':
        return str(t[1])
    if k == 's':
        return '"%s"' % t[1]
    if k == 'par':
        return t[1]
    if k == 'this':
        return 'this'
    if k == 'void':
        return 'void'
    if k == 'ref':
        return t[1]
    if k == 'deref':
        return s(t[1]) if t[1][0] in ('this', 'ref') else '*' + s(t[1])
    if k == 'fld':
        b = t[1]
        if b[0] == 'deref':
            return s(b[1]) + ('.' if b[1][0] in ('this', 'ref') else '->') + t[2]
        return s(b) + '.' + t[2]
    if k == 'at':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'P':
        return s(t[1]) if t[1][0] in ('this', 'ref') else '*' + s(t[1])
    if k == 'F':
        return s(t[1]).lstrip('*') + '.' + t[2]
    if k == 'I':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'G':
        return t[1].split('::')[-1]
    if k == 'glob':
        return t[1].split('::')[-1]
    if k == 'L':
        return 'local%s' % (t[2],)
    if k == 'cat':
        return '+'.join(s(x) for x in t[1:])
    if k == 'op':
        if len(t) == 4:
            return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
        return '%s(%s)' % (t[1], ','.join(s(x) for x in t[2:]))
    if k in ('call', 'pcall'):
        q = strip_targs(t[1]).split('::')[-1]
        o = (s(t[2]) + '.') if t[2] is not None else ''
        r = '%s%s(%s)' % (o, q, ','.join(s(x) for x in t[3]))
        return r
    if k == 'new':
        if not isinstance(t[1], str):
            return 'new(%s)' % ','.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:])
        return 'new %s(%s)' % (strip_targs(t[1]).split('::')[-1], ','.join(s(x) for x in t[2]))
    if k == 'addr':
        return '&' + s(t[1])
    if k == 'ctor':
        return '%s{%s}' % (strip_targs(t[1]).split('::')[-1], ','.join(s(x) for x in t[2]))
    return '%s(%s)' % (k, ','.join(s(x) for x in t[1:]))


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and contains(x, sub):
                return True
    return False


# ------------------------------------------------------------------ state
class St(object):
    __slots__ = ('store', 'facts', 'events')

    def __init__(self, store=None, facts=None, events=()):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.events = events

    def copy(self):
        return St(dict(self.store), dict(self.facts), self.events)


class Out(object):
    """one path outcome of an analysed function"""
    __slots__ = ('kind', 'st', 'val', 'line')

    def __init__(self, kind, st, val, line=0):
        self.kind, self.st, self.val, self.line = kind, st, val, line

    @property
    def facts(self):
        return self.st.facts

    @property
    def events(self):
        return self.st.events

    def flat(self, nested=True):
        """events including those of loop bodies, in order"""
        def go(evs):
            for e in evs:
                if e[0] == 'loop':
                    yield e
                    if nested:
                        for (_f, b, _u) in e[3]:
                            yield from go(b)
                else:
                    yield e
        return list(go(self.st.events))

    def segments(self):
        """the path itself (loop bodies left out) and every loop body on it as a path of its own with the facts it adds"""
        def go(evs, facts, kind, store):
            yield Out(kind, St(store, facts, tuple(e for e in evs)), self.val, self.line)
            for e in evs:
                if e[0] == 'loop':
                    for (f, b, u) in e[3]:
                        g = dict(facts)
                        g.update(dict(f))
                        yield from go(b, g, 'body', dict(u))
        return list(go(self.st.events, self.st.facts, self.kind, self.st.store))

    def describe(self):
        fs = ', '.join(('' if v else '!') + show(k) for k, v in self.facts.items())
        return '[%s] -> %s %s' % (fs, self.kind, show(self.val) if self.val is not None else '')


# names of const-like helpers that return the object they are applied to
def LOGGUARD(q):
    q = strip_targs(q)
    return '::kwiver_logger::is_' in q and q.endswith('_enabled')


IDENT_METHODS = {'c_str', 'data', 'str', 'get', 'lock', 'base_get'}
SMART = ('std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr', 'std::weak_ptr<',
         'std::__shared_ptr_access', 'std::auto_ptr<')
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree', 'std::_List', 'std::__detail::_Node',
         'std::reverse_iterator', 'std::_Bit_', 'std::_Deque', 'std::istreambuf', 'std::istream_iterator')
MAPS = ('std::map<', 'std::unordered_map<', 'std::multimap<')
SETS = ('std::set<', 'std::unordered_set<', 'std::multiset<')
CONTAINERS = MAPS + SETS + ('std::vector<', 'std::list<', 'std::deque<', 'std::basic_string<', 'std::array<',
                            'std::initializer_list<', 'std::__cxx11::basic_string<', 'std::__cxx11::list<')
STREAM = ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_iostream',
          'std::__cxx11::basic_ostringstream', 'std::__cxx11::basic_stringstream', 'std::basic_ofstream')
OSTRING = ('std::basic_ostringstream', 'std::basic_stringstream', 'std::__cxx11::basic_ostringstream',
           'std::__cxx11::basic_stringstream')

READONLY_ALGO = {'find', 'find_if', 'find_if_not', 'count', 'count_if', 'accumulate', 'min_element', 'max_element', 'distance', 'equal',
                 'lower_bound', 'upper_bound', 'binary_search', 'any_of', 'all_of', 'none_of', 'mismatch', 'search', 'adjacent_find',
                 'inner_product', 'is_sorted', 'lexicographical_compare', 'next', 'prev', 'advance', 'for_each', 'includes', 'equal_range',
                 'minmax_element', 'operator==', 'operator!=', 'operator<', 'operator-', 'make_pair', 'tie', 'make_move_iterator', 'getline'}

PURE_FREE = {
    'strlen', 'strcmp', 'strncmp', 'abs', 'fabs', 'sqrt', 'isspace', 'isdigit', 'isalpha', 'tolower', 'toupper',
    'std::isspace', 'std::tolower', 'std::toupper', 'std::min', 'std::max', 'std::abs', 'std::sqrt', 'std::strlen',
    'std::strcmp', 'std::tie', 'std::make_tuple', 'strchr', 'strrchr', 'strstr', 'std::setw', 'std::to_string', 'std::make_pair',
    'std::isnan', 'std::isfinite', 'std::distance', 'std::next', 'std::prev',
    'std::ref', 'std::cref', 'std::get', 'std::tan', 'std::cos', 'std::sin', 'std::acos', 'std::atan2',
    'std::floor', 'std::ceil', 'floor', 'ceil', 'std::pow', 'std::numeric_limits', 'std::mem_fn',
    'std::adl_begin', 'std::lexicographical_compare', 'std::equal', 'std::count', 'std::tolower',
}


def placeholder(x):
    """number of a bind placeholder, or None"""
    if x[0] in ('glob', 'G') and x[1].split('::')[-1].startswith('_') and 'placeholders' in x[1]:
        return int(x[1].split('::')[-1][1:])
    return None


def replace(t, m):
    """t with the terms of m replaced, outermost first"""
    if not isinstance(t, tuple):
        return t
    try:
        if t in m:
            return m[t]
    except TypeError:
        pass
    r = tuple(replace(x, m) for x in t)
    return t if all(a is b for a, b in zip(r, t)) else r


def conjuncts(c):
    while c.get('k') == 'paren' or c.get('k') == 'cast' and c.get('ck') == 'impl' and c.get('t') == 'bool' and c['e'].get('t') == 'bool':
        c = c['e']
    if c.get('k') == 'bin' and c.get('op') == '&&':
        return conjuncts(c['L']) + conjuncts(c['R'])
    return [c]


class Engine(object):
    def __init__(self, prog, opaque=None, inline=None, depth=6, maxstates=3000, ignore=None, throws=None,
                 keep=None, virt_self=None, purefn=None, dtors=None, ctor_inline=None, budget=400000):
        self.prog = prog
        self.opaque = opaque or (lambda q, fn, call: False)
        self.force_inline = inline or (lambda q, fn, call: False)
        self.maxdepth = depth + (3 if os.environ.get('SA_DEEP') else 0)
        self.maxstates = maxstates
        self.ignore = ignore or (lambda q, call: False)
        self.unroll = 0                 # loops over constants are taken one iteration at a time, up to this many
        self.throws = throws            # (q, call) -> list of exception types an opaque call may raise
        self.keep = keep                # event filter
        self.virt_self = virt_self
        self.purefn = purefn or (lambda q, call: False)
        self.dtors = dtors              # (type) -> bool: emit ('dtor', loc, type) at scope end
        self.ctor_inline = ctor_inline or (lambda cls: False)
        self.maxmerge = 16
        self.all_loops = False          # report loops without effect too
        self.skiplog = True             # log statements have no effect on the behaviour analysed
        self.n = 0
        self.frame = 0
        self.stack = []
        self.sinks = []
        self.steps = 0
        self.budget = budget
        self.stats = {'paths': 0, 'inlined': set(), 'opaque': set(), 'unsupported': []}
        self.aliases = {}
        self.frames_this = {}
        self.lambdas = {}
        self.intern = {}
        self.loopnodes = {}
        self.keep_scope = False         # values of the locals of the analysed function stay readable at its end
        self.keep_statics = False       # constants with static storage keep the value found in the initial state
        self.typed = lambda q: False    # template functions whose type arguments show in the terms
        self.changes = lambda q: ()     # fields of the object that an opaque method kept by keepobj changes
        self.keepobj = lambda q: False  # opaque methods that leave the fields the rule looks at alone

    # -------------------------------------------------------------- utils
    def fresh(self, hint):
        self.n += 1
        return ('h', hint, self.n)

    def event(self, st, ev):
        if ev[0] == 'new' and st.store:
            # a new object shares nothing with an earlier one made by the same expression
            self.kill_subs(st, ('P', ev[1]))
            st.store.pop(('P', ev[1]), None)
        if self.keep is None or self.keep(ev):
            st.events = st.events + (ev,)

    # ------------------------------------------------------------- memory
    def resolve(self, st, loc):
        """follow reference aliases"""
        while True:
            r = st.store.get(('ref', loc))
            if r is None:
                return loc
            loc = r

    def read(self, st, loc):
        loc = self.resolve(st, loc)
        v = st.store.get(loc)
        k = loc[0]
        if v is None:
            if k == 'P':
                v = ('deref', loc[1])
            elif k == 'F':
                v = self.fieldof(self.read0(st, loc[1]), loc[2])
            elif k == 'I':
                v = self.at(self.elems(st, loc), loc[2])
            elif k == 'G':
                v = ('glob', loc[1])
            else:
                v = ('uninit', loc)
        # sub-object writes not folded in?
        subs = self.subs(st, loc)
        if subs:
            return ('upd', v, tuple(subs))
        return v

    def read0(self, st, loc):
        """value of the enclosing object ignoring later sub-object writes"""
        loc = self.resolve(st, loc)
        v = st.store.get(loc)
        if v is not None:
            return v
        k = loc[0]
        if k == 'P':
            return ('deref', loc[1])
        if k == 'F':
            return self.fieldof(self.read0(st, loc[1]), loc[2])
        if k == 'I':
            return self.at(self.elems(st, loc), loc[2])
        if k == 'G':
            return ('glob', loc[1])
        return ('uninit', loc)

    def elems(self, st, loc):
        """value of the container of the element loc, with the elements written since that loc may be one of"""
        base, key = loc[1], loc[2]
        v = self.read0(st, base)
        subs = []
        for l, x in st.store.items():
            if l[0] not in ('F', 'I') or l == loc:
                continue
            path = []
            b = l
            while b[0] in ('F', 'I') and b != base:
                path.append(b)
                b = b[1]
            if b == base and path and path[-1][0] == 'I':
                k = path[-1][2]
                if k == key or k[0] in ('c', 's') and key[0] in ('c', 's'):
                    continue
                subs.append((self.relpath(l, base), x))
        if subs:
            subs.sort(key=repr)
            return ('upd', v, tuple(subs))
        return v

    def subs(self, st, loc):
        out = []
        for l, v in st.store.items():
            if l[0] in ('F', 'I') and l != loc:
                b = l[1]
                while True:
                    if b == loc:
                        out.append((self.relpath(l, loc), v))
                        break
                    if b[0] in ('F', 'I'):
                        b = b[1]
                    else:
                        break
        if len(out) > 1:
            out.sort(key=repr)
        return out

    @staticmethod
    def relpath(l, base):
        p = []
        while l != base:
            p.append((l[0], l[2]))
            l = l[1]
        return tuple(reversed(p))

    def fieldof(self, v, name):
        if v[0] == 'pair' and name in ('first', 'second'):
            return v[1] if name == 'first' else v[2]
        if v[0] == 'upd':
            for path, x in v[2]:
                if path == (('F', name),):
                    return x
            return self.fieldof(v[1], name)
        if v[0] == 'at' and name == 'first' and v[1] is not None and v[2][0] not in ('it', 'last', 'c', 'iter'):
            return v[2]
        if v[0] == 'agg':
            for f, x in v[2]:
                if f == name:
                    return x
        return ('fld', v, name)

    def at(self, v, idx):
        if v[0] == 'ilist' and idx[0] == 'c' and 0 <= idx[1] < len(v[1]):
            return v[1][idx[1]]
        if v[0] == 's' and idx[0] == 'c' and isinstance(v[1], str) and 0 <= idx[1] < len(v[1]):
            return C(ord(v[1][idx[1]]))
        if v[0] == 'upd':
            for path, x in v[2]:
                if path == (('I', idx),):
                    return x
        return ('at', v, idx)

    def kill_subs(self, st, loc):
        dead = []
        for l in st.store:
            if l[0] in ('F', 'I'):
                b = l[1]
                while True:
                    if b == loc:
                        dead.append(l)
                        break
                    if b[0] in ('F', 'I'):
                        b = b[1]
                    else:
                        break
        for l in dead:
            del st.store[l]

    def write(self, st, loc, val, line=0, ev=True):
        loc = self.resolve(st, loc)
        self.kill_subs(st, loc)
        st.store[loc] = val
        if ev and not self.is_local(loc):
            self.event(st, ('write', loc, val, line))

    @staticmethod
    def root(loc):
        while loc[0] in ('F', 'I'):
            loc = loc[1]
        return loc

    def is_local(self, loc):
        r = self.root(loc)
        return r[0] in ('L', 'T')

    def deref(self, st, v):
        k = v[0]
        if k == 'addr':
            return v[1]
        if k == 'it' or k == 'find' or k == 'begin' or k == 'last' or k == 'iter':
            if k == 'it':
                return ('I', v[2], ('it', v[1]))
            if k == 'find':
                return ('I', v[1], v[2])
            if k == 'begin':
                return ('I', v[1], C(0))
            if k == 'last':
                return ('I', v[1], ('last',))
        if k == 'op' and v[1] == '-' and v[2][0] == 'end' and v[3] == C(1):
            return ('I', v[2][1], ('last',))
        if k == 'op' and v[1] == '+' and v[2][0] == 'begin':
            return ('I', v[2][1], v[3])
        if k == 'op' and v[1] == '+' and len(v) == 4 and v[2][0] == 'addr' and v[2][1][0] == 'I' and v[2][1][2] == C(0):
            return ('I', v[2][1][1], v[3])
        return ('P', v)

    def index(self, loc, idx):
        if loc[0] == 'P' and False:
            return loc
        return ('I', loc, idx)

    # -------------------------------------------------------------- facts
    def norm(self, t):
        """condition term -> (atom, polarity) or bool"""
        pol = True
        while True:
            if t[0] == 'c':
                return bool(t[1]) == pol
            if t[0] == 's':
                return pol
            if t[0] in ('addr', 'new', 'lambda', 'ref', 'this', 'fn'):
                return pol
            if t[0] == 'op':
                o = t[1]
                if o == '!':
                    pol = not pol
                    t = t[2]
                    continue
                if o == '!=':
                    pol = not pol
                    t = ('op', '==', t[2], t[3])
                    continue
                if o == '>':
                    t = ('op', '<', t[3], t[2])
                    continue
                if o == '>=':
                    pol = not pol
                    t = ('op', '<', t[2], t[3])
                    continue
                if o == '<=':
                    pol = not pol
                    t = ('op', '<', t[3], t[2])
                    continue
                if o == '==':
                    a, b = t[2], t[3]
                    if a == b:
                        return pol
                    if a[0] == 'c' and b[0] == 'c':
                        return (a[1] == b[1]) == pol
                    if a[0] == 's' and b[0] == 's':
                        return (a[1] == b[1]) == pol
                    if a[0] == 'c' and b[0] != 'c':
                        a, b = b, a
                    if b == C(0):
                        # x == 0
                        if a[0] == 'op' and a[1] in ('==', '!=', '<', '>', '<=', '>=', '!'):
                            pol = not pol
                            t = a
                            continue
                        if a[0] == 'size':
                            return (('empty', a[1]), pol)
                        if a[0] in ('in', 'empty', 'nz', 'prefix'):
                            return (a, not pol)
                        if a[0] in ('addr', 'new', 's', 'ref', 'this', 'fn'):
                            return not pol
                        if a[0] == 'bool':
                            pol = not pol
                            t = a[1]
                            continue
                        if a[0] == 'find' or a[0] == 'count':
                            return (('in', a[3] if len(a) > 3 else a[1], a[2]), not pol)
                        if a[0] == 'pcall' and a[1] in ('std::string::find', 'std::string::rfind', 'std::string::compare'):
                            a3 = a[3]
                            if a[1] == 'std::string::rfind' and len(a3) == 2 and a3[1] == C(0):
                                return (('prefix', a[2], a3[0]), pol)
                            if a[1] == 'std::string::find' and (len(a3) == 1 or a3[1] == C(0)):
                                return (('prefix', a[2], a3[0]), pol)
                            if a[1] == 'std::string::compare' and len(a3) == 3 and a3[0] == C(0) and a3[1] in (('size', a3[2]), self.sizeterm(a3[2])):
                                return (('prefix', a[2], a3[2]), pol)
                        return (('nz', a), not pol)
                    if b == C(1) and a[0] == 'op' and a[1] in ('==', '!=', '<', '>', '<=', '>=', '!'):
                        t = a
                        continue
                    if b == C(1) and a[0] in ('in', 'empty', 'nz', 'prefix'):
                        t = a
                        continue
                    if b == C(0) and a[0] in ('in', 'empty', 'nz', 'prefix'):
                        pol = not pol
                        t = a
                        continue
                    # iterator comparisons
                    for x, y in ((a, b), (b, a)):
                        if x[0] == 'find' and y[0] == 'end':
                            return (('in', x[3] if len(x) > 3 else x[1], x[2]), not pol)
                        if x[0] == 'begin' and y[0] == 'end' and x[1] == y[1]:
                            return (('empty', x[1] if len(x) < 3 else x[2]), pol)
                        if x[0] == 's' and x[1] == '' and y[0] != 's':
                            return (('empty', y), pol)
                        # "a begins with p", however it is spelled
                        if x[0] == 'substr' and len(x) == 4 and x[2] == C(0) and (x[3] == ('size', y) or x[3] == self.sizeterm(y)):
                            return (('prefix', x[1], y), pol)
                        if x[0] == 'pcall' and y == C(0) and x[1] in ('std::string::find', 'std::string::rfind', 'std::string::compare'):
                            a3 = x[3]
                            if x[1] == 'std::string::rfind' and len(a3) == 2 and a3[1] == C(0):
                                return (('prefix', x[2], a3[0]), pol)
                            if x[1] == 'std::string::find' and (len(a3) == 1 or a3[1] == C(0)):
                                return (('prefix', x[2], a3[0]), pol)
                            if x[1] == 'std::string::compare' and len(a3) == 3 and a3[0] == C(0) and a3[1] in (('size', a3[2]), self.sizeterm(a3[2])):
                                return (('prefix', x[2], a3[2]), pol)
                    if repr(a) > repr(b):
                        a, b = b, a
                    if a[0] == 'c':
                        a, b = b, a
                    return (('op', '==', a, b), pol)
                if o == '<':
                    a, b = t[2], t[3]
                    if a == b:
                        return not pol
                    if a[0] == 'c' and b[0] == 'c':
                        return (a[1] < b[1]) == pol
                    if a == C(0) and b[0] == 'size':
                        return (('empty', b[1]), not pol)
                    if a == C(0) and b[0] in ('in', 'empty', 'prefix', 'startswith'):
                        t = b
                        continue
                    if b == C(1) and a[0] in ('in', 'empty', 'prefix', 'startswith'):
                        t = a
                        pol = not pol
                        continue
                    if b == C(1) and a[0] == 'size':
                        return (('empty', a[1]), pol)
                    if b == C(0) and a[0] == 'size':
                        return not pol
                    # integer normal form: x < c
                    return (('op', '<', a, b), pol)
                if o == '&&' or o == '||':
                    return (t, pol)
            if t[0] == 'size':
                return (('empty', t[1]), not pol)
            if t[0] in ('find', 'count'):
                return (('in', t[3] if len(t) > 3 else t[1], t[2]), pol)
            if t[0] in ('in', 'empty', 'nz', 'prefix'):
                return (t, pol)
            if t[0] == 'bool':
                t = t[1]
                continue
            return (('nz', t), pol)

    def lookup(self, st, atom):
        """derive the truth of atom from the path facts; None if unknown"""
        f = st.facts
        v = f.get(atom)
        if v is not None:
            return v
        k = atom[0]
        if k == 'op' and atom[1] == '==':
            a, b = atom[2], atom[3]
            if b[0] in ('c', 's'):
                for g, gv in f.items():
                    if gv and g[0] == 'op' and g[1] == '==' and g[2] == a and g[3][0] == b[0] and g[3] != b:
                        return False
                if b[0] == 'c' and b[1] != 0:
                    if f.get(('nz', a)) is False:
                        return False
                    lo, hi = self.interval(st, a)
                    if lo is not None and b[1] < lo or hi is not None and b[1] > hi:
                        return False
                    if lo is not None and lo == hi == b[1]:
                        return True
            if f.get(('op', '<', a, b)) is True or f.get(('op', '<', b, a)) is True:
                return False
            if f.get(('op', '<', a, b)) is False and f.get(('op', '<', b, a)) is False:
                if not self.maybe_unordered(a, b):
                    return True
        elif k == 'op' and atom[1] == '<':
            a, b = atom[2], atom[3]
            if f.get(('op', '<', b, a)) is True:
                return False
            if self.eqfact(st, a, b) is True:
                return False
            if b[0] == 'c' or a[0] == 'c':
                if b[0] == 'c' and a[0] != 'c':
                    lo, hi = self.interval(st, a)
                    if hi is not None and hi < b[1]:
                        return True
                    if lo is not None and lo >= b[1]:
                        return False
                elif a[0] == 'c' and b[0] != 'c':
                    lo, hi = self.interval(st, b)
                    if lo is not None and a[1] < lo:
                        return True
                    if hi is not None and a[1] >= hi:
                        return False
            if f.get(('op', '<', b, a)) is False and self.eqfact(st, a, b) is False and not self.maybe_unordered(a, b):
                return True
            for g, gv in f.items():
                # equals for equals, one step
                if gv is True and g[0] == 'op' and g[1] == '==':
                    for x, y in ((g[2], g[3]), (g[3], g[2])):
                        if x == b and f.get(('op', '<', a, y)) is not None:
                            return f[('op', '<', a, y)]
                        if x == a and f.get(('op', '<', y, b)) is not None:
                            return f[('op', '<', y, b)]
        elif k == 'nz':
            a = atom[1]
            for g, gv in f.items():
                if gv and g[0] == 'op' and g[1] == '==' and g[2] == a and g[3][0] == 'c' and g[3][1] != 0:
                    return True
            lo, hi = self.interval(st, a)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
            if lo == 0 and hi == 0:
                return False
            if a[0] == 'op' and a[1] == '+' and len(a) == 4 and self.is_uns_nz(st, a):
                return True
        elif k == 'empty':
            a = atom[1]
            if a[0] == 's':
                return a[1] == ''
            if a[0] == 'cat':
                for x in a[1:]:
                    if x[0] == 's' and x[1]:
                        return False
            if a[0] == 'ilist':
                return len(a[1]) == 0
            if a[0] == 'mut' and a[1] in ('push_back', 'emplace_back', 'push_front'):
                return False
            lo, hi = self.interval(st, ('size', a))
            if lo is not None and lo > 0:
                return False
            if hi is not None and hi == 0:
                return True
        return None

    def is_uns_nz(self, st, a):
        return False

    @staticmethod
    def maybe_unordered(a, b):
        return False

    def eqfact(self, st, a, b):
        if repr(a) > repr(b):
            a, b = b, a
        if a[0] == 'c':
            a, b = b, a
        return st.facts.get(('op', '==', a, b))

    UNSIGNED = ('size',)

    def interval(self, st, a):
        lo = hi = None
        if a[0] == 'size':
            lo = 0
        if a[0] in ('pcall', 'call') and len(a) > 4 and isinstance(a[4], str) and 'unsigned' in a[4]:
            lo = 0
        if a[0] == 'idx' and a[2][0] == 'c':
            lo = a[2][1]
        f = st.facts
        for g, gv in f.items():
            if g[0] == 'op' and g[1] == '<':
                if g[2] == a and g[3][0] == 'c':
                    if gv:
                        hi = g[3][1] - 1 if hi is None else min(hi, g[3][1] - 1)
                    else:
                        lo = g[3][1] if lo is None else max(lo, g[3][1])
                elif g[3] == a and g[2][0] == 'c':
                    if gv:
                        lo = g[2][1] + 1 if lo is None else max(lo, g[2][1] + 1)
                    else:
                        hi = g[2][1] if hi is None else min(hi, g[2][1])
            elif gv and g[0] == 'op' and g[1] == '==' and g[2] == a and g[3][0] == 'c':
                lo = hi = g[3][1]
            elif g[0] == 'nz' and g[1] == a:
                if gv is False:
                    lo = hi = 0
                elif lo == 0:
                    lo = 1
            elif g[0] == 'empty' and a == ('size', g[1]):
                if gv:
                    lo = hi = 0
                else:
                    lo = 1 if lo is None else max(lo, 1)
        if lo == 0 and f.get(('nz', a)) is True:
            lo = 1
        return lo, hi

    def assume(self, st, term, want):
        """returns st (possibly with a new fact) or None when infeasible; may mutate st"""
        n = self.norm(term)
        if isinstance(n, bool):
            return st if n == want else None
        atom, pol = n
        if atom[0] == 'op' and atom[1] in ('&&', '||'):
            # symbolic conjunction that reached us as a value
            conj = atom[1] == '&&'
            truth = (want == pol)
            if conj and truth:
                for x in atom[2:]:
                    st = self.assume(st, x, True)
                    if st is None:
                        return None
                return st
            if not conj and not truth:
                for x in atom[2:]:
                    st = self.assume(st, x, False)
                    if st is None:
                        return None
                return st
            st.facts[atom] = truth
            return st
        truth = want == pol
        cur = self.lookup(st, atom)
        if cur is not None:
            if cur != truth:
                return None
            if atom in st.facts:
                return st
        st.facts[atom] = truth
        return st

    def truth(self, st, term):
        n = self.norm(term)
        if isinstance(n, bool):
            return n
        atom, pol = n
        v = self.lookup(st, atom)
        return None if v is None else (v == pol)

    # --------------------------------------------------------- operators
    def binop(self, op, a, b, e=None):
        if op == ',':
            return b
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == '+': return C(x + y)
                if op == '-': return C(x - y)
                if op == '*': return C(x * y)
                if op == '/': return C(int(x / y)) if y else ('op', op, a, b)
                if op == '%': return C(x - int(x / y) * y) if y else ('op', op, a, b)
                if op == '<<': return C(x << y)
                if op == '>>': return C(x >> y)
                if op == '&': return C(x & y)
                if op == '|': return C(x | y)
                if op == '^': return C(x ^ y)
                if op == '==': return C(int(x == y))
                if op == '!=': return C(int(x != y))
                if op == '<': return C(int(x < y))
                if op == '>': return C(int(x > y))
                if op == '<=': return C(int(x <= y))
                if op == '>=': return C(int(x >= y))
            except Exception:
                pass
        if op in ('+', '|', '^') and a == C(0):
            return b
        if op in ('+', '-', '|', '^', '<<', '>>') and b == C(0):
            return a
        if op == '*' and a == C(1):
            return b
        if op in ('*', '/') and b == C(1):
            return a
        if op in ('*', '&') and (a == C(0) or b == C(0)):
            return C(0)
        if op == '-' and a == b:
            return C(0)
        if op in ('+', '*', '&', '|', '^', '==', '!='):
            if a[0] == 'c' or (b[0] != 'c' and op not in ('+',) and repr(a) > repr(b)):
                a, b = b, a
            elif op == '+' and b[0] != 'c' and repr(a) > repr(b) and a[0] not in ('begin', 'end', 'it', 'addr') :
                if b[0] not in ('begin', 'end', 'it', 'addr'):
                    a, b = b, a
        if op == '+' and b[0] == 'c' and a[0] == 'op' and a[1] == '+' and len(a) == 4 and a[3][0] == 'c':
            return self.binop('+', a[2], C(a[3][1] + b[1]))
        if op == '+' and b[0] == 'c' and a[0] == 'op' and a[1] == '-' and len(a) == 4 and a[3][0] == 'c':
            d = b[1] - a[3][1]
            return self.binop('+', a[2], C(d)) if d >= 0 else ('op', '-', a[2], C(-d))
        if op == '-' and b[0] == 'c' and a[0] == 'op' and a[1] == '+' and len(a) == 4 and a[3][0] == 'c':
            d = a[3][1] - b[1]
            return self.binop('+', a[2], C(d)) if d >= 0 else ('op', '-', a[2], C(-d))
        if op == '-' and b[0] == 'c' and b[1] < 0:
            return self.binop('+', a, C(-b[1]))
        return ('op', op, a, b)

    @staticmethod
    def cat(a, b):
        pa = list(a[1:]) if a[0] == 'cat' else [a]
        pb = list(b[1:]) if b[0] == 'cat' else [b]
        out = []
        for x in pa + pb:
            if x == EMPTYSTR:
                continue
            if x[0] == 'c' and False:
                continue
            if out and out[-1][0] == 's' and x[0] == 's':
                out[-1] = ('s', out[-1][1] + x[1])
            else:
                out.append(x)
        if not out:
            return EMPTYSTR
        if len(out) == 1:
            return out[0] if out[0][0] in ('s',) or True else ('cat', out[0])
        return ('cat',) + tuple(out)

    # -------------------------------------------------------- expressions
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Limit('step budget exceeded')

    def ev(self, e, st):
        """-> list of (st, value term)"""
        self.tick()
        if e is None:
            return [(st, VOID)]
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            return self.ev_other(e, st)
        if 'cv' in e and k not in ('asg', 'call', 'ctor'):
            return [(st, C(int(e['cv'])))]
        return m(e, st)

    def ev_other(self, e, st):
        if e.get('c') == 'CXXDefaultInitExpr':
            return [(st, self.fresh('dflt'))]
        outs = [(st, [])]
        for a in e.get('a', ()):
            if a is None:
                continue
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.ev(a, s)]
        return [(s, ('expr', e.get('c', '?'), tuple(v))) for s, v in outs]

    def ev_int(self, e, st):
        return [(st, C(int(e['v'])))]

    def ev_flt(self, e, st):
        v = e['v']
        return [(st, C(int(v)) if v == int(v) else ('c', v))] if abs(v) < 1e300 else [(st, ('c', v))]

    def ev_bool(self, e, st):
        return [(st, C(1 if e['v'] else 0))]

    def ev_null(self, e, st):
        return [(st, C(0))]

    def ev_str(self, e, st):
        return [(st, ('s', e['v']))]

    def ev_zero(self, e, st):
        t = e.get('t', '')
        return [(st, self.default_value(t))]

    def default_value(self, t):
        if is_str_type(t):
            return EMPTYSTR
        if any(base_type(t).startswith(x) for x in SMART):
            return C(0)
        if any(base_type(t).startswith(x) for x in CONTAINERS):
            return ('ilist', ())
        if '::' in t:
            return ('ctor', base_type(t), ())
        return C(0)

    def ev_sizeof(self, e, st):
        return [(st, ('sizeof', e.get('t', '')))]

    def ev_typeid(self, e, st):
        return [(st, ('typeid',))]

    def ev_this(self, e, st):
        return [(st, self.this_term())]

    def this_term(self):
        return self.frames_this.get(self.frame, ('this',))

    def ev_ref(self, e, st):
        if e['s'] == 'f':
            return [(st, ('fn', e['q'], e.get('u')))]
        if e['s'] == 'e':
            return [(st, C(int(e['cv'])))]
        if e['s'] == 'g' and e.get('q', '').startswith('std::') and e['n'] in ('npos',):
            return [(st, ('npos',))]
        return [(s, self.read(s, l)) for s, l in self.lv(e, st)]

    def ev_mem(self, e, st):
        return [(s, self.read(s, l)) for s, l in self.lv(e, st)]

    def ev_memf(self, e, st):
        return [(st, ('fn', e['q'], e.get('u')))]

    def ev_sub(self, e, st):
        return [(s, self.read(s, l)) for s, l in self.lv(e, st)]

    def ev_cast(self, e, st):
        ck = e.get('ck')
        if ck == 'dynamic':
            out = []
            for s, v in self.ev(e['e'], st):
                if v == C(0):
                    out.append((s, v))
                else:
                    out.append((s, ('dyncast', base_type(e['t']), v)))
            return out
        ft = e.get('ft', '')
        t = e.get('t', '')
        if t.endswith('&') or t.endswith('&&'):
            return [(s, self.read(s, l)) for s, l in self.lv(e['e'], st)]
        if t == 'void':
            return [(s, VOID) for s, _ in self.ev(e['e'], st)]
        if e.get('ckk') in ('FloatingToIntegral',) or (ck == 'impl' and ft in ('double', 'float') and t not in ('double', 'float')):
            return [(s, ('trunc', t, v) if v[0] != 'c' else C(int(v[1]))) for s, v in self.ev(e['e'], st)]
        if t in ('unsigned char', 'char', 'signed char', 'unsigned short', 'short') and ft not in (t,) and ck != 'impl0':
            return [(s, ('narrow', t, v) if v[0] != 'c' else v) for s, v in self.ev(e['e'], st)]
        return self.ev(e['e'], st)

    def ev_lambda(self, e, st):
        self.n += 1
        key = ('lambda', e.get('u') or '', e['l'], self.frame)
        self.lambdas[key] = (e, self.frame)
        return [(st, key)]

    def ev_stmtexpr(self, e, st):
        raise Unsupported('statement expression')

    def ev_ilist(self, e, st):
        outs = [(st, [])]
        for a in e['a']:
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.ev(a, s)]
        res = []
        for s, vs in outs:
            t = e.get('t', '')
            if len(vs) == 1 and not any(base_type(t).startswith(x) for x in CONTAINERS) and '[' not in t and '::' not in t:
                res.append((s, vs[0]))
            else:
                res.append((s, ('ilist', tuple(vs)) if not e.get('fill') else ('ilistf', tuple(vs))))
        return res

    def ev_throw(self, e, st):
        if 'e' in e:
            for s, v in self.ev(e['e'], st):
                self.event(s, ('throw', e.get('t', '?'), v, e['l']))
                self.raise_(s, base_type(e.get('t', '?')), v, e['l'])
        else:
            self.event(st, ('throw', 'rethrow', None, e['l']))
            t = self.cur_exc[-1] if getattr(self, 'cur_exc', None) else ('?', None)
            self.raise_(st, t[0], t[1], e['l'])
        return []

    def raise_(self, st, ty, v, line):
        self.sinks[-1].append(Out('throw', st, (ty, v), line))

    def ev_un(self, e, st):
        op = e['op']
        if op == '&':
            if e['e']['k'] == 'ref' and e['e']['s'] == 'f':
                return [(st, ('fn', e['e']['q'], e['e'].get('u')))]
            if e['e']['k'] in ('memf',) or (e['e']['k'] == 'ref' and e['e']['s'] in ('fld', '?')):
                return [(st, ('fn', e['e'].get('q'), e['e'].get('u')))]
            out = []
            for s, l in self.lv(e['e'], st):
                l = self.resolve(s, l)
                out.append((s, l[1] if l[0] == 'P' else ('addr', l)))
            return out
        if op == '*':
            return [(s, self.read(s, l)) for s, l in self.lv(e, st)]
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(e['e'], st):
                old = self.read(s, l)
                new = self.step(old, 1 if op == '++' else -1)
                s = s.copy()
                self.write(s, l, new, e['l'])
                out.append((s, old if e.get('post') else new))
            return out
        if op == '!':
            out = []
            for s, v in self.ev(e['e'], st):
                if v[0] == 'c':
                    out.append((s, C(0 if v[1] else 1)))
                elif v[0] == 'op' and v[1] == '!':
                    out.append((s, v[2] if v[2][0] in ('op',) else ('op', '!=', v[2], C(0))))
                else:
                    out.append((s, ('op', '!', v)))
            return out
        if op == '-':
            return [(s, C(-v[1]) if v[0] == 'c' else ('op', 'neg', v)) for s, v in self.ev(e['e'], st)]
        if op == '+':
            return self.ev(e['e'], st)
        return [(s, ('op', op, v)) for s, v in self.ev(e['e'], st)]

    def sizeterm(self, y):
        return self.sizeof_('size', y)

    def step(self, v, d):
        if d == 1:
            return self.binop('+', v, C(1))
        return self.binop('-', v, C(1)) if v[0] != 'c' else C(v[1] - 1)

    def ev_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, b in self.cond(e, st):
                out.append((s, C(1 if b else 0)))
            return out
        out = []
        for s, a in self.ev(e['L'], st):
            for s2, b in self.ev(e['R'], s):
                out.append((s2, self.cmpop(op, a, b, e)))
        return out

    def cmpop(self, op, a, b, e=None):
        return self.binop(op, a, b, e)

    def ev_asg(self, e, st):
        return [(s, self.read(s, l)) for s, l in self.assign(e, st)]

    def assign(self, e, st):
        op = e['op']
        out = []
        for s, v in self.ev(e['R'], st):
            for s2, l in self.lv(e['L'], s):
                s2 = s2.copy()
                if op != '=':
                    v2 = self.binop(op[:-1], self.read(s2, l), v, e)
                else:
                    v2 = v
                self.write(s2, l, v2, e['l'])
                out.append((s2, l))
        return out

    def ev_cond(self, e, st):
        out = []
        for s, b in self.cond(e['c'], st):
            out.extend(self.ev(e['T'] if b else e['F'], s))
        return out

    def cond(self, e, st):
        """evaluate as a branch condition -> list of (st, bool)"""
        self.tick()
        k = e['k']
        if 'cv' in e and k not in ('asg', 'call'):
            return [(st, int(e['cv']) != 0)]
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st)]
        if k == 'bin' and e['op'] == '&&':
            out = []
            for s, b in self.cond(e['L'], st):
                if not b:
                    out.append((s, False))
                else:
                    out.extend(self.cond(e['R'], s))
            return out
        if k == 'bin' and e['op'] == '||':
            out = []
            for s, b in self.cond(e['L'], st):
                if b:
                    out.append((s, True))
                else:
                    out.extend(self.cond(e['R'], s))
            return out
        if k == 'cast' and e.get('ck') in ('static', 'c', 'func', 'impl') and e.get('t') == 'bool':
            return self.cond(e['e'], st)
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, _ in self.ev(e['L'], st):
                out.extend(self.cond(e['R'], s))
            return out
        out = []
        for s, v in self.ev(e, st):
            out.extend(self.fork(s, v))
        return out

    def fork(self, s, v):
        out = []
        t = self.truth(s, v)
        if t is True or t is False:
            s2 = s
            n = self.norm(v)
            if not isinstance(n, bool) and n[0] not in s.facts:
                s2 = s.copy()
                s2 = self.assume(s2, v, t) or s2
            return [(s2, t)]
        for want in (True, False):
            s2 = self.assume(s.copy(), v, want)
            if s2 is not None:
                out.append((s2, want))
        return out

    def ev_new(self, e, st):
        outs = []
        if e.get('n') is not None:
            for s, n in self.ev(e['n'], st):
                s = s.copy()
                t = ('new', e['t'] + '[]', (n,), self.newid())
                self.event(s, ('new', t, e['l']))
                outs.append((s, t))
            return outs
        i = e.get('i')
        if i is not None and i['k'] == 'ctor':
            for s, vals, locs in self.args(i, st):
                s = s.copy()
                if i.get('copy') and len(vals) == 1:
                    vals = [vals[0]]
                t = ('new', e['t'], tuple(vals), self.newid())
                self.event(s, ('new', t, e['l']))
                fn = self.prog.fn(i.get('u'))
                if fn and self.ctor_inline(e['t']):
                    for s2, _ in self.run_ctor(fn, i, s, vals, locs, ('P', t)):
                        outs.append((s2, t))
                else:
                    outs.append((s, t))
            return outs
        s = st.copy()
        if i is not None:
            for s, v in self.ev(i, s):
                t = ('new', e['t'], (v,), self.newid())
                self.event(s, ('new', t, e['l']))
                outs.append((s, t))
            return outs
        t = ('new', e['t'], (), self.newid())
        self.event(s, ('new', t, e['l']))
        return [(s, t)]

    def newid(self):
        self.n += 1
        return self.n

    def ev_delete(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            s = s.copy()
            self.event(s, ('delete', v, bool(e.get('arr')), e['l']))
            out.append((s, VOID))
        return out

    # ----------------------------------------------------------- lvalues
    def lv(self, e, st):
        """-> list of (st, location)"""
        self.tick()
        if e is None:
            return [(st, ('T', self.newid()))]
        k = e['k']
        if k == 'ref':
            s = e['s']
            if s in ('p', 'l'):
                fr = self.frame
                loc = ('L', fr, e['id'])
                # captured variable of an enclosing lambda frame
                cap = self.aliases.get((fr, e['id']))
                if cap is not None:
                    loc = cap
                return [(st, self.resolve(st, loc))]
            if s in ('g', 'sl'):
                return [(st, self.resolve(st, ('G', e['q'])))]
            return [(st, ('T', self.newid()))]
        if k == 'mem':
            out = []
            if e.get('arrow'):
                for s, v in self.ev(e['b'], st):
                    base = self.deref(s, v)
                    out.append((s, self.fieldloc(s, base, e['n'])))
            else:
                for s, l in self.lv(e['b'], st):
                    out.append((s, self.fieldloc(s, l, e['n'])))
            return out
        if k == 'this':
            s2 = st.copy()
            t = ('T', self.newid())
            s2.store[t] = self.this_term()
            return [(s2, t)]
        if k == 'un' and e['op'] == '*':
            return [(s, self.resolve(s, self.deref(s, v))) for s, v in self.ev(e['e'], st)]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            out = []
            for s, l in self.lv(e['e'], st):
                s = s.copy()
                self.write(s, l, self.step(self.read(s, l), 1 if e['op'] == '++' else -1), e['l'])
                out.append((s, l))
            return out
        if k == 'sub':
            out = []
            bt = e['b'].get('t', '')
            isarr = '[' in bt
            if isarr:
                for s, l in self.lv(e['b'], st):
                    for s2, i in self.ev(e['i'], s):
                        out.append((s2, ('I', self.resolve(s2, l), self.idxnorm(s2, i, l))))
            else:
                for s, p in self.ev(e['b'], st):
                    for s2, i in self.ev(e['i'], s):
                        if p[0] == 'addr' and p[1][0] == 'I' and p[1][2] == C(0):
                            out.append((s2, ('I', p[1][1], i)))
                        elif i == C(0):
                            out.append((s2, self.deref(s2, p)))
                        elif p[0] == 'it':
                            out.append((s2, self.deref(s2, self.binop('+', p, i))))
                        else:
                            out.append((s2, ('I', ('P', p), self.idxnorm(s2, i, ('P', p)))))
            return out
        if k == 'asg':
            return self.assign(e, st)
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st):
                out.extend(self.lv(e['T'] if b else e['F'], s))
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, _ in self.ev(e['L'], st):
                out.extend(self.lv(e['R'], s))
            return out
        if k == 'cast' and e.get('ck') != 'dynamic':
            t, ft = e.get('t', ''), e.get('ft', '')
            if e.get('ck') == 'impl':
                return self.rv2loc(e, st)
            if t.endswith('&') or t.endswith('&&') or base_type(t) == base_type(ft):
                return self.lv(e['e'], st)
            return self.rv2loc(e, st)
        if k == 'call':
            return self.call(e, st, want_lv=True)
        return self.rv2loc(e, st)

    def idxnorm(self, st, i, l):
        if i[0] == 'idx' and i[2] == C(0):
            return ('it', i[1])
        return i

    def fieldloc(self, st, base, name):
        base = self.resolve(st, base)
        return self.resolve(st, ('F', base, name))

    def rv2loc(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            s = s.copy()
            t = ('T', self.newid())
            s.store[t] = v
            out.append((s, t))
        return out

    # ------------------------------------------------------------- calls
    def args(self, e, st):
        """evaluate arguments -> list of (st, [value], [loc or None])"""
        outs = [(st, [], [])]
        pm = e.get('pm', '')
        for i, a in enumerate(e.get('a', ())):
            mode = pm[i] if i < len(pm) else 'v'
            nxt = []
            for s, vs, ls in outs:
                if mode in 'crm':
                    for s2, l in self.lv(a, s):
                        nxt.append((s2, vs + [self.read(s2, l)], ls + [self.resolve(s2, l)]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v], ls + [None]))
            outs = nxt
        return outs

    def ev_ctor(self, e, st):
        c = e.get('c', '')
        bt = base_type(c)
        out = []
        if self.ignore(e.get('q', ''), e):
            return [(st, ('ign',))]
        for s, vals, locs in self.args(e, st):
            fn = self.prog.fn(e.get('u'))
            if (e.get('copy') or e.get('move')) and len(vals) >= 1:
                if fn is None or fn.get('dflt') or not self.ctor_inline(bt):
                    out.append((s, vals[0]))
                    continue
            if fn is not None and not fn.get('dflt') and self.ctor_inline(bt):
                s = s.copy()
                t = ('T', self.newid())
                for s2, _ in self.run_ctor(fn, e, s, vals, locs, t):
                    out.append((s2, self.read(s2, t)))
                continue
            if is_str_type(c):
                if not vals:
                    out.append((s, EMPTYSTR))
                elif len(vals) == 1 or (len(vals) == 2 and vals[1][0] == 'ctor'):
                    if vals[0][0] in ('begin',):
                        out.append((s, ('ctor', 'string', tuple(vals))))
                    else:
                        out.append((s, vals[0]))
                else:
                    # (allocator arguments are defaulted)
                    vv = [v for v in vals if not (v[0] == 'ctor' and 'allocator' in v[1])]
                    out.append((s, vv[0] if len(vv) == 1 else ('ctor', 'string', tuple(vv))))
                continue
            if any(bt.startswith(x) for x in SMART):
                if not vals or vals[0] == C(0):
                    out.append((s, C(0)))
                else:
                    out.append((s, vals[0]))
                continue
            if bt.startswith('std::pair<') and len(vals) == 2:
                out.append((s, ('pair', vals[0], vals[1])))
                continue
            if bt.startswith('std::pair<') and len(vals) == 1:
                out.append((s, vals[0]))
                continue
            if any(bt.startswith(x) for x in OSTRING):
                out.append((s, vals[0] if vals and not vals[0][0] in ('c', 'op') else EMPTYSTR))
                continue
            if any(bt.startswith(x) for x in ITERS) and len(vals) == 1:
                out.append((s, vals[0]))
                continue
            if any(bt.startswith(x) for x in CONTAINERS):
                vv = [v for v in vals if not (v[0] == 'ctor' and ('allocator' in v[1] or 'less' in v[1]))]
                if not vv:
                    out.append((s, ('ilist', ())))
                elif len(vv) == 1 and vv[0][0] == 'ilist':
                    out.append((s, vv[0]))
                elif len(vv) == 2 and vv[0][0] == 'begin' and vv[1][0] == 'end' and vv[0][1] == vv[1][1]:
                    out.append((s, self.read(s, vv[0][1])))
                else:
                    out.append((s, ('ctor', bt, tuple(vv))))
                continue
            if bt.startswith('std::function<') and len(vals) == 1:
                out.append((s, vals[0]))
                continue
            s = s.copy()
            v = ('ctor', bt, tuple(vals))
            self.event(s, ('ctor', bt, tuple(vals), e['l'], e.get('u')))
            if self.throws:
                for ty in self.throws(e.get('q', ''), e) or ():
                    s3 = s.copy()
                    self.raise_(s3, ty, None, e['l'])
            out.append((s, v))
        return out

    def run_ctor(self, fn, e, st, vals, locs, target):
        """interpret a constructor with *this bound to target -> list of (st, VOID)"""
        if len(self.stack) >= self.maxdepth or fn['u'] in self.stack:
            return [(st, VOID)]
        this = target[1] if target[0] == 'P' else ('addr', target)
        return self.enter(fn, st, vals, locs, this, e)

    def enter(self, fn, st, vals, locs, this, e, want_lv=False):
        saved = self.frame
        self.newid()
        self.frame = fr = self.n
        self.frames_this[fr] = this
        self.stack.append(fn['u'])
        st = st.copy()
        ps = fn['p']
        for i, p in enumerate(ps):
            loc = ('L', fr, p['id'])
            if i < len(vals):
                if p['m'] in 'crm' and locs[i] is not None:
                    st.store[('ref', loc)] = locs[i]
                else:
                    st.store[loc] = vals[i]
            else:
                st.store[loc] = self.fresh('arg')
        res = []
        try:
            outs = self.body(fn, st, want_lv)
        finally:
            self.frame = saved
            self.stack.pop()
        for o in outs:
            s = o.st
            self.drop_frame(s, fr)
            res.append((s, o.val))
        # exceptions: drop frame as well
        for o in self.sinks[-1]:
            pass
        if want_lv == 'x':
            pass
        return self.dedupe_vals(res)

    def drop_frame(self, st, fr):
        dead = [l for l in st.store if self._in_frame(l, fr)]
        for l in dead:
            del st.store[l]

    @staticmethod
    def _in_frame(l, fr):
        if l[0] == 'ref':
            l = l[1]
        while l[0] in ('F', 'I'):
            l = l[1]
        return l[0] == 'L' and l[1] == fr

    def dedupe_vals(self, res):
        if len(res) < 2:
            return res
        seen = {}
        out = []
        for s, v in res:
            key = (v, frozenset(s.store.items()), s.events)
            seen.setdefault(key, []).append(s)
        for (v, _a, _b), ss in seen.items():
            for s in self.merge_states(ss):
                out.append((s, v))
        return out

    def merge_states(self, ss):
        """join states that differ only in path facts; exact (absorption and resolution) while there are few of them"""
        if len(ss) == 1:
            return ss
        done = []
        for s in ss:
            f = dict(s.facts)
            i = 0
            while i < len(done):
                g = done[i][1]
                if len(g) <= len(f) and all(f.get(k) == v for k, v in g.items()):
                    f = None
                    break
                if len(f) < len(g) and all(g.get(k) == v for k, v in f.items()):
                    done.pop(i)
                    i = 0
                    continue
                if len(f) == len(g):
                    d = [k for k, v in f.items() if g.get(k) != v]
                    if len(d) == 1 and d[0] in g:
                        del f[d[0]]
                        done.pop(i)
                        i = 0
                        continue
                i += 1
            if f is not None:
                done.append((s, f))
        if len(done) > self.maxmerge:
            c = done[0][0].copy()
            for s, f in done[1:]:
                self.merge_facts(c, s)
            return [c]
        return [St(dict(s.store), f, s.events) for s, f in done]

    @staticmethod
    def merge_facts(a, b):
        bf = b.facts
        for k in [k for k, v in a.facts.items() if bf.get(k) != v]:
            del a.facts[k]

    def body(self, fn, st, want_lv=False):
        """interpret ctor inits + body in the current frame; returns list of Out(kind 'ret')"""
        if fn.get('ctor'):
            sts = [st]
            cls = self.prog.cls(fn.get('clsu'))
            thisl = self.deref(st, self.this_term())
            for ini in fn.get('inits', ()):
                nxt = []
                for s in sts:
                    if 'f' in ini:
                        tgt = ('F', thisl, ini['f'])
                        if ini.get('e') is None:
                            nxt.append(s)
                            continue
                        if not ini.get('w') and ini['e']['k'] == 'ctor' and not ini['e'].get('a') and not fn.get('dflt'):
                            for s2, v in self.ev(ini['e'], s):
                                s2 = s2.copy()
                                self.kill_subs(s2, tgt)
                                s2.store[tgt] = v
                                self.event(s2, ('init', tgt, v, ini['l'], False))
                                nxt.append(s2)
                            continue
                        for s2, v in self.ev(ini['e'], s):
                            s2 = s2.copy()
                            self.kill_subs(s2, tgt)
                            s2.store[tgt] = v
                            self.event(s2, ('init', tgt, v, ini['l'], bool(ini.get('w'))))
                            nxt.append(s2)
                    elif 'd' in ini or 'b' in ini:
                        e2 = ini['e']
                        if e2 is not None and e2['k'] == 'ctor':
                            f2 = self.prog.fn(e2.get('u'))
                            for s2, vals, locs in self.args(e2, s):
                                s2 = s2.copy()
                                if f2 is not None and f2.get('body') is not None and len(self.stack) < self.maxdepth + 3 \
                                        and f2['u'] not in self.stack:
                                    for s3, _ in self.enter(f2, s2, vals, locs, self.this_term(), e2):
                                        nxt.append(s3)
                                else:
                                    self.event(s2, ('basector', e2.get('c', ''), tuple(vals), ini['l']))
                                    nxt.append(s2)
                        else:
                            nxt.append(s)
                    else:
                        nxt.append(s)
                sts = nxt
            outs = []
            for s in sts:
                outs.extend(self.exec(fn['body'], s, want_lv) if fn.get('body') else [Out('next', s, None)])
        else:
            outs = self.exec(fn['body'], st, want_lv)
        res = []
        for o in outs:
            if o.kind == 'next':
                res.append(Out('ret', o.st, VOID, fn.get('le', 0)))
            elif o.kind == 'ret':
                res.append(o)
            else:
                raise Unsupported('stray %s' % o.kind)
        return res

    def ev_call(self, e, st):
        if 'cv' in e:
            pass
        return self.call(e, st, want_lv=False)

    def wrap(self, res, want_lv):
        """[(st, val)] -> as asked"""
        if not want_lv:
            return res
        out = []
        for s, v in res:
            s = s.copy()
            t = ('T', self.newid())
            s.store[t] = v
            out.append((s, t))
        return out

    def asval(self, res_loc, want_lv):
        if want_lv:
            return [(s, self.resolve(s, l)) for s, l in res_loc]
        return [(s, self.read(s, l)) for s, l in res_loc]

    def call(self, e, st, want_lv):
        q = e.get('q')
        if q is None:
            return self.call_ptr(e, st, want_lv)
        if self.ignore(q, e):
            return self.wrap([(st, ('ign',))], want_lv)
        if self.skiplog and self.is_log(q):
            return self.wrap([(st, VOID)], want_lv)
        r = self.hook_pre(e, st, want_lv)
        if r is not None:
            return r
        r = self.builtin(e, st, want_lv)
        if r is not None:
            return r
        if e.get('op') == '=' and e.get('o') is not None and len(e['a']) == 1 and (self.prog.fn(e.get('u')) is None or self.prog.fn(e['u']).get('dflt')) \
                and e.get('u') not in self.prog.decls and self.memberwise(e):
            return self.assign_obj(e, st, want_lv)      # implicit member-wise assignment
        out = []
        for s, o, oloc in self.obj(e, st):
            for s2, vals, locs in self.args(e, s):
                if oloc is not None:
                    oloc2 = self.resolve(s2, oloc)
                    o2 = self.read(s2, oloc2) if o is None else o
                else:
                    oloc2, o2 = None, o
                out.extend(self.apply(e, s2, o2, oloc2, vals, locs, want_lv))
        return out

    @staticmethod
    def is_log(q):
        i = q.find('::kwiver_logger::log_')
        return i >= 0 and '<' not in q[:i] and '::' not in q[i + 21:]

    def memberwise(self, e):
        return not self.opaque(e['q'], None, e)

    def obj(self, e, st):
        """object expression -> list of (st, None|value, loc|None); loc of the object"""
        if 'o' not in e or e['o'] is None:
            return [(st, None, None)]
        o = e['o']
        if e.get('arrow') or o.get('t', '').strip().endswith('*') or o['k'] == 'this':
            return [(s, None, self.resolve(s, self.deref(s, v))) for s, v in self.ev(o, st)]
        return [(s, None, l) for s, l in self.lv(o, st)]

    def target(self, e, oloc):
        """resolve a call to a function with a body, honouring dynamic dispatch"""
        u = e.get('u')
        fn = self.prog.fn(u)
        if e.get('virt'):
            ovs = self.prog.overriders(u)
            if oloc is not None and oloc == ('P', ('this',)) and self.virt_self:
                r = self.virt_self(e, u)
                if r is not None:
                    return r
            if oloc is not None and oloc[0] == 'P' and oloc[1][0] == 'new':
                r = self.prog.final_overrider(oloc[1][1], u)
                if r is not None:
                    return r
            if ovs:
                return None
        return fn

    def apply(self, e, st, o, oloc, vals, locs, want_lv):
        q = e['q']
        if oloc is not None and q.startswith(('std::atomic<', 'std::__atomic_base<')):
            # an atomic object behaves as its value
            n = q.split('::')[-1]
            if e.get('conv') or n == 'load':
                v = self.read(st, oloc)
                while v[0] == 'ctor' and v[1].startswith('std::atomic') and len(v[2]) == 1:
                    v = v[2][0]
                return self.wrap([(st, v)], want_lv)
            if (n == 'store' or e.get('op') == '=') and vals:
                s = st.copy()
                self.write(s, oloc, vals[0], e['l'])
                return self.wrap([(s, vals[0])], want_lv)
        if oloc is not None and q.split('::')[-1] == 'swap' and q.startswith(('std::unique_ptr<', 'std::shared_ptr<')) and len(locs) == 1 and locs[0] is not None:
            s = st.copy()
            other = self.resolve(s, locs[0])
            a, b = self.read(s, oloc), self.read(s, other)
            self.write(s, oloc, b, e['l'])
            self.write(s, other, a, e['l'])
            return self.wrap([(s, VOID)], want_lv)
        fn = self.target(e, oloc)
        inl = fn is not None and fn.get('body') is not None and not fn.get('dflt')
        if inl and self.opaque(q, fn, e):
            inl = False
        if inl and (len(self.stack) >= self.maxdepth or fn['u'] in self.stack):
            if not self.force_inline(q, fn, e) or fn['u'] in self.stack:
                inl = False
        if inl:
            self.stats['inlined'].add(q)
            this = None
            if oloc is not None:
                this = oloc[1] if oloc[0] == 'P' else ('addr', oloc)
            retref = fn['rt'].strip().endswith('&')
            res = self.enter(fn, st, vals, locs, this, e, want_lv=retref)
            if retref:
                return self.asval(res, want_lv)
            return self.wrap(res, want_lv)
        if fn is not None and fn.get('dflt') and (fn.get('ca') or fn.get('ma')):
            s = st.copy()
            self.write(s, oloc, vals[0], e['l'])
            return self.asval([(s, oloc)], want_lv)
        return self.opaque_call(e, st, o, oloc, vals, locs, want_lv)

    def is_pure(self, e):
        q = e['q']
        pm = e.get('pm', '')
        if self.purefn(q, e):
            return True
        if e.get('virt') and not e.get('cm'):
            return False
        if 'p' in pm or 'r' in pm:
            return False
        if e.get('cm'):
            return True
        if strip_targs(q) in PURE_FREE or e.get('op') in ('==', '!=', '<', '>', '<=', '>=', '-', '*', '/', '!', '+', '%', '[]', '()') and 'o' not in e:
            return True
        if e.get('ext') and q.startswith('Eigen::') and e.get('st'):
            return True
        return False

    def whole_range(self, q, st, vals):
        """searches over all elements of a container"""
        if not q.startswith('std::') or len(vals) != 3:
            return None
        n = strip_targs(q)
        if n not in ('std::find', 'std::count', 'std::equal'):
            return None
        a, b, x = vals
        if a[0] != 'begin' or b[0] != 'end' or a[1] != b[1]:
            return None
        if n == 'std::find':
            return ('find', a[1], x, self.read0v(st, a[1]))
        if n == 'std::count':
            return ('in', self.read0v(st, a[1]), x)
        if x[0] == 'begin':
            # the range of the other has to be long enough
            return ('startswith', self.read0v(st, x[1]), self.read0v(st, a[1]))
        return None

    def opaque_call(self, e, st, o, oloc, vals, locs, want_lv):
        q = e['q']
        if e.get('ta') and self.typed(q):
            q += '<%s>' % ', '.join(e['ta'])
        self.stats['opaque'].add(q)
        pm = e.get('pm', '')
        r = self.whole_range(q, st, vals)
        if r is not None:
            return self.wrap([(st, r)], want_lv)
        if oloc is not None:
            o = oloc[1] if oloc[0] == 'P' else (o if e.get('cm') else ('addr', oloc))
            oval = self.read(st, oloc) if not self.keepobj(q) else ('self',)
        else:
            oval = None
        if self.is_pure(e):
            s = st
            okey = oval if oval is not None else None
            v = ('pcall', q, okey, tuple(vals), e.get('rt', ''))
            if self.keep_pure(q, e):
                s = st.copy()
                self.event(s, ('call', q, oval, tuple(vals), v, e['l'], oloc))
            if e.get('rt', '').strip().endswith('&') and want_lv:
                s = s.copy()
                t = ('T', 'p%d' % self.intern.setdefault(v, len(self.intern)))
                s.store[t] = v
                r = [(s, t)]
                self.maythrow(e, s)
                return r
            self.maythrow(e, s)
            return self.wrap([(s, v)], want_lv)
        s = st.copy()
        v = ('call', q, oval, tuple(vals), e.get('rt', ''), self.newid())
        self.event(s, ('call', q, oval, tuple(vals), v, e['l'], oloc))
        self.maythrow(e, s)
        if e.get('nr'):
            self.raise_(s, 'noreturn:' + q, None, e['l'])
            return []
        # effects on reachable locations
        for i, m in enumerate(pm):
            if i >= len(vals):
                break
            if m in 'rm' and locs[i] is not None:
                self.havoc_loc(s, locs[i], q, i, v)
            elif m == 'p' and vals[i][0] == 'addr':
                self.havoc_loc(s, vals[i][1], q, i, v)
            elif m == 'p' and vals[i][0] not in ('c', 's'):
                self.havoc_loc(s, self.deref(s, vals[i]), q, i, v)
        if oloc is None and q.startswith('std::'):
            n_ = strip_targs(q).split('::')[-1]
            if n_ not in READONLY_ALGO:
                seen_ = set()
                for i, x in enumerate(vals):
                    if n_ in ('transform', 'copy', 'copy_if', 'move', 'copy_n', 'partial_sum', 'set_difference', 'set_union',
                              'set_intersection', 'merge', 'unique_copy', 'reverse_copy') and i < 2:
                        continue
                    if x and x[0] in ('begin', 'end', 'it', 'find', 'last', 'rend') and len(x) > 1:
                        l = x[-1] if x[0] == 'it' and len(x) > 2 else x[1]
                        if not (isinstance(l, tuple) and l and l[0] in ('L', 'P', 'F', 'I', 'G', 'T')) or l in seen_:
                            continue
                        seen_.add(l)
                        old = self.read(s, l)
                        self.event(s, ('cmut', l, n_, tuple(vals), e['l'], old))
                        self.kill_subs(s, l)
                        s.store[l] = ('mut', n_, old, tuple(vals))
        for i in range(len(pm), len(vals)):     # variadic
            if vals[i][0] == 'addr' and e.get('var'):
                self.havoc_loc(s, vals[i][1], q, i, v)
        if oloc is not None and not e.get('cm') and not e.get('st') and not self.keepobj(q):
            self.havoc_loc(s, oloc, q, -1, v)
        elif oloc is not None:
            for n in self.changes(q):
                self.havoc_loc(s, ('F', oloc, n), q, n, v)
        if e.get('rt', '').strip().endswith('&') and base_type(e['rt']).startswith(('std::basic_istream', 'std::basic_ostream', 'std::basic_iostream')) \
                and strip_targs(q).split('::')[-1] in ('operator>>', 'operator<<', 'get', 'getline', 'read', 'ignore', 'putback', 'unget', 'write', 'put',
                                                       'flush', 'seekg', 'seekp'):
            sl = oloc if oloc is not None else (locs[0] if locs else None)
            if sl is not None:
                return [(s, sl)] if want_lv else [(s, self.read(s, sl))]
        if e.get('rt', '').strip().endswith('&') and want_lv:
            t = ('P', ('addrof', v))
            return [(s, t)]
        if e.get('rt') == 'void':
            v = VOID
        return self.wrap([(s, v)], want_lv)

    def keep_pure(self, q, e):
        return not e.get('ext')

    def maythrow(self, e, s):
        if self.throws:
            for ty in self.throws(e.get('q', ''), e) or ():
                self.raise_(s.copy(), ty, None, e['l'])

    def havoc_loc(self, st, loc, q, i, v):
        loc = self.resolve(st, loc)
        if loc[0] == 'P' and loc[1][0] in ('fn', 'c', 's'):
            return
        self.kill_subs(st, loc)
        st.store[loc] = ('out', strip_targs(q).split('::')[-1], i, v)

    def call_ptr(self, e, st, want_lv):
        out = []
        for s, f in self.ev(e['fp'], st):
            if f[0] == 'deref':
                f = f[1]        # (*function)(...)
            for s2, vals, locs in self.args(e, s):
                r = self.apply_fn(f, e, s2, vals, want_lv, locs)
                if r is not None:
                    out.extend(r)
                    continue
                s3 = s2.copy()
                v = ('call', 'fp', f, tuple(vals), '', self.newid())
                self.event(s3, ('call', 'fp', f, tuple(vals), v, e['l'], None))
                for x in vals:
                    if x[0] == 'addr':
                        self.havoc_loc(s3, x[1], 'fp', 0, v)
                out.extend(self.wrap([(s3, v)], want_lv))
        return out

    def apply_fn(self, f, e, st, vals, want_lv, locs=None):
        locs = locs if locs is not None else [None] * len(vals)
        if f[0] == 'lambda' and f in self.lambdas:
            lam, fr0 = self.lambdas[f]
            if len(self.stack) >= self.maxdepth:
                return None
            return self.wrap(self.enter_lambda(lam, fr0, st, vals, locs), want_lv)
        if f[0] == 'fn':
            fn = self.prog.fn(f[2])
            if fn is not None and fn.get('body') is not None and not fn.get('cls') and not self.opaque(f[1], fn, e) \
                    and len(self.stack) < self.maxdepth and fn['u'] not in self.stack:
                self.stats['inlined'].add(f[1])
                return self.wrap(self.enter(fn, st, vals, locs, None, e), want_lv)
            if fn is not None or f[1]:
                s3 = st.copy()
                v = ('call', f[1], None, tuple(vals), '', self.newid())
                self.event(s3, ('call', f[1], None, tuple(vals), v, e['l'], None))
                return self.wrap([(s3, v)], want_lv)
        return None

    def blank(self):
        return St()

    def enter_lambda(self, lam, fr0, st, vals, locs):
        saved = self.frame
        self.newid()
        self.frame = fr = self.n
        self.frames_this[fr] = self.frames_this.get(fr0, ('this',))
        self.stack.append(('lambda', lam['l']))
        st = st.copy()
        for c in lam.get('caps', ()):
            if 'id' in c:
                outer = self.aliases.get((fr0, c['id'])) or ('L', fr0, c['id'])
                self.aliases[(fr, c['id'])] = outer
        for i, p in enumerate(lam['p']):
            loc = ('L', fr, p['id'])
            if i < len(vals):
                if p['m'] in 'crm' and locs[i] is not None:
                    st.store[('ref', loc)] = locs[i]
                else:
                    st.store[loc] = vals[i]
        try:
            outs = self.exec(lam['body'], st)
        finally:
            self.frame = saved
            self.stack.pop()
        res = []
        for o in outs:
            self.drop_frame(o.st, fr)
            res.append((o.st, o.val if o.kind == 'ret' else VOID))
        return self.dedupe_vals(res)

    def hook_pre(self, e, st, want_lv):
        return None

    # ---------------------------------------------- library models
    def builtin(self, e, st, want_lv):
        q = e['q']
        sq = strip_targs(q)
        name = sq.split('::')[-1]
        op = e.get('op')
        o = e.get('o')
        ext = e.get('ext')
        if not ext:
            return None
        ot = ''
        if o is not None:
            ot = base_type(o.get('t') or o.get('c') or '')
        cls = sq.rsplit('::', 1)[0] if '::' in sq else ''
        a = e.get('a', [])

        if sq in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', '__builtin_addressof'):
            if name in ('addressof', '__builtin_addressof'):
                return self.wrap([(s, l[1] if l[0] == 'P' else ('addr', l)) for s, l in self.lv(a[0], st)], want_lv)
            return self.asval(self.lv(a[0], st), want_lv)
        if sq in ('std::static_pointer_cast', 'std::const_pointer_cast'):
            return self.wrap(self.ev(a[0], st), want_lv)
        if sq == 'std::dynamic_pointer_cast':
            return self.wrap([(s, v if v == C(0) else ('dyncast', base_type(e.get('rt', '')), v)) for s, v in self.ev(a[0], st)], want_lv)
        if sq in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
            outs = []
            for s, vals, locs in self.args(e, st):
                s = s.copy()
                t = q[q.find('<') + 1:] if '<' in q else ''
                rt = e.get('rt', '')
                inner = rt[rt.find('<') + 1:rt.rfind('>')] if '<' in rt else t
                v = ('new', inner, tuple(vals), self.newid())
                self.event(s, ('new', v, e['l']))
                outs.append((s, v))
            return self.wrap(outs, want_lv)
        if sq == 'std::make_pair':
            return self.wrap([(s, ('pair', v[0], v[1])) for s, v, _ in self.args(e, st)], want_lv)
        if sq in ('std::begin', 'std::end'):
            return self.wrap([(s, (name, self.resolve(s, l))) for s, l in self.lv(a[0], st)], want_lv)
        if sq in ('std::endl', 'std::flush'):
            return self.lv(a[0], st) if want_lv else self.ev(a[0], st)
        if sq == 'std::getline' and len(a) >= 2:
            outs = []
            for s, l in self.lv(a[0], st):
                for s2, l2 in self.lv(a[1], s):
                    s2 = s2.copy()
                    v = ('call', q, self.read(s2, l), (), '', self.newid())
                    self.event(s2, ('call', q, self.read(s2, l), (), v, e['l'], l))
                    self.write(s2, l2, ('out', 'getline', 1, v), e['l'])
                    self.write(s2, l, ('out', 'getline', 0, v), e['l'], ev=False)
                    outs.append((s2, l))
            return self.asval(outs, want_lv)
        if sq in ('std::for_each',) and len(a) == 3:
            return self.algo_foreach(e, st, want_lv)
        if sq == 'std::bind':
            return self.wrap([(s, ('bind', v[0], tuple(v[1:]))) for s, v, _ in self.fargs(e, st)], want_lv)
        if sq in ('std::not1', 'std::not_fn') and len(a) == 1:
            return self.wrap([(s, ('notf', v[0])) for s, v, _ in self.fargs(e, st)], want_lv)
        if sq in ('std::ptr_fun', 'std::ref', 'std::cref', 'std::mem_fn') and len(a) == 1:
            return self.wrap([(s, v[0]) for s, v, _ in self.fargs(e, st)], want_lv)
        if sq in ('std::back_inserter', 'std::inserter') and a:
            return self.wrap([(s, ('backins', self.resolve(s, l))) for s, l in self.lv(a[0], st)], want_lv)
        if sq in ('std::transform', 'std::copy', 'std::copy_if', 'std::remove_copy_if') and len(a) in (3, 4):
            r = self.algo_into(sq, e, st, want_lv)
            if r is not None:
                return r

        # smart pointers -------------------------------------------------
        if any(cls.startswith(x.rstrip('<')) for x in SMART) or (o is not None and any(ot.startswith(x) for x in SMART)):
            if op == '->' or op == '*' or name in ('operator->', 'operator*'):
                outs = []
                for s, l in self.lv(o, st):
                    v = self.read(s, l)
                    if name == 'operator*' or op == '*':
                        outs.append((s, self.resolve(s, self.deref(s, v))))
                    else:
                        s2 = s.copy()
                        t = ('T', self.newid())
                        s2.store[t] = v
                        outs.append((s2, t))
                return self.asval(outs, want_lv)
            if name in ('get', 'operator bool', 'lock', 'release') and o is not None:
                outs = []
                for s, l in self.obj_lv(e, st):
                    v = self.read(s, l)
                    if name == 'release':
                        s = s.copy()
                        self.write(s, l, C(0), e['l'])
                    outs.append((s, v))
                return self.wrap(outs, want_lv)
            if name == 'operator=' or op == '=':
                return self.assign_obj(e, st, want_lv)
            if name == 'reset':
                outs = []
                for s, l in self.obj_lv(e, st):
                    for s2, vals, _ in self.args(e, s):
                        s2 = s2.copy()
                        # the default argument is a null pointer, whatever its type is called
                        self.write(s2, l, C(0) if not vals or vals[0][0] == 'ctor' and not vals[0][2] else vals[0], e['l'])
                        outs.append((s2, VOID))
                return self.wrap(outs, want_lv)
            if name in ('use_count', 'unique'):
                return self.wrap([(s, ('pcall', q, self.read(s, l), (), '')) for s, l in self.obj_lv(e, st)], want_lv)
            if name == 'swap':
                pass
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and (cls == 'std' or o is not None) \
                and q.startswith(('std::', '__gnu_cxx::')):
            opn = name[len('operator'):]
            xs = ([o] if o is not None else []) + list(a)
            if len(xs) == 2:
                outs = []
                for s, v1 in self.ev(xs[0], st):
                    for s2, v2 in self.ev(xs[1], s):
                        outs.append((s2, self.binop(opn, v1, v2)))
                return self.wrap(outs, want_lv)
        if cls.startswith('__gnu_cxx') and op in ('==', '!=', '<') and len(a) == 2:
            outs = []
            for s, v1 in self.ev(a[0], st):
                for s2, v2 in self.ev(a[1], s):
                    outs.append((s2, self.binop(op, v1, v2)))
            return self.wrap(outs, want_lv)

        # iterators ------------------------------------------------------
        isit = any(cls.startswith(x) for x in ITERS) and 'iterator' in cls.lower() or (o is not None and any(ot.startswith(x) for x in ITERS) and 'iterator' in ot.lower())
        if isit and op in ('*', '->'):
            outs = []
            for s, v in self.ev(o, st):
                l = self.resolve(s, self.deref(s, v))
                if op == '->':
                    s = s.copy()
                    t = ('T', self.newid())
                    s.store[t] = l[1] if l[0] == 'P' else ('addr', l)
                    outs.append((s, t))
                else:
                    outs.append((s, l))
            return self.asval(outs, want_lv)
        if isit and op in ('++', '--') :
            outs = []
            for s, l in self.lv(o, st):
                old = self.read(s, l)
                s = s.copy()
                new = self.step(old, 1 if op == '++' else -1)
                self.write(s, l, new, e['l'])
                outs.append((s, old if a else new))
            return self.wrap(outs, want_lv)
        if op in ('+', '-') and (isit or 'iterator' in cls or (cls in ('__gnu_cxx', 'std') and 'iterator' in e.get('rt', '').lower())):
            xs = ([o] if o is not None else []) + list(a)
            if len(xs) == 2:
                outs = []
                for s, v1 in self.ev(xs[0], st):
                    for s2, v2 in self.ev(xs[1], s):
                        outs.append((s2, self.iterarith(op, v1, v2)))
                return self.wrap(outs, want_lv)
        if isit and op in ('=',):
            return self.assign_obj(e, st, want_lv)
        if isit and op in ('+=', '-='):
            outs = []
            for s, l in self.lv(o, st):
                for s2, v in self.ev(a[0], s):
                    s2 = s2.copy()
                    nv = self.iterarith(op[0], self.read(s2, l), v)
                    self.write(s2, l, nv, e['l'])
                    outs.append((s2, l))
            return self.asval(outs, want_lv)

        # strings ---------------------------------------------------------
        rt = e.get('rt', '')
        if op == '+' and is_str_type(rt):
            xs = ([o] if o is not None else []) + list(a)
            outs = []
            for s, v1 in self.ev(xs[0], st):
                for s2, v2 in self.ev(xs[1], s):
                    outs.append((s2, self.cat(self.strv(v1, xs[0]), self.strv(v2, xs[1]))))
            return self.wrap(outs, want_lv)
        isstr = o is not None and is_str_type(ot)
        if isstr and (op == '+=' or name in ('append', 'push_back')) and len(a) == 1:
            outs = []
            for s, l in self.obj_lv(e, st):
                for s2, v in self.ev(a[0], s):
                    s2 = s2.copy()
                    self.write(s2, l, self.cat(self.read(s2, l), self.strv(v, a[0])), e['l'])
                    outs.append((s2, l))
            return self.asval(outs, want_lv)
        if isstr and name in ('c_str', 'data'):
            return self.wrap([(s, self.read(s, l)) for s, l in self.obj_lv(e, st)], want_lv)
        if o is not None and name == 'str' and any(ot.startswith(x) for x in OSTRING):
            if not a:
                return self.wrap([(s, self.read(s, l)) for s, l in self.obj_lv(e, st)], want_lv)
            return self.assign_obj(e, st, want_lv)
        if op == '<<' and (rt.startswith('std::basic_ostream') or 'ostream' in rt):
            return self.stream_out(e, st, want_lv)
        if o is not None and name == 'write' and 'stream' in ot and len(a) == 2:
            outs = []
            for s, l in self.obj_lv(e, st):
                for s2, vals, _ in self.args(e, s):
                    s2 = s2.copy()
                    self.event(s2, ('emit', self.resolve(s2, l), ('bytes', vals[0], vals[1]), e['l']))
                    outs.append((s2, l))
            return self.asval(outs, want_lv)

        # containers -----------------------------------------------------
        isc = o is not None and any(ot.startswith(x) for x in CONTAINERS)
        ismap = o is not None and any(ot.startswith(x) for x in MAPS)
        isset = o is not None and any(ot.startswith(x) for x in SETS)
        if isc:
            if op == '=' or (name == 'assign' and len(a) == 1):
                return self.assign_obj(e, st, want_lv)
            if name in ('size', 'length', 'empty') and not a:
                k = 'empty' if name == 'empty' else 'size'
                outs = []
                for s, l in self.obj_lv(e, st):
                    v = self.read(s, l)
                    outs.append((s, self.sizeof_(k, v)))
                return self.wrap(outs, want_lv)
            if name in ('begin', 'cbegin', 'rbegin', 'end', 'cend', 'rend') and not a:
                outs = []
                for s, l in self.obj_lv(e, st):
                    l = self.resolve(s, l)
                    k = {'cbegin': 'begin', 'cend': 'end'}.get(name, name)
                    if k == 'rbegin':
                        outs.append((s, ('last', l)))
                    else:
                        outs.append((s, (k, l)))
                return self.wrap(outs, want_lv)
            if op == '[]' or (name == 'at' and len(a) == 1):
                outs = []
                for s, l in self.lv_of_obj(e, st):
                    for s2, i in self.ev(a[0], s):
                        l2 = self.resolve(s2, l)
                        if ismap and name == 'at':
                            v = self.read(s2, l2)
                            for s3, b in self.fork(s2, ('in', v, i)):
                                if b:
                                    outs.append((s3, self.resolve(s3, ('F', ('I', l2, i), 'second'))))
                                else:
                                    self.event(s3, ('throw', 'std::out_of_range', None, e['l']))
                                    self.raise_(s3, 'std::out_of_range', None, e['l'])
                        elif ismap:
                            outs.append((s2, self.resolve(s2, ('F', ('I', l2, i), 'second'))))
                        else:
                            outs.append((s2, self.resolve(s2, ('I', l2, self.idxnorm(s2, i, l2)))))
                return self.asval(outs, want_lv)
            if name in ('front', 'back') and not a:
                outs = []
                for s, l in self.obj_lv(e, st):
                    outs.append((s, self.resolve(s, ('I', self.resolve(s, l), C(0) if name == 'front' else ('last',)))))
                return self.asval(outs, want_lv)
            if (ismap or isset) and name in ('find', 'count') and len(a) == 1:
                outs = []
                for s, l in self.obj_lv(e, st):
                    for s2, i in self.ev(a[0], s):
                        l2 = self.resolve(s2, l)
                        if name == 'find':
                            outs.append((s2, ('find', l2, i, self.read0v(s2, l2))))
                        else:
                            outs.append((s2, ('in', self.read0v(s2, l2), i)))
                return self.wrap(outs, want_lv)
            if isstr and name in ('find', 'rfind', 'substr', 'compare', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
                outs = []
                for s, l in self.obj_lv(e, st):
                    for s2, vals, _ in self.args(e, s):
                        ov = self.read(s2, l)
                        if name == 'substr':
                            vals = list(vals)
                            if len(vals) == 2 and (vals[1] == ('npos',) or vals[1][0] == 'c' and (vals[1][1] > 2**60 or vals[1][1] == -1)):
                                vals = vals[:1]
                            outs.append((s2, ('substr', ov) + tuple(vals)))
                        elif name == 'compare' and len(vals) == 1:
                            outs.append((s2, ('op', '!=', ov, vals[0])))
                        else:
                            outs.append((s2, ('pcall', 'std::string::' + name, ov, tuple(vals), 'unsigned long')))
                return self.wrap(outs, want_lv)
            if not e.get('cm'):
                # mutator: record, forget contents
                outs = []
                for s, l in self.obj_lv(e, st):
                    for s2, vals, locs in self.args(e, s):
                        s2 = s2.copy()
                        l2 = self.resolve(s2, l)
                        old = self.read(s2, l2)
                        if name in ('insert', 'assign', 'append') and len(vals) >= 2 and vals[-2][0] == 'begin' and vals[-1][0] == 'end' and vals[-2][1] == vals[-1][1]:
                            vals = tuple(vals[:-2]) + (('rangeof', self.read(s2, vals[-1][1])),)
                            locs = list(locs[:-2]) + [None]
                        if (ismap or isset) and (name == 'insert' and len(vals) == 2 or name == 'emplace_hint'):
                            # the position is a hint only
                            vals, locs, name = tuple(vals[1:]), list(locs[1:]), 'insert' if name == 'insert' else 'emplace'
                        elif not isstr and name in ('insert', 'emplace') and len(vals) == 2 and vals[0] == ('end', l2):
                            # before the end of a sequence
                            if vals[1][0] != 'rangeof':
                                vals, locs, name = tuple(vals[1:]), list(locs[1:]), 'push_back' if name == 'insert' else 'emplace_back'
                        self.event(s2, ('cmut', l2, name, tuple(vals), e['l'], old))
                        self.maythrow(e, s2)
                        if name == 'clear':
                            new = ('ilist', ()) if not isstr else EMPTYSTR
                        elif isstr and name == 'assign' and len(vals) == 1:
                            new = vals[0]
                        elif not isstr and name == 'assign' and len(vals) == 1 and vals[0][0] == 'rangeof':
                            new = vals[0][1]
                        elif isstr and name == 'assign' and len(vals) == 2 and vals[0][0] not in ('c', 's'):
                            new = ('ctor', 'string', tuple(vals))
                        elif name in ('push_back', 'emplace_back', 'push_front', 'insert', 'emplace', 'resize', 'erase', 'reserve', 'swap', 'pop_back', 'pop_front', 'assign'):
                            new = old if name == 'reserve' else ('mut', name, old, tuple(vals))
                        else:
                            new = ('mut', name, old, tuple(vals))
                        self.kill_subs(s2, l2)
                        s2.store[l2] = new
                        if name == 'resize' and vals and self.truth(s2, vals[0]) is True:
                            s2.facts[('empty', new)] = False
                        if name == 'swap':
                            if locs[0] is not None:
                                self.kill_subs(s2, locs[0])
                                s2.store[locs[0]] = old
                                s2.store[l2] = vals[0]
                        rv = ('call', q, None, tuple(vals), '', self.newid())
                        if (ismap or isset) and name in ('insert', 'emplace') and vals:
                            rv = ('pair', ('find', l2, self.fieldof(vals[0], 'first') if ismap else vals[0], new), ('insres', old, vals[0]))
                        outs.append((s2, rv))
                return self.wrap(outs, want_lv)
        # generic stream assignment / other ext operator= --------------------
        if op == '=' and o is not None and len(a) == 1:
            return self.assign_obj(e, st, want_lv)
        # compound assignment on library value types (Eigen matrices ...)
        if op in ('+=', '-=', '*=', '/=') and o is not None and len(a) == 1:
            outs = []
            for s, l in self.obj_lv(e, st):
                for s2, v in self.ev(a[0], s):
                    s2 = s2.copy()
                    self.write(s2, l, ('op', op[0], self.read(s2, l), v), e['l'])
                    outs.append((s2, l))
            return self.asval(outs, want_lv)
        # element access on Eigen objects
        if q.startswith('Eigen::') and name in ('operator()', 'operator[]', 'coeffRef', 'coeff') and o is not None:
            outs = []
            for s, l in self.lv_of_obj(e, st):
                for s2, vals, _ in self.args(e, s):
                    idx = self.idxnorm(s2, vals[0], l) if len(vals) == 1 else ('tup',) + tuple(vals)
                    outs.append((s2, self.resolve(s2, ('I', self.resolve(s2, l), idx))))
            return self.asval(outs, want_lv)
        if q.startswith('std::') and op == '!' or name in ('operator bool', 'operator void *') and o is not None and 'stream' in ot or \
                (name in ('fail', 'good', 'bad', 'is_open', 'eof') and o is not None and ('stream' in ot or '_ios' in ot)):
            outs = []
            x = o if o is not None else a[0]
            for s, l in self.lv(x, st):
                v = ('stream', 'ok' if name in ('operator bool', 'operator!', 'operator void *', 'fail') or op == '!' else name, self.read(s, l))
                if op == '!' or name in ('operator!', 'fail'):
                    v = ('op', '!', v)
                outs.append((s, v))
            return self.wrap(outs, want_lv)
        return None

    def read0v(self, st, loc):
        """container value for membership facts (ignores element writes)"""
        return self.read0(st, loc)

    def iterarith(self, op, a, b):
        if op == '-' and a[0] == 'end' and b[0] == 'begin' and a[1] == b[1]:
            return ('sizel', a[1])
        return self.binop(op, a, b)

    def sizeof_(self, k, v):
        if v[0] == 'ilist':
            return C(len(v[1])) if k == 'size' else C(0 if v[1] else 1)
        if v[0] == 's':
            return C(len(v[1])) if k == 'size' else C(0 if v[1] else 1)
        if v[0] == 'cat' and k == 'size':
            t = self.sizeof_('size', v[1])
            for x in v[2:]:
                t = self.binop('+', t, self.sizeof_('size', x))
            return t
        return (k, v)

    def strv(self, v, e=None):
        if v[0] == 'c' and e is not None and (e.get('ch') or 'char' in e.get('t', '')) and isinstance(v[1], int):
            try:
                return ('s', chr(v[1]))
            except Exception:
                return v
        return v

    def obj_lv(self, e, st):
        o = e['o']
        if e.get('arrow') or (o.get('t', '').strip().endswith('*') and not e.get('op')):
            return [(s, self.resolve(s, self.deref(s, v))) for s, v in self.ev(o, st)]
        return self.lv(o, st)

    lv_of_obj = obj_lv

    def assign_obj(self, e, st, want_lv):
        outs = []
        for s, v in self.ev(e['a'][0], st):
            for s2, l in self.obj_lv(e, s):
                s2 = s2.copy()
                self.write(s2, l, v, e['l'])
                outs.append((s2, l))
        return self.asval(outs, want_lv)

    def stream_out(self, e, st, want_lv):
        o = e.get('o')
        a = e.get('a', [])
        xs = ([o] if o is not None else []) + list(a)
        outs = []
        for s, l in self.lv(xs[0], st):
            for s2, v in self.ev(xs[1], s):
                l2 = self.resolve(s2, l)
                cur = self.read(s2, l2)
                s2 = s2.copy()
                if v[0] == 'fn' and v[1]:
                    n = v[1].split('::')[-1].split('<')[0]
                    if n == 'endl':
                        v = ('s', '\n')
                    else:
                        outs.append((s2, l2))
                        continue
                else:
                    v = self.strv(v, xs[1])
                    if v[0] not in ('s', 'c') and base_type(xs[1].get('t', '')) in ('char', 'unsigned char', 'signed char', 'uint8_t', 'int8_t'):
                        v = ('asc', v)          # written as a character, not as a number
                if l2[0] in ('L', 'T') and (cur == EMPTYSTR or cur[0] in ('cat', 's') or self.is_ostr(s2, l2, xs[0])):
                    s2.store[l2] = self.cat(cur, v)
                else:
                    self.event(s2, ('emit', l2, v, e['l']))
                outs.append((s2, l2))
        return self.asval(outs, want_lv)

    def is_ostr(self, st, loc, e):
        while e.get('k') == 'call' and e.get('op') == '<<' and (e.get('o') is not None or e.get('a')):
            e = e['o'] if e.get('o') is not None else e['a'][0]      # the stream a chain starts with
        t = base_type(e.get('t', ''))
        return any(t.startswith(x) for x in OSTRING)

    def algo_foreach(self, e, st, want_lv):
        a = e['a']
        outs = []
        for s, b in self.ev(a[0], st):
            for s2, en in self.ev(a[1], s):
                for s3, f in self.ev(a[2], s2):
                    if b[0] == 'begin' and en[0] == 'end' and b[1] == en[1] and f[0] in ('lambda', 'fn'):
                        def body(s, elemloc, f=f):
                            r = self.apply_fn(f, e, s, [self.read(s, elemloc)], False, [elemloc])
                            return [Out('next', x, None) for x, _ in (r or [(s, None)])]
                        for o in self.iterate(s3, ('range', self.read(s3, b[1])), b[1], body, e['l']):
                            if o.kind == 'next':
                                outs.append((o.st, f))
                    else:
                        s4 = s3.copy()
                        v = ('call', 'std::for_each', None, (b, en, f), '', self.newid())
                        self.event(s4, ('call', 'std::for_each', None, (b, en, f), v, e['l'], None))
                        outs.append((s4, v))
        return self.wrap(outs, want_lv)

    def fargs(self, e, st):
        """arguments, functions passed by reference taken as function values"""
        for s, vals, locs in self.args(e, st):
            out = []
            for x, v in zip(e['a'], vals):
                y = x
                while y.get('k') in ('cast', 'paren', 'mte') and isinstance(y.get('e'), dict):
                    y = y['e']
                if y.get('k') == 'ref' and v[0] != 'fn' and y.get('fu', y.get('u')) and y.get('q') and self.prog.fn(y.get('u')) is not None:
                    v = ('fn', y['q'], y['u'])
                out.append(v)
            yield s, tuple(out), locs

    def call_value(self, f, e, st, vals, locs=None):
        """apply a callable value -> [(state, result)] or None"""
        if f[0] == 'notf':
            r = self.call_value(f[1], e, st, vals, locs)
            return None if r is None else [(s, ('op', '!', v)) for s, v in r]
        if f[0] == 'bind':
            av, al = [], []
            for x in f[2]:
                i = placeholder(x)
                if i is not None:
                    if i - 1 >= len(vals):
                        return None
                    av.append(vals[i - 1])
                    al.append(locs[i - 1] if locs else None)
                else:
                    av.append(x)
                    al.append(None)
            return self.call_value(f[1], e, st, av, al)
        return self.apply_fn(f, e, st, vals, False, locs)

    def algo_into(self, sq, e, st, want_lv):
        """element-wise algorithms that append to a container: analysed as the loop they stand for"""
        outs = []
        for s, vals, locs in self.fargs(e, st):
            b, en, dst = vals[0], vals[1], vals[2]
            f = vals[3] if len(vals) > 3 else None
            if not (b[0] == 'begin' and en[0] == 'end' and b[1] == en[1] and dst[0] == 'backins') or (f is None and sq != 'std::copy'):
                return None
            ok = [True]

            def body(s1, elemloc):
                ev = self.read(s1, elemloc)
                if f is None:
                    rs = [(s1, TRUE, ev)]
                else:
                    r = self.call_value(f, e, s1, [ev], [elemloc])
                    if r is None:
                        ok[0] = False
                        return [Out('next', s1, None)]
                    if sq == 'std::transform':
                        rs = [(x, TRUE, v) for x, v in r]
                    else:
                        rs = [(x2, b2 if sq == 'std::copy_if' else not b2, ev) for x, v in r for x2, b2 in self.fork(x, v)]
                res = []
                for x, keep, v in rs:
                    if keep is TRUE or keep is True:
                        x = x.copy()
                        l = dst[1]
                        old = self.read(x, l)
                        self.event(x, ('cmut', l, 'push_back', (v,), e['l'], old))
                        self.kill_subs(x, l)
                        x.store[l] = ('mut', 'push_back', old, (v,))
                    res.append(Out('next', x, None))
                return res
            os_ = self.iterate(s, ('range', self.read(s, b[1])), b[1], body, e['l'])
            if not ok[0]:
                return None
            outs += [(o.st, VOID) for o in os_ if o.kind == 'next']
        return self.wrap(outs, want_lv)

    # -------------------------------------------------------- statements
    def dedupe(self, outs):
        """merge 'next' outcomes that differ only in path facts"""
        if len(outs) < 2:
            return outs
        res, seen = [], {}
        for o in outs:
            if o.kind in ('next', 'cont', 'break'):
                seen.setdefault((o.kind, frozenset(o.st.store.items()), o.st.events), []).append(o)
            else:
                res.append(o)
        for (kind, _a, _b), os_ in seen.items():
            for s in self.merge_states([o.st for o in os_]):
                res.append(Out(kind, s, os_[0].val, os_[0].line))
        if len(res) > self.maxstates:
            raise Limit('too many states')
        return res

    def exec(self, s, st, want_lv=False):
        """-> list of Out with kind next/ret/break/cont (throws go to the sink)"""
        self.tick()
        if s is None:
            return [Out('next', st, None)]
        k = s['s']
        m = getattr(self, 'x_' + {'{': 'block', 'e': 'expr', 'if': 'if', ';': 'nop', 'while': 'while', 'do': 'do', 'for': 'for',
                                  'return': 'return', 'break': 'break', 'continue': 'continue', 'try': 'try', 'switch': 'switch',
                                  'decl': 'decl', 'rfor': 'rfor', 'case': 'case', 'default': 'case', 'label': 'label', 'goto': 'goto',
                                  '?': 'nop'}[k])
        return m(s, st, want_lv)

    def x_nop(self, s, st, w):
        return [Out('next', st, None)]

    def x_label(self, s, st, w):
        return self.exec(s['b'], st, w)

    def x_goto(self, s, st, w):
        raise Unsupported('goto')

    def x_case(self, s, st, w):
        return self.exec(s['b'], st, w)

    def x_expr(self, s, st, w):
        if s['e']['k'] in ('bin',) and s['e']['op'] in ('&&', '||'):
            return self.dedupe([Out('next', x, None) for x, _ in self.cond(s['e'], st)])
        return self.dedupe([Out('next', x, None) for x, _ in self.ev(s['e'], st)])

    def x_block(self, s, st, w):
        return self.seq(s['b'], st, w)

    def seq(self, stmts, st, w, start=0):
        cur = [Out('next', st, None)]
        done = []
        declared = []
        for x in stmts[start:]:
            nxt = []
            if x is not None and x['s'] == 'decl':
                for v in x['v']:
                    if not v.get('static'):
                        declared.append(v)
            for o in cur:
                nxt.extend(self.exec(x, o.st, w))
            nxt = self.dedupe(nxt)
            cur = [o for o in nxt if o.kind == 'next']
            done.extend(o for o in nxt if o.kind != 'next')
            if not cur:
                break
        res = done + cur
        if declared:
            fr = self.frame
            for o in res:
                self.scope_end(o, declared, fr)
            res = self.dedupe(res)
        return res

    def scope_end(self, o, declared, fr):
        o.st = o.st.copy()
        for v in reversed(declared):
            loc = ('L', fr, v['id'])
            if ('ref', loc) in o.st.store:
                del o.st.store[('ref', loc)]
                continue
            if self.dtors and (loc in o.st.store) and self.dtors(v['t']):
                self.event(o.st, ('dtor', loc, v['t'], o.st.store.get(loc)))
            if self.keep_scope and fr == 0:
                continue
            self.kill_subs(o.st, loc)
            o.st.store.pop(loc, None)

    def declare(self, v, st):
        if v.get('static'):
            loc = ('G', v['q'])
            if v.get('i') is not None and v.get('const') and not (self.keep_statics and loc in st.store):
                outs = []
                for s, val in self.ev(v['i'], st):
                    s = s.copy()
                    s.store[loc] = val
                    outs.append(s)
                return outs
            return [st]
        loc = ('L', self.frame, v['id'])
        if v.get('ref'):
            if v.get('i') is None:
                return [st]
            outs = []
            for s, l in self.lv(v['i'], st):
                s = s.copy()
                l = self.resolve(s, l)
                if l != loc:
                    s.store[('ref', loc)] = l
                outs.append(s)
            return outs
        if v.get('i') is None:
            s = st.copy()
            self.kill_subs(s, loc)
            s.store[loc] = ('uninit', loc) if v.get('tc') not in ('rec',) else ('ctor', base_type(v['t']), ())
            return [s]
        outs = []
        i = v['i']
        for s, val in self.ev(i, st):
            s = s.copy()
            self.kill_subs(s, loc)
            s.store[loc] = val
            outs.append(s)
        return outs

    def x_decl(self, s, st, w):
        cur = [st]
        for v in s['v']:
            nxt = []
            for x in cur:
                nxt.extend(self.declare(v, x))
            cur = nxt
        return [Out('next', x, None) for x in cur]

    def is_log_guard(self, c):
        while c is not None and c.get('k') in ('cast', 'paren', 'un') and c.get('e') is not None and c.get('op', '') in ('',):
            c = c['e']
        return c is not None and c.get('k') == 'call' and LOGGUARD(c.get('q') or '')

    def x_if(self, s, st, w):
        if self.skiplog and s.get('F') is None and self.is_log_guard(s['c']):
            return [Out('next', st, None)]
        sts = [st]
        decl = []
        if s.get('init'):
            sts = [o.st for x in sts for o in self.exec(s['init'], x)]
        if s.get('cvr'):
            decl.append(s['cvr'])
            sts = [y for x in sts for y in self.declare(s['cvr'], x)]
        conds = []
        for x in sts:
            conds.extend(self.cond(s['c'], x))
        # merge condition outcomes
        outs = []
        for b in (True, False):
            br = self.dedupe_conds([x for x, bb in conds if bb == b])
            for x in br:
                outs.extend(self.exec(s['T'] if b else s.get('F'), x, w))
        if decl:
            for o in outs:
                self.scope_end(o, decl, self.frame)
        return self.dedupe(outs)

    def dedupe_conds(self, sts):
        return sts

    def x_return(self, s, st, w):
        if s.get('e') is None:
            return [Out('ret', st, VOID, s['l'])]
        if w:
            return [Out('ret', x, l, s['l']) for x, l in self.lv(s['e'], st)]
        e = s['e']
        if e['k'] in ('bin',) and e['op'] in ('&&', '||'):
            outs = [Out('ret', x, C(1 if b else 0), s['l']) for x, b in self.cond(e, st)]
            return outs
        return [Out('ret', x, v, s['l']) for x, v in self.ev(e, st)]

    def x_break(self, s, st, w):
        return [Out('break', st, None, s['l'])]

    def x_continue(self, s, st, w):
        return [Out('cont', st, None, s['l'])]

    def catches(self, ht, ty):
        if ht == '...':
            return True
        h = base_type(ht)
        if ty is None or ty == '?' or ty.startswith('noreturn:'):
            return False
        return self.prog.derives(ty, h)

    def x_try(self, s, st, w):
        self.sinks.append([])
        try:
            outs = self.exec(s['b'], st, w)
        finally:
            sink = self.sinks.pop()
        res = list(outs)
        for o in sink:
            handled = False
            if not o.val[0].startswith('noreturn:'):
                for h in s['h']:
                    if self.catches(h['t'], o.val[0]):
                        st2 = o.st.copy()
                        if h.get('v') and h['v'].get('id') is not None:
                            st2.store[('L', self.frame, h['v']['id'])] = o.val[1] if o.val[1] is not None else ('exc', o.val[0])
                        self.event(st2, ('catch', o.val[0], h['t'], h['l']))
                        if not hasattr(self, 'cur_exc'):
                            self.cur_exc = []
                        self.cur_exc.append(o.val)
                        try:
                            res.extend(self.exec(h['b'], st2, w))
                        finally:
                            self.cur_exc.pop()
                        handled = True
                        break
            if not handled:
                self.sinks[-1].append(o)
        return self.dedupe(res)

    # switch ---------------------------------------------------------------
    def x_switch(self, s, st, w):
        body = s['b']
        stmts = body['b'] if body['s'] == '{' else [body]
        flat = []           # (labels, stmt)
        for x in stmts:
            labels = []
            y = x
            while y is not None and y['s'] in ('case', 'default'):
                labels.append(None if y['s'] == 'default' else int(y.get('cv', 0)))
                y = y['b']
            flat.append((labels, y))
        allv = [l for ls, _ in flat for l in ls if l is not None]
        res = []
        for x, v in self.ev(s['c'], st):
            hasdef = False
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    if l is None:
                        hasdef = True
                        s2 = x.copy()
                        for c in allv:
                            s2 = self.assume(s2, ('op', '==', v, C(c)), False) if s2 is not None else None
                    else:
                        s2 = self.assume(x.copy(), ('op', '==', v, C(l)), True)
                    if s2 is None:
                        continue
                    res.extend(self.seq([f for _, f in flat], s2, w, i))
            if not hasdef:
                s2 = x.copy()
                for c in allv:
                    s2 = self.assume(s2, ('op', '==', v, C(c)), False) if s2 is not None else None
                if s2 is not None:
                    res.append(Out('next', s2, None))
        out = []
        for o in res:
            if o.kind == 'break':
                o = Out('next', o.st, None)
            out.append(o)
        return self.dedupe(out)

    # loops ------------------------------------------------------------------
    def x_for(self, s, st, w):
        res = []
        init = s.get('i')
        inits = self.exec(init, st) if init else [Out('next', st, None)]
        decl = [v for v in init['v']] if init and init['s'] == 'decl' else []
        for o in inits:
            res.extend(self.loop(o.st, s.get('c'), s.get('n'), s.get('b'), w, s['l'], False, s.get('cvr')))
        if decl:
            for o in res:
                self.scope_end(o, [v for v in decl if not v.get('static')], self.frame)
        return self.dedupe(res)

    def x_while(self, s, st, w):
        return self.loop(st, s.get('c'), None, s.get('b'), w, s['l'], False, s.get('cvr'))

    def x_do(self, s, st, w):
        return self.loop(st, s.get('c'), None, s.get('b'), w, s['l'], True)

    def x_rfor(self, s, st, w):
        res = []
        v = s['v']
        fr = self.frame
        for x, l in self.lv(s['r'], st):
            l = self.resolve(x, l)
            vloc = ('L', fr, v['id'])

            def body(st2, elemloc):
                st2 = st2.copy()
                if v.get('ref'):
                    st2.store[('ref', vloc)] = elemloc
                else:
                    st2.store[vloc] = self.read(st2, elemloc)
                outs = self.exec(s['b'], st2, w)
                for o in outs:
                    self.scope_end(o, [v], fr)
                return outs
            arr = None
            res.extend(self.iterate(x, ('range', self.read(x, l)), l, body, s['l'], s))
        return self.dedupe(res)

    def iterate(self, st, space, cloc, body, line, node=None):
        """generic element-wise loop over container location cloc"""
        pred = None
        v = space[1]
        if v[0] == 'mut' and v[1] == 'erase' and v[2][0] == 'mut' and v[2][1] == 'remove_if' and len(v[3]) == 2 and len(v[2][3]) == 3:
            pred = v[2][3][2]

        def step(s, lid):
            el = self.resolve(s, ('I', cloc, ('it', lid)))
            if pred is None:
                return body(s, el)
            outs = []
            r = self.call_value(pred, {'q': 'pred', 'l': line, 'k': 'call'}, s, [self.read(s, el)], [el])
            if r is None:
                return body(s, el)
            for s2, pv in r:
                for s3, b in self.fork(s2, pv):
                    if not b:
                        outs.extend(body(s3, el))
            return outs
        return self.fix(st, None, step, None, line, space, False, node)

    def loop(self, st, c, inc, b, w, line, isdo, cvr=None):
        def condf(s):
            if cvr is not None:
                outs = []
                for y in self.declare(cvr, s):
                    outs.extend(self.cond(c, y))
                return outs
            if c is None:
                return [(s, True)]
            return self.cond(c, s)

        def step(s, lid):
            outs = []
            for o in self.exec(b, s, w):
                if o.kind in ('next', 'cont') and inc is not None:
                    for s2, _ in self.ev(inc, o.st):
                        outs.append(Out('next', s2, None))
                else:
                    outs.append(o)
            return outs
        flags = []
        if not isdo and cvr is None and c is not None:
            # a flag in the condition that is set on entry: leaving the loop through it is leaving from the middle
            parts = conjuncts(c)
            pure = not any(x.get('k') in ('call', 'new', 'lambda') and not x.get('cm') or x.get('k') == 'un' and x.get('op') in ('++', '--') or
                           x.get('k') == 'bin' and x.get('op', '').endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') for x in walk(c))
            rest = []
            for i, x in enumerate(parts):
                want = True
                y = x
                while y.get('k') == 'paren' or y.get('k') == 'cast' and y.get('t') == 'bool' or y.get('k') == 'un' and y.get('op') == '!':
                    if y['k'] == 'un':
                        want = not want
                    y = y['e']
                if y.get('k') == 'ref' and y.get('s') == 'l' and y.get('t') == 'bool' and (pure or not rest):
                    vs = self.ev(y, st)
                    if len(vs) == 1 and self.truth(st, vs[0][1]) is want:
                        flags.append((y, want))
                        continue
                rest.append(x)
            if flags:
                c = None
                for x in rest:
                    c = x if c is None else {'k': 'bin', 'op': '&&', 'L': c, 'R': x, 'l': x.get('l', line), 't': 'bool'}
                step0 = step

                def step(s, lid):
                    outs = []
                    for o in step0(s, lid):
                        if o.kind not in ('next', 'cont'):
                            outs.append(o)
                            continue
                        cur = [(o.st, True)]
                        for y, want in flags:
                            nxt = []
                            for s2, on in cur:
                                if not on:
                                    nxt.append((s2, False))
                                    continue
                                for s3, v in self.ev(y, s2):
                                    nxt.extend((s4, b == want) for s4, b in self.fork(s3, v))
                            cur = nxt
                        for s2, on in cur:
                            for y, want in flags:
                                if on:
                                    for s3, l in self.lv(y, s2):
                                        s2.store[self.resolve(s2, l)] = C(1 if want else 0)
                            outs.append(Out('next' if on else 'break', s2, None))
                    return outs
        const_true = c is None or ('cv' in c and int(c['cv']) != 0)
        if isdo and c is not None and 'cv' in c and int(c['cv']) == 0:
            # do { } while(0): executed exactly once
            outs = []
            for o in self.exec(b, st, w):
                if o.kind in ('next', 'cont', 'break'):
                    outs.append(Out('next', o.st, None))
                else:
                    outs.append(o)
            return self.dedupe(outs)
        if self.unroll and c is not None and not isdo:
            r = self.unrolled(st, condf, step)
            if r is not None:
                return r
        return self.fix(st, condf, step, c, line, None, isdo, b)

    def unrolled(self, st, condf, step):
        """the iterations one by one, if every test of the condition is decided by constants; None otherwise"""
        done, cur = [], [st.copy()]
        for k in range(self.unroll + 1):
            nxt = []
            for s in cur:
                for s2, b in condf(s):
                    if len(s2.facts) != len(s.facts):
                        return None
                    if not b:
                        done.append(Out('next', s2, None))
                        continue
                    for o in step(s2, None):
                        if o.kind in ('next', 'cont'):
                            nxt.append(o.st)
                        elif o.kind == 'break':
                            done.append(Out('next', o.st, None))
                        else:
                            done.append(o)
            cur = nxt
            if not cur:
                return self.dedupe(done)
        return None

    def changed(self, st0, outs):
        m = set()
        base = st0.store
        for o in outs:
            for l, v in o.st.store.items():
                if l[0] == 'ref':
                    continue
                if l not in base:
                    r = self.root(l)
                    if r[0] == 'T':
                        continue
                    m.add(l)
                elif base[l] != v:
                    m.add(l)
            for l in base:
                if l not in o.st.store and l[0] not in ('ref',):
                    m.add(l)
        # drop locations whose ancestor is also in the set
        res = set()
        for l in m:
            b = l[1] if l[0] in ('F', 'I') else None
            anc = False
            while b is not None:
                if b in m:
                    anc = True
                    break
                b = b[1] if b[0] in ('F', 'I') else None
            if not anc:
                res.add(l)
        return res

    def fix(self, st, condf, step, cexpr, line, space, isdo, node=None):
        self.newid()
        lid = ('lp', line, len(self.stack))
        same = self.loopnodes.setdefault(lid, [])       # several loops of one macro share a line
        if id(node) not in same:
            same.append(id(node))
        if same.index(id(node)):
            lid += (same.index(id(node)),)
        res = []
        # passes to discover the modified locations
        M = set()
        special = {}
        derived, underived = set(), set()
        marker = ('iter', lid)
        drop = set()        # elements whose key differs between iterations: the container as a whole is unknown
        n0, f0 = self.n, self.frame
        for rounds in range(12):
            self.n, self.frame = n0, f0     # the same construct gets the same number in each pass
            h = st.copy()
            for l in sorted(M - drop, key=repr):
                self.kill_subs(h, l)
                h.store[l] = special.get(l) or ('loopv', lid, l)
            for l in sorted(drop, key=repr):
                b = self.elembase(l)
                if b is None:                   # field of an object that is another one in each iteration
                    self.kill_subs(h, l)
                    h.store.pop(l, None)
                    continue
                if b in M or self.has_anc(b, M):
                    continue
                self.kill_subs(h, b)
                h.store[b] = ('loopv', lid, b)
                sp = special.get(l)
                if sp and sp[0] == 'idx' and False:
                    pass
            h.events = ()
            self.sinks.append([])
            try:
                heads = condf(h) if (condf and not isdo) else [(h, True)]
                bodies = []
                for s, b in heads:
                    if b:
                        bodies.extend(step(s, lid))
                if isdo and condf:
                    b2 = []
                    for o in bodies:
                        if o.kind in ('next', 'cont'):
                            for s, b in condf(o.st):
                                b2.append(Out('next' if b else 'dexit', s, None))
                        else:
                            b2.append(o)
                    bodies = b2
            finally:
                sink = self.sinks.pop()
            cont = [o for o in bodies if o.kind in ('next', 'cont')]
            new = self.changed(h, cont) - M
            # condition side effects are part of the iteration
            if condf and not isdo:
                pass
            # ancestors swallow descendants
            sp2 = {}
            for l in M | new:
                if l in special:
                    continue
                v0 = st.store.get(l)
                if v0 is None:
                    continue
                cur = h.store.get(l)
                ups = {o.st.store.get(l) for o in cont}
                if l in M and cur is not None and ups and all(u == self.binop('+', cur, C(1)) for u in ups):
                    if v0[0] == 'begin':
                        sp2[l] = ('it', lid, v0[1])
                    else:
                        sp2[l] = ('idx', lid, v0)
                elif l in M and cur is not None and ups and all(u == ('op', '-', cur, C(1)) for u in ups):
                    sp2[l] = ('didx', lid, v0)
                elif l in M and cur == ('loopv', lid, l) and ups and l not in underived and rounds:
                    t = self.derive(l, st, h, cont, M)
                    if t is not None:
                        sp2[l] = t
                        derived.add(l)
            for l in list(derived & set(special)):
                # a variable kept in step with others has to stay so
                if not self.instep(special[l], l, st, h, cont, M):
                    derived.discard(l)
                    underived.add(l)
                    del special[l]
                    sp2[l] = ('loopv', lid, l)
            nd = set()
            for l in M if rounds else ():
                if l not in drop and (self.elembase(l) is not None or self.root(l)[0] == 'P' and self.root(l)[1][0] not in ('this', 'ref', 'par')):
                    if self.keyof(l, lid) or not any(o.st.store.get(l) != h.store.get(l) for o in cont):
                        nd.add(l)
            drop |= nd
            if not new and not sp2 and not nd:
                break
            M |= new
            M = {l for l in M if not self.has_anc(l, M - drop)}
            special.update(sp2)
        else:
            self.stats['unsupported'].append('loop at line %s did not converge' % line)
        # final results
        prev = st.events
        if space is None:
            space = self.space(st, cexpr, special, lid, h)
        bodysum = []
        seenb = set()
        for o in cont:
            evs = o.st.events
            facts = tuple(sorted(((k, v) for k, v in o.st.facts.items() if st.facts.get(k) != v), key=repr))
            upd = tuple(sorted(((l, o.st.store.get(l)) for l in M if o.st.store.get(l) != h.store.get(l)), key=repr))
            key = (facts, evs, upd)
            if key not in seenb:
                seenb.add(key)
                bodysum.append(key)
        exev = []
        anyev = any(b[1] or b[2] for b in bodysum)
        init = tuple(sorted(((l, st.store.get(l)) for l in M if st.store.get(l) is not None), key=repr))
        loopev = (('loop', lid, space, tuple(bodysum), init),) if (anyev or self.keep_loops()) else ()
        mk = (marker,) if True else ()
        # normal exit
        if condf and not isdo:
            for s, b in heads:
                if not b:
                    s = s.copy()
                    s.events = prev + loopev + s.events
                    self.post(s, special, lid)
                    res.append(Out('next', s, None))
        elif isdo:
            for o in bodies:
                if o.kind == 'dexit':
                    s = o.st.copy()
                    s.events = prev + loopev + ((marker,) + s.events if s.events else ())
                    res.append(Out('next', s, None))
        else:
            s = h.copy()
            s.events = prev + loopev
            res.append(Out('next', s, None))
        for o in bodies:
            if o.kind in ('next', 'cont', 'dexit'):
                continue
            s = o.st.copy()
            s.events = prev + loopev + ((marker,) + s.events)
            if o.kind == 'break':
                if s.events and s.events[-1] == marker:
                    s.events = s.events[:-1]
                s.events = s.events + (('brk', lid),)
                res.append(Out('next', s, None))
            else:
                res.append(Out(o.kind, s, o.val, o.line))
        for o in sink:
            s = o.st.copy()
            s.events = prev + loopev + ((marker,) + s.events)
            self.sinks[-1].append(Out('throw', s, o.val, o.line))
        return self.dedupe(res)

    def derive(self, l, st, h, cont, M):
        """a term over the other loop variables that l equals at the start of every iteration"""
        o = cont[0]
        t = o.st.store.get(l)
        if t is None or t[0] in ('c', 's', 'loopv'):
            return None
        m = {}
        for w in M:
            if w == l or h.store.get(w) is None:
                continue
            u = o.st.store.get(w)
            if u is not None and u != h.store[w] and u[0] not in ('c', 's'):
                m[u] = h.store[w]
        if not m:
            return None
        t = replace(t, m)
        if any(x == ('loopv', h.store[l][1], l) for x in subterms(t)) or not any(x == v for x in subterms(t) for v in m.values()):
            return None
        return t if self.instep(t, l, st, h, cont, M) else None

    @staticmethod
    def instep(t, l, st, h, cont, M):
        before = {h.store[w]: st.store[w] for w in M if w != l and h.store.get(w) is not None and st.store.get(w) is not None}
        if replace(t, before) != st.store.get(l):
            return False
        for o in cont:
            after = {h.store[w]: o.st.store[w] for w in M if w != l and h.store.get(w) is not None and o.st.store.get(w) is not None}
            if replace(t, after) != o.st.store.get(l):
                return False
        return True

    def elembase(self, l):
        """the outermost container of which l is (part of) an element with a key that is no constant"""
        r = None
        while l[0] in ('F', 'I'):
            if l[0] == 'I' and l[2][0] not in ('c', 's'):
                r = l[1]
            l = l[1]
        return r

    def keyof(self, l, lid):
        """does the loop determine which location l is"""
        while l[0] in ('F', 'I'):
            if l[0] == 'I' and any(t == lid for t in subterms(l[2])):
                return True
            l = l[1]
        return l[0] == 'P' and any(t == lid for t in subterms(l[1]))

    def keep_loops(self):
        return self.all_loops

    def has_anc(self, l, M):
        b = l[1] if l[0] in ('F', 'I') else None
        while b is not None:
            if b in M:
                return True
            b = b[1] if b[0] in ('F', 'I') else None
        return False

    def post(self, s, special, lid):
        pass

    def space(self, st, cexpr, special, lid, h):
        """describe the iteration space of a condition loop"""
        if cexpr is None:
            return ('forever',)
        try:
            self.sinks.append([])
            outs = self.ev(cexpr, h) if not (cexpr['k'] == 'bin' and cexpr['op'] in ('&&', '||')) else []
        except (Limit, Unsupported):
            outs = []
        finally:
            self.sinks.pop()
        if len(outs) == 1:
            v = outs[0][1]
            if v[0] == 'op' and v[1] in ('!=', '<', '==', '!') and len(v) == 4:
                a, b = v[2], v[3]
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'it' and y[0] == 'end' and x[2] == y[1]:
                        return ('range', self.read(st, x[2]))
                    if x[0] == 'idx' and y[0] == 'size' and x[2] == C(0):
                        return ('range', y[1])
                    if x[0] == 'idx':
                        return ('count', x[2], y)
            return ('while', v)
        return ('while', ('?',))

    # ------------------------------------------------------------ entry
    def run(self, fn, this=None, params=None, st=None):
        """analyse one function -> list of Out (ret / throw)"""
        self.frame = 0
        self.frames_this = {0: this or ('this',)}
        self.stack = [fn['u']]
        self.sinks = [[]]
        self.lambdas = {}
        self.aliases = {}
        st = st.copy() if st is not None else St()
        for p in fn['p']:
            loc = ('L', 0, p['id'])
            name = p['n'] or ('arg%d' % p['id'])
            if params and name in params:
                v = params[name]
                if v[0] == 'loc':
                    st.store[('ref', loc)] = v[1]
                else:
                    st.store[loc] = v
            elif p['m'] in 'crm':
                st.store[('ref', loc)] = ('P', ('ref', name))
            else:
                st.store[loc] = ('par', name)
        outs = self.body(fn, st, want_lv=False)
        outs = outs + self.sinks[0]
        self.stats['paths'] += len(outs)
        return outs


def runner(prog, **kw):
    return Engine(prog, **kw)
