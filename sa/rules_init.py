"""nothing is read before it has a value"""
from base import *
from facts import Broken
import facts
from numeric import Num, World, Unknown, Obj, leaves, typename, short
from algebra import TooBig

SCALAR = ('int', 'ptr', 'float', 'enum', 'bool')
NORETURN = ('abort', 'exit', '_exit', 'std::terminate', 'std::abort', 'std::exit', '__assert_fail')


class State(object):
    """the ways control can have come here: for each, the keys that have a value and what is known of local variables

    ('=', id, value): the variable has that value; ('c', text, ids, truth): the condition on those variables has that truth
    """
    MAX = 24

    def __init__(self, ways):
        ways = frozenset(ways)
        if len(ways) > self.MAX:
            ways = frozenset([frozenset.intersection(*ways)])
        self.ways = ways

    def __or__(self, ks):
        return State(w | set(ks) for w in self.ways)

    def __sub__(self, ks):
        return State(w - set(ks) for w in self.ways)

    def __contains__(self, k):
        return all(k in w for w in self.ways)

    def __iter__(self):
        return iter(frozenset.intersection(*self.ways))

    def __eq__(self, o):
        return isinstance(o, State) and self.ways == o.ways

    def __ne__(self, o):
        return not self == o

    def forget(self, i):
        return State(frozenset(k for k in w if not (k[0] == '=' and k[1] == i or k[0] == 'c' and i in k[2])) for w in self.ways)


def literal(e):
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = e['e']
    if not isinstance(e, dict):
        return None
    if e.get('k') in ('int', 'bool', 'char'):
        return int(e['v'])
    if e.get('k') in ('null', 'nullptr'):
        return 0
    cv = e.get('cv')
    return int(cv) if isinstance(cv, (int, bool)) or isinstance(cv, str) and cv.lstrip('-').isdigit() else None


class Flow(object):
    """definite assignment of scalar variables and of the scalar fields of record variables

    The state is a State, or None where control cannot be.
    """

    def __init__(self, P, pods, report, fields=()):
        self.P, self.pods, self.report = P, pods, report
        self.watch = set(('f', x) for x in fields)      # fields of *this under analysis
        self.recs = {}
        self.depth = 0
        self.names = {}

    # --- states --------------------------------------------------------------
    @staticmethod
    def meet(a, b):
        return b if a is None else a if b is None else State(a.ways | b.ways)

    def run(self, f, start=State([frozenset()])):
        self.f = f
        self.loose = loose(f)
        self.rets, self.brk, self.cont, self.tries = [], [], [], []
        s = start
        s = self.stmt(f['body'], s)
        out = s
        for r in self.rets:
            out = self.meet(out, r)
        return out

    # --- keys ----------------------------------------------------------------
    def key(self, e):
        """variable or field the expression names, if it is watched"""
        if not isinstance(e, dict):
            return None
        if e['k'] == 'ref' and e.get('s') == 'l':
            k = ('l', e['id'])
            return k if k in self.watch else None
        if e['k'] == 'mem':
            b = e['b']
            if b['k'] == 'this':
                k = ('f', e['n'])
                return k if k in self.watch else None
            if b['k'] == 'ref' and b.get('s') == 'l' and not e.get('arrow'):
                k = ('l', b['id'], e['n'])
                return k if k in self.watch else None
        if e['k'] == 'cast' and e.get('ck') in ('impl', 'const', 'static') and str(e.get('t', '')).endswith('&'):
            return self.key(e['e'])
        return None

    def whole(self, e):
        """keys of the record the expression names"""
        if isinstance(e, dict) and e['k'] == 'ref' and e.get('s') == 'l' and e['id'] in self.recs:
            return [('l', e['id'], n) for n in self.recs[e['id']]]
        return []

    def read(self, k, S, e):
        if S is not None and k not in S:
            self.report(self.f, k, self.names.get(k, k[-1]), e.get('l'))

    # --- expressions ---------------------------------------------------------
    def ev(self, e, S):
        """state after e"""
        if e is None or S is None or not isinstance(e, dict):
            return S
        k = e['k']
        kk = self.key(e)
        if kk is not None:
            self.read(kk, S, e)
            return S
        for w in self.whole(e):
            self.read(w, S, e)
        if k == 'asg':
            S = self.ev(e['R'], S)
            lk = self.key(e['L'])
            if S is not None and e['L'].get('k') == 'ref':
                S = S.forget(e['L'].get('id'))
                v = literal(e['R'])
                if v is not None and e['op'] == '=' and self.plain(e['L']):
                    S = S | {('=', e['L']['id'], v)}
            if e['op'] == '=':
                if lk is not None:
                    return S if S is None else S | {lk}
                w = self.whole(e['L'])
                if w:
                    return S if S is None else S | set(w)
                return self.lv(e['L'], S)
            return self.ev(e['L'], S)
        if k == 'un':
            if e['op'] == '&':
                t = self.key(e['e'])
                ks = [t] if t is not None else self.whole(e['e'])
                if ks:
                    return S | set(ks)          # assigned through the pointer, as far as we know
                return self.lv(e['e'], S)
            if e['op'] == '!':
                a, b = self.cond(e, S)
                return self.meet(a, b)
            S = self.ev(e['e'], S)
            if S is not None and ('++' in e['op'] or '--' in e['op']) and e['e'].get('k') == 'ref':
                S = S.forget(e['e'].get('id'))
            return S
        if k == 'bin' and e['op'] in ('&&', '||'):
            a, b = self.cond(e, S)
            return self.meet(a, b)
        if k == 'cond':
            a, b = self.cond(e['c'], S)
            return self.meet(self.ev(e['T'], a), self.ev(e['F'], b))
        if k == 'bin':
            return self.ev(e['R'], self.ev(e['L'], S))
        if k in ('call', 'ctor'):
            o = e.get('o') or e.get('b')
            if isinstance(o, dict):
                S = self.ev(o, S) if self.key(o) is not None or k == 'call' and e.get('cm') else self.lv(o, S)
            pm = e.get('pm', '')
            late = set()
            for i, a in enumerate(e.get('a', ())):
                m = pm[i] if i < len(pm) else 'v'
                t = self.key(a)
                ks = [t] if t is not None else self.whole(a)
                if ks and m in 'rm' and not (k == 'ctor' and m == 'm'):
                    late |= set(ks)
                elif ks and e.get('op') in ('=', '>>') and i == 0 and m == 'r':
                    late |= set(ks)
                else:
                    S = self.ev(a, S)
            if isinstance(e.get('fe'), dict):
                S = self.ev(e['fe'], S)
            if e.get('k') == 'call' and e.get('q') in NORETURN:
                return None
            if S is None:
                return None
            if k == 'call' and e.get('u') and isinstance(e.get('o'), dict) and e['o']['k'] == 'this' and any(w[0] == 'f' for w in self.watch):
                S = self.inline(e, S)
                if S is None:
                    return None
            return S | late
        if k == 'lambda':
            return S
        if k == 'throw':
            S = self.ev(e.get('e'), S)
            return None
        if k in ('sizeof', 'typeid'):
            return S
        if k == 'stmtexpr':
            return self.stmt(e['body'], S)
        if k == 'mem':
            return self.ev(e['b'], S) if not self.whole(e['b']) else S
        for c in ('b', 'i', 'e', 'c', 'n', 'init'):
            if isinstance(e.get(c), dict):
                S = self.ev(e[c], S)
        for c in ('a', 'p'):
            for x in e.get(c) or ():
                if isinstance(x, dict):
                    S = self.ev(x, S)
        return S

    def lv(self, e, S):
        """evaluate the subexpressions of an lvalue without reading it"""
        if S is None or not isinstance(e, dict):
            return S
        if self.key(e) is not None or self.whole(e):
            return S
        if e['k'] == 'mem':
            return self.lv(e['b'], S) if not e.get('arrow') else self.ev(e['b'], S)
        return self.ev(e, S)

    def inline(self, e, S):
        """what a member function of the same object assigns"""
        g = self.P.fn(e['u'])
        if g is None or g.get('body') is None or self.depth > 3 or e.get('virt'):
            return S | set(k for k in self.watch if k[0] == 'f')
        sub = Flow(self.P, self.pods, self.report, [k[1] for k in self.watch if k[0] == 'f'])
        sub.depth = self.depth + 1
        r = sub.run(g, State([frozenset(k for k in S if k[0] == 'f')]))
        return None if r is None else S | set(k for k in r if k[0] == 'f')

    def cond(self, e, S):
        """states where e is true and where it is false"""
        if e is None:
            return S, None
        if S is None:
            return None, None
        if e['k'] == 'un' and e['op'] == '!':
            a, b = self.cond(e['e'], S)
            return b, a
        if e['k'] == 'bin' and e['op'] == '&&':
            a, b = self.cond(e['L'], S)
            c, d = self.cond(e['R'], a)
            return c, self.meet(b, d)
        if e['k'] == 'bin' and e['op'] == '||':
            a, b = self.cond(e['L'], S)
            c, d = self.cond(e['R'], b)
            return self.meet(a, c), d
        S = self.ev(e, S)
        cv = e.get('cv', e.get('v') if e['k'] in ('int', 'bool') else None)
        if cv is not None and not isinstance(cv, dict):
            return (S, None) if str(cv) not in ('0', 'False', 'false') else (None, S)
        return self.split(e, S)

    def plain(self, e):
        return e.get('k') == 'ref' and e.get('s') in ('l', 'p') and e.get('id') not in self.loose

    def split(self, e, S):
        if S is None:
            return None, None
        b = e
        while b.get('k') == 'cast':
            b = b['e']
        flip = False
        var = val = None
        if self.plain(b):
            var, val, flip = b['id'], 0, True
        elif b.get('k') == 'bin' and b['op'] in ('==', '!='):
            for x, y in ((b['L'], b['R']), (b['R'], b['L'])):
                while x.get('k') == 'cast':
                    x = x['e']
                if self.plain(x) and literal(y) is not None:
                    var, val, flip = x['id'], literal(y), b['op'] == '!='
                    break
        ids = set()
        text = spell(b, ids, self) if var is None else None
        if var is None and text is None:
            return S, S
        T, F = [], []
        for w in S.ways:
            if var is not None:
                have = [k[2] for k in w if k[0] == '=' and k[1] == var]
                no = ('c', 'is %s' % val, (var,), False)
                yes = ('=', var, val)
                eq = have[0] == val if have else False if no in w else None
                a, b_ = (F, T) if flip else (T, F)
                if eq is not False:
                    a.append(w | {yes})
                if eq is not True:
                    b_.append(w if have else w | {no})
            else:
                k = tuple(sorted(ids))
                if ('c', text, k, False) not in w:
                    T.append(w | {('c', text, k, True)})
                if ('c', text, k, True) not in w:
                    F.append(w | {('c', text, k, False)})
        return State(T) if T else None, State(F) if F else None

    # --- statements ----------------------------------------------------------
    def declare(self, v, S):
        if S is None:
            return S
        i = v.get('i')
        if v.get('static'):
            return S
        S = S.forget(v['id'])
        if i is not None and literal(i) is not None and not v.get('ref') and v['id'] not in self.loose:
            return S | {('=', v['id'], literal(i))}
        if i is not None and not (i['k'] == 'ctor' and not i.get('a') and self.P.fn(i.get('u')) is None):
            t = self.key(i) if v.get('ref') else None
            ks = [t] if t is not None else self.whole(i) if v.get('ref') else []
            if ks:
                return S | set(ks)
            return self.ev(i, S)
        if v.get('tc') in SCALAR:
            k = ('l', v['id'])
            self.watch.add(k)
            self.names[k] = v['n']
            return S - {k}
        fs = self.pods.get(v['t'].replace('struct ', ''))
        if fs:
            self.recs[v['id']] = fs
            for n in fs:
                k = ('l', v['id'], n)
                self.watch.add(k)
                self.names[k] = v['n'] + '.' + n
            return S - set(('l', v['id'], n) for n in fs)
        return S

    def stmt(self, s, S):
        if s is None:
            return S
        k = s['s']
        if S is None and k not in ('{', 'case', 'default', 'label', 'switch'):
            return None
        if k == '{':
            for x in s['b']:
                S = self.stmt(x, S)
            return S
        if k == 'e':
            return self.ev(s['e'], S)
        if k == 'decl':
            for v in s['v']:
                S = self.declare(v, S)
            return S
        if k == 'return':
            S = self.ev(s.get('e'), S)
            if S is not None:
                self.rets.append(S)
            return None
        if k == 'if':
            S = self.stmt(s.get('init'), S)
            if s.get('cvr'):
                S = self.declare(s['cvr'], S)
            a, b = self.cond(s['c'], S)
            return self.meet(self.stmt(s['T'], a), self.stmt(s.get('F'), b))
        if k in ('for', 'while', 'do', 'rfor'):
            if k == 'for':
                S = self.stmt(s.get('i'), S)
            if k == 'rfor':
                S = self.ev(s['r'], S)
            if s.get('cvr'):
                S = self.declare(s['cvr'], S)
            sb, sc = self.brk, self.cont
            brk = None
            for turn in range(8):
                self.brk, self.cont = [], []
                if k == 'do':
                    b = self.stmt(s['b'], S)
                    for c in self.cont:
                        b = self.meet(b, c)
                    b, out = self.cond(s['c'], b)
                elif k == 'rfor':
                    b = self.stmt(s['b'], S)
                    for c in self.cont:
                        b = self.meet(b, c)
                    out = self.meet(S, b)
                else:
                    t, out = self.cond(s.get('c'), S)
                    b = self.stmt(s['b'], t)
                    for c in self.cont:
                        b = self.meet(b, c)
                    if k == 'for':
                        b = self.ev(s.get('n'), b)
                for c in self.brk:
                    brk = self.meet(brk, c)
                new = self.meet(S, b)
                if new == S:
                    break
                S = new if turn < 4 else State([frozenset.intersection(*new.ways)])
            out = self.meet(out, brk)
            self.brk, self.cont = sb, sc
            return out
        if k == 'break':
            self.brk.append(S)
            return None
        if k == 'continue':
            self.cont.append(S)
            return None
        if k == 'switch':
            S = self.ev(s['c'], S)
            sb, self.brk = self.brk, []
            self.sw = getattr(self, 'sw', []) + [S]
            out = self.stmt(s['b'], None)
            self.sw = self.sw[:-1]
            has = any(x.get('s') == 'default' for x in walk(s['b']))
            if not has and not s.get('all'):
                out = self.meet(out, S)
            for c in self.brk:
                out = self.meet(out, c)
            self.brk = sb
            return out
        if k in ('case', 'default'):
            S = self.meet(S, self.sw[-1]) if getattr(self, 'sw', []) else S
            return self.stmt(s.get('b'), S)
        if k == 'try':
            out = self.stmt(s['b'], S)
            for h in s['h']:
                out = self.meet(out, self.stmt(h['b'], S))
            return out
        if k == 'label':
            return self.stmt(s.get('b'), S)
        return S


def loose(f):
    """variables changed other than by assigning them in the open"""
    out = set()

    def leaf(e):
        while isinstance(e, dict) and e.get('k') in ('cast', 'mem', 'idx'):
            e = e.get('e', e.get('b'))
        return e.get('id') if isinstance(e, dict) and e.get('k') == 'ref' else None
    for x in walk(f['body']):
        if x.get('k') == 'un' and x['op'] == '&':
            out.add(leaf(x['e']))
        if x.get('k') in ('call', 'ctor'):
            pm = x.get('pm', '')
            for i, a in enumerate(x.get('a', ())):
                if (pm[i] if i < len(pm) else 'v') in 'rm':
                    out.add(leaf(a))
        if x.get('k') == 'lambda':
            for y in walk(x):
                if y.get('k') == 'ref':
                    out.add(y.get('id'))
        if x.get('s') == 'decl':
            for v in x['v']:
                if v.get('ref') and v.get('i') is not None:
                    out.add(leaf(v['i']))
    return out


def spell(e, ids, fl):
    """text of a condition on plain local variables, or None"""
    k = e.get('k')
    if k == 'cast':
        return spell(e['e'], ids, fl)
    if literal(e) is not None:
        return str(literal(e))
    if k == 'ref' and fl.plain(e):
        ids.add(e['id'])
        return 'v%s' % e['id']
    if k == 'bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!=', '+', '-', '*', '&', '|', '%'):
        a, b = spell(e['L'], ids, fl), spell(e['R'], ids, fl)
        return None if a is None or b is None else '(%s %s %s)' % (a, e['op'], b)
    return None


def in_scope(f):
    return f.get('body') is not None and f['file'].startswith(facts.REPO + '/') and '/tests/' not in f['file'] and '/kwiversys/' not in f['file']


def plain_records(P):
    """records without constructors of their own: name -> scalar fields without an initialiser"""
    out = {}
    for c in P.classes.values():
        if any(m.get('ctor') and not m.get('impl') for m in c['methods']):
            continue
        fs = [f['n'] for f in c['fields'] if f['tc'] in SCALAR and not f['di']]
        if fs and not c.get('union') and c['file'].startswith(facts.REPO + '/'):
            out[c['q']] = fs
    return out


def reads(P):
    """names of the fields some function uses other than by assigning them: qualified name -> functions"""
    out = {}
    for f in P.funcs.values():
        if f.get('body') is None or not f['file'].startswith(facts.REPO + '/'):
            continue
        asg = set()
        done = set()
        for x in walk(f['body']):
            if x.get('k') == 'asg' and x['op'] == '=' and x['L'].get('k') == 'mem':
                asg.add(id(x['L']))
            if x.get('k') == 'mem':
                if id(x) in asg:
                    done.add(x['q'])            # has a value from here on (same function, in source order)
                elif x['q'] not in done:
                    out.setdefault(x['q'], set()).add(f['u'])
    return out


def check_init(P, rep):
    rep.rule('Every constructor gives each member that is used anywhere a value on every normal exit, before reading it; no function reads a local variable on a path on which nothing was stored in it.')
    pods = plain_records(P)
    used = reads(P)
    # constructors: scalar members
    n = nl = 0
    for c in sorted(P.classes.values(), key=lambda c: (c['file'], c['l'], c['q'])):
        if not c['file'].startswith(facts.REPO + '/') or '/tests/' in c['file'] or '/kwiversys/' in c['file'] or c.get('lam') or c.get('union'):
            continue
        want = [f['n'] for f in c['fields'] if f['tc'] in SCALAR and not f['di']]
        sub = [(f['n'], pods[f['t']]) for f in c['fields'] if f['t'] in pods]
        for m in c['methods']:
            f = P.funcs.get(m['u'])
            if not m.get('ctor') or f is None or f.get('body') is None or f.get('dflt'):
                continue
            if any(i.get('d') for i in f.get('inits', ())):
                continue
            rep.saw(f)
            bad = {}
            fl = Flow(P, pods, lambda g, k, name, line: bad.setdefault(k[1], (g, line)) if k[0] == 'f' else None, want)
            fl.f = f
            S = State([frozenset()])
            fl.loose = loose(f)
            fl.rets, fl.brk, fl.cont = [], [], []
            for i in f.get('inits', ()):
                S = fl.ev(i.get('e'), S)
                if i.get('f') and S is not None and (i.get('w') or i['e'] is not None and i['e'].get('k') not in (None, 'none')):
                    S = S | {('f', i['f'])}
            out = fl.run(f, S if S is not None else State([frozenset()]))
            miss = []
            for x in want:
                q = next((fr['q'] for fr in c['fields'] if fr['n'] == x), None)
                if x in bad:
                    miss.append('%s is read before it has a value (%s:%s)' % (x, rel(bad[x][0]['file']), bad[x][1]))
                elif out is not None and ('f', x) not in out and used.get(q, set()) - {f['u']}:
                    miss.append('%s has no value afterwards' % x)
            for x, fs in sub:
                ini = next((i for i in f.get('inits', ()) if i.get('f') == x and i.get('w')), None)
                if ini is None and not any(a.get('k') in ('asg', 'call') and a.get('op') == '=' for a in walk(f['body'])):
                    miss += ['%s.%s has no value afterwards' % (x, y) for y in fs if any(q.endswith('::' + y) for q in used)]
            n += len(want)
            rep.sites += len(want)
            rep.ob('ctor:%s/%d:%s' % (short(f['q'].rsplit('::', 1)[0]), len(f['p']), ','.join(p['t'].replace('kwiver::vital::', '')[-40:] for p in f['p'])), not miss,
                   'the constructor gives every member in use a value', where(f), '; '.join(miss[:4]))
    # value types: everything below the object
    W = World(P)
    nv = 0
    for c in sorted(P.classes.values(), key=lambda c: (c['file'], c['l'], typename(c))):
        if '/vital/types/' not in c['file'] or c.get('lam') or c.get('union') or c['n'] in ('image', 'image_memory'):
            continue
        for f in W.by_clsu.get(c['u'], ()):
            # the elements of a descriptor are storage for its user to fill
            if not f.get('ctor') or c['n'] == 'descriptor_fixed' or f.get('dflt') and (f.get('cc') or f.get('mc')):
                continue
            N = Num(W)

            def proc():
                o = Obj(c)
                N.invoke(f, o, [N.sym(p['t'], 'A%d' % i) for i, p in enumerate(f['p'])], 0)
                return sorted(set(k + '' for k, v in leaves(o) if 'uninitialised#' in str(v)))
            try:
                ps = N.paths(proc)
            except (Unknown, TooBig):
                continue
            nv += 1
            rep.saw(f)
            rep.paths += len(ps)
            bad = ['%s has no value of its own%s' % (k, ' (%s)' % p.given()[:120] if p.signs or p.choices else '') for p in ps if p.kind == 'ret' for k in p.val]
            rep.ob('value:%s/%d:%s' % (short(typename(c)), len(f['p']), ','.join(p['t'].replace('kwiver::vital::', '')[-40:] for p in f['p'])), not bad,
                   'the constructor leaves no part of the object undetermined', where(f), '; '.join(bad[:4]))
    # local variables
    for f in sorted(P.funcs.values(), key=lambda f: (f['file'], f['l'])):
        if not in_scope(f) or f.get('inst') and False:
            continue
        if any(x.get('s') == 'goto' for x in walk(f['body'])):
            continue
        bad = {}
        fl = Flow(P, pods, lambda g, k, name, line: bad.setdefault(name, line) if k[0] == 'l' else None)
        fl.run(f)
        if not fl.watch:
            continue
        rep.saw(f)
        nl += len(fl.watch)
        rep.sites += len(fl.watch)
        rep.ob('local:%s:%s' % (rel(f['file']), f['q']), not bad, 'every local variable has a value when it is read', where(f),
               '; '.join('%s is read in line %s, on a path that stores nothing in it' % x for x in sorted(bad.items())[:4]))
    rep.notes.append('%d members of constructed objects, %d constructors of value types, %d local variables' % (n, nv, nl))
    if n < 60 or nv < 40 or nl < 20:
        raise Broken('only %d members, %d value constructors and %d local variables found' % (n, nv, nl))
