"""S01: objects with static storage, shared state of the logger, and the locks that protect them.

A lockset analysis over the resolved program: which mutexes are certainly held at each access to a shared object,
with entry locksets of internal helpers taken from their call sites."""
from base import *              # noqa
from engine import Engine, show, strip_targs
from facts import Broken, rel, walk
import re

SYNC = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::recursive_timed_mutex', 'std::shared_timed_mutex',
        'std::shared_mutex', 'std::once_flag', 'std::condition_variable', 'std::condition_variable_any')
SYNC_RE = re.compile(r'^(?:const )?(?:volatile )?(?:%s|std::(?:__)?atomic\w*(?:<.*>)?)$' % '|'.join(SYNC))
GUARD = re.compile(r'^(?:const )?std::(lock_guard|unique_lock|scoped_lock|shared_lock)<')
# members that do not modify the container although their overload is not const
LOOKUP = {'begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'at', 'front', 'back', 'data'}
SHARED_BUFFER = {'localtime', 'gmtime', 'ctime', 'asctime', 'strtok', 'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'getgrent',
                 'getpwent', 'gethostbyname', 'getservbyname', 'inet_ntoa', 'ttyname', 'ctermid', 'tmpnam', 'rand', 'srand',
                 'random', 'drand48', 'lrand48', 'setenv', 'putenv', 'unsetenv', 'setlocale', 'localeconv', 'crypt', 'ecvt',
                 'fcvt', 'basename', 'dirname', 'getlogin', 'l64a', 'nl_langinfo', 'ptsname', 'readdir_unlocked', 'strsignal',
                 'wcstok_unlocked', 'mblen', 'chdir', 'umask'}


def base_name(q):
    return strip_targs(q or '').split('::')[-1]


class Access(object):
    __slots__ = ('key', 'mode', 'locks', 'fn', 'line')

    def __init__(self, key, mode, locks, fn, line):
        self.key, self.mode, self.locks, self.fn, self.line = key, mode, locks, fn, line

    def __str__(self):
        return '%s at %s' % ({'w': 'modified', 'r': 'read'}[self.mode], where(self.fn, self.line))


class LockFlow(object):
    """the accesses of every function to the tracked objects with the locks held at each"""

    def __init__(self, P, fields=(), pointees=(), skip_methods=(), in_scope=None, own=()):
        self.P = P
        self.own = set(own)                     # classes whose data members are all tracked
        self.fields = set(fields)               # qualified names of tracked data members
        self.pointees = set(pointees)           # usr of pointer variables whose pointee is tracked
        self.skip = skip_methods
        self.acc = {}                           # fn usr -> [Access]
        self.sites = {}                         # callee usr -> [(caller usr, lockset)]
        self.shared_calls = []                  # calls of functions with a shared result buffer
        self.retref = {}                        # fn usr -> set of keys it returns a reference to
        self.entry = {}
        self.scope = [f for f in P.funcs.values() if f.get('body') is not None and (in_scope is None or in_scope(f))]
        self.scope.sort(key=lambda f: (f['file'], f['l'], f['u']))
        self.closed = {f['u'] for f in self.scope if self.is_closed(f)}
        for f in self.scope:                    # functions that hand out a reference or address of a tracked object
            ks = set()
            if f['rt'].rstrip().endswith(('&', '*')):
                for x in walk(f['body']):
                    if x.get('s') == 'return' and x.get('e'):
                        e = x['e']
                        while e.get('k') == 'cast':
                            e = e['e']
                        if f['rt'].rstrip().endswith('&'):
                            k = self.lv_key(e)
                        else:
                            k = self.lv_key(e['e']) if e.get('k') == 'un' and e.get('op') == '&' else None
                        if k:
                            ks.add(k)
            if ks:
                self.retref[f['u']] = ks
        for i in range(12):
            before = dict(self.entry)
            self.acc, self.sites, self.shared_calls, self.addr = {}, {}, [], set()
            for f in self.scope:
                self.one(f)
            ent = {}
            for f in self.scope:
                u = f['u']
                ss = self.sites.get(u)
                if u in self.closed and ss and u not in self.addr:
                    s = None
                    for _, l in ss:
                        if l == 'TOP':
                            continue
                        s = l if s is None else s & l
                    ent[u] = 'TOP' if s is None else s
                else:
                    ent[u] = frozenset()
            self.entry = ent
            if ent == before:
                break

    def is_closed(self, f):
        if f.get('internal') and not f.get('cls'):
            return True
        if f.get('cls') and not f.get('virt') and not f.get('ov'):
            if f.get('ctor') or f.get('dtor'):
                return False
            if f.get('acc') == 'private' or f.get('internal'):
                return True
            c = self.P.cls(f.get('clsu'))
            if c is not None and not c['file'].endswith(('.h', '.hxx', '.hpp', '.in', '.txx')):
                return True
        return False

    def own_class(self, u):
        f = self.P.fn(u)
        return f is not None and f.get('cls') in self.own

    # ---- keys -----------------------------------------------------------
    def lv_key(self, e):
        """the tracked object an lvalue expression denotes (without its accesses)"""
        k = e.get('k')
        if k == 'cast':
            return self.lv_key(e['e'])
        if k == 'ref':
            if e.get('s') in ('g', 'sl'):
                return ('v', e['u'])
            if e.get('s') in ('l', 'p'):
                return self.alias.get(e.get('id')) if getattr(self, 'alias', None) else None
            return None
        if k == 'mem':
            if e.get('q') in self.fields:
                return ('f', e['q'])
            b = self.lv_key(e['b']) if not e.get('arrow') else self.ptr_key(e['b'])
            return b
        if k == 'un' and e.get('op') == '*':
            return self.ptr_key(e['e'])
        if k == 'call':
            ks = self.retref.get(e.get('u'))
            if ks and str(e.get('rt', '')).rstrip().endswith('&'):
                return sorted(ks)[0]
            if e.get('op') == '*' and e.get('o') and not e.get('a'):
                return None
        if k == 'sub':
            return self.lv_key(e['b']) if e.get('n') is not None else None
        return None

    def ptr_key(self, e):
        """the tracked object a pointer expression points to"""
        k = e.get('k')
        if k == 'cast':
            return self.ptr_key(e['e'])
        if k == 'un' and e.get('op') == '&':
            return self.lv_key(e['e'])
        if k == 'ref':
            if e.get('s') in ('g', 'sl') and e.get('u') in self.pointees:
                return ('*', e['u'])
            if e.get('s') in ('l', 'p') and getattr(self, 'palias', None):
                return self.palias.get(e.get('id'))
        if k == 'call':
            ks = self.retref.get(e.get('u'))
            if ks and str(e.get('rt', '')).rstrip().endswith('*'):
                return sorted(ks)[0]
        return None

    def mutex_key(self, e):
        k = e.get('k')
        if k == 'cast':
            return self.mutex_key(e['e'])
        if k == 'ref':
            if e.get('s') in ('g', 'sl'):
                return ('v', e['u'])
            if e.get('s') in ('l', 'p'):
                return self.malias.get(e.get('id'))
        if k == 'mem':
            return ('f', e.get('q'))
        if k == 'un' and e.get('op') in ('*', '&'):
            return self.mutex_key(e['e'])
        if k == 'call' and e.get('u'):
            ks = self.retref.get(e['u'])
            return sorted(ks)[0] if ks else ('c', e['u'])
        return None

    # ---- one function ---------------------------------------------------
    def one(self, f):
        self.f = f
        self.alias, self.palias, self.malias, self.lam, self.guards = {}, {}, {}, {}, {}
        self.out = self.acc.setdefault(f['u'], [])
        self.loops = []
        l = self.entry.get(f['u'], 'TOP' if f['u'] in self.closed else frozenset())
        if l == 'TOP':
            l = frozenset([('TOP',)])
        for i in f.get('inits', ()):
            if isinstance(i, dict) and i.get('e'):
                self.E(i['e'], 'r', l)
        self.S(f['body'], l)

    def rec(self, key, mode, locks, line):
        if key is None:
            return
        if self.f.get('ctor') or self.f.get('dtor'):
            if key[0] == 'f':
                return
        if base_name(self.f['q']) in self.skip and key[0] == 'f':
            return
        self.out.append(Access(key, mode, locks, self.f, line))

    # expressions: returns the lockset afterwards
    def E(self, e, mode, l):
        if not isinstance(e, dict):
            return l
        k = e.get('k')
        line = e.get('l')
        if k == 'ref':
            if mode != 'n':
                self.rec(self.lv_key(e), mode, l, line)
            if e.get('s') == 'f' and e.get('u'):
                self.addr.add(e['u'])
            return l
        if k == 'mem':
            key = self.lv_key(e)
            if key is not None and key[0] == 'f' and key[1] == e.get('q'):
                if mode != 'n':
                    self.rec(key, mode, l, line)
                return self.E(e['b'], 'n' if e['b'].get('k') in ('this', 'ref') else 'r', l)
            if e.get('arrow'):
                pk = self.ptr_key(e['b'])
                if pk is not None and mode != 'n':
                    self.rec(pk, mode, l, line)
                return self.E(e['b'], 'r', l)
            return self.E(e['b'], mode, l)
        if k == 'asg':
            l = self.E(e['R'], 'r', l)
            if e.get('op') != '=':
                l = self.E(e['L'], 'r', l)
            # p = &shared
            if e['L'].get('k') == 'ref' and e['L'].get('s') in ('l', 'p') and str(e['L'].get('t', '')).rstrip().endswith('*'):
                pk = self.ptr_key(e['R'])
                if pk:
                    self.palias[e['L'].get('id')] = pk
                    return l
            return self.E(e['L'], 'w', l)
        if k == 'un':
            op = e.get('op')
            if op in ('++', '--'):
                return self.E(e['e'], 'w', l)
            if op == '&':
                return self.E(e['e'], 'n' if mode == 'p' else ('w' if mode == 'w' else 'r' if mode == 'k' else 'n'), l)
            if op == '*':
                pk = self.ptr_key(e['e'])
                if pk is not None and mode != 'n':
                    self.rec(pk, mode, l, line)
                return self.E(e['e'], 'r', l)
            return self.E(e['e'], 'r', l)
        if k == 'sub':
            l = self.E(e['i'], 'r', l)
            return self.E(e['b'], mode if e.get('n') is not None else 'r', l)
        if k == 'cond':
            l = self.E(e['c'], 'r', l)
            a = self.E(e['T'], mode, l)
            b = self.E(e['F'], mode, l)
            return a & b
        if k == 'bin':
            l = self.E(e['L'], 'r', l)
            if e.get('op') in ('&&', '||'):
                return l & self.E(e['R'], 'r', l)
            return self.E(e['R'], mode if e.get('op') == ',' else 'r', l)
        if k == 'cast':
            return self.E(e['e'], mode, l)
        if k == 'lambda':
            # handed over to be called: its accesses may happen later, without these locks
            self.S(e['body'], frozenset())
            return l
        if k in ('call', 'ctor'):
            return self.call(e, mode, l)
        if k == 'new' or k == 'delete' or k == 'throw':
            for c in ('n', 'i', 'e'):
                if isinstance(e.get(c), dict):
                    l = self.E(e[c], 'r', l)
            return l
        for c, v in e.items():
            if c in ('body',):
                continue
            if isinstance(v, dict) and v.get('k'):
                l = self.E(v, 'r', l)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict) and y.get('k'):
                        l = self.E(y, 'r', l)
        return l

    def call(self, e, mode, l):
        q = e.get('q') or ''
        n = base_name(q)
        line = e.get('l')
        o = e.get('o')
        args = e.get('a') or []
        pm = e.get('pm') or ''
        # a local lambda called by name
        if o is not None and e.get('op') == '()' and o.get('k') == 'ref' and o.get('id') in self.lam:
            for a in args:
                l = self.E(a, 'r', l)
            body = self.lam[o['id']]
            if body not in self.active:
                self.active.append(body)
                self.S(body, l)
                self.active.pop()
            return l
        if o is not None and e.get('op') == '()' and o.get('k') == 'lambda':
            for a in args:
                l = self.E(a, 'r', l)
            self.S(o['body'], l)
            return l
        # locks
        if o is not None and n in ('lock', 'unlock', 'lock_shared', 'unlock_shared') and not args:
            key = None
            if o.get('k') == 'ref' and o.get('id') in self.guards:
                ms, kind = self.guards[o['id']]
            else:
                t = str(o.get('t', ''))
                m = self.mutex_key(o) if SYNC_RE.match(t.replace('&', '').strip()) else None
                ms, kind = ([m] if m else []), ('s' if n.endswith('_shared') else 'x')
            if ms:
                if n.startswith('un'):
                    return frozenset(x for x in l if x[0] not in ms)
                return l | {(m, kind) for m in ms}
        if q == 'std::call_once' and len(args) >= 2:
            key = self.mutex_key(args[0])
            fl = args[1]
            while fl.get('k') == 'cast' or (fl.get('k') == 'ctor' and len(fl.get('a') or ()) == 1):
                fl = fl['e'] if fl.get('k') == 'cast' else fl['a'][0]
            body = fl.get('body') if fl.get('k') == 'lambda' else self.lam.get(fl.get('id')) if fl.get('k') == 'ref' else None
            inner = l | ({(key, 'x')} if key else set())
            if body is not None:
                self.S(body, inner)
            elif fl.get('k') == 'ref' and fl.get('s') == 'f' and fl.get('u'):
                self.sites.setdefault(fl['u'], []).append((self.f['u'], inner))
            for a in args[2:]:
                l = self.E(a, 'r', l)
            # after call_once returned the protected initialisation happened before; a later write would not be ordered
            return l | ({(key, 's')} if key else set())
        callee_noret = False
        if o is not None:
            arrow = bool(e.get('arrow'))
            om = 'r' if (arrow or e.get('cm')) else 'w'
            if om == 'w' and n in LOOKUP and q.startswith('std::'):
                om = 'w' if mode == 'w' else 'r'
            if not e.get('cm') and n == 'operator[]' and om == 'w' and 'map' not in str(o.get('t', '')):
                om = 'w' if mode == 'w' else 'r'
            if om == 'w' and e.get('u') and self.own_class(e['u']):
                om = 'r'                        # its data members are tracked themselves
            if arrow:
                pk = self.ptr_key(o)
                if pk is not None:
                    self.rec(pk, 'r' if e.get('cm') else 'w', l, line)
            t = str(o.get('t', ''))
            if SYNC_RE.match(t.replace('&', '').strip()):
                om = 'n'
            l = self.E(o, om, l)
        for i, a in enumerate(args):
            m = pm[i] if i < len(pm) else 'v'
            if a.get('k') == 'lambda':
                # handed to a synchronous algorithm, or to something that keeps it
                sync = bool(re.match(r'^std::(for_each|transform|any_of|all_of|none_of|find_if|find_if_not|count_if|sort|stable_sort'
                                     r'|copy_if|remove_if|replace_if|generate|accumulate|max_element|min_element|partition|call_once)', strip_targs(q)))
                self.S(a['body'], l if sync else frozenset())
                continue
            if m == 'r':
                am = 'w'
            elif m == 'm':
                am = 'w'
            elif m == 'p':
                am = 'w'
            elif m == 'k':
                am = 'k'
            else:
                am = 'r'
            if m in ('p', 'k'):
                # pointer argument: &shared is an access to shared; a shared pointer variable is read
                x = a
                while x.get('k') == 'cast':
                    x = x['e']
                if x.get('k') == 'un' and x.get('op') == '&':
                    l = self.E(x['e'], 'w' if m == 'p' else 'r', l)
                    continue
                pk = self.ptr_key(x)
                if pk is not None:
                    self.rec(pk, 'w' if m == 'p' else 'r', l, line)
                # an array decays to the address of its elements
                key = self.lv_key(x)
                if key is not None and '[' in str(x.get('t', '')):
                    self.rec(key, 'w' if m == 'p' else 'r', l, line)
                    continue
                am = 'r'
            l = self.E(a, am, l)
        if e.get('u'):
            self.sites.setdefault(e['u'], []).append((self.f['u'], l))
            if n in SHARED_BUFFER and (e.get('ext') or self.P.fn(e['u']) is None) and o is None and '::' not in q.replace('std::', ''):
                self.shared_calls.append((n, self.f, line, l))
            ks = self.retref.get(e['u'])
            if ks and mode != 'n' and str(e.get('rt', '')).rstrip().endswith('&'):
                for key in ks:
                    self.rec(key, mode if mode in ('r', 'w') else 'r', l, line)
        if isinstance(e.get('fp'), dict):
            l = self.E(e['fp'], 'r', l)
        return l

    def var(self, v, l, scope):
        i = v.get('i')
        t = str(v.get('t', ''))
        if v.get('static'):
            # initialisation of a function-local static is synchronised by the language
            return l
        vid = v.get('id')
        if GUARD.match(t):
            ms = []
            held = True
            x = i
            while isinstance(x, dict) and x.get('k') == 'cast':
                x = x['e']
            if isinstance(x, dict) and x.get('k') == 'ctor' and x.get('a') and x['a'][0].get('k') == 'ctor' and GUARD.match(str(x['a'][0].get('c', ''))):
                x = x['a'][0]
            for a in (x.get('a') or []) if isinstance(x, dict) else []:
                at = str(a.get('t', '') or a.get('c', ''))
                if re.search(r'(defer_lock|try_to_lock)', at) or re.search(r'chrono', at):
                    held = False
                    continue
                if 'adopt_lock' in at:
                    continue
                m = self.mutex_key(a)
                if m is not None:
                    ms.append(m)
            kind = 's' if GUARD.match(t).group(1) == 'shared_lock' else 'x'
            self.guards[vid] = (ms, kind)
            if held:
                add = {(m, kind) for m in ms} - l
                scope.append(add)
                return l | add
            return l
        if isinstance(i, dict):
            x = i
            while x.get('k') == 'cast':
                x = x['e']
            if x.get('k') == 'ctor' and x.get('a') and len(x['a']) == 1 and x['a'][0].get('k') == 'lambda':
                x = x['a'][0]
            if x.get('k') == 'lambda':
                self.lam[vid] = x['body']
                return l
            if t.rstrip().endswith('&') and not t.rstrip().endswith('&&'):
                tt = t.replace('&', '').strip()
                if SYNC_RE.match(tt):
                    mk = self.mutex_key(i)
                    if mk is not None:
                        self.malias[vid] = mk
                        return l
                key = self.lv_key(x)
                if key is not None:
                    self.alias[vid] = key
                    # calls that produced the reference are walked for their own effects
                    return self.E(i, 'n', l)
                return self.E(i, 'r' if t.startswith('const ') else 'w', l)
            if t.rstrip().endswith('*') or t.rstrip().endswith('*const'):
                tt = t.rstrip()[:-1].strip() if t.rstrip().endswith('*') else t
                if SYNC_RE.match(tt):
                    mk = self.mutex_key(i)
                    if mk is not None:
                        self.malias[vid] = mk
                        return l
                pk = self.ptr_key(x)
                if pk is not None:
                    self.palias[vid] = pk
                    return self.E(i, 'p', l) if x.get('k') == 'un' and x.get('op') == '&' else self.E(i, 'r', l)
            l = self.E(i, 'r', l)
        return l

    active = []

    def S(self, s, l):
        """-> lockset after the statement, None when control does not continue"""
        if s is None or l is None:
            return l
        k = s.get('s')
        if k is None and s.get('k'):
            return self.E(s, 'r', l)
        if k == '{':
            scope = []
            entry = l
            for x in s['b']:
                if x is None:
                    continue
                if l is None:
                    # unreachable in straight-line order (labels): analyse with no locks
                    if x.get('s') in ('case', 'default', 'label'):
                        l = self.sw[-1] if getattr(self, 'sw', None) else frozenset()
                    else:
                        continue
                if x.get('s') == 'decl':
                    for v in x['v']:
                        l = self.var(v, l, scope)
                else:
                    if x.get('s') in ('case', 'default') and getattr(self, 'sw', None):
                        l = l & self.sw[-1]
                    l = self.S(x, l)
            if l is not None:
                for add in scope:
                    l = l - add
            return l
        if k == 'decl':
            for v in s['v']:
                l = self.var(v, l, [])
            return l
        if k == 'e':
            return self.E(s['e'], 'n' if s['e'].get('k') == 'ref' else 'r', l)
        if k == 'if':
            if s.get('init'):
                l = self.S(s['init'], l)
            if s.get('cvr'):
                l = self.var(s['cvr'], l, [])
            l = self.E(s['c'], 'r', l)
            a = self.S(s['T'], l)
            b = self.S(s.get('F'), l)
            return b if a is None else a if b is None else a & b
        if k in ('while', 'for', 'do', 'rfor'):
            if k == 'for' and s.get('i'):
                l = self.S(s['i'], l)
            if k == 'rfor':
                key = self.lv_key(s['r'])
                v = s['v']
                vt = str(v.get('t', ''))
                if key is not None:
                    self.rec(key, 'r', l, s.get('l'))
                    if vt.rstrip().endswith('&') and not vt.startswith('const '):
                        self.alias[v.get('id')] = key
                l = self.E(s['r'], 'r', l)
            for _ in range(2):
                self.brk.append([])
                m = l
                if k in ('while', 'for') and s.get('cvr'):
                    m = self.var(s['cvr'], m, [])
                if k in ('while', 'for') and s.get('c'):
                    m = self.E(s['c'], 'r', m)
                b = self.S(s['b'], m)
                if k == 'do' and b is not None:
                    b = self.E(s['c'], 'r', b)
                    m = b
                if k == 'for' and s.get('n') and b is not None:
                    b = self.E(s['n'], 'r', b)
                outs = self.brk.pop()
                nl = l if b is None else l & b
                res = m
                for x in outs:
                    res = res & x
                if nl == l:
                    break
                l = nl
            return res
        if k == 'switch':
            l = self.E(s['c'], 'r', l)
            self.brk.append([])
            self.sw.append(l)
            r = self.S(s['b'], l)
            self.sw.pop()
            outs = self.brk.pop()
            r = l if r is None else r & l
            for x in outs:
                r = r & x
            return r
        if k in ('case', 'default', 'label'):
            return self.S(s.get('b'), l)
        if k == 'break' or k == 'continue':
            if self.brk:
                self.brk[-1].append(l)
            return None
        if k == 'return':
            if s.get('e'):
                key = self.lv_key(s['e'])
                if key is not None and self.f['u'] in self.retref and key in self.retref[self.f['u']]:
                    # the callers' uses of the reference are the accesses; evaluating it still reads the pointers on the way
                    self.E(s['e'], 'n', l)
                else:
                    self.E(s['e'], 'r', l)
            return None
        if k == 'goto':
            return None
        if k == 'try':
            a = self.S(s['b'], l)
            for h in s['h']:
                b = self.S(h['b'], l)
                a = b if a is None else a if b is None else a & b
            return a
        return l

    brk = []
    sw = []

    # ---- results --------------------------------------------------------
    def accesses(self):
        out = {}
        for u, v in sorted(self.acc.items()):
            for a in v:
                out.setdefault(a.key, []).append(a)
        return out


SINGLETONS = ('kwiver::vital::algorithm_plugin_manager', 'kwiver::vital::kwiver_logger_manager', 'kwiver::vital::registrar')


def usable(key, lock):
    """is holding this lock the same lock for every access of the object?"""
    if lock[0] != 'f':
        return True
    cls = lock[1].rsplit('::', 1)[0]
    if cls in SINGLETONS or cls.rsplit('::', 1)[0] in SINGLETONS:
        return True
    # a mutex inside an object protects the data of that object only
    return key[0] == 'f' and key[1].rsplit('::', 1)[0] == cls


def held(a):
    return {x[0] for x in a.locks if len(x) == 2 and usable(a.key, x[0]) and (a.mode == 'r' or x[1] == 'x')}


def common(accs):
    """the locks that order every access of the list"""
    ks = None
    for a in accs:
        if ('TOP',) in a.locks:
            continue
        ks = held(a) if ks is None else ks & held(a)
    return ks or set()


def unlocked(accs):
    """the accesses without the lock most of them hold"""
    from collections import Counter
    c = Counter(x for a in accs for x in held(a))
    if not c:
        return accs
    best = sorted(c.items(), key=lambda y: (-y[1], str(y[0])))[0][0]
    return [a for a in accs if best not in held(a)]


def in_files(f):
    p = rel(f['file'])
    if p.startswith('vital/kwiversys/') or '/kwiversys/' in f['file']:
        return p.endswith('RegularExpression.cxx') or 'RegularExpression' in f['file']
    return p.startswith('vital/') and '/tests/' not in p and not p.startswith('vital/bindings/') and not p.startswith('vital/tools/')


LOG = 'kwiver::vital::'
LOGGER_CLASSES = (LOG + 'kwiver_logger_manager', LOG + 'kwiver_logger_manager::impl', LOG + 'kwiver_logger', LOG + 'kwiver_logger::impl',
                  LOG + 'logger_ns::kwiver_logger_factory', LOG + 'logger_ns::logger_factory_default', LOG + 'logger_ns::default_logger')


def check_shared(P, R):
    R.rule('every object with static storage that is modified after its initialisation has a lock held at all accesses')
    R.rule('the state shared by all loggers is constant, atomic or locked')
    R.rule('functions of the C library with a shared result buffer are called under one lock')
    fields = {}
    variables = {u: v for u, v in P.vars.items() if in_files(v)}
    own = []
    for v in variables.values():                # objects of classes of the program: their members are the shared state
        t = re.sub(r'^const ', '', str(v['t']))
        c = P.cls_by_q.get(t)
        if c is not None and in_files(c) and not c['file'].endswith('RegularExpression.hxx'):
            own.append(t)
    for cq in list(LOGGER_CLASSES) + sorted(set(own)):
        c = P.cls_by_q.get(cq)
        if c is None:
            continue
        for fl in c['fields']:
            fields[cq + '::' + fl['n']] = fl
    if len(fields) < 6:
        raise Broken('only %d data members of the logger classes found' % len(fields))
    ptees = {u for u, v in variables.items() if re.search(r'stream\b.*\*(?: ?const)?$', str(v['t']))}
    LockFlow.brk, LockFlow.sw, LockFlow.active = [], [], []
    F = LockFlow(P, fields, ptees, ('set_logger_factory', 'load_factory'), in_files, own)
    acc = F.accesses()
    nvar = nshared = 0
    for u, v in sorted(variables.items(), key=lambda x: (x[1]['file'], x[1]['l'])):
        t = str(v['t'])
        nvar += 1
        name = '%s (%s:%s)' % (v['q'], rel(v['file']), v['l'])
        oid = 'static.%s.%s' % (rel(v['file']), v['q'])
        accs = acc.get(('v', u), [])
        if SYNC_RE.match(t):
            R.ob(oid, True, '%s is a synchronisation object' % name, rel(v['file']))
            continue
        if v.get('tls'):
            R.ob(oid, True, '%s exists once per thread' % name, rel(v['file']))
            continue
        writes = [a for a in accs if a.mode == 'w']
        if not writes:
            R.ob(oid, True, '%s is not modified after its initialisation' % name, rel(v['file']))
            continue
        nshared += 1
        if v['n'] == 'ad_item_map_' or 'registrar::get_item_map' in str(v.get('fn', '')) or _in_registrar(P, v):
            bad = [a for a in writes if base_name(a.fn['q']) not in ('register_item',)]
            R.ob(oid, not bad, '%s is modified by registration only' % name, rel(v['file']), '; '.join(str(a) for a in bad[:4]))
            continue
        ks = common(accs)
        bad = [] if ks else unlocked(accs)
        R.ob(oid, bool(ks), '%s is accessed under one lock' % name, where(bad[0].fn, bad[0].line) if bad else rel(v['file']),
             'without the lock: ' + '; '.join(sorted({str(a) for a in bad})[:6]))
    for u in sorted(ptees):
        accs = acc.get(('*', u), [])
        v = variables[u]
        name = '*%s' % v['q']
        if any(a.mode == 'w' for a in accs):
            ks = common(accs)
            bad = [] if ks else unlocked(accs)
            R.ob('stream.%s' % v['q'], bool(ks), 'the stream %s is written under one lock' % name,
                 where(bad[0].fn, bad[0].line) if bad else rel(v['file']), '; '.join(sorted({str(a) for a in bad})[:6]))
    for q, fl in sorted(fields.items()):
        accs = acc.get(('f', q), [])
        t = str(fl['t'])
        if SYNC_RE.match(t):
            R.ob('logger.' + q, True, '%s is a synchronisation object' % q)
            continue
        writes = [a for a in accs if a.mode == 'w']
        if not writes:
            R.ob('logger.' + q, True, '%s is not modified after construction' % q)
            continue
        ks = common(accs)
        bad = [] if ks else unlocked(accs)
        R.ob('logger.' + q, bool(ks), '%s is accessed under one lock' % q, where(bad[0].fn, bad[0].line) if bad else '',
             '; '.join(sorted({str(a) for a in bad})[:6]))
    by = {}
    for n, f, line, l in F.shared_calls:
        by.setdefault({'gmtime': 'localtime', 'ctime': 'localtime', 'asctime': 'localtime'}.get(n, n), []).append((n, f, line, l))
    for g, cs in sorted(by.items()):
        ks = None
        for _, _, _, l in cs:
            h = {x[0] for x in l if len(x) == 2 and x[1] == 'x'}
            ks = h if ks is None else ks & h
        bad = [c for c in cs if not any(len(x) == 2 and x[1] == 'x' for x in c[3])] or cs
        R.ob('buffer.' + g, bool(ks), 'the calls of %s(), whose result is shared by all threads, hold one lock' % g,
             where(bad[0][1], bad[0][2]), '; '.join('%s called at %s' % (c[0], where(c[1], c[2])) for c in bad[:5]))
    for f in F.scope:
        R.saw(f)
    R.sites += sum(len(v) for v in F.acc.values())
    if nvar < 20 or nshared < 2 + 0:
        raise Broken('only %d objects with static storage (%d modified) found' % (nvar, nshared))
    R.notes.append('%d objects with static storage in %d functions, %d modified after initialisation; out of scope: kwiversys except its '
                   'regular expressions, the handle tables of the C interface, the tools' % (nvar, len(F.scope), nshared))


def _in_registrar(P, v):
    f = P.fn(v.get('fn'))
    return f is not None and f['q'].startswith(LOG + 'registrar::') and 'map' in str(v['t'])


SINGLE = ('kwiver::vital::algorithm_plugin_manager::instance', 'kwiver::vital::kwiver_logger_manager::instance',
          'kwiver::vital::registrar::instance')


def statics_of(P, f):
    """the variables with static storage a function (with its helpers) uses, with their initial values"""
    E = Engine(P)
    st = St()
    seen, todo, names = set(), [f], []
    while todo:
        g = todo.pop()
        if g['u'] in seen or g.get('body') is None:
            continue
        seen.add(g['u'])
        for x in walk(g['body']):
            if x.get('k') == 'ref' and x.get('s') in ('g', 'sl') and x.get('u') in P.vars:
                names.append(x['u'])
            if x.get('k') == 'call' and x.get('u') and P.fn(x['u']) is not None and P.fn(x['u'])['file'] == f['file'] and len(seen) < 8:
                todo.append(P.fn(x['u']))
    for u in sorted(set(names)):
        v = P.vars[u]
        t = str(v['t'])
        if SYNC_RE.match(t) and 'atomic' not in t:
            continue
        i = v.get('i')
        while isinstance(i, dict) and i.get('k') == 'cast':
            i = i['e']
        if not isinstance(i, dict):
            val = C(0) if i is None and ('*' in t or t in ('bool', 'int', 'unsigned int', 'long', 'unsigned long')) else None
        elif i.get('k') == 'bool':
            val = C(1 if i['v'] else 0)
        elif i.get('k') == 'int':
            val = C(int(i['v']))
        elif i.get('k') in ('null', 'zero'):
            val = C(0)
        elif i.get('k') == 'ilist' and not i.get('a'):
            val = C(0)
        else:
            val = None
        if val is not None and not v.get('const'):
            st.store[('G', v['q'])] = val
    return st


def globals_of(o, P):
    sync = {v['q'] for v in P.vars.values() if SYNC_RE.match(str(v['t'])) and 'atomic' not in str(v['t'])}
    return {l: v for l, v in o.st.store.items() if l[0] == 'G' and l[1] not in sync}


def again(o, P):
    st = St()
    st.store.update(globals_of(o, P))
    return st


def check_once(P, R):
    R.rule('a singleton accessor returns the one stored object and creates it only when there is none')
    R.rule('the first call of load_plugins_once registers the plug-ins and says so; the later ones do neither')
    for q in SINGLE:
        f = P.one(q, 0)
        if any(x.get('q') == 'std::call_once' for x in walk(f['body'])):
            R.ob('single.' + q, True, '%s creates its object under std::call_once' % q, where(f))
            continue
        E = Engine(P, opaque=lambda q2, fn, e: fn is None or fn.get('ctor'))
        st = statics_of(P, f)
        outs = [o for o in E.run(f, st=st) if o.kind != 'throw']
        R.saw(f, outs)
        bad = [] if outs else ['no path returns']
        for o in outs:
            v1 = o.val
            if v1 == C(0):
                bad.append('the first call returns nothing: ' + fmt_path(o))
            made = [e for e in o.flat() if e[0] == 'new']
            if len(made) > 1:
                bad.append('the first call makes %d objects' % len(made))
            E2 = Engine(P, opaque=lambda q2, fn, e: fn is None or fn.get('ctor'))
            E2.keep_statics = True
            for p in E2.run(f, st=again(o, P)):
                R.paths += 1
                if p.kind != 'ret' or p.val != v1:
                    bad.append('a later call returns %s, not %s' % (show(p.val) if p.val is not None else p.kind, show(v1)))
                if any(e[0] == 'new' for e in p.flat()):
                    bad.append('a later call makes another object')
                if any(globals_of(p, P).get(l) != v for l, v in globals_of(o, P).items()):
                    bad.append('a later call changes the stored object')
        R.ob('single.' + q, not bad, '%s returns one object for the whole program' % q, where(f), '; '.join(sorted(set(bad)))[:800])
    f = P.one('kwiver::vital::algorithm_plugin_manager::load_plugins_once', 0)
    op = lambda q, fn, e: base_name(q) in ('register_plugins', 'instance')      # noqa: E731
    if any(x.get('q') == 'std::call_once' for x in walk(f['body'])):
        R.ob('once.load', any(base_name(x.get('q')) == 'register_plugins' for x in walk(f['body'])), 'the plug-ins are registered once', where(f))
        return

    def regs(o):
        return [e for e in o.flat() if e[0] == 'call' and base_name(e[1]) == 'register_plugins']
    E = Engine(P, opaque=op)
    outs = [o for o in E.run(f, st=statics_of(P, f)) if o.kind != 'throw']
    R.saw(f, outs)
    bad = [] if outs else ['no path returns']
    for o in outs:
        if len(regs(o)) != 1:
            bad.append('the first call registers the plug-ins %d times: %s' % (len(regs(o)), fmt_path(o)))
        if o.val != C(1):
            bad.append('the first call returns %s' % show(o.val))
        for e in regs(o):
            a = e[4][3]
            if a and a[0] not in (('s', ''),):
                bad.append('the first call registers the plug-ins named %s only' % show(a[0]))
        for p in Engine(P, opaque=op).run(f, st=again(o, P)):
            R.paths += 1
            if p.kind != 'ret' or p.val != C(0):
                bad.append('a later call returns %s' % (show(p.val) if p.val is not None else p.kind))
            if regs(p):
                bad.append('a later call registers the plug-ins again: ' + fmt_path(p))
            if any(globals_of(p, P).get(l) != v for l, v in globals_of(o, P).items()):
                bad.append('a later call changes the record of the first: ' + fmt_path(p))
    R.ob('once.load', not bad, 'load_plugins_once registers the plug-ins in its first call only', where(f), '; '.join(sorted(set(bad)))[:900])
