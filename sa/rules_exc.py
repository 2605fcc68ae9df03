"""exceptions: hierarchy, messages, handlers, and what may leave functions that promise not to throw"""
import re
from base import *
from engine import *
from facts import Broken

TOP = 'std::exception'


def classes(P):
    """exception classes of the repository: name -> record"""
    ex, more = {}, True
    while more:
        more = False
        for c in P.classes.values():
            if c['q'] in ex or '/kwiversys/' in c['file'] or '/vital/' not in c['file']:
                continue
            if any(b['t'] in ex or b['t'] == TOP or re.match(r'std::\w*(error|exception)$', b['t']) for b in c['bases']):
                ex[c['q']] = c
                more = True
    if len(ex) < 20:
        raise Broken('only %d exception classes found' % len(ex))
    return ex


def short(q):
    return q.split('::')[-1]


def ancestors(P, q):
    """all base classes with the number of inheritance paths, and whether every step is public"""
    out, pub = {}, True
    todo = [q]
    while todo:
        x = todo.pop()
        c = P.cls_by_q.get(x)
        for b in (c['bases'] if c else ()):
            out[b['t']] = out.get(b['t'], 0) + 1
            pub = pub and b['acc'] == 'public'
            todo.append(b['t'])
    return out, pub


FAMILY = {
    'invalid_value': 'vital_core_base_exception', 'io_exception': 'vital_core_base_exception', 'image_exception': 'vital_core_base_exception',
    'math_exception': 'vital_core_base_exception', 'algorithm_exception': 'vital_core_base_exception',
    'path_not_exists': 'io_exception', 'path_not_a_file': 'io_exception', 'path_not_a_directory': 'io_exception', 'invalid_file': 'io_exception', 'invalid_data': 'io_exception',
    'file_not_found_exception': 'io_exception', 'file_not_read_exception': 'io_exception', 'file_write_exception': 'io_exception',
    'image_size_mismatch_exception': 'image_exception',
    'non_invertible_matrix': 'math_exception', 'point_maps_to_infinity': 'math_exception', 'invalid_matrix_operation': 'math_exception',
    'algorithm_configuration_exception': 'algorithm_exception', 'invalid_name_exception': 'algorithm_exception',
    'bad_config_block_cast': 'config_block_exception', 'bad_config_block_cast_exception': 'config_block_exception', 'no_such_configuration_value_exception': 'config_block_exception',
    'set_on_read_only_value_exception': 'config_block_exception', 'unset_on_read_only_value_exception': 'config_block_exception',
    'config_block_io_exception': 'config_block_exception',
    'config_file_not_found_exception': 'config_block_io_exception', 'config_file_not_read_exception': 'config_block_io_exception',
    'config_file_not_parsed_exception': 'config_block_io_exception', 'config_file_write_exception': 'config_block_io_exception',
}

# words that announce what follows, and the arguments (by position)
TEXT = {
    'invalid_name_exception': (1, 'type', 0),
    'bad_config_block_cast_exception': ('key', 0, 'value', 1, ' as ', 2, 3),
    'bad_configuration_cast_exception': ('key', 0, 'value', 1, ' as ', 2, 3),
    'no_such_configuration_value_exception': ('key', 0),
    'set_on_read_only_value_exception': ('key', 0, 'value', 1, 'set to', 2),
    'unset_on_read_only_value_exception': ('key', 0, 'value', 1, 'unset'),
    'image_size_mismatch_exception': (0, 'given', 3, 4, 'should be', 1, 2),
}
# base classes that only carry the data; their message is made by the derived classes
CARRIER = ('config_block_exception', 'vital_core_base_exception', 'config_block_io_exception')

MEMBERS = {     # members that hold arguments under another name
    'm_algo_type': 'type', 'm_algo_impl': 'impl',
}


def parts(v):
    """a text as a sequence of literals and values"""
    if v[0] == 'cat':
        return [p for x in v[1:] for p in parts(x)]
    if v[0] == 'asc' and len(v) == 2:
        return [v[1]]
    return [v]


def same(v, p):
    return v == ('par', p) or v == ('deref', ('ref', p)) or v == ('asc', ('par', p)) or v[0] == 'cstr' and v[1] == ('par', p) or v == ('deref', ('par', p))


def follows(ps, want, par):
    """the words and arguments appear in this order; the name of the first one missing otherwise"""
    flat = []
    for p in ps:
        if p[0] == 's':
            flat.append(('t', p[1]))
        else:
            i = [k for k, n in enumerate(par) if same(p, n)]
            flat.append(('a', i[0]) if i else ('x', p))
    pos, off = 0, 0
    for w in want:
        while pos < len(flat):
            k, x = flat[pos]
            if isinstance(w, int):
                if k == 'a' and x == w:
                    pos, off = pos + 1, 0
                    break
                if k == 'a':
                    return 'argument %s stands where %s is expected' % (par[x], par[w])
            elif k == 't' and w in x[off:]:
                off += x[off:].index(w) + len(w)
                break
            elif k == 'a' and not isinstance(w, int):
                return 'argument %s stands before the word "%s"' % (par[x], w)
            pos, off = pos + 1, 0
        else:
            return 'no %s' % ('argument %s' % par[w] if isinstance(w, int) else 'word "%s"' % w)
    return None


def check_messages(P, R):
    R.rule('every exception class reaches std::exception by one public path through its documented family; what() gives the text of the object; every constructor leaves a text in which each '
           'argument stands after the words that announce it, and keeps its arguments in the members of their name')
    ex = classes(P)
    texts = {}
    for q, c in sorted(ex.items()):
        n = short(q)
        anc, pub = ancestors(P, q)
        w = '%s:%s %s' % (rel(c['file']), c['l'], q)
        R.sites += 1
        R.ob('E:%s:base' % n, pub and anc.get(TOP) == 1, 'derives publicly and once from std::exception', w, '%s, public %s' % (anc.get(TOP), pub))
        if n in FAMILY:
            R.ob('E:%s:family' % n, any(short(a) == FAMILY[n] for a in anc), 'is a %s' % FAMILY[n], w, ', '.join(short(a) for a in anc))
        # what() resolves to the text of the object
        h = what_of(P, q)
        R.ob('E:%s:what' % n, h is not None, 'what() is defined for the class or its base', w)
        if h is not None:
            E = Engine(P)
            outs = E.run(h)
            R.saw(h, outs)
            for o in outs:
                v = o.val
                if v is not None and v[0] == 'cstr':
                    v = v[1]
                R.ob('E:%s:text' % n, o.kind == 'ret' and v == ('fld', ('deref', ('this',)), 'm_what') or v == E.read(St(), TF('m_what')), 'what() gives the text of the object', where(h), show(o.val)[:80] if o.val else o.kind)
                R.ob('E:%s:pure' % n, not mutations(o), 'what() changes nothing', where(h))
        for f in P.by_q.get(q + '::' + n, []):
            if f.get('body') is None or f.get('impl') or len(f['p']) == 1 and ('%s &' % q) in f['p'][0]['t']:
                continue
            par = [p['n'] for p in f['p']]
            E = Engine(P)
            outs = E.run(f)
            R.saw(f, outs)
            for o in outs:
                R.ob('E:%s:made' % n, o.kind == 'ret', 'the constructor succeeds', where(f), o.kind)
                t = E.read(o.st, TF('m_what'))
                ps = parts(t)
                if n not in CARRIER:
                    R.ob('E:%s:nonempty' % n, t != ('s', '') and not any(x[0] in ('init', 'h') for x in ps), 'the text is set', where(f), show(t)[:120])
                    bad = follows(ps, TEXT.get(n, tuple(range(len(par)))), par)
                    R.ob('E:%s:words' % n, bad is None, 'the text holds every argument after the words that announce it', where(f), '%s: %s' % (bad, show(t)[:200]))
                    alien = [x for x in ps if x[0] != 's' and not any(same(x, p) for p in par)]
                    R.ob('E:%s:alien' % n, not alien, 'the text consists of fixed words and arguments', where(f), '; '.join(show(x)[:80] for x in alien))
                    const = ''.join(x[1] for x in ps if x[0] == 's')
                    if const:
                        texts.setdefault((FAMILY.get(n, ''), const), set()).add(n)
                for m in fields(P, q):
                    if m == 'm_what':
                        continue
                    src = m[2:] if m[2:] in par else MEMBERS.get(m) if MEMBERS.get(m) in par else None
                    v = E.read(o.st, TF(m))
                    if src is not None:
                        R.ob('E:%s:member:%s' % (n, m), same(v, src) or v == ('par', src), 'the member %s holds the argument' % m, where(f), show(v)[:80])
                    else:
                        R.ob('E:%s:set:%s' % (n, m), v != E.read(St(), TF(m)), 'the member %s is set' % m, where(f), show(v)[:80])
    for (_f, t), ns in sorted(texts.items()):
        fam = {n for n in ns if not n.startswith('bad_config')}
        R.ob('E:distinct:%s' % sorted(ns)[0], len(fam) <= 1, 'different failures have different texts', '', '"%s": %s' % (t[:80], ', '.join(sorted(ns))))


def fields(P, q):
    out, todo = [], [q]
    while todo:
        x = todo.pop()
        c = P.cls_by_q.get(x)
        if c:
            out += [f['n'] for f in c['fields']]
            todo += [b['t'] for b in c['bases']]
    return out


def what_of(P, q):
    todo = [q]
    while todo:
        x = todo.pop(0)
        fs = [f for f in P.by_q.get(x + '::what', []) if f.get('body') is not None]
        if fs:
            return fs[0]
        c = P.cls_by_q.get(x)
        todo += [b['t'] for b in (c['bases'] if c else ())]
    return None


# ------------------------------------------------ handlers and escapes
def norm_t(t):
    t = t.replace('const ', '').replace(' const', '').replace('&', '').strip()
    return t


def handles(P, h, t):
    """a handler for type h takes an object of type t"""
    h, t = norm_t(h), norm_t(t)
    if h == '...' or h == t:
        return True
    if h.replace(' ', '') == 'char*' and re.match(r'char ?(\[\d*\]|\*)$', t):
        return True
    return h in ancestors(P, t)[0] or h == TOP and t.startswith('std::') and '*' not in t


class Escapes:
    """exceptions thrown explicitly that leave a function: {type: site}"""

    def __init__(self, P, mine):
        self.P = P
        self.mine = mine
        self.memo = {f['u']: {} for f in P.funcs.values() if mine(f)}
        self.sites = 0
        more = True
        while more:
            more = False
            for f in P.funcs.values():
                if not mine(f) or f.get('body') is None:
                    continue
                out = {}
                self.stmt(f, [i.get('e') for i in f.get('inits', ())], (), None, out)
                self.stmt(f, f['body'], (), None, out)
                if set(out) != set(self.memo[f['u']]):
                    self.memo[f['u']] = out
                    more = True

    def add(self, out, stack, t, site):
        for hs in reversed(stack):
            if any(handles(self.P, h, t) for h in hs):
                return
        out.setdefault(t, site)

    def stmt(self, f, n, stack, cur, out):
        if isinstance(n, list):
            for x in n:
                self.stmt(f, x, stack, cur, out)
            return
        if not isinstance(n, dict):
            return
        if n.get('s') == 'try':
            self.stmt(f, n['b'], stack + (tuple(h['t'] for h in n['h']),), cur, out)
            for h in n['h']:
                self.stmt(f, h['b'], stack, h['t'], out)
            return
        if n.get('k') == 'lambda':
            return
        if n.get('k') == 'throw':
            if n.get('e') is None:
                self.add(out, stack, norm_t(cur) if cur else '?', (f, n.get('l', f['l'])))
            else:
                self.add(out, stack, norm_t(n['t']), (f, n.get('l', f['l'])))
        if n.get('k') in ('call', 'ctor', 'new') and n.get('u') and not n.get('ne'):
            us = {n['u']}
            g = self.P.funcs.get(n['u'])
            if n.get('virt') or g is not None and g.get('virt'):
                us |= set(self.P.overriders(n['u']))
            for u in us:
                h = self.P.funcs.get(u)
                if h is not None and h.get('ne'):
                    continue
                for t, site in self.memo.get(u, {}).items():
                    self.add(out, stack, t, site)
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                self.stmt(f, v, stack, cur, out)


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def mine(f):
    return '/vital/' in f['file'] and '/kwiversys/' not in f['file']


def literals(t):
    return [x[1] for x in subterms(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == 's' and isinstance(x[1], str)]


def check_throws(P, R):
    R.rule('errors are thrown as objects of documented classes or as texts that a handler of the same function takes; the arguments of a throw stand in the places the class names them for; no handler '
           'is hidden by an earlier one or cuts off a derived exception; no explicit throw leaves a function that promises not to throw or a destructor')
    ex = classes(P)
    thrown = 0
    X = Escapes(P, mine)
    X.helpers = helpers(P)
    for f in sorted((f for f in P.funcs.values() if mine(f) and f.get('body') is not None), key=lambda f: (f['file'], f['l'], f['q'])):
        has = False
        for n in nodes([f['body'], [i.get('e') for i in f.get('inits', ())]]):
            if n.get('k') == 'throw' and n.get('e') is not None:
                has = True
                thrown += 1
                t = norm_t(n['t'])
                text = re.match(r'char ?(\[\d*\]|\*)$', t)
                R.ob('E:throw:class', t in ex or re.match(r'std::\w*(error|exception|range|argument|cast)$', t) is not None or text is not None, 'an exception object is thrown',
                     where(f, n.get('l')), t)
                R.ob('E:throw:value', '*' not in t or text is not None, 'exceptions are thrown by value', where(f, n.get('l')), t)
                if short(t) in CARRIER:
                    R.ob('E:throw:bare', False, 'classes without a text of their own are not thrown', where(f, n.get('l')), t)
            if n.get('s') == 'try':
                seen = []
                for h in n['h']:
                    R.sites += 1
                    w = where(f, h.get('l'))
                    hid = [x for x in seen if handles(P, x, h['t'])]
                    R.ob('E:handler:order', not hid, 'a handler is not hidden by an earlier one', w, '%s after %s' % (h['t'], ', '.join(hid)))
                    seen.append(h['t'])
                    t = norm_t(h['t'])
                    if t in ex or t == TOP or t.startswith('std::'):
                        derived = any(t in ancestors(P, q)[0] for q in ex) or t.startswith('std::')
                        R.ob('E:handler:whole', h['t'].rstrip().endswith('&') or not derived, 'exceptions are taken by reference', w, h['t'])
        if has and f['u'] not in X.helpers or any(n.get('u') in X.helpers for n in nodes(f['body']) if n.get('k') == 'call'):
            args_of(P, R, f, ex, X)
    if thrown < 20:
        raise Broken('only %d throw expressions found' % thrown)
    # text thrown as an error is taken in the function itself
    for f in P.funcs.values():
        if not mine(f) or f.get('body') is None:
            continue
        for t, (g, l) in X.memo[f['u']].items():
            if re.match(r'char ?(\[\d*\]|\*)$', t) and g is f:
                R.ob('E:throw:text', False, 'a text thrown as an error is taken where it is thrown', where(f, l), t)
        if f.get('ne') or f['n'].startswith('~'):
            R.functions.add('%s (%s:%s)' % (f['q'], rel(f['file']), f['l']))
            esc = ', '.join('%s from %s line %s' % (short(t), g['q'], l) for t, (g, l) in sorted(X.memo[f['u']].items(), key=lambda x: x[0]))
            R.ob('E:noexcept:%s' % f['q'], not X.memo[f['u']], 'no explicit throw leaves a function that promises not to throw', where(f), esc[:300])


def helpers(P):
    """functions that only fill an exception with two or more of their parameters: their callers are checked instead"""
    called, out = set(), set()
    for f in P.funcs.values():
        if mine(f) and f.get('body') is not None:
            called |= {n['u'] for n in nodes(f['body']) if n.get('k') == 'call' and n.get('u')}
    for f in P.funcs.values():
        if f['u'] not in called or not mine(f) or f.get('body') is None:
            continue
        ths = [n for n in nodes(f['body']) if n.get('k') == 'throw' and n.get('e') is not None]
        if len(ths) == 1 and len(f['p']) >= 2:
            u = {n['n'] for n in nodes(ths[0]['e']) if n.get('k') in ('ref', 'var', 'par') and n.get('n') in [p['n'] for p in f['p']]}
            stmts = f['body'].get('b') or f['body'].get('c') or []
            if len(u) >= 2 and len(u) == len(f['p']) and len([n for n in nodes(f['body']) if n.get('k') == 'call']) == 0:
                out.add(f['u'])
    return out


PATHREASON = ('config_file_not_found_exception', 'config_file_not_read_exception', 'config_file_not_parsed_exception', 'config_file_write_exception',
              'file_not_found_exception', 'file_not_read_exception', 'file_write_exception', 'invalid_file')


def args_of(P, R, f, ex, X):
    """what the throw expressions of one function say"""
    E = Engine(P, opaque=lambda q, fn, e: not q.startswith('std::') and '::operator' not in q and (fn is None or fn['u'] not in X.helpers), throws=lambda q, e: sorted(t for t in X.memo.get(e.get('u'), ()) if t in ex))
    outs = E.run(f)
    R.saw(f, outs)
    key = ('par', f['p'][0]['n']) if f['p'] else None
    val = ('par', f['p'][1]['n']) if len(f['p']) > 1 else None
    done = set()
    for o in outs:
        for e in o.flat():
            if e[0] != 'throw' or not isinstance(e[2], tuple) or len(e[2]) < 3:
                continue
            n = short(e[1])
            args = e[2][2]
            if (e[-1], args) in done:
                continue
            done.add((e[-1], args))
            w = where(f, e[-1])
            P_ = lambda v, k: k is not None and same(v, k[1])
            if n in PATHREASON and len(args) == 2:
                R.ob('E:args:path', not any(' ' in x for x in literals(args[0])) and args[0] != ('s', ''), 'the first argument is the path', w, show(args[0])[:120])
                R.ob('E:args:tested', any(args[0] == x for t in list(o.st.facts) + list(o.flat()) for x in subterms(t) if e is not t), 'the path reported is the one that was tried', w, show(args[0])[:120])
                R.ob('E:args:reason', args[1] != ('s', '') and not same(args[1], f['p'][0]['n'] if f['p'] else ''), 'the second argument is the reason', w, show(args[1])[:120])
            elif n in ('no_such_configuration_value_exception',) and f['q'].split('::')[-2] == 'config_block':
                R.ob('E:args:key', P_(args[0], key), 'the key asked for is reported', w, show(args[0])[:120])
            elif n in ('set_on_read_only_value_exception', 'unset_on_read_only_value_exception'):
                R.ob('E:args:key', P_(args[0], key), 'the key asked for is reported', w, show(args[0])[:120])
                R.ob('E:args:current', not P_(args[1], key) and not P_(args[1], val), 'the current value is reported', w, show(args[1])[:120])
                if len(args) == 3:
                    R.ob('E:args:new', P_(args[2], val), 'the refused value is reported', w, show(args[2])[:120])
            elif n == 'bad_config_block_cast_exception':
                R.ob('E:args:key', P_(args[0], key), 'the key asked for is reported', w, show(args[0])[:120])
                R.ob('E:args:value', any(x[0] in ('out', 'at') for x in subterms(args[1])), 'the value found is reported', w, show(args[1])[:120])
                R.ob('E:args:why', 'what' in show(args[3]) or 'm_what' in show(args[3]), 'the reason of the failed conversion is reported', w, show(args[3])[:120])
            elif n in ('path_not_exists', 'path_not_a_file', 'path_not_a_directory') and len(args) == 1:
                R.ob('E:args:tested', any(t[0] in ('call', 'pcall') and len(t) > 3 and isinstance(t[3], tuple) and show(args[0]) in [show(x) for x in t[3]] for k in o.st.facts for t in (k, k[1]) if isinstance(t, tuple)), 'the path reported is the one that was found wanting',
                     w, show(args[0])[:120])
            elif n == 'image_size_mismatch_exception':
                pass
            elif args and len(args) == 1:
                R.ob('E:args:some', args[0] != ('s', ''), 'the reason is reported', w, show(args[0])[:120])
