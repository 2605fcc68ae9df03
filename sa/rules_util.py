"""rules about the utilities: splitting texts into tokens, walking sparse matrices, timers"""
from base import *
from rules_parser import last
from rules_log import method
import re

NS = 'kwiver::vital::'
NPOS = 2 ** 64 - 1


# ---------------------------------------------------------------------------------------------------- tokenize
def iscall(t):
    return len(t) > 3 and t[0] in ('call', 'pcall')


def is_search(t, s, d):
    """t searches text s for any of the characters d: the position it starts at, else None"""
    if iscall(t) and last(t[1]) == 'find_first_of' and t[2] == s and t[3] and t[3][0] == d:
        return t[3][1] if len(t[3]) > 1 else ('c', 0)
    return None


def piece(t, s):
    """t is a part of the text s: (begin, length) or (begin, None) for the rest"""
    if t[0] == 'ctor' and last(t[1]) in ('string', 'basic_string') or t[0] == 'ctor' and 'basic_string' in t[1]:
        a = t[2]
        if len(a) == 1:
            return piece(a[0], s)
        if len(a) == 2 and a[0][0] == 'op' and a[0][1] == '+':
            x, y = a[0][2:]
            base = lambda z: z == s or iscall(z) and last(z[1]) in ('data', 'c_str') and z[2] == s
            if base(x):
                if a[1][0] == 'op' and a[1][1] == '+' and base(a[1][2]):            # a pair of pointers
                    return (y, ('op', '-', a[1][3], y))
                return (y, a[1])
            if x == ('begin', s) and a[1][0] == 'op' and a[1][1] == '+' and a[1][2] == ('begin', s):
                return (y, ('op', '-', a[1][3], y))
        if len(a) == 3 and a[0] == s:
            return (a[1], a[2])
        if len(a) == 2 and a[0] == s:
            return (a[1], None)
        return None
    if iscall(t) and last(t[1]) == 'substr' and t[2] == s:
        if len(t[3]) == 2:
            return (t[3][0], None if t[3][1] == ('c', NPOS) else t[3][1])
        if len(t[3]) == 1:
            return (t[3][0], None)
        return (('c', 0), None)
    if t[0] == 'substr' and len(t) >= 3 and t[1] == s:
        return (t[2], t[3] if len(t) > 3 else None)
    if t[0] == 'ref' and isinstance(t[1], tuple):
        return piece(t[1], s)
    return None


def check_tokenize(P, rep):
    R = Pre(rep, 'U01:tokenize:')
    fs_ = [f for f in P.funcs.values() if strip_targs(f['q']) == NS + 'tokenize' and f.get('body') is not None]
    if not fs_:
        raise Broken('no instance of tokenize to analyse')
    for f in fs_:
        E = Engine(P)
        s, d = ('deref', ('ref', f['p'][0]['n'])), ('deref', ('ref', f['p'][2]['n']))
        outp, trim = ('P', ('ref', f['p'][1]['n'])), ('par', f['p'][3]['n'])
        outs = E.run(f)
        R.saw(f, outs)
        check_tokenize_in(R, f, outs, s, d, outp, trim)


def kept_search(e, s, d):
    """variables that hold, at each begin of an iteration, the search from where another variable says: {variable: that search}"""
    out = {}
    init = dict(e[4])
    for x, v0 in init.items():
        i0 = is_search(v0, s, d) if v0 else None
        if i0 is None:
            continue
        for l, l0 in init.items():
            if l == x or l0 != i0:
                continue
            hl = ('loopv', e[1], l)
            if e[3] and all(dict(up).get(x) is not None and is_search(dict(up)[x], s, d) is not None and is_search(dict(up)[x], s, d) == dict(up).get(l, hl) for fs2, b, up in e[3]):
                out[('loopv', e[1], x)] = ('pcall', v0[1], s, (d, hl)) + tuple(v0[4:])
    return out


def appended(evs, outp):
    return [(e[2], e[3]) for e in evs if e[0] == 'cmut' and e[1] == outp]


def check_tokenize_in(R, f, outs, s, d, outp, trim):
    oid = '%s:%s' % (f['p'][1]['t'].split('<')[0].split('::')[-1], f['l'])
    loops, subst = {}, {}
    for o in outs:
        for e in o.st.events:
            if e[0] == 'loop' and any(is_search(t, s, d) is not None for fs2, ev, up in e[3] for k in list(dict(fs2)) + list(dict(up).values()) for t in subterms(k)):
                loops[e[1]] = e
                subst.update(kept_search(e, s, d))
    rep = lambda t: subst[t] if t in subst else tuple(rep(x) for x in t) if isinstance(t, tuple) else t
    if len(loops) != 1:
        return R.ob(oid + ':loop', False, 'one loop looks for the delimiters', where(f), '%d loops' % len(loops))
    lid, ev = list(loops.items())[0]
    if subst:
        ev = rep(ev)
    # the variable that says where the current token begins: the start of the searches in the loop
    starts = set(st for fs2, b, up in ev[3] for k in dict(fs2) for t in subterms(k) for st in [is_search(t, s, d)] if st is not None)
    paths = [(dict(fs2), b, dict(up), 'on', None) for fs2, b, up in ev[3]]
    for o in outs:
        if o.kind not in ('ret', 'next'):
            R.ob(oid + ':kind', False, 'tokenize returns', where(f), fmt_path(o)[:300])
            continue
        i = [k for k, x in enumerate(o.st.events) if x[0] == 'loop' and x[1] == lid]
        rest = o.st.events[i[0] + 1:]
        paths.append((dict((rep(k), v) for k, v in o.facts.items()), rep(tuple(rest)), {}, 'off', o))
    init = dict(ev[4])
    L = [t for t in starts if t[0] == 'loopv' or t[0] == 'idx']
    if len(L) != 1:
        return R.ob(oid + ':start', False, 'each search starts where the current token begins', where(f), str([show(t) for t in starts])[:300])
    L = L[0]
    start0 = init.get(L[2]) if L[0] == 'loopv' else L[2]
    R.ob(oid + ':begin', start0 == ('c', 0), 'the first token begins with the text', where(f), show(start0) if start0 else 'not set')
    search = set(t for facts, b, up, kind, o in paths
                 for x in list(facts) + [y for _, y in appended(b, outp)] + [v for k, v in up.items() if L[0] == 'loopv' and k == L[2]]
                 for t in subterms(x) if is_search(t, s, d) is not None)
    bad = [t for t in search if is_search(t, s, d) != L]
    R.ob(oid + ':search', not bad, 'the end of a token is the next delimiter from where it begins', where(f), str([show(t) for t in bad])[:300])
    if bad:
        return
    size = ('size', s)
    seen = {}
    for found in (True, False):
        for empty in (True, False):
            for tr in (0, 1):
                env = {L: 5, trim: tr}
                p = (5 if empty else 9) if found else NPOS
                for t in search:
                    env[t] = p
                env[size] = 30 if found else (5 if empty else 9)
                for q in ('length', 'size'):
                    pass
                want_push = not (empty and tr)
                hit = [x for x in paths if fits_text(x[0], env, s)]
                what = '%s, %s token, %s' % ('before a delimiter' if found else 'last', 'empty' if empty else 'non-empty', 'trimming' if tr else 'not trimming')
                if not hit:
                    R.ob(oid + ':case', False, 'a token is handled: ' + what, where(f), 'no path')
                    continue
                seen[(found, empty, tr)] = 1
                for facts, b, up, kind, o in hit:
                    ps = appended(b, outp)
                    bad = []
                    if found != (kind == 'on'):
                        bad.append('the loop is %s' % ('left' if kind == 'off' else 'not left'))
                    if not want_push and ps:
                        bad.append('the token is added')
                    if want_push and len(ps) != 1:
                        bad.append('%d tokens are added' % len(ps))
                    for name, a in ps:
                        if name not in ('push_back', 'emplace_back'):
                            bad.append('%s on the list' % name)
                            continue
                        if len(a) == 1:
                            pc = piece(a[0], s)
                        else:
                            pc = piece(('ctor', 'std::basic_string', a), s)
                        if pc is None:
                            bad.append('what is added is not a part of the text: %s' % show(a[0])[:150])
                            continue
                        lo = cval(pc[0], env)
                        n = cval(pc[1], env) if pc[1] is not None else env[size] - (lo if lo is not None else 0)
                        wn = (p if found else env[size]) - 5
                        if lo != 5 or not (n == wn or not found and n is not None and n >= wn and pc_checked(a)):
                            bad.append('the token is not what lies between the delimiters: begins at +%s, %s characters instead of %s'
                                       % (lo - 5 if lo is not None else '?', n, wn))
                    if kind == 'on':
                        nx = next_value(L, up, env)
                        if nx != p + 1:
                            bad.append('the next token does not begin after the delimiter')
                    R.ob(oid + ':case', not bad, 'a token is handled: ' + what, where(f), '; '.join(bad) + ' facts ' + str([(show(k), v) for k, v in facts.items()])[:300])
    for o in outs:
        before = [e for e in o.st.events if e[0] == 'cmut' and e[1] == outp and o.st.events.index(e) < [k for k, x in enumerate(o.st.events) if x[0] == 'loop' and x[1] == lid][0]]
        R.ob(oid + ':kept', not before, 'the list keeps what it held', where(f), str(before)[:200])


def pc_checked(a):
    """the length of a part is cut at the end of the text (substr), not taken as given (a pointer and a length)"""
    t = a[0]
    while t[0] == 'ctor' and len(t[2]) == 1 or t[0] == 'ref' and isinstance(t[1], tuple):
        t = t[2][0] if t[0] == 'ctor' else t[1]
    return t[0] in ('call', 'pcall', 'substr') or t[0] == 'ctor' and len(t[2]) == 3


def next_value(L, up, env):
    if L[0] == 'idx':
        return env[L] + 1
    v = up.get(L[2])
    return None if v is None else cval(v, env)


def fits_text(facts, env, s):
    for k, v in facts.items():
        x = cval(k, env)
        if x is None and k[0] == 'empty':
            pc = piece(k[1], s)
            if pc is not None:
                n = cval(pc[1], env) if pc[1] is not None else env[('size', s)] - (cval(pc[0], env) or 0)
                x = None if n is None else int(n == 0)
        if x is not None and bool(x) != v:
            return False
    return True


class Pre(object):
    def __init__(self, rep, pre):
        self.rep, self.pre = rep, pre

    def ob(self, oid, ok, text, where='', detail=''):
        return self.rep.ob(self.pre + oid, ok, text, where, detail)

    def saw(self, f, outs=None):
        self.rep.saw(f, outs)


# ---------------------------------------------------------------------------------------------------- sparse matrices
def thisf(n):
    return ('fld', ('deref', ('this',)), n)


def fields_of(o, n):
    """the value of the member at the end of the path"""
    return o.st.store.get(('F', ('P', ('this',)), n), thisf(n))


def is_inner_new(t):
    return t[0] == 'new' and last(t[1]) == 'InnerIterator'


def check_enumerate(P, rep):
    R = Pre(rep, 'U01:enumerate:')
    classes = sorted(set(f['q'].rsplit('::iterator::', 1)[0] for f in P.funcs.values()
                         if f['q'].startswith(NS + 'sparse_matrix_enumerator<') and '::iterator::' in f['q']))
    if len(classes) < 2:
        raise Broken('instances of sparse_matrix_enumerator: %d' % len(classes))
    for c in classes:
        check_enumerator(P, R, c)


def roles(P, c):
    """the members by what they are"""
    rec = [r for r in P.classes.values() if r['q'] == c + '::iterator']
    if not rec:
        raise Broken('%s::iterator is gone' % c)
    fs_ = [(x['n'], x['t']) for x in rec[0]['fields']]
    inner = [n for n, t in fs_ if 'unique_ptr' in t or 'shared_ptr' in t]
    matrix = [n for n, t in fs_ if t.rstrip(' const').endswith('*') and n not in inner]
    index = [n for n, t in fs_ if n not in inner + matrix]
    if len(inner) != 1 or len(matrix) != 1:
        raise Broken('members of %s::iterator: %s' % (c, fs_))
    return inner[0], matrix[0], index


def check_enumerator(P, R, c):
    short = c[len(NS):].replace('sparse_matrix_enumerator', '')
    inner, matrix, index = roles(P, c)
    Q = c + '::iterator::'
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('Eigen::'))
    I = lambda o: fields_of(o, inner)

    def valid_at_end(o):
        """at the end there is no cell iterator, or one that stands at a cell"""
        v = I(o)
        if v == ('c', 0):
            return True
        t = E.truth(o.st, ('nz', v))
        if t is False:
            return True
        for k, b in o.facts.items():
            if k[0] == 'nz' and iscall(k[1]) and last(k[1][1]) == 'operator bool' and k[1][2] == ('deref', v) and b:
                return True
        return False

    ctors = [f for f in method(P, Q + 'iterator')]
    dflt = [f for f in ctors if not f['p']]
    frm = [f for f in ctors if len(f['p']) == 1 and 'SparseMatrix' in f['p'][0]['t'] and 'iterator' not in f['p'][0]['t'].split('&')[0].split('::')[-1]]
    cpy = [f for f in ctors if len(f['p']) == 1 and f not in frm]
    if len(dflt) != 1 or len(frm) != 1 or len(cpy) != 1:
        raise Broken('constructors of %siterator' % Q)
    # the end
    outs = E.run(dflt[0])
    R.saw(dflt[0], outs)
    for o in outs:
        R.ob('end' + short, I(o) == ('c', 0), 'an iterator without a matrix is at the end', where(dflt[0]), fmt_path(o)[:200])
    # from a matrix
    f = frm[0]
    mat = ('ref', f['p'][0]['n'])
    outs = E.run(f)
    R.saw(f, outs)
    end = outer = None
    for o in outs:
        for e in o.st.events:
            if e[0] == 'init' and e[1][0] == 'F':
                if iscall(e[2]) and last(e[2][1]) == 'outerSize':
                    end = e[1][2]
                elif e[1][2] in index and e[2] == ('c', 0):
                    outer = e[1][2]
    cand = [n for n in index if n != end]
    if outer is None and len(cand) == 1:
        outer = cand[0]
    if outer is None:
        return R.ob('outer' + short, False, 'the walk starts at the first outer vector', where(f), str(index))
    size_of = lambda t: iscall(t) and last(t[1]) == 'outerSize'
    for o in outs:
        ini = dict((e[1][2], e[2]) for e in o.st.events if e[0] == 'init' and e[1][0] == 'F')
        pre = None
        for e in o.st.events:
            if e[0] == 'loop':
                pre = dict(e[4])
                break
        R.ob('matrix' + short, fields_of(o, matrix) == mat, 'the iterator walks the matrix it is given', where(f), show(fields_of(o, matrix)))
        for n in (0, 4):
            env = dict((t, n) for k in o.facts for t in subterms(k) if size_of(t))
            if not fits(o.facts, env):
                continue
            v0 = ini.get(inner, ('c', 0))
            if n == 0:
                R.ob('none' + short, I(o) == ('c', 0) and not any(is_inner_new(t) for x in o.flat() if x[0] == 'new' for t in [x[1]]) or (pre is not None and v0 == ('c', 0) and valid_at_end(o)),
                     'without outer vectors there is nothing to walk', where(f), fmt_path(o)[:300])
            else:
                first = is_inner_new(v0) and v0[2] == (('deref', mat), ('c', 0)) and ini.get(outer) == ('c', 0)
                late = v0 == ('c', 0) and ini.get(outer) == ('c', 0) and pre is not None and not first \
                    and bodies_fill(o, inner, outer, mat)
                R.ob('first' + short, first or late, 'the walk starts with the first outer vector', where(f), show(v0) + ' ' + fmt_path(o)[:200])
        R.ob('stand' + short, valid_at_end(o), 'after construction the iterator stands at a cell or at the end', where(f), fmt_path(o)[:300])
        check_steps(R, E, P, f, o, inner, outer, end, matrix, ('deref', mat), short)
    # copies
    f = cpy[0]
    ot = ('deref', ('ref', f['p'][0]['n']))
    outs = E.run(f)
    R.saw(f, outs)
    for o in outs:
        bad = [n for n in [matrix] + index if fields_of(o, n) != ('fld', ot, n)]
        oi = ('fld', ot, inner)
        t = E.truth(o.st, ('nz', oi))
        v = I(o)
        ok = (t is False and (v == ('c', 0) or v == oi)) or (t is not False and is_inner_new(v) and v[2] == (('deref', oi),) and t)
        R.ob('copy' + short, not bad and ok, 'a copy stands where the original stands', where(f), '%s %s' % (bad, show(v)) + fmt_path(o)[:200])
    # ++
    for f in method(P, Q + 'operator++', 0):
        outs = E.run(f)
        R.saw(f, outs)
        i0 = thisf(inner)
        for o in outs:
            t = E.truth(o.st, ('nz', i0))
            inc = [k for k, e in enumerate(o.st.events) if e[0] == 'call' and last(e[1]) == 'operator++']
            if t is False:
                R.ob('inc.end' + short, not inc and I(o) in (i0, ('c', 0)), 'at the end ++ does nothing', where(f), fmt_path(o)[:300])
                continue
            loops = [k for k, e in enumerate(o.st.events) if e[0] == 'loop']
            ok = t is True and len(inc) == 1 and o.st.events[inc[0]][2] == ('deref', i0) and all(k > inc[0] for k in loops)
            R.ob('inc' + short, ok, '++ goes to the next cell of the outer vector, once', where(f), '%d steps, path %s' % (len(inc), fmt_path(o)[:300]))
            R.ob('inc.stand' + short, valid_at_end(o), 'after ++ the iterator stands at a cell or at the end', where(f), fmt_path(o)[:300])
            check_steps(R, E, P, f, o, inner, outer, end, matrix, ('deref', thisf(matrix)), short)
    # comparison
    for nm, sense in (('operator==', 1), ('operator!=', 0)):
        for f in method(P, Q + nm):
            ot = ('deref', ('ref', f['p'][0]['n']))
            outs = E.run(f)
            R.saw(f, outs)
            a, b = thisf(inner), ('fld', ot, inner)
            terms = set(t for o in outs for k in list(o.facts) + [o.val] for t in subterms(k))
            acc = [t for t in terms if iscall(t) and last(t[1]) in ('index', 'row', 'col', 'value', 'outer')]
            for va in (0, 1):
                for vb in (0, 1):
                    for sm, so, si in ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)):
                        env = {a: va and 100, b: vb and 200, thisf(matrix): 1000, ('fld', ot, matrix): 1000 if sm else 2000,
                               thisf(outer): 3, ('fld', ot, outer): 3 if so else 4}
                        if end:
                            env[thisf(end)] = 9
                            env[('fld', ot, end)] = 9
                        for t in acc:
                            own = t[2] == ('deref', a)
                            isin = last(t[1]) == 'index' or (last(t[1]) == 'row') == (', 0, ' in c) and last(t[1]) in ('row', 'col')
                            if last(t[1]) == 'value':
                                continue
                            env[t] = (7 if own or si else 8) if isin else (3 if own or so else 4)
                        want = int(not va and not vb or bool(va and vb and sm and so and si))
                        if not (va and vb) and (sm, so, si) != (1, 1, 1) and va + vb == 1:
                            continue
                        hit = reach_(outs, env)
                        vals = set(cval(o.val, env) for o in hit)
                        R.ob('cmp%s.%s.%d%d%d%d%d' % (short, nm[-2:], va, vb, sm, so, si), vals == {want if sense else 1 - want},
                             'iterators are equal exactly when both are at the end or stand at the same cell', where(f),
                             'valid %d %d, same matrix %d, same outer vector %d, same cell of it %d: %s' % (va, vb, sm, so, si, vals))
                        # nothing is read through an iterator that is at the end
                        for o in hit:
                            for k in o.facts:
                                for t in subterms(k):
                                    if t in acc and cval(t[2][1], env) == 0:
                                        R.ob('cmp%s.%s.null' % (short, nm[-2:]), False, 'no cell is read through an iterator at the end', where(f), fmt_path(o)[:300])
    # plain members
    for nm, want in (('operator*', ('deref', thisf(inner))),):
        for f in method(P, Q + nm):
            outs = E.run(f)
            R.saw(f, outs)
            R.ob('deref' + short, outs and all(o.kind == 'ret' and strip_copy(o.val) == want for o in outs), '* gives the cell the iterator stands at', where(f), show(outs[0].val)[:200])
    em = sorted(set(x['n'] for r in P.classes.values() for x in r['fields'] if x['q'].rsplit('::', 1)[0] == c))
    for f in method(P, c + '::sparse_matrix_enumerator', 1):
        outs = E.run(f)
        R.saw(f, outs)
        if 'SparseMatrix' in f['p'][0]['t'] and 'enumerator' not in f['p'][0]['t']:
            R.ob('holds' + short, all(any(fields_of(o, n) == ('ref', f['p'][0]['n']) for n in em) for o in outs), 'the adaptor refers to the matrix', where(f), fmt_path(outs[0])[:200])
    for f in method(P, c + '::begin'):
        outs = E.run(f)
        R.saw(f, outs)
        R.ob('begin' + short, all(o.kind == 'ret' and strip_copy(o.val)[0] == 'ctor' and strip_copy(o.val)[2] in [(('deref', thisf(n)),) for n in em] for o in outs),
             'begin() stands at the first cell of the matrix', where(f), show(outs[0].val)[:200])
    for f in method(P, c + '::end'):
        outs = E.run(f)
        R.saw(f, outs)
        R.ob('end()' + short, all(o.kind == 'ret' and strip_copy(o.val)[0] == 'ctor' and strip_copy(o.val)[2] == () for o in outs),
             'end() is past the last cell', where(f), show(outs[0].val)[:200])


def strip_copy(t):
    while t[0] == 'ctor' and len(t[2]) == 1 and t[2][0][0] in ('ctor', 'deref') and last(t[1]) in ('iterator', 'InnerIterator') and t[2][0][0] == 'ctor':
        t = t[2][0]
    return t


def reach_(outs, env):
    return [o for o in outs if fits(o.facts, env)]


def bodies_fill(o, inner, outer, mat):
    """a loop that makes the cell iterator of the current outer vector at its start"""
    for e in o.st.events:
        if e[0] == 'loop':
            return all(any(x[0] == 'write' and x[1][0] == 'F' and x[1][2] == inner and is_inner_new(x[2]) for x in b) for fs2, b, up in e[3] if b)
    return False


def check_steps(R, E, P, f, o, inner, outer, end, matrix, mat, short):
    """one outer vector at a time is left, and only after its last cell"""
    for e in o.st.events:
        if e[0] != 'loop':
            continue
        lid = e[1]
        io, oo = ('F', ('P', ('this',)), inner), ('F', ('P', ('this',)), outer)
        init = dict(e[4])
        for fs2, b, up in e[3]:
            facts, upd = dict(fs2), dict(up)
            nx = upd.get(oo)
            head = None
            if nx is not None and nx[0] == 'op' and nx[1] == '+' and nx[3] == ('c', 1) or nx is not None and nx[0] == 'op':
                head = nx[2]
            hi = ('loopv', lid, io)
            exhausted = [k[1][2] for k, v in facts.items() if k[0] == 'nz' and not v and iscall(k[1]) and last(k[1][1]) == 'operator bool']
            wr = [x for x in b if x[0] == 'write' and x[1] == io]
            here = ('deref', hi) in exhausted or any(t[0] == 'deref' and is_inner_new(t[1]) and t[1][2][1] == head for t in exhausted)
            bad = []
            if not here and (('nz', hi), False) not in facts.items():
                bad.append('an outer vector is left before its last cell')
            writes = [x for x in b if x[0] == 'write' and x[1] == oo]
            hv = head if head is not None else ('loopv', lid, oo)
            idx = [t for x in writes for t in subterms(x[2]) if t[0] in ('idx', 'loopv') and t[1] == lid]
            if not writes and nx is None:
                bad.append('the outer vector never changes')
            if idx:
                hv = idx[0]
            env = {hv: 2}
            if writes and cval(writes[-1][2], env) != 3:
                bad.append('it goes from one outer vector to %s' % show(writes[-1][2])[:100])
            for n in (3, 5):
                env = {hv: 2}
                for k in list(facts):
                    for t in subterms(k):
                        if iscall(t) and last(t[1]) == 'outerSize' or end and t == thisf(end):
                            env[t] = n
                        elif t and t[0] == 'loopv' and end and t[2] == ('F', ('P', ('this',)), end):
                            env[t] = n
                if not fits(facts, env):
                    continue
                if not wr:
                    bad.append('the cells of the new outer vector are not looked at')
                    continue
                v = wr[-1][2]
                if n == 3 and v != ('c', 0) and not (is_inner_new(v) and cval(v[2][1], env) == 2):
                    bad.append('after the last outer vector the iterator is not at the end: %s' % show(v)[:100])
                if n == 5 and not (is_inner_new(v) and v[2][0] == mat and cval(v[2][1], env) in ((3,) if ('deref', hi) in exhausted else (2,))):
                    bad.append('it does not go to the cells of the next outer vector: %s' % show(v)[:150])
            R.ob('step' + short, not bad, 'outer vectors are walked one after the other, each to its last cell', where(f), '; '.join(bad) + ' facts ' + str([(show(k), v) for k, v in facts.items()])[:400])


# ---------------------------------------------------------------------------------------------------- timers
CLOCKS = {'cpu': ('clock', 'std::clock'),
          'wall': ('std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::high_resolution_clock::now',
                   'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now')}


def ratio(t):
    m = re.search(r'std::ratio<\s*(\d+)\s*,\s*(\d+)\s*>', t)
    return int(m.group(1)) / int(m.group(2)) if m else 1.0


def period(t, env):
    """the number a time term stands for once the readings are fixed; durations in seconds"""
    if t in env:
        return env[t]
    if t[0] == 'c':
        return t[1]
    if t[0] in ('nz',):
        v = period(t[1], env)
        return None if v is None else int(v != 0)
    if t[0] == 'ctor' and ('duration' in t[1] or 'time_point' in t[1]):
        if len(t[2]) == 0:
            return 0
        v = period(t[2][0], env)
        if v is None:
            return None
        if re.search(r'duration<\s*(long|int|unsigned|long long|short)\b', t[1]):
            r = ratio(t[1].replace(' ', ''))
            return int(v / r) * r
        return v
    if t[0] in ('call', 'pcall'):
        n = last(strip_targs(t[1]))
        a = t[3]
        if n in ('operator-', 'operator+') and len(a) == 2:
            x, y = period(a[0], env), period(a[1], env)
            return None if None in (x, y) else (x - y if n == 'operator-' else x + y)
        if n in ('operator-', 'operator+') and len(a) == 1 and t[2] is not None:
            x, y = period(t[2], env), period(a[0], env)
            return None if None in (x, y) else (x - y if n == 'operator-' else x + y)
        if n == 'operator/' and len(a) == 2:
            x, y = period(a[0], env), period(a[1], env)
            return None if None in (x, y) or not y else x / y
        if n == 'count' and t[2] is not None:
            v = period(t[2], env)
            return None if v is None else v / ratio(t[1])
        if n == 'duration_cast' and len(a) == 1:
            v = period(a[0], env)
            if v is None:
                return None
            ty = t[4] if len(t) > 4 and isinstance(t[4], str) else t[1]
            r = ratio(ty)
            return int(v / r) * r if not re.search(r'duration<\s*(double|float)', ty) else v
    if t[0] == 'ref' and isinstance(t[1], tuple):
        return period(t[1], env)
    if t[0] == 'op' and len(t) == 4:
        x, y = period(t[2], env), period(t[3], env)
        if None in (x, y):
            return None
        if t[1] == '/':
            return x / y if y else None
        return {'-': lambda: x - y, '+': lambda: x + y, '*': lambda: x * y, '==': lambda: int(x == y), '<': lambda: int(x < y)}.get(t[1], lambda: None)()
    if t[0] == 'op' and t[1] == '?:' and len(t) == 5:
        c = period(t[2], env)
        return None if c is None else period(t[3] if c else t[4], env)
    return None


def int_divisions(node, out):
    """divisions of whole numbers in a syntax tree"""
    if isinstance(node, dict):
        if node.get('k') in ('bin', 'asg') and node.get('op') in ('/', '/=') and not any(x in str(node.get('t')) for x in ('double', 'float', 'duration')):
            out.append(node)
        for v in node.values():
            int_divisions(v, out)
    elif isinstance(node, list):
        for v in node:
            int_divisions(v, out)


def check_timers(P, rep):
    R = Pre(rep, 'U01:timer:')
    E = Engine(P)
    act = method(P, NS + 'timer::is_active')
    if len(act) != 1:
        raise Broken('timer::is_active is gone')
    outs = E.run(act[0])
    R.saw(act[0], outs)
    flag = outs[0].val[2] if len(outs) == 1 and outs[0].val[0] == 'fld' else None
    R.ob('active', flag is not None, 'is_active() says whether the timer runs', where(act[0]), fmt_path(outs[0])[:200])
    if flag is None:
        return
    for kind in ('cpu', 'wall'):
        c = NS + kind + '_timer::'
        short = kind + '.'
        M = {}
        for n in ('start', 'stop', 'elapsed', 'timer_available', kind + '_timer'):
            fs_ = method(P, c + n, 0)
            if len(fs_) != 1:
                raise Broken('%s%s is not there' % (c, n))
            M[n] = fs_[0]
        o1 = E.run(M['timer_available'])
        R.ob(short + 'available', all(o.kind == 'ret' and o.val == ('c', 1) for o in o1), 'the %s timer times' % kind, where(M['timer_available']), fmt_path(o1[0])[:200])
        outs = E.run(M[kind + '_timer'])
        R.saw(M[kind + '_timer'], outs)
        for o in outs:
            R.ob(short + 'idle', fields_of(o, flag) == ('c', 0), 'a new timer does not run', where(M[kind + '_timer']), fmt_path(o)[:200])
        new = dict((l[2], v) for o in outs for l, v in o.st.store.items() if l[0] == 'F' and l[1] == ('P', ('this',)))
        # start and stop: what they record
        rec = {}
        for n, on in (('start', 1), ('stop', 0)):
            outs = E.run(M[n])
            R.saw(M[n], outs)
            for o in outs:
                R.ob(short + n + '.flag', o.kind == 'ret' and fields_of(o, flag) == ('c', on), '%s() %s the timer' % (n, 'starts' if on else 'stops'), where(M[n]), fmt_path(o)[:200])
                w = dict((e[1][2], e[2]) for e in o.flat() if e[0] == 'write' and e[1][0] == 'F' and e[1][1] == ('P', ('this',)) and e[1][2] != flag)
                rd = [x for x, v in w.items() if v[0] in ('call', 'pcall') and v[1] in CLOCKS[kind]]
                R.ob(short + n + '.reads', len(rd) == 1, '%s() records the %s clock' % (n, 'CPU' if kind == 'cpu' else 'wall'), where(M[n]), str([(x, show(v)) for x, v in w.items()])[:200])
                rec.setdefault(n, set()).update(rd)
                oth = [x for x in w if x not in rd]
                rec.setdefault(n + '!', set()).update(oth)
        if len(rec.get('start', ())) != 1 or len(rec.get('stop', ())) != 1:
            continue
        S, T = list(rec['start'])[0], list(rec['stop'])[0]
        R.ob(short + 'stop.keeps', S not in rec.get('stop', set()) | rec.get('stop!', set()), 'stop() keeps when the timer was started', where(M['stop']))
        # elapsed
        f = M['elapsed']
        outs = E.run(f)
        R.saw(f, outs)
        for running in (1, 0):
            env = {thisf(flag): running, thisf(S): 10.25, thisf(T): 17.5}
            hit = [o for o in outs if fits(o.facts, env)]
            R.ob(short + 'elapsed.any', bool(hit), 'elapsed() returns', where(f))
            for o in hit:
                now = [e for e in o.flat() if e[0] == 'call' and e[1] in CLOCKS[kind]]
                ev = dict(env)
                for e in now:
                    ev[e[4]] = 13.75
                scale = 1e6 if kind == 'cpu' else 1
                got = period(o.val, ev) if o.kind == 'ret' else None
                want = (13.75 if running else 17.5) - 10.25
                what = 'from start() until %s' % ('now' if running else 'stop()')
                R.ob(short + 'elapsed.%d' % running, got is not None and abs(got * scale - want) < 1e-9 and (not running or len(now) == 1),
                     'elapsed() of a %s timer is the time %s, in seconds' % ('running' if running else 'stopped', what), where(f), '%s gives %s instead of %s' % (show(o.val)[:200], got, want / scale))
                w = [e for e in o.flat() if e[0] == 'write' and e[1][0] == 'F' and e[1][1] == ('P', ('this',))]
                R.ob(short + 'elapsed.pure', not w, 'elapsed() changes nothing', where(f), str(w)[:200])
        dv = []
        int_divisions(f.get('body'), dv)
        R.ob(short + 'fraction', not dv, 'elapsed() keeps fractions of a second', where(f), 'division of whole numbers')
        R.ob(short + 'zero', S == T or new.get(S) == new.get(T), 'a timer that was never started has elapsed 0', where(M[kind + '_timer']), '%s %s' % (new.get(S), new.get(T)))
    # scoped timers
    names = ('start', 'stop', 'elapsed')
    E2 = Engine(P, opaque=lambda q, fn, e: last(q) in names)
    for f in sorted(P.funcs.values(), key=lambda f: (f['q'], f['l'])):
        if not f['q'].startswith(NS + 'scoped_timer<') or f.get('body') is None:
            continue
        n = last(strip_targs(f['q'].split('>::', 1)[-1]))
        short = 'scoped.' + f['q'].split('<')[1].split('>')[0].split('::')[-1] + '.'
        if n == 'scoped_timer' and not (f['p'] and 'scoped_timer' in f['p'][0]['t']):
            outs = E2.run(f)
            R.saw(f, outs)
            for o in outs:
                cs = [last(e[1]) for e in o.flat() if e[0] == 'call' and last(e[1]) in names]
                R.ob(short + 'ctor', cs == ['start'], 'a scoped timer starts when it is made', where(f), str(cs))
                if f['p']:
                    R.ob(short + 'title', any(e[0] in ('init', 'write') and e[2] == ('deref', ('ref', f['p'][0]['n'])) for e in o.flat()), 'it keeps its title', where(f), fmt_path(o)[:200])
        elif n == '~scoped_timer':
            outs = E2.run(f)
            R.saw(f, outs)
            for o in outs:
                cs = [(last(e[1]), e[4]) for e in o.flat() if e[0] == 'call' and last(e[1]) in names]
                nm = [x[0] for x in cs]
                R.ob(short + 'dtor', 'elapsed' in nm and nm.count('elapsed') == 1 and 'start' not in nm and ('stop' not in nm[nm.index('elapsed'):]), 'a scoped timer is stopped and read when it ends', where(f), str(nm))
                el = [x[1] for x in cs if x[0] == 'elapsed']
                em = [e[2] for e in o.flat() if e[0] == 'emit' and e[1][0] not in ('L', 'T')]
                R.ob(short + 'report', el and em.count(el[0]) == 1, 'the elapsed time is reported once', where(f), fmt_path(o)[:300])
                # the title, exactly when there is one
                tf = [x for x in em if x[0] == 'fld' and x[1] == ('deref', ('this',))]
                emp = [v for k, v in o.facts.items() if k[0] == 'empty' and k[1][0] == 'fld']
                ok = not (tf and emp and emp[0]) and not (not tf and emp and not emp[0])
                R.ob(short + 'named', ok, 'the report names the title if there is one', where(f), fmt_path(o)[:300])
