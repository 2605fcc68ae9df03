"""rules about timestamps, tracks and track sets"""
import itertools

from base import *
from rules_parser import last

NS = 'kwiver::vital::'
TS = NS + 'timestamp'
TR = NS + 'track'
SET = NS + 'track_set'
ME = ('this',)


def fld(obj, name):
    return ('fld', ('deref', obj), name)


def final(E, o, obj, name):
    return E.read(o.st, ('F', ('P', obj), name))


# ---------------------------------------------------------------- timestamps
def check_timestamps(P, rep):
    rep.rule('comparison operators agree with the specification for all 288 combinations of domain equality, validity flags and order of times and frames')
    rep.rule('setters write the value and its validity flag and nothing else; constructors set all members')
    E = Engine(P)
    ops = {'operator<': lambda a, b: a < b, 'operator>': lambda a, b: a > b, 'operator==': lambda a, b: a == b, 'operator!=': lambda a, b: a != b}
    for name, cmp in sorted(ops.items()):
        fs = [f for f in P.methods(TS) if last(f['q']) == name]
        fs += [f for f in P.find(NS + name) if len(f['p']) == 2 and all('timestamp' in p['t'] for p in f['p'])]
        if not fs:
            raise Broken('%s of timestamp not found' % name)
        for f in fs:
            outs = E.run(f)
            rep.saw(f, outs)
            if len(f['p']) == 1:
                A, B = ME, ('ref', f['p'][0]['n'])
            else:
                A, B = (('ref', p['n']) for p in f['p'])
            bad, n = [], 0
            for dom, va, vb, fa, fb, t, r in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1, 2)):
                env = {fld(A, 'm_time_domain_index'): 5, fld(B, 'm_time_domain_index'): 5 if dom else 6,
                       fld(A, 'm_valid_time'): va, fld(B, 'm_valid_time'): vb, fld(A, 'm_valid_frame'): fa, fld(B, 'm_valid_frame'): fb,
                       fld(A, 'm_time'): 11, fld(B, 'm_time'): 10 + t, fld(A, 'm_frame'): 21, fld(B, 'm_frame'): 20 + r}
                want = 0
                if dom and va and vb:
                    want = int(cmp(11, 10 + t))
                elif dom and fa and fb:
                    want = int(cmp(21, 20 + r))
                res = set()
                for o in outs:
                    if not fits(o.facts, env):
                        continue
                    v = cval(o.val, env) if o.kind == 'ret' else o.kind
                    res.add(None if v is None else int(bool(v)) if not isinstance(v, str) else v)
                n += 1
                if res != {want}:
                    bad.append('domains %s, times %s/%s, frames %s/%s: %s instead of %s' % ('equal' if dom else 'differ', 11 if va else '-', 10 + t if vb else '-',
                                                                                        21 if fa else '-', 20 + r if fb else '-', sorted(map(str, res)), want))
            rep.sites += n
            rep.ob('compare:%s' % name, not bad, 'decision table of %s' % name, where(f), '; '.join(bad[:3]))
    flags = ('m_valid_time', 'm_valid_frame', 'm_time', 'm_frame', 'm_time_domain_index')
    par = lambda f: ('par', f['p'][0]['n'])
    want = {'set_time_usec': lambda f: {'m_time': par(f), 'm_valid_time': C(1)}, 'set_frame': lambda f: {'m_frame': par(f), 'm_valid_frame': C(1)},
            'set_invalid': lambda f: {'m_valid_time': C(0), 'm_valid_frame': C(0)}, 'set_time_domain_index': lambda f: {'m_time_domain_index': par(f)},
            'set_time_seconds': lambda f: {'m_valid_time': C(1), 'm_time': None}}
    for name, w in sorted(want.items()):
        f = P.one(TS + '::' + name)
        outs = E.run(f)
        rep.saw(f, outs)
        for o in outs:
            exp = w(f)
            for x in flags:
                v = final(E, o, ME, x)
                if x not in exp:
                    rep.ob('set:%s:%s' % (name, x), v == fld(ME, x), '%s leaves %s alone' % (name, x), where(f), show(v))
                elif exp[x] is None:
                    ok = any(m and m[0] == 'op' and m[1] == '*' and par(f) in m and any(c[0] == 'c' and c[1] == 1e6 for c in m[2:]) for m in subterms(v))
                    rep.ob('set:%s:%s' % (name, x), ok, 'seconds become microseconds', where(f), show(v))
                else:
                    rep.ob('set:%s:%s' % (name, x), v == exp[x], '%s sets %s' % (name, x), where(f), show(v))
    for name, val in (('is_valid', None), ('has_valid_time', 'm_valid_time'), ('has_valid_frame', 'm_valid_frame'), ('get_time_usec', 'm_time'), ('get_frame', 'm_frame'),
                      ('get_time_domain_index', 'm_time_domain_index')):
        f = P.one(TS + '::' + name)
        outs = E.run(f)
        rep.saw(f, outs)
        for o in outs:
            if val:
                rep.ob('get:%s' % name, o.val == fld(ME, val), '%s returns %s' % (name, val), where(f), show(o.val))
        if not val:
            for a, b in itertools.product((0, 1), repeat=2):
                env = {fld(ME, 'm_valid_time'): a, fld(ME, 'm_valid_frame'): b}
                got = set(bool(cval(o.val, env)) if cval(o.val, env) is not None else None for o in outs if fits(o.facts, env))
                rep.ob('get:is_valid', got == {bool(a and b)}, 'valid means time and frame are valid', where(f), str(got))
    f = P.one(TS + '::get_time_seconds')
    for o in E.run(f):
        v = o.val
        rep.ob('get:seconds', contains(v, fld(ME, 'm_time')) and v[0] == 'op' and (v[1] == '*' and any(c[0] == 'c' and c[1] == 1e-6 for c in v[2:]) or v[1] == '/' and v[3][0] == 'c' and v[3][1] == 1e6 and floating(f, '/')),
               'microseconds become seconds', where(f), show(v))
    rep.saw(f)
    for f in P.methods(TS):
        if last(f['q']) != 'timestamp' or f['p'] and 'timestamp' in f['p'][0]['t'] and '::time_t' not in f['p'][0]['t']:
            continue
        outs = E.run(f)
        rep.saw(f, outs)
        for o in outs:
            vals = {x: final(E, o, ME, x) for x in flags}
            if not f['p']:
                ok = vals['m_valid_time'] == C(0) and vals['m_valid_frame'] == C(0) and vals['m_time_domain_index'] == C(0) and all(v != fld(ME, x) and 'uninit' not in repr(v) for x, v in vals.items())
                rep.ob('ctor:default', ok, 'a new timestamp is invalid and initialised', where(f), str({k: show(v) for k, v in vals.items()}))
            elif len(f['p']) == 2:
                p = [('par', x['n']) for x in f['p']]
                ok = vals == {'m_valid_time': C(1), 'm_valid_frame': C(1), 'm_time': p[0], 'm_frame': p[1], 'm_time_domain_index': C(0)}
                rep.ob('ctor:full', ok, 'time and frame are set and valid', where(f), str({k: show(v) for k, v in vals.items()}))
    if rep.count('ctor:') < 2:
        raise Broken('constructors of timestamp')
    # printing: the validity flag guards the value, ctime may give nothing
    f = P.one(TS + '::pretty_print')
    E2 = Engine(P, opaque=lambda q, fn, e: last(q) in ('ctime', 'strncpy', 'strlen'))
    outs = E2.run(f)
    rep.saw(f, outs)
    for o in outs:
        for fl, v in (('m_valid_frame', 'm_frame'), ('m_valid_time', 'm_time')):
            valid = E2.truth(o.st, ('nz', fld(ME, fl)))
            shown = any(x and x[0] == 'cat' and any(has_plain(y, fld(ME, v)) for y in x[1:]) for x in subterms(o.val))
            if v == 'm_time' and valid:
                shown = shown or 'out of bounds' in repr(o.val)
            rep.ob('print:%s' % v, valid is not None and (shown if valid else not shown), '%s is printed exactly when it is valid' % v, where(f), fmt_path(o))
        nv = sum(1 for fl in ('m_valid_frame', 'm_valid_time') if E2.truth(o.st, ('nz', fld(ME, fl))) is False)
        rep.ob('print:invalid', repr(o.val).count('<inv>') == nv, 'missing parts are marked', where(f), fmt_path(o))
        for e in o.flat():
            if e[0] == 'call' and last(e[1]) in ('strncpy', 'strcpy', 'strlen') and any(contains(a, x) for a in e[3] for x in subterms(a) if x and x[0] in ('call', 'pcall') and last(x[1]) == 'ctime'):
                ct = [x for a in e[3] for x in subterms(a) if x and x[0] in ('call', 'pcall') and last(x[1]) == 'ctime'][0]
                rep.ob('print:null', E2.truth(o.st, ('nz', ct)) is True, 'the text of ctime is used only when there is one', where(f, e[5]), fmt_path(o))
    return rep


def has_plain(y, v):
    return y == v or y[0] in ('pcall', 'call', 'str', 'num', 'tostr') and contains(y, v)


def floating(f, op):
    ds = [x for x in walk(f['body']) if x.get('k') == 'bin' and x.get('op') == op]
    return bool(ds) and all(x.get('t') in ('double', 'float') for x in ds)


# ---------------------------------------------------------------- tracks
def check_track(P, rep):
    rep.rule('the history changes only in append, behind the test that the last frame is below the first frame appended')
    rep.rule('find returns a state whose frame was compared equal, and end only when the ordered history excludes the frame')
    E = Engine(P)
    H = fld(ME, 'history_')
    lastf = ('fld', ('at', H, ('last',)), 'frame_id')
    f1 = [f for f in P.methods(TR) if last(f['q']) == 'append']
    if len(f1) < 2:
        raise Broken('track::append')
    for f in f1:
        outs = E.run(f)
        rep.saw(f, outs)
        p = f['p'][0]['n']
        other = ('ref', p)
        whole = 'track_state' not in f['p'][0]['t']
        for o in outs:
            ms = [m for m in mutations(o) if m[0] == 'history_']
            emp = E.truth(o.st, ('empty', H))
            lasts = [k for k in subterms(tuple(o.facts)) if k and k[0] == 'fld' and k[2] == 'frame_id' and k[1][0] == 'at' and k[1][1] == H]
            lastt = [k for k in lasts if is_last(k[1][2])]
            if whole:
                oe = E.truth(o.st, ('empty', fld(other, 'history_')))
                firstt = [k for k in subterms(tuple(o.facts)) if k and k[0] == 'fld' and k[2] == 'frame_id' and k[1][0] == 'at' and k[1][1] == fld(other, 'history_') and k[1][2] == C(0)]
            else:
                oe = False
                firstt = [fld(other, 'frame_id')]
            lt = None
            if lastt and firstt:
                lt = E.truth(o.st, ('op', '<', lastt[0], firstt[0]))
            ok = or3(emp, oe, lt)
            if o.kind != 'ret':
                rep.ob('append:result', False, 'append returns', where(f), fmt_path(o))
            elif o.val == C(1):
                rep.ob('append:order', ok is True, 'states are appended only behind a strictly smaller last frame', where(f), fmt_path(o))
                good = len(ms) == 1 and (appends_all(o, ms[0], other) if whole else ms[0][1] == 'add' and ms[0][2] == ('deref', other))
                rep.ob('append:what', good or whole and oe is True and not ms, 'exactly the given states are appended at the end', where(f), '%s %s' % (ms, fmt_path(o)))
            elif o.val == C(0):
                rep.ob('append:reject', not ms and ok is False, 'states are rejected only when out of order, without change', where(f), fmt_path(o))
            else:
                rep.ob('append:result', False, 'append reports success or failure', where(f), fmt_path(o))
    # nobody else touches the history
    for f in P.funcs.values():
        if f.get('body') is None or last(f['q']) in ('append',) and f['q'].startswith(TR + '::') or f['q'] == TR + '::track' or f['q'] == TR + '::operator=':
            continue
        if not any(x.get('k') == 'mem' and x.get('n') == 'history_' for x in walk(f['body'])):
            continue
        if not f['q'].startswith(TR + '::'):
            continue
        for o in E.run(f):
            rep.ob('history:owner', not [m for m in mutations(o) if m[0] == 'history_'], 'only append changes the history', where(f), fmt_path(o))
        rep.saw(f)
    c = P.klass(TR)
    for fd in c['fields']:
        if fd['n'] == 'history_':
            rep.ob('history:private', fd.get('a', fd.get('access', 'protected')) not in ('public', 0), 'the history is not public', rel(c.get('file', '')) if c.get('file') else '')
    for f in P.methods(TR):
        n = last(f['q'])
        if n == 'track':
            for o in E.run(f):
                h, i = final(E, o, ME, 'history_'), final(E, o, ME, 'id_')
                ps = f['p']
                if not ps:
                    rep.ob('ctor:empty', i == C(0) and (h == ('ilist', ()) or h == C(0) or 'ilist' in repr(h)), 'empty track', where(f), show(h))
                elif 'track_state' in ps[0]['t']:
                    rep.ob('ctor:state', i == C(0) and contains(h, ('deref', ('ref', ps[0]['n']))) or i == C(0) and contains(h, ('ref', ps[0]['n'])), 'one state', where(f), show(h))
                else:
                    q = ('ref', ps[0]['n'])
                    rep.ob('ctor:copy', h == fld(q, 'history_') and i == fld(q, 'id_'), 'copy of history and id', where(f), '%s %s' % (show(h), show(i)))
            rep.saw(f)
        if n in ('first_frame', 'last_frame'):
            for o in E.run(f):
                emp = E.truth(o.st, ('empty', H))
                v = o.val
                ok = emp is True and v == C(0) or emp is False and v[0] == 'fld' and v[2] == 'frame_id' and v[1][0] == 'at' and v[1][1] == H and \
                    (v[1][2] == C(0) if n == 'first_frame' else is_last(v[1][2]))
                rep.ob('track:%s' % n, ok, 'first or last state, zero for an empty track', where(f), fmt_path(o))
            rep.saw(f)
        if n in ('begin', 'end', 'size', 'empty', 'id'):
            for o in E.run(f):
                v = o.val
                want = {'begin': ('begin', ('F', THIS, 'history_')), 'end': ('end', ('F', THIS, 'history_')), 'size': ('size', H), 'id': fld(ME, 'id_')}.get(n)
                rep.ob('track:%s' % n, v == want if want else E.norm(v) == (('empty', H), True), n, where(f), show(v))
            rep.saw(f)
        if n == 'set_id':
            for o in E.run(f):
                rep.ob('track:set_id', final(E, o, ME, 'id_') == ('par', f['p'][0]['n']) and len(mutations(o)) == 1, 'sets the id', where(f), fmt_path(o))
            rep.saw(f)
    find(E, P, rep)
    # all frames
    f = P.one(TR + '::all_frame_ids')
    for o in E.run(f):
        s = selection(o, o.val) if o.kind == 'ret' else 'throws'
        ok = not isinstance(s, str) and s[0] == ('range', H) and all(v == ('fld', ('at', H, ('it', s[2])), 'frame_id') for _f, v in s[1])
        rep.ob('track:frames', ok, 'every frame of the history is listed', where(f), s if isinstance(s, str) else fmt_path(o))
    rep.saw(f)
    return rep


def is_last(i):
    return i == ('last',) or 'last' in repr(i) or i[0] == 'op' and i[1] == '-' and i[2][0] == 'size' and i[3] == C(1)


def appends_all(o, m, other):
    """the whole history of the other track goes behind the end"""
    r = ('rangeof', fld(other, 'history_'))
    H = ('F', THIS, 'history_')
    if any(e[0] == 'loop' and adds_all(o.events, ('loopv', e[1], H)) == r[1] for e in o.events):
        return True
    if m[1] == 'add' and m[2] is not None:
        return m[2] == r
    args = m[3]
    if m[1] in ('add', 'insert'):
        return len(args) in (2, 3) and args[0] == ('end', ('F', THIS, 'history_')) and (args[1] == r or args[1:] == (('begin', ('F', ('P', other), 'history_')), ('end', ('F', ('P', other), 'history_'))))
    return False


def find(E, P, rep):
    f = P.one(TR + '::find')
    E.all_loops = True
    H = fld(ME, 'history_')
    HL = ('F', THIS, 'history_')
    fr = ('par', f['p'][0]['n'])
    outs = E.run(f)
    rep.saw(f, outs)
    end = ('end', HL)

    def search_term(t):
        return t[0] in ('call', 'pcall') and last(strip_targs(t[1])) == 'lower_bound' and t[3][:3] == (('begin', HL), end, fr)
    cmps = 0
    for x in calls(f['body']):
        if last(strip_targs(x.get('q') or '')) == 'lower_bound':
            cmps += 1
    for o in outs:
        v = o.val
        emp = E.truth(o.st, ('empty', H))
        if v == end:
            # the frame is excluded by the order of the history
            def fcmp(a, b):
                return E.truth(o.st, ('op', '<', a, b))
            ok = emp is True
            for k, x in o.facts.items():
                if k[0] == 'op' and k[1] == '<' and x and k[2] == fr and k[3] == ('fld', ('at', H, C(0)), 'frame_id'):
                    ok = ok or emp is False
                if k[0] == 'op' and k[1] == '<' and x and k[3] == fr and k[2][0] == 'fld' and k[2][1][0] == 'at' and k[2][1][1] == H and is_last(k[2][1][2]):
                    ok = ok or emp is False
                if k[0] == 'op' and k[1] == '==' and x and end in k and any(isinstance(y, tuple) and search_term(y) for y in k[2:]):
                    ok = True
                if k[0] == 'op' and k[1] == '==' and not x and fr in k:
                    y = k[2] if k[3] == fr else k[3]
                    if y[0] == 'fld' and y[2] == 'frame_id' and y[1][0] == 'deref' and search_term(y[1][1]):
                        ok = True
            # a complete search over the history without a match
            for e in o.events:
                if e[0] == 'loop' and e[2] == ('range', H) and not left_early(o, e[1]):
                    bodies = [dict(b[0]) for b in e[3]]
                    ok = ok or all(any(k[0] == 'op' and k[1] == '==' and not x and fr in k and 'frame_id' in repr(k) for k, x in b.items()) for b in bodies)
            rep.ob('find:none', ok, 'end() only when no state has the frame', where(f), fmt_path(o))
        else:
            ok = False
            for k, x in o.facts.items():
                if x and k[0] == 'op' and k[1] == '==' and fr in k:
                    y = k[2] if k[3] == fr else k[3]
                    if y[0] == 'fld' and y[2] == 'frame_id':
                        ok = ok or y[1] == ('deref', v) or (y[1][0] == 'at' and y[1][1] == H and (contains(v, y[1][2]) or v == y[1][2] + (HL,)))
            notend = any(k[0] == 'op' and k[1] == '==' and not x and end in k and v in k for k, x in o.facts.items()) or v[0] != 'call' and v[0] != 'pcall'
            rep.ob('find:match', ok and notend, 'the returned state exists and has the frame', where(f), fmt_path(o))
    if cmps:
        # the comparator is the order of the frames
        cs = [g for g in P.funcs.values() if g.get('body') is not None and last(g['q']) == 'operator()' and len(g['p']) == 2 and any('track_state' in p['t'] for p in g['p'])]
        if not cs and not any(x.get('k') == 'lambda' for x in walk(f['body'])):
            raise Broken('comparator of track::find not found')
        for g in cs:
            a, b = g['p']
            for o in E.run(g):
                want = ('op', '<', ('fld', ('deref', ('ref', a['n'])), 'frame_id'), ('par', b['n']))
                rep.ob('find:order', o.val == want, 'states are searched by frame', where(g), show(o.val))
            rep.saw(g)


# ---------------------------------------------------------------- track sets
def check_track_set(P, rep):
    rep.rule('every selection walks all tracks once and takes a track (or its feature or descriptor) exactly on the paths where its documented condition holds')
    rep.rule('first and last frame are the minimum and maximum over the non-empty tracks (induction step enumerated over order, found flag and emptiness)')
    OPQ = (TR + '::find', TR + '::first_frame', TR + '::last_frame', TR + '::all_frame_ids', SET + '::offset_to_frame', SET + '::tracks', SET + '::last_frame', SET + '::first_frame')
    E = Engine(P, opaque=lambda q, fn, e: q in OPQ)
    E.all_loops = True

    def call(o, name, obj=None, args=None):
        for t in subterms(tuple(o.facts) + tuple(o.events) + ((o.val,) if o.val else ())):
            if t and t[0] in ('call', 'pcall') and len(t) < 6 and t[1] == name and (obj is None or t[2] == obj) and (args is None or t[3] == args):
                return t
        return None

    def conds(st, t, frame):
        """what is known about the track t"""
        T = lambda x: E.truth(st, x)
        d = ('deref', t)
        fd = [x for x in subterms(tuple(st.facts)) if x and x[0] in ('call', 'pcall') and len(x) < 6 and x[1] == TR + '::find' and x[2] == d and x[3] == (frame,)]
        H = ('fld', d, 'history_')
        endp = ('end', ('F', ('P', t), 'history_'))
        has = None
        for x in fd:
            v = E.eqfact(st, x, endp)
            has = has if v is None else not v
        if not fd:
            pass
        emp = T(('empty', H))
        eq = {}
        for n in ('first_frame', 'last_frame'):
            c = [x for x in subterms(tuple(st.facts)) if x and x[0] in ('call', 'pcall') and len(x) < 6 and x[1] == TR + '::' + n and x[2] == d]
            eq[n] = E.eqfact(st, c[0], frame) if c else None
        return has, emp, eq

    def run(name):
        f = P.one(SET + '::' + name)
        outs = E.run(f)
        rep.saw(f, outs)
        return f, outs
    sel = {'active_tracks': ('simple_track_set', lambda h, e, q: h, None), 'inactive_tracks': ('simple_track_set', lambda h, e, q: not3(h), None),
           'new_tracks': ('simple_track_set', lambda h, e, q: and3(not3(e), q['first_frame']), None),
           'terminated_tracks': ('simple_track_set', lambda h, e, q: and3(not3(e), q['last_frame']), None),
           'frame_features': ('simple_feature_set', lambda h, e, q: h, 'feat'), 'frame_descriptors': ('simple_descriptor_set', lambda h, e, q: h, 'desc'),
           'last_frame_features': ('simple_feature_set', lambda h, e, q: and3(not3(e), q['last_frame']), 'feat'),
           'last_frame_descriptors': ('simple_descriptor_set', lambda h, e, q: and3(not3(e), q['last_frame']), 'desc')}
    for name, (typ, cond, member) in sorted(sel.items()):
        f, outs = run(name)
        for o in outs:
            if o.kind != 'ret' or o.val[0] != 'new' or last(strip_targs(o.val[1])) != typ or len(o.val[2]) != 1:
                rep.ob('select:%s' % name, False, 'returns a new %s' % typ, where(f), fmt_path(o))
                continue
            tr = call(o, SET + '::tracks', ('deref', ME))
            if name.startswith('last_frame'):
                frame = call(o, SET + '::last_frame', ('deref', ME)) or call(o, SET + '::offset_to_frame', ('deref', ME), (C(-1),))
            else:
                frame = call(o, SET + '::offset_to_frame', ('deref', ME), (('par', f['p'][0]['n']),))
            s = selection(o, o.val[2][0])
            if isinstance(s, str) or tr is None or frame is None or s[0] != ('range', tr):
                rep.ob('select:%s' % name, False, 'walks all tracks for the frame asked for', where(f), '%s frame %s' % (s if isinstance(s, str) else show(s[0]), frame))
                continue
            t = ('at', tr, ('it', s[2]))
            for facts, v in s[1]:
                st = St(o.st.store, facts, ())
                has, emp, q = conds(st, t, frame)
                c = cond(has, emp, q)
                rep.sites += 1
                if v is None:
                    rep.ob('select:%s:skip' % name, c is False, 'a track is left out only when the condition fails', where(f), show(t) + ' ' + Out('body', st, None).describe()[:600])
                else:
                    rep.ob('select:%s:take' % name, c is True and picked(v, t, member, frame), 'a track is taken when the condition holds', where(f), '%s %s' % (show(v), Out('body', st, None).describe()[:600]))
    # extremes
    for name, sign in (('first_frame', 1), ('last_frame', -1)):
        f, outs = run(name)
        for o in outs:
            tr = call(o, SET + '::tracks', ('deref', ME))
            why = extreme(E, o, tr, name, sign)
            rep.ob('extreme:%s' % name, why is None, 'smallest or largest frame of the tracks', where(f), '%s %s' % (why, fmt_path(o)))
    f, outs = run('offset_to_frame')
    off = ('par', f['p'][0]['n'])
    for o in outs:
        lf = call(o, SET + '::last_frame', ('deref', ME))
        bad = []
        for a, l in itertools.product(range(-4, 5), range(-2, 4)):
            env = {off: a}
            if lf:
                env[lf] = l
            if not fits(o.facts, env):
                continue
            v = cval(o.val, env)
            want = a if a >= 0 else l + 1 + a if -a <= l + 1 else l + 1
            if v != want:
                bad.append('offset %d, last frame %d: %s instead of %s' % (a, l, v, want))
        rep.ob('offset', not bad, 'negative offsets count from the last frame', where(f), '; '.join(bad[:3]))
    # lookup
    f, outs = run('get_track')
    tid = ('par', f['p'][0]['n'])
    for o in outs:
        tr = call(o, SET + '::tracks', ('deref', ME))
        eqs = [(k, v) for k, v in o.facts.items() if k[0] == 'op' and k[1] == '==' and tid in k]
        if o.val == C(0) or o.val == ('null',):
            lp = [e for e in o.events if e[0] == 'loop' and e[2] == ('range', tr)]
            ok = len(lp) == 1 and not left_early(o, lp[0][1]) and all(any(k[0] == 'op' and k[1] == '==' and not v and tid in k and 'id_' in repr(k) for k, v in dict(b[0]).items()) for b in lp[0][3])
            rep.ob('get_track:none', ok, 'nothing is returned only after all tracks were compared', where(f), fmt_path(o))
        else:
            ok = any(v and o.val[0] == 'at' and o.val[1] == tr and fldof(o.val, 'id_') in k for k, v in eqs)
            rep.ob('get_track:match', ok, 'the returned track has the id', where(f), fmt_path(o))
    f, outs = run('all_track_ids')
    for o in outs:
        tr = call(o, SET + '::tracks', ('deref', ME))
        s = selection(o, o.val)
        ok = not isinstance(s, str) and s[0] == ('range', tr) and all(v == fldof(('at', tr, ('it', s[2])), 'id_') for _f, v in s[1])
        rep.ob('ids', ok, 'the id of every track is listed', where(f), fmt_path(o))
    f, outs = run('all_frame_ids')
    for o in outs:
        tr = call(o, SET + '::tracks', ('deref', ME))
        s = selection(o, o.val)
        ok = not isinstance(s, str) and s[0] == ('range', tr) and all(v is not None and v[0] == 'rangeof' and v[1][0] in ('call', 'pcall') and v[1][1] == TR + '::all_frame_ids' and v[1][2] == ('deref', ('at', tr, ('it', s[2]))) for _f, v in s[1])
        rep.ob('frames', ok, 'the frames of every track are listed', where(f), '%s %s' % (s if isinstance(s, str) else [show(v) for _f, v in s[1] if v], fmt_path(o)))
    # percentage
    f, outs = run('percentage_tracked')
    p1, p2 = (('par', p['n']) for p in f['p'])
    for o in outs:
        tr = call(o, SET + '::tracks', ('deref', ME))
        f1, f2 = (call(o, SET + '::offset_to_frame', ('deref', ME), (p,)) for p in (p1, p2))
        lps = [e for e in o.events if e[0] == 'loop' and e[2] == ('range', tr)]
        if len(lps) != 1 or f1 is None or f2 is None or o.kind != 'ret' or left_early(o, lps[0][1]):
            rep.ob('percent', False, 'one walk over all tracks', where(f), fmt_path(o))
            continue
        e = lps[0]
        t = ('at', tr, ('it', e[1]))
        role = {}
        why = None
        for facts, evs, upd in e[3]:
            st = St(o.st.store, dict(list(o.facts.items()) + list(dict(facts).items())), ())
            a, b = conds(st, t, f1)[0], conds(st, t, f2)[0]
            both, any_ = and3(a, b), or3(a, b)
            for l in dict(e[4]):
                me = ('loopv', e[1], l)
                v = dict(upd).get(l, me)
                d = 0 if v == me else 1 if v == ('op', '+', me, C(1)) else None
                r = role.setdefault(l, set(['both', 'any']))
                for n, w in (('both', both), ('any', any_)):
                    if w is None or d is None or d != int(w):
                        r.discard(n)
        num = [('loopv', e[1], l) for l, r in role.items() if 'both' in r and dict(e[4])[l] == C(0)]
        den = [('loopv', e[1], l) for l, r in role.items() if 'any' in r and dict(e[4])[l] == C(0)]
        zero = any(E.truth(o.st, ('nz', x)) is False or E.truth(o.st, ('op', '==', x, C(0))) is True for x in den)
        nonz = any(E.truth(o.st, ('nz', x)) is True for x in den)
        ok = o.val == C(0) and zero or o.val[0] == 'op' and o.val[1] == '/' and o.val[2] in num and o.val[3] in den and nonz and floating(f, '/')
        rep.ob('percent', ok, 'tracks on both frames divided by tracks on either frame', where(f), '%s num %s den %s' % (fmt_path(o), num, den))
    # the simple set
    S = NS + 'simple_track_set'
    for f in P.methods(S):
        for o in E.run(f):
            n = last(f['q'])
            if n == 'tracks':
                rep.ob('simple:tracks', o.val == fld(ME, 'data_'), 'the tracks it was made of', where(f), show(o.val))
            elif n == 'size':
                rep.ob('simple:size', o.val == ('size', fld(ME, 'data_')), 'their number', where(f), show(o.val))
            elif n == 'simple_track_set' and f['p'] and 'vector' in f['p'][0]['t']:
                rep.ob('simple:ctor', final(E, o, ME, 'data_') == ('deref', ('ref', f['p'][0]['n'])), 'takes the tracks', where(f), show(final(E, o, ME, 'data_')))
        rep.saw(f)
    for name, want in (('size', lambda v, tr: v == ('size', tr)), ('empty', lambda v, tr: E.norm(v) == (('empty', tr), True))):
        f, outs = run(name)
        for o in outs:
            rep.ob('set:%s' % name, want(o.val, call(o, SET + '::tracks', ('deref', ME))) or name == 'empty' and E.norm(o.val) == (('nz', call(o, SET + '::size', ('deref', ME))), False), name, where(f), show(o.val))
    return rep


def fldof(t, name):
    return ('fld', ('deref', t), name)


def picked(v, t, member, frame):
    if member is None:
        return v == t
    if v[0] != 'fld' or v[2] != member:
        return False
    b = v[1]
    H = ('fld', ('deref', t), 'history_')
    if b[0] == 'deref' and b[1][0] in ('call', 'pcall') and b[1][1] == TR + '::find' and b[1][2] == ('deref', t) and b[1][3] == (frame,):
        return True
    return b[0] == 'at' and b[1] == H and is_last(b[2]) or b[0] == 'deref' and b[1] == ('op', '-', ('end', ('F', ('P', t), 'history_')), C(1))


def extreme(E, o, tr, name, sign):
    """induction over the tracks: the state is (nothing found yet) or the extreme of the tracks seen"""
    lps = [e for e in o.events if e[0] == 'loop']
    if o.kind != 'ret' or len(lps) != 1 or lps[0][2] != ('range', tr) or left_early(o, lps[0][1]):
        return 'not one walk over all tracks'
    e = lps[0]
    t = ('at', tr, ('it', e[1]))
    val = o.val
    if val[0] != 'loopv' or val[1] != e[1]:
        return 'result is %s' % show(val)
    loc = val[2]
    init = dict(e[4])
    fr = None
    for facts, evs, upd in e[3]:
        for x in subterms(tuple(dict(facts)) + tuple(dict(upd).values())):
            if x and x[0] in ('call', 'pcall') and len(x) < 6 and x[1] == TR + '::' + name and x[2] == ('deref', t):
                fr = x
    if fr is None:
        return 'the %s of the tracks is not used' % name
    emp = ('empty', ('fld', ('deref', t), 'history_'))
    flags = [l for l in init if l != loc and init[l] in (C(0), C(1))]
    for flag in flags:
        none = init[flag][1]        # value while nothing was found
        why = None
        for found, em, order in itertools.product((0, 1), (0, 1), (-1, 0, 1)):
            if not found and order:
                continue        # the value is unused
            for cur in ((0,) if found else (-3, 0, 3)):
                frame = cur + order if found else 0
                env = {val: cur, ('loopv', e[1], flag): (1 - none) if found else none, fr: frame, emp: em}
                got = set()
                for facts, evs, upd in e[3]:
                    if not fits(dict(facts), env):
                        continue
                    u = dict(upd)
                    got.add((cval(u.get(flag, ('loopv', e[1], flag)), env), cval(u.get(loc, val), env)))
                want = (env[('loopv', e[1], flag)], cur) if em else (1 - none, frame if not found else (min(cur, frame) if sign > 0 else max(cur, frame)))
                if got != {want} and not (not found and em and len(got) == 1 and list(got)[0][0] == none):
                    why = 'found %s, empty %s, value %s, frame %s: %s instead of %s' % (bool(found), bool(em), cur, frame, sorted(map(str, got)), want)
        if why is None:
            return None if init[loc] == C(0) else 'starts with %s' % show(init[loc])
    return why if flags else 'no record of whether a track was found'
