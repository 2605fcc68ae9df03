"""rules about the logger: levels, what a message line holds, who supplies the loggers, the macros"""
import re
from base import *
from rules_parser import last

NS = 'kwiver::vital::'
KL = NS + 'kwiver_logger'
LNS = NS + 'logger_ns::'
DL = LNS + 'default_logger'
LEVELS = ('trace', 'debug', 'info', 'warn', 'error', 'fatal')
FS = ('kwiversys::',)


def fs(q, fn, e):
    return q.startswith(FS)


def field_of(term):
    """the fields of this a term depends on"""
    return [t for t in subterms(term) if t[0] == 'fld' and t[1] == ('deref', ('this',))]


def reach(outs, env):
    """the paths taken under env"""
    return [o for o in outs if fits(o.facts, env)]


def level_values(P, R):
    e = P.enums.get(KL + '::log_level_t')
    if e is None:
        raise Broken('the enumeration of the log levels is gone')
    return dict((n, int(v)) for n, v in e['e'])


def method(P, q, n=None):
    fs_ = [f for f in P.funcs.values() if f['q'] == q and f.get('body') is not None and (n is None or len(f['p']) == n)]
    return sorted(fs_, key=lambda f: (f['file'], f['l']))


def pieces(v):
    """what an emitted value puts on the stream, in order"""
    if v[0] == 'cat':
        return [x for y in v[1:] for x in pieces(y)]
    if v[0] == 'asc':
        return pieces(v[1])
    if v[0] in ('call', 'pcall') and v[1] == 'std::to_string' and len(v[3]) == 1:
        return pieces(v[3][0])
    if v[0] == 'ref' and len(v) == 2 and isinstance(v[1], tuple):
        return pieces(v[1])
    if v[0] == 'c' and isinstance(v[1], int) and 0 < v[1] < 128:
        return [v]
    return [v]


def joined(vals):
    """adjacent texts joined"""
    out = []
    for v in vals:
        for p in pieces(v):
            if p[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + p[1])
            else:
                out.append(p)
    return [p for p in out if p != ('s', '')]


def message_loops(o, msg, env):
    """the loops of the path that run over the lines of msg: (loop event, [pieces written per iteration path])"""
    src = [e for e in o.flat() if e[0] == 'ctor' and 'stringstream' in e[1] and e[2] and e[2][0] == msg]
    out = []
    for e in o.flat():
        if e[0] != 'loop':
            continue
        lines = []
        for facts, evs, upd in e[3]:
            em = [x for x in evs if x[0] == 'emit']
            lines.append((dict(facts), joined([chosen(x[2], env) for x in em]), set(x[1] for x in em), evs))
        if any(l[1] for l in lines):
            out.append((e, lines))
    return src, out


def is_line(t):
    """the text of the current line"""
    return t[0] == 'out' and t[1] == 'getline' and t[2] == 1


def chosen(t, env):
    """elements of constant tables at indices that env decides"""
    if not isinstance(t, tuple):
        return t
    t = tuple(chosen(x, env) for x in t)
    if len(t) == 3 and t[0] in ('idx', 'at') and isinstance(t[1], tuple) and t[1][:1] == ('ilist',):
        i = cval(t[2], env)
        if i is not None and 0 <= i < len(t[1][1]):
            return t[1][1][i]
    return t


def check_line(R, oid, f, o, name, msg, location, env={}):
    """the path writes every line of msg once: time, level, location, line, newline"""
    src, loops = message_loops(o, msg, env)
    outside = [e for e in o.events if e[0] == 'emit' and e[1][0] != 'T' and 'output_stream' in show_loc(e[1])]
    bad = []
    if not src:
        bad.append('the lines are not taken from the message')
    if len(loops) != 1:
        bad.append('%d loops write the message' % len(loops))
    if outside:
        bad.append('text is written outside the lines: %s' % [show(e[2])[:60] for e in outside][:3])
    for lp, lines in loops:
        if not runs_through(o, lp):
            bad.append('the loop over the lines is left early')
        always = [k for k, v in lines[0][0].items() if all(l[0].get(k) == v for l in lines)] if lines else []
        always = [k for k in always if not (k[0] == 'nz' and k[1][0] == 'stream')]
        if always:
            bad.append('the loop over the lines also ends when not as here: %s' % [('' if lines[0][0][k] else '!') + show(k)[:80] for k in always][:3])
        for facts, ps, streams, evs in lines:
            if len(streams) > 1:
                bad.append('one line goes to %d streams' % len(streams))
            if not ps:
                bad.append('a line of the message is dropped when [%s]' % ', '.join(('' if v else '!') + show(k)[:80] for k, v in facts.items() if k[0] != 'nz' or k[1][0] != 'stream'))
                continue
            tag = ' ' + name + ' '
            at = [i for i, p in enumerate(ps) if p[0] == 's' and tag in p[1]]
            if len(at) != 1:
                bad.append('the level does not stand in the line once: %s' % [show(p)[:40] for p in ps])
                continue
            i = at[0]
            head = ps[:i] + [('s', ps[i][1].split(tag, 1)[0])]
            if not any(p[0] != 's' for p in head) or any(is_line(p) for p in head):
                bad.append('the line does not begin with the time')
            for p in head:
                if p[0] == 's' and any(n in p[1] for n in ('TRACE', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL')):
                    bad.append('another level stands in the line')
            rest = joined([('s', ps[i][1].split(tag, 1)[1])] + ps[i + 1:])
            want = []
            if location is not None:
                fn, ln = location
                want = [fn, ('s', '('), ln, ('s', '): ')]
            k = [j for j, p in enumerate(rest) if is_line(p)]
            if len(k) != 1:
                bad.append('the text of the line is not written once: %s' % [show(p)[:50] for p in rest])
                continue
            before, after = rest[:k[0]], rest[k[0] + 1:]
            if location is None and before:
                bad.append('unexpected before the text: %s' % [show(p)[:50] for p in before])
            if location is not None:
                terms = [p for p in before if p[0] != 's']
                if len(terms) != 2 or not same_file(terms[0], location[0]) or terms[1] != location[1]:
                    bad.append('the place of the call is not file and line: %s' % [show(p)[:60] for p in before])
            if after not in ([('s', '\n')], [('c', 10)], [('endl',)]) and not (len(after) == 1 and 'endl' in str(after[0])):
                bad.append('the line does not end after the text: %s' % [show(p)[:50] for p in after])
            gl = [x for x in evs if x[0] == 'call' and last(x[1]) == 'getline']
            tested = any(contains(k2, rest[k[0]][3]) for k2, v2 in facts.items() if k2[0] == 'nz' and v2)
            if not tested and not any(x[0] == 'loop' for x in evs):
                bad.append('the text is written although no line was read')
    R.ob(oid, not bad, '%s(%s): one line per line of the message, with time, level%s and text'
         % (last(f['q']), name, ', file, line' if location else ''), where(f), '; '.join(sorted(set(bad)))[:900] + ' on ' + fmt_path(o)[:200])


def same_file(t, fn):
    """t is the file name part of fn"""
    return t[0] in ('call', 'pcall') and last(t[1]) == 'GetFilenameName' and t[3] and t[3][0] == fn


def show_loc(l):
    return str(l)


def check_levels(P, R):
    R.rule('level L is enabled exactly when the level set is not above L; a logger starts with everything enabled; '
           'set_level and get_level agree')
    R.rule('log_L writes the message exactly when L is enabled, one line per line of the message, each with the time, the name of L, '
           'the place of the call if given and the text; log_message does so for the level given')
    lv = level_values(P, R)
    vals = [lv.get('LEVEL_' + n.upper()) for n in LEVELS]
    R.ob('level.order', None not in vals and all(a < b for a, b in zip(vals, vals[1:])) and lv.get('LEVEL_NONE', 0) < vals[0],
         'the levels are ordered TRACE < DEBUG < INFO < WARN < ERROR < FATAL', KL, str(lv))
    E = Engine(P, opaque=fs)
    E.skiplog = False
    get = method(P, DL + '::get_level')
    set_ = method(P, DL + '::set_level')
    if len(get) != 1 or len(set_) != 1:
        raise Broken('default_logger has no level')
    outs = E.run(get[0])
    R.saw(get[0], outs)
    cur = outs[0].val if len(outs) == 1 else None
    fl = field_of(cur) if cur else []
    R.ob('level.kept', len(fl) == 1, 'get_level returns what the logger keeps', where(get[0]), fmt_path(outs[0])[:200] if outs else '')
    if len(fl) != 1:
        return
    fl = fl[0]
    levels = sorted(lv.values())
    # constructed, set, read again
    ctor = [f for f in P.funcs.values() if f['q'] == DL + '::default_logger' and f.get('body') is not None]
    for f in ctor:
        os_ = E.run(f)
        R.saw(f, os_)
        ok = bool(os_)
        for o in os_:
            st = St()
            st.store.update(o.st.store)
            for g in E.run(get[0], st=st):
                v = g.val
                while v[0] == 'ctor' and len(v[2]) == 1:
                    v = v[2][0]
                ok = ok and cval(v, {}) is not None and cval(v, {}) <= lv['LEVEL_TRACE']
        R.ob('level.start', ok, 'a new logger has every level enabled', where(f))
    for f in set_:
        os_ = E.run(f)
        R.saw(f, os_)
        ok = bool(os_)
        for o in os_:
            st = St()
            st.store.update(o.st.store)
            st.facts.update(o.facts)
            for g in E.run(get[0], st=st):
                for x in levels:
                    env = {('par', f['p'][0]['n']): x}
                    if fits(g.facts, env):
                        ok = ok and cval(g.val, env) == x
        R.ob('level.set', ok, 'get_level returns the level that was set', where(f))
    for n, x in zip(LEVELS, vals):
        for f in method(P, '%s::is_%s_enabled' % (DL, n)):
            os_ = E.run(f)
            R.saw(f, os_)
            bad = []
            for y in levels:
                rs = reach(os_, {fl: y})
                got = set(cval(o.val, dict({fl: y}, **{})) for o in rs)
                got = set(None if g is None else bool(g) for g in got)
                if got != {y <= x}:
                    bad.append('at level %d it says %s' % (y, sorted(map(str, got))))
            R.ob('level.enabled.' + n, not bad, 'is_%s_enabled says whether the level set is at most %s' % (n, n.upper()), where(f), '; '.join(bad))
        for f in method(P, '%s::log_%s' % (DL, n)):
            loc = len(f['p']) == 2
            E2 = Engine(P, opaque=fs)
            E2.skiplog = False
            os_ = E2.run(f)
            R.saw(f, os_)
            msg = ('deref', ('ref', f['p'][0]['n']))
            where_ = location_terms(P, E2, f['p'][1]['n']) if loc else None
            for y in levels:
                rs = reach(os_, {fl: y})
                oid = 'log.%s.%d.%d' % (n, len(f['p']), y)
                wr = [o for o in rs if writes(o)]
                if y > x:
                    R.ob(oid, rs and not wr, 'log_%s writes nothing when the level is %d' % (n, y), where(f), fmt_path(wr[0])[:400] if wr else '')
                elif not rs or len(wr) != len(rs):
                    R.ob(oid, False, 'log_%s writes the message when the level is %d' % (n, y), where(f), '%d of %d paths write' % (len(wr), len(rs)))
                else:
                    for o in rs:
                        check_line(R, oid, f, o, n.upper(), msg, where_)
    # log_message with a level
    for f in method(P, DL + '::log_message'):
        loc = len(f['p']) == 3
        E2 = Engine(P, opaque=fs)
        os_ = E2.run(f)
        R.saw(f, os_)
        msg = ('deref', ('ref', f['p'][1]['n']))
        where_ = location_terms(P, E2, f['p'][2]['n']) if loc else None
        for n, x in zip(LEVELS, vals):
            rs = reach(os_, {('par', f['p'][0]['n']): x, fl: lv['LEVEL_TRACE']})
            oid = 'log.message.%d.%s' % (len(f['p']), n)
            if not rs or any(not writes(o) for o in rs):
                R.ob(oid, False, 'log_message writes the message', where(f))
            for o in rs:
                check_line(R, oid, f, o, n.upper(), msg, where_, {('par', f['p'][0]['n']): x})
    for f in method(P, KL + '::get_level_string'):
        os_ = E.run(f)
        R.saw(f, os_)
        for n, x in zip(LEVELS, vals):
            rs = reach(os_, {('par', f['p'][0]['n']): x})
            ok = bool(rs) and all(o.kind == 'ret' and chosen(o.val, {('par', f['p'][0]['n']): x}) == ('s', n.upper()) for o in rs)
            R.ob('level.name.' + n, ok, 'the name of level %s is %s' % (x, n.upper()), where(f), str([show(o.val) for o in rs])[:200])


def writes(o):
    return any(e[0] == 'emit' and e[1][0] not in ('L', 'T') for e in o.flat())


def location_terms(P, E, par):
    """(file name as given, line) of a location_info parameter: the fields its accessors return"""
    out = []
    for n in ('get_file_name_ptr', 'get_line_number'):
        fs_ = method(P, LNS + 'location_info::' + n)
        if len(fs_) != 1:
            raise Broken('location_info::%s is gone' % n)
        os_ = E.run(fs_[0])
        if len(os_) != 1:
            raise Broken('location_info::%s is not a plain accessor' % n)
        out.append(subst_this(os_[0].val, ('deref', ('ref', par))))
    return out


def subst_this(t, obj):
    if t == ('deref', ('this',)):
        return obj
    if isinstance(t, tuple):
        return tuple(subst_this(x, obj) for x in t)
    return t


def seeded(E, o):
    st = St()
    st.store.update(o.st.store)
    st.facts.update(o.facts)
    return st


class Cut(object):
    """a part of a text: where it begins and where it ends, as positions found in the text"""

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi


def cut(t, base):
    """t as a part (lo, hi) of base; positions are (pattern position, offset)"""
    if t == base:
        return (None, None)
    if t[0] == 'ctor' and len(t[2]) >= 1 and 'basic_string' in t[1]:
        return cut(t[2][0], base)
    if t in (('s', ''), ('ilist', ())):
        return 'empty'
    if t[0] == 'mut' and t[1] == 'clear':
        return 'empty'
    if t[0] == 'mut' and t[1] == 'erase' and len(t[3]) == 2:
        c = cut(t[2], base)
        if c is None or c == 'empty':
            return c
        lo, hi = c
        a, b = t[3]
        if b == ('c', 2 ** 64 - 1) and a != C(0):
            p = position(a, base)
            return (lo, p) if p and p[1] == c else None
        if a == C(0):
            p = position(b, base)
            return (p, hi) if p and p[1] == c else None
    if t[0] == 'substr':
        c = cut(t[1], base)
        if c is None or c == 'empty':
            return c
        lo, hi = c
        a, n = t[2], t[3] if len(t) > 3 else ('c', 2 ** 64 - 1)
        if n == ('c', 2 ** 64 - 1):
            p = position(a, base)
            return (p, hi) if p and p[1] == c else None
        if a == C(0):
            p = position(n, base)
            return (lo, p) if p and p[1] == c else None
        # substr(a, b - a)
        if n[0] == 'op' and n[1] == '-' and n[3] == a:
            p, q = position(a, base), position(n[2], base)
            return (p, q) if p and q and p[1] == c and q[1] == c else None
    return None


def position(t, base):
    """(kind, part searched, offset) of a search in a part of base"""
    off = 0
    if t[0] == 'op' and t[1] == '+':
        a, b = t[2], t[3]
        if a[0] == 'c':
            a, b = b, a
        if b[0] != 'c':
            return None
        t, off = a, b[1]
    if t[0] in ('pcall', 'call') and last(t[1]) in ('find', 'rfind', 'find_first_of', 'find_last_of'):
        obj = t[2]
        c = cut(obj, base)
        if c is None or c == 'empty':
            return None
        pat = t[3][0]
        pat = pat[1] if pat[0] == 's' else chr(pat[1]) if pat[0] == 'c' else None
        if pat is None or (last(t[1]).endswith('_of') and len(pat) != 1):
            return None
        fwd = last(t[1]) in ('find', 'find_first_of')
        if len(t[3]) > 1 and t[3][1] not in ((C(0),) if fwd else (('c', 2 ** 64 - 1), ('c', -1))):
            return None
        return (('first' if fwd else 'last', pat), c, off)
    return None


def found(facts, base):
    """which searches succeeded on the path: {(kind, pattern, part): bool}"""
    r = {}
    for k, v in facts.items():
        if k[0] == 'op' and k[1] == '==' and len(k) == 4:
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                if b in (('c', 2 ** 64 - 1), ('c', -1)):
                    p = position(a, base)
                    if p and p[2] == 0:
                        r[(p[0], p[1])] = not v
    return r


def check_location(P, R):
    R.rule('a location answers with the file, line and signature it was made from; file name and path are its parts, the method name is what stands '
           'between the last "::" and the "(", the class name what stands before that "::"')
    q = LNS + 'location_info'
    E = Engine(P, opaque=fs)
    ctors = method(P, q + '::location_info')
    get = {}
    for n in ('get_file_name', 'get_file_name_ptr', 'get_file_path', 'get_signature', 'get_method_name_ptr', 'get_line_number'):
        m = method(P, q + '::' + n)
        if len(m) != 1:
            raise Broken('location_info::%s is gone' % n)
        get[n] = m[0]
    if sorted(len(c['p']) for c in ctors) != [0, 3]:
        raise Broken('the constructors of location_info changed')
    for c in ctors:
        os_ = E.run(c)
        R.saw(c, os_)
        if len(c['p']) == 3:
            fn, me, ln = [('par', p['n']) for p in c['p']]
        for o in os_:
            def ask(n):
                rs = E.run(get[n], st=seeded(E, o))
                R.saw(get[n], rs)
                return [r.val for r in rs]
            if len(c['p']) == 3:
                want = dict(get_file_name_ptr=fn, get_method_name_ptr=me, get_signature=me, get_line_number=ln)
                for n, w in sorted(want.items()):
                    g = ask(n)
                    R.ob('location.' + n, g == [w], 'location_info::%s returns what the location was made from' % n, where(get[n]), str([show(x) for x in g])[:300])
                for n, w in (('get_file_name', 'GetFilenameName'), ('get_file_path', 'GetFilenamePath')):
                    g = ask(n)
                    ok = len(g) == 1 and g[0][0] in ('call', 'pcall') and last(g[0][1]) == w and g[0][3][0] == fn
                    R.ob('location.' + n, ok, 'location_info::%s returns that part of the file name' % n, where(get[n]), str([show(x) for x in g])[:300])
            else:
                g = ask('get_line_number')
                R.ob('location.unknown.line', g == [C(-1)], 'the line of an unknown location is -1', where(c), str(g))
                for n in ('get_file_name_ptr', 'get_method_name_ptr'):
                    g = ask(n)
                    ok = len(g) == 1 and (g[0][0] == 's' or g[0][0] == 'glob' and P_text(P, g[0][1]) is not None)
                    R.ob('location.unknown.' + n, ok, 'the texts of an unknown location are texts', where(c), str(g))
    base = None
    for n in ('get_method_name', 'get_class_name'):
        fs_ = method(P, q + '::' + n)
        if len(fs_) != 1:
            raise Broken('location_info::%s is gone' % n)
        f = fs_[0]
        os_ = E.run(f)
        R.saw(f, os_)
        base = E.run(get['get_method_name_ptr'])[0].val
        bad = []
        for o in os_:
            w = method_part(o, base) if n == 'get_method_name' else class_part(o, base)
            g = cut(o.val, base)
            if g is None:
                bad.append('not a part of the signature: %s' % show(o.val)[:160])
            elif g not in w:
                bad.append('%s instead of %s' % (g, w))
        R.ob('location.' + n, bool(os_) and not bad, 'location_info::%s is that part of the signature' % n, where(f), '; '.join(bad)[:700])


def P_text(P, q):
    for v in P.vars.values():
        if v.get('q') == q:
            i = v.get('i')
            while isinstance(i, dict) and i.get('k') == 'cast':
                i = i['e']
            return i.get('v') if isinstance(i, dict) and i.get('k') in ('str', 's', 'lit') else (i and str(i))
    return None


def steps(o, base, c, plan):
    """the part left by plan, a list of (end, kind, pattern, offset), on this path; None for a search the path did not make"""
    r = found(o.facts, base)
    for end, kind, pat, off in plan:
        k = ((kind, pat), c)
        if k not in r:
            return None
        if r[k]:
            p = ((kind, pat), c, off)
            c = (p, c[1]) if end == 'lo' else (c[0], p)
        elif end == 'hi!':
            return 'empty'
    return c


def method_part(o, base):
    a = [('hi', 'first', '(', 0), ('lo', 'last', '::', 2), ('lo', 'last', ' ', 1)]
    b = [a[0], a[2], a[1]]
    return [x for x in (steps(o, base, (None, None), a), steps(o, base, (None, None), b)) if x is not None]


def class_part(o, base):
    a = [('hi', 'first', '(', 0), ('lo', 'last', ' ', 1), ('hi!', 'last', '::', 0)]
    return [x for x in (steps(o, base, (None, None), a),) if x is not None]


def check_factories(P, R):
    R.rule('get_logger asks the installed factory for the name given; the built-in factory hands out one logger per name; '
           'a logger knows its name and that of its factory')
    R.rule('a plug-in replaces the factory only when it supplies one, otherwise std::runtime_error; the manager always ends up with a factory')
    MG = NS + 'kwiver_logger_manager'
    E = Engine(P, opaque=lambda q, fn, e: fs(q, fn, e) or last(q) == 'load_factory' or last(q) == 'instance')
    # get_logger( name )
    gl = method(P, NS + 'get_logger')
    R.ob('get.overloads', len(gl) == 2, 'get_logger takes a name of either kind', NS + 'get_logger')
    for f in gl:
        os_ = E.run(f)
        R.saw(f, os_)
        p = f['p'][0]['n']
        bad = []
        for o in os_:
            v = o.val
            while v[0] == 'ref':
                v = v[1]
            if o.kind != 'ret' or v[0] not in ('call', 'pcall') or last(v[1]) != 'get_logger' or v[3] not in ((('par', p),), (('deref', ('ref', p)),)) \
                    or not (isinstance(v[2], tuple) and any(t[0] in ('call', 'pcall') and last(t[1]) == 'instance' for t in subterms(v[2]))):
                bad.append(fmt_path(o)[:300])
        R.ob('get.%s' % f['l'], bool(os_) and not bad, 'get_logger returns the logger the factory has for the name', where(f), '; '.join(bad))
    # the built-in factory
    for f in method(P, LNS + 'logger_factory_default::get_logger'):
        os_ = E.run(f)
        R.saw(f, os_)
        name = ('deref', ('ref', f['p'][0]['n']))
        bad, old, new = [], 0, 0
        for o in os_:
            m = mutations(o)
            ins = [(k, v) for k, v in o.facts.items() if k[0] == 'in' and k[2] == name]
            v = o.val
            ins += [(('in', k[1][1][1], name), b) for k, b in o.facts.items() if k[0] == 'nz' and k[1][0] == 'fld' and k[1][1][0] in ('idx', 'at') and k[1][1][2] == name and b]
            if any(b for k, b in ins):
                old += 1
                cont = [k[1] for k, b in ins if b][0]
                if v not in (('fld', ('idx', cont, name), 'second'), ('idx', cont, name)) and not (v[0] == 'fld' and v[2] == 'second' and contains(v, cont) and contains(v, name)):
                    bad.append('a known name gets %s' % show(v)[:120])
                if m:
                    bad.append('asking for a known name changes %s' % [x[:2] for x in m])
            else:
                new += 1
                puts = [x for x in m if x[1] in ('put', 'put?')]
                rest = [x for x in m if x[1] not in ('put', 'put?')]
                if rest or len(puts) != 1 or puts[0][2] != name or puts[0][3] != v:
                    bad.append('a new logger is not kept under its name: %s' % [(x[1], show(x[2])[:40] if x[2] else None) for x in m])
                if v[0] != 'new' or v[1] != DL or ('this',) not in v[2] or name not in v[2]:
                    bad.append('the logger is made from %s' % show(v)[:120])
        R.ob('builtin.get_logger', old and new and not bad, 'one logger per name, made on first use', where(f), '; '.join(bad)[:700])
    # what a logger knows about itself
    name_of = method(P, KL + '::get_name')
    fac_of = method(P, KL + '::get_factory_name')
    E3 = Engine(P, opaque=fs)
    impl = [f for f in P.funcs.values() if f['q'] == KL + '::impl::impl' and f.get('body') is not None]
    base = [f for f in P.funcs.values() if f['q'] == KL + '::kwiver_logger' and f.get('body') is not None]
    fbase = [f for f in P.funcs.values() if f['q'] == LNS + 'kwiver_logger_factory::kwiver_logger_factory' and f.get('body') is not None and len(f['p']) == 1]
    for c in base:
        if len(c['p']) != 2:
            continue
        os_ = E3.run(c)
        R.saw(c, os_)
        fac, nm = [('par', p['n']) if p['t'].strip().endswith('*') else ('deref', ('ref', p['n'])) for p in c['p']]
        for o in os_:
            for g, what in [(x, 'name') for x in name_of] + [(x, 'factory') for x in fac_of]:
                rs = E3.run(g, st=seeded(E3, o))
                R.saw(g, rs)
                vs = [through_impl(P, E3, impl, r.val) for r in rs]
                if what == 'name':
                    R.ob('self.name', vs == [nm], 'get_name returns the name the logger was made with', where(g), str([show(v) for v in vs])[:300])
                else:
                    ok = len(vs) == 1 and vs[0][0] == 'fld' and vs[0][1] == ('deref', fac) and vs[0][2] in name_fields(P, E3, fbase)
                    R.ob('self.factory', ok, 'get_factory_name returns the name of the factory', where(g), str([show(v) for v in vs])[:300])
                    keep = [x for r in rs for x in subterms(r.val) if x[0] == 'fld' and x[1][0] == 'deref' and x[1][1][0] == 'fld'
                            and pointer_to_factory(P, x[1][1])]
                    R.ob('self.outlives', not keep, 'a logger does not reach for its factory, which may be gone when it was replaced', where(g), str(keep)[:200])
    for f in method(P, LNS + 'kwiver_logger_factory::get_factory_name'):
        for c in fbase:
            for o in E3.run(c):
                rs = E3.run(f, st=seeded(E3, o))
                R.saw(f, rs)
                R.ob('factory.name', [r.val for r in rs] == [('deref', ('ref', c['p'][0]['n']))], 'a factory has the name it was made with', where(f))
    # the manager
    for f in method(P, MG + '::set_logger_factory'):
        os_ = E.run(f)
        R.saw(f, os_)
        par = f['p'][0]['n']
        ok = bool(os_)
        for o in os_:
            hit = False
            for e in o.flat():
                if e[0] == 'write' and 'm_logFactory' in str(e[1]) and par in str(e[2]):
                    hit = True
                if e[0] == 'call' and last(e[1]) in ('swap', 'operator=', 'reset') and (par in str(e[3]) and 'm_logFactory' in str(e[2]) or par in str(e[2]) and 'm_logFactory' in str(e[3])):
                    hit = True
                if e[0] == 'cmut' and e[2] in ('swap', 'reset') and 'm_logFactory' in str(e[1]) + str(e[3]) and par in str(e[1]) + str(e[3]):
                    hit = True
            ok = ok and hit
        R.ob('manager.set', ok, 'set_logger_factory installs the factory given', where(f), '; '.join(fmt_path(o)[:200] for o in os_))
    for f in method(P, MG + '::get_factory_name'):
        os_ = E.run(f)
        R.saw(f, os_)
        ok = bool(os_) and all(o.val[0] == 'fld' and o.val[2] in name_fields(P, E3, fbase) and 'm_logFactory' in str(o.val) for o in os_)
        R.ob('manager.name', ok, 'get_factory_name is the name of the installed factory', where(f), str([show(o.val) for o in os_])[:200])
    for f in method(P, MG + '::load_factory'):
        os_ = Engine(P, opaque=fs).run(f)
        R.saw(f, os_)
        bad = []
        lib = ('deref', ('ref', f['p'][0]['n']))
        ret = [o for o in os_ if o.kind != 'throw']
        if not ret:
            bad.append('never installs a factory')
        for o in os_:
            w = [e for e in o.flat() if e[0] in ('write', 'cmut') and 'm_logFactory' in str(e[1])]
            opened = [t for e in o.flat() if e[0] == 'call' and last(e[1]) in ('OpenLibrary', 'dlopen') for t in [e[3][0]]]
            if not opened or any(t != lib for t in opened):
                bad.append('the library named is not opened')
            if o.kind == 'throw':
                t = o.val[1] if isinstance(o.val, tuple) and o.val and o.val[0] == 'ctor' else str(o.val)
                if 'runtime_error' not in o.describe():
                    bad.append('fails with something else than std::runtime_error: %s' % fmt_path(o)[-200:])
                if w:
                    bad.append('fails after changing the factory')
                continue
            v = w[-1][2] if w and w[-1][0] == 'write' else None
            if v is None:
                v = w[-1][3][0] if w and w[-1][3] else None
            if v is None:
                bad.append('returns without having installed a factory: %s' % fmt_path(o)[:300])
                continue
            sym = [e for e in o.flat() if e[0] == 'call' and last(e[1]) in ('GetSymbolAddress', 'dlsym')]
            if not sym or ('s', 'kwiver_logger_factory') not in sym[0][3]:
                bad.append('the entry point is not kwiver_logger_factory')
            if not any(k == ('nz', v) and b for k, b in o.facts.items()):
                bad.append('installs a factory that may be null: %s' % fmt_path(o)[:300])
            if not any(k[0] == 'nz' and b and k[1][0] in ('call', 'pcall') and last(k[1][1]) in ('OpenLibrary', 'dlopen') for k, b in o.facts.items()):
                bad.append('goes on although the library was not opened')
        R.ob('manager.load', not bad, 'load_factory installs a factory that exists or throws std::runtime_error and leaves the one there was', where(f), '; '.join(sorted(set(bad)))[:800])
    ctor = [f for f in P.funcs.values() if f['q'] == MG + '::kwiver_logger_manager' and f.get('body') is not None and not f['p']]
    for f in ctor:
        Et = Engine(P, opaque=lambda q, fn, e: fs(q, fn, e) or last(q) == 'load_factory', throws=lambda q, e: ['std::runtime_error'] if last(q) == 'load_factory' else [])
        os_ = Et.run(f)
        R.saw(f, os_)
        bad = []
        kinds = set()
        for o in os_:
            ld = [e for e in o.flat() if e[0] == 'call' and last(e[1]) == 'load_factory']
            thrown = any(e[0] == 'thrown' for e in o.flat()) or any('m_logFactory' in str(e[1]) for e in o.flat() if e[0] in ('write', 'cmut'))
            env = [(k, b) for k, b in o.facts.items() if contains(k, ('s', 'VITAL_LOGGER_FACTORY')) and k[0] == 'nz']
            if o.kind == 'throw':
                bad.append('the manager cannot be made: %s' % fmt_path(o)[-200:])
                continue
            inst = [e for e in o.flat() if e[0] in ('write', 'cmut') and 'm_logFactory' in str(e[1])]
            kinds.add((bool(env and env[0][1]), bool(inst)))
            if not ld and not inst:
                bad.append('no factory: %s' % fmt_path(o)[:200])
            if inst and not any(t[0] == 'new' and 'logger_factory_default' in t[1] for e in inst for x in e[2:4] if isinstance(x, tuple) for t in subterms(x)):
                bad.append('falls back to something else than the built-in factory')
            for e in ld:
                a = e[3][0]
                if env and env[0][1]:
                    ok = any(t[0] in ('call', 'pcall') and last(t[1]) == 'getenv' and t[3] == (('s', 'VITAL_LOGGER_FACTORY'),) for t in subterms(a))
                else:
                    ok = a == ('s', 'vital_logger_plugin.so')
                if not ok:
                    bad.append('loads %s' % show(a)[:80])
        if kinds != {(a, b) for a in (True, False) for b in (True, False)}:
            bad.append('not every case has its path: %s' % sorted(kinds))
        R.ob('manager.ctor', bool(os_) and not bad, 'the manager loads the plug-in the environment names or vital_logger_plugin.so, and uses the built-in factory when that fails', where(f), '; '.join(sorted(set(bad)))[:800])


def name_fields(P, E, fbase):
    """the field a factory keeps its name in"""
    r = set()
    for c in fbase:
        for o in E.run(c):
            for e in o.flat():
                if e[0] == 'init' and e[1][0] == 'F' and e[2] == ('deref', ('ref', c['p'][0]['n'])):
                    r.add(e[1][2])
    return r


def through_impl(P, E, impl, v):
    """fields of a freshly made impl replaced by what its constructor puts there"""
    if not isinstance(v, tuple):
        return v
    if v[0] == 'fld' and v[1][0] == 'deref' and v[1][1][0] == 'new':
        n = v[1][1]
        for c in impl:
            if len(c['p']) != len(n[2]):
                continue
            for o in E.run(c):
                got = o.st.store.get(('F', ('P', ('this',)), v[2]))
                if got is None:
                    continue
                env = {}
                for p, a in zip(c['p'], n[2]):
                    env[('par', p['n'])] = a
                    env[('deref', ('ref', p['n']))] = a
                return through_impl(P, E, impl, sub(got, env))
    return tuple(through_impl(P, E, impl, x) for x in v)


def sub(t, env):
    if t in env:
        return env[t]
    if isinstance(t, tuple):
        return tuple(sub(x, env) for x in t)
    return t


def pointer_to_factory(P, t):
    """a field that holds a plain pointer to a factory"""
    for c in P.classes.values():
        for f in c.get('fields', c.get('f', ())):
            if f['n'] == t[2] and 'kwiver_logger_factory' in f['t'] and f['t'].strip().endswith('*'):
                return True
    return False


def check_log_macros(P, R):
    R.rule('LOG_L evaluates and reports its message exactly when L is enabled, once, at level L, with the place of the call; IS_L_ENABLED asks the logger; '
           'LOG_ASSERT reports exactly when its condition is false; each is one statement wherever a statement may stand')
    tu = next((t for t in P.tus if t.get('witness', '').endswith('convert_log.cxx')), None)
    if tu is None:
        raise Broken('the programs using the log macros were not analysed')
    src = open(tu['witness']).read().split('\n')
    errs = {}
    for l in tu['diag'].split('\n'):
        if 'error:' in l:
            n = l.split('convert_log.cxx:', 1)
            ln = n[1].split(':')[0] if len(n) == 2 else '?'
            errs.setdefault(ln, l[-160:])
    E = Engine(P, opaque=lambda q, fn, e: 'kwiver' in q)
    E.skiplog = False
    for i, line in enumerate(src, 1):
        m = re.match(r'(?:void|bool) (\w+)\(', line)
        if not m or line.rstrip().endswith(');'):
            continue
        n = m.group(1)
        if str(i) in errs:
            R.ob('macro.' + n, False, 'a use of the macro is accepted: %s' % line[:80], 'probes/convert_log.cxx:%d' % i, errs[str(i)])
            continue
        fs_ = [f for f in P.funcs.values() if f['q'] == 'verif_log::' + n and f.get('body') is not None]
        if not fs_:
            R.ob('macro.' + n, not errs, 'a use of the macro is accepted', 'probes/convert_log.cxx:%d' % i, str(errs)[:300])
            continue
        if n == 'install':
            R.ob('macro.install', True, 'a factory can be derived and installed', 'probes/convert_log.cxx:%d' % i)
            continue
        f = fs_[0]
        os_ = E.run(f)
        R.saw(f, os_)
        lev = n.split('_')[1]
        bad = []
        if n.startswith('is_'):
            for o in os_:
                c = [e for e in o.flat() if e[0] == 'call']
                if len(c) != 1 or last(c[0][1]) != 'is_%s_enabled' % lev or c[0][2] != ('deref', ('par', 'l')):
                    bad.append('asks %s' % [last(x[1]) for x in c])
                elif o.val not in (('op', '!', c[0][4]), ('op', '!', ('nz', c[0][4]))) and E.truth(o.st, c[0][4]) is None and o.val != C(0):
                    bad.append('answers %s' % show(o.val)[:80])
            R.ob('macro.' + n, bool(os_) and not bad, 'IS_%s_ENABLED asks the logger about its level' % lev.upper(), 'vital/logger/logger.h', '; '.join(bad))
            continue
        for o in os_:
            calls_ = [e for e in o.flat() if e[0] == 'call']
            kw = [e for e in calls_ if e[1].startswith(KL)]
            logs = [e for e in kw if last(e[1]).startswith('log_')]
            text = [e for e in calls_ if e[1] == 'verif_log::text']
            oth = [e for e in calls_ if e[1] == 'verif_log::other']
            nn = ('par', 'n')
            here = E.truth(o.st, ('nz', nn))
            if here is False or E.truth(o.st, ('op', '==', nn, C(0))):
                if kw or text or len(oth) != 1:
                    bad.append('the else branch belongs to the macro')
                continue
            if oth:
                bad.append('the else branch runs with the macro')
            if lev == 'assert':
                cond = [k for k in o.facts if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and k[1][1] == 'verif_log::cond']
                c = o.facts[cond[0]] if cond else None
                one = E.truth(o.st, ('op', '==', nn, C(1)))
                if c is None:
                    bad.append('the condition is not evaluated')
                    continue
                holds = c or bool(one)
                if c is False and one is None:
                    bad.append('only a part of the condition counts')
                want, lv = not holds, ('log_error', 'log_fatal')
            else:
                en = [k for k in o.facts if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]).startswith('is_')]
                if len(en) != 1 or last(en[0][1][1]) != 'is_%s_enabled' % lev:
                    bad.append('asks %s' % [last(k[1][1]) for k in en])
                    continue
                want, lv = o.facts[en[0]], ('log_' + lev,)
            if not want:
                if logs or text:
                    bad.append('%s although nothing is to be reported' % ('reports' if logs else 'evaluates the message'))
                continue
            if len(logs) != 1 or last(logs[0][1]) not in lv or logs[0][2] != ('deref', ('par', 'l')):
                bad.append('reports %s' % [last(e[1]) for e in logs])
                continue
            if len(text) != 1:
                bad.append('the message is evaluated %d times' % len(text))
            a = logs[0][3]
            ps = joined([a[0]])
            t = text[0][4] if text else None
            if not ps or ps[-1] != t or ps[0][0] != 's' or not ps[0][1].endswith('text ') or len(ps) != 2 or (lev != 'assert' and ps[0][1] != 'text '):
                bad.append('the message is %s' % show(a[0])[:120])
            if lev == 'assert' and ps and ps[0][0] == 's' and 'cond() || n == 1' not in ps[0][1]:
                bad.append('the condition is not named')
            if len(a) != 2 or a[1][0] != 'ctor' or len(a[1][2]) != 3 or a[1][2][0] != ('s', tu['witness']) or a[1][2][2] != C(i) or a[1][2][1][0] != 's':
                bad.append('the place of the call is %s' % (show(a[1])[:120] if len(a) > 1 else 'missing'))
        R.ob('macro.' + n, bool(os_) and not bad, '%s does what it says' % n.upper(), 'vital/logger/logger.h', '; '.join(sorted(set(bad)))[:600])
    rest = [e for l, e in errs.items() if not l.isdigit() or not re.match(r'(?:void|bool) \w+\(', src[int(l) - 1])]
    R.ob('macro.accepted', not rest, 'the programs using the logger are accepted', 'probes/convert_log.cxx', '; '.join(rest)[:500])
