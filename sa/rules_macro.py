"""rules about macro expansion in configuration values"""
import re
from base import *
from rules_config_io import P_
from rules_parser import last

NS = 'kwiver::vital::'
EXP = NS + 'token_expander'


def pos(t, cur, text):
    """canonical text position: ('cur', k) relative to the cursor, ('end',), ('begin',)"""
    if t == cur:
        return ('cur', C(0))
    if t[0] == 'end' and t[1] == text or t == ('size', text):
        return ('end',)
    if t[0] == 'begin' and t[1] == text or t == C(0):
        return ('begin',)
    if t[0] == 'op' and t[1] == '+':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            p = pos(a, cur, text)
            if p[0] == 'cur' and p[1] == C(0):
                return ('cur', b)
            if p[0] == 'begin':
                return pos(b, cur, text)
    return ('?', t)


def plus(a, b):
    if a == C(0):
        return b
    if b == C(0):
        return a
    return ('op', '+', a, b)


def text_pieces(v, base, cur, text, wloc=None):
    """list of pieces appended to base in v, None when not understood"""
    if v == base:
        return []
    if v[0] == 'cat':
        out = []
        for i, x in enumerate(v[1:]):
            p = text_pieces(x, base, cur, text) if i == 0 else None
            out += p if p is not None else [piece(x, cur, text)]
        return out
    if v[0] == 'mut' and v[1] == 'append':
        r = text_pieces(v[2], base, cur, text)
        if r is None:
            return None
        a = v[3]
        if len(a) == 2:
            x, y = pos(a[0], cur, text), pos(a[1], cur, text)
            if x[0] != '?' and y[0] != '?':
                return r + [('rng', x, y)]
            return r + [('?', a)]
        if len(a) == 3:
            return r + [sub(a[0], a[1], a[2], cur, text)]
        if len(a) == 1:
            if a[0][0] == 'rangeof':
                return r + [('rng', ('begin',), ('end',))] if a[0][1] == text else r + [('?', a)]
            return r + [piece(a[0], cur, text)]
    if v[0] == 'mut' and v[1] == 'insert' and len(v[3]) == 3 and v[3][0][0] == 'end':
        r = text_pieces(v[2], base, cur, text)
        x, y = pos(v[3][1], cur, text), pos(v[3][2], cur, text)
        return None if r is None else r + [('rng', x, y) if x[0] != '?' and y[0] != '?' else ('?', v[3])]
    return None


def sub(s, p, n, cur, text):
    if s == text:
        a = pos(p, cur, text)
        if a[0] == 'cur':
            return ('rng', a, ('cur', plus(a[1], n)))
    elif is_rest(s, cur, text):
        return ('rng', ('cur', p), ('cur', plus(p, n)))
    return ('?', s, p, n)


def is_rest(s, cur, text):
    """s is the text from the cursor to the end"""
    if s[0] == 'ctor' and len(s[2]) == 2 and pos(s[2][0], cur, text) == ('cur', C(0)) and pos(s[2][1], cur, text) == ('end',):
        return True
    if s[0] in ('call', 'pcall', 'substr') and 'substr' in str(s):
        a = s[3] if s[0] != 'substr' else s[2:]
        b = s[2] if s[0] != 'substr' else s[1]
        return b == text and len(a) >= 1 and pos(a[0], cur, text) == ('cur', C(0)) and (len(a) == 1 or 'npos' in repr(a[1]) or a[1] in (C(-1), C(2 ** 64 - 1)))
    return False


def piece(x, cur, text):
    if x[0] == 'ctor' and x[1] == 'string' and len(x[2]) == 2:
        a, b = pos(x[2][0], cur, text), pos(x[2][1], cur, text)
        if a[0] != '?' and b[0] != '?':
            return ('rng', a, b)
    if x[0] in ('call', 'pcall') and last(str(x[1])) == 'substr':
        if len(x[3]) == 2:
            return sub(x[2], x[3][0], x[3][1], cur, text)
        if len(x[3]) == 1 and pos(x[3][0], cur, text)[0] == 'cur' and x[2] == text:
            return ('rng', pos(x[3][0], cur, text), ('end',))
    if is_rest(x, cur, text):
        return ('rng', ('cur', C(0)), ('end',))
    return ('txt', x)


def check_macros(P, rep):
    rep.rule('each round of the expansion appends the text before the match and the provider result, or for an unknown provider the text up to the end of the '
             'match, then moves the cursor to the end of the match; the rest is appended when nothing matches any more')
    rep.rule('each provider yields the value of the name when it knows it and an empty text otherwise')
    f = P.one(EXP + '::expand_token')
    E = Engine(P, opaque=lambda q, fn, e: 'RegularExpression' in q or last(q) == 'lookup_entry')
    E.keepobj = lambda q: last(q) == 'lookup_entry'
    outs = E.run(f)
    rep.saw(f, outs)
    text = P_(f, 0)
    for o in outs:
        if o.kind != 'ret':
            rep.ob('C09:expand:throws', False, 'expansion delivers a text', where(f, o.line), fmt_path(o))
            continue
        loops = [e for e in o.events if e[0] == 'loop' and any('RegularExpression::find' in str(x[1]) for b in e[3] for x in b[1] if x[0] == 'call')]
        rep.ob('C09:expand:loop', len(loops) == 1 and (runs_through(o, loops[0]) or any(k[0] == 'nz' and v is False and k[1][0] == 'call' and last(k[1][1]) == 'find' for k, v in o.facts.items())), 'the text is searched until nothing matches', where(f, o.line), fmt_path(o))
        if len(loops) != 1:
            continue
        lp = loops[0]
        lid = lp[1]
        # the cursor: the location whose value starts at the beginning of the text and is moved by the end of the match
        init = dict(lp[4])
        cursor = acc = None
        for loc, v in init.items():
            if v == ('begin', ('P', ('ref', f['p'][0]['n']))) or v == ('begin', text) or v == C(0):
                if any('::end' in repr(dict(u).get(loc)) for _f, _e, u in lp[3]):
                    cursor = loc
        if cursor is None:
            rep.ob('C09:expand:cursor', False, 'the cursor starts at the beginning of the text and moves past each match', where(f), str([show(x) for x in init.values()])[:300])
            continue
        cur = ('loopv', lid, cursor)
        T = ('P', ('ref', f['p'][0]['n']))
        tx = T if any(contains(b, ('end', T)) for b in [o.val] + [x[4] for x in o.flat() if x[0] == 'call']) else text
        accs = [loc for loc, v in init.items() if contains(o.val, ('loopv', lid, loc)) and loc != cursor]
        accs = [loc for loc in accs if any(dict(u).get(loc) is not None for _f, _e, u in lp[3]) and init[loc] in (EMPTYSTR, ('s', ''))]
        rep.ob('C09:expand:start', len(accs) == 1, 'the result starts empty', where(f), fmt_path(o))
        if len(accs) != 1:
            continue
        acc = accs[0]
        A = ('loopv', lid, acc)
        ps = text_pieces(o.val, A, cur, tx)
        rep.ob('C09:expand:rest', ps == [('rng', ('cur', C(0)), ('end',))], 'the text after the last match is kept', where(f, o.line), 'appended %s' % (ps,))
        kinds = set()
        for facts, evs, upd in lp[3]:
            u = dict(upd)
            b = Out('body', St({}, dict(facts), evs), None)
            finds = [e for e in evs if e[0] == 'call' and last(e[1]) == 'find' and 'RegularExpression' in e[1]]
            ok = len(finds) == 1 and is_rest(finds[0][3][0] if not isinstance(finds[0][3][0], tuple) or finds[0][3][0][0] != 'cstr' else finds[0][3][0][1], cur, tx)
            rep.ob('C09:expand:search', ok, 'the search covers the text from the cursor on', where(f, lid[1]), fmt_path(b)[:300])
            if not ok:
                continue
            m = ('out', 'find', -1, finds[0][4])

            def rx(t, names, n):
                return t[0] in ('call', 'pcall') and last(t[1]) in names and contains(t, finds[0][4]) and 'RegularExpression' in t[1] and \
                    ((tuple(t[3]) == (C(n),)) or (n == 0 and not t[3]))
            known = [v for k, v in facts if k[0] == 'in' and rx(k[2], ('match',), 1)]
            if len(known) != 1:
                rep.ob('C09:expand:provider', False, 'the provider named by the macro is looked up', where(f), fmt_path(b))
                continue
            kinds.add(known[0])
            nc = u.get(cursor, cur)
            p = pos(nc, cur, tx)
            rep.ob('C09:expand:advance', p[0] == 'cur' and rx(p[1], ('end',), 0), 'the cursor moves to the end of the match', where(f), show(nc)[:200])
            ps = text_pieces(u.get(acc, A), A, cur, tx)
            lk = [e for e in evs if e[0] == 'call' and last(e[1]) == 'lookup_entry']
            if known[0]:
                ok = ps is not None and len(ps) == 2 and ps[0][0] == 'rng' and ps[0][1] == ('cur', C(0)) and ps[0][2][0] == 'cur' and rx(ps[0][2][1], ('start',), 0)
                rep.ob('C09:expand:before', ok, 'the text before the match is kept', where(f), str(ps)[:300])
                ok = len(lk) == 1 and rx(lk[0][3][0], ('match',), 2) and ps is not None and ps[-1][0] == 'txt' and contains(ps[-1], lk[0][4])
                rep.ob('C09:expand:value', ok, 'the text the provider gives for the name is substituted', where(f), str(ps)[:300])
                rep.ob('C09:expand:unknown-name', len(lk) == 1 and lk[0][3][1] in (EMPTYSTR, ('s', '')) and not any(k == ('nz', lk[0][4]) for k, v in facts),
                       'a name the provider does not know becomes empty', where(f), fmt_path(b)[:300])
                if lk:
                    tk = ('in',)
                    rep.ob('C09:expand:object', 'match' in repr(lk[0][2]) or 'match' in repr(lk[0][6]), 'the provider asked is the one named by the macro', where(f), fmt_path(b)[:200])
            else:
                ok = ps is not None and len(ps) == 1 and ps[0][0] == 'rng' and ps[0][1] == ('cur', C(0)) and ps[0][2][0] == 'cur' and rx(ps[0][2][1], ('end',), 0)
                rep.ob('C09:expand:keep', ok and not lk, 'an unknown macro is kept literally', where(f), str(ps)[:300])
        rep.ob('C09:expand:cases', kinds == {True, False}, 'known and unknown providers are told apart', where(f), str(kinds))
    # --- the pattern
    pats = [e for e in walk(f['body']) if e.get('k') == 'str' and '$' in e.get('v', e.get('s', ''))]
    if not pats:
        pats = [e for v in P.vars.values() if v.get('i') is not None and rel(v.get('f', v.get('file', ''))).endswith('token_expander.cxx') for e in walk(v['i']) if e.get('k') == 'str' and '$' in e.get('v', e.get('s', ''))]
    if len(pats) != 1:
        raise Broken('macro pattern not found: %d' % len(pats))
    pat = pats[0].get('v', pats[0].get('s'))
    try:
        r = re.compile(pat)
    except re.error:
        r = None
    import string
    word = string.ascii_letters
    good = [('$' + a + b + '{' + c + '}', a + b, c) for a in word for b in ('', '_', '0', 'Zz9') for c in ('x',)] + \
           [('$A{' + c + '}', 'A', c) for c in list(word + string.digits + '._:') + ['a.b:c_1', '']]
    bad = ['$1{x}', '${x}', 'A{x}', '$A(x)', '$A{x', '$A{x y}', '$A{$B}', '$_A{x}', '$A {x}', '$A{x{}']
    ok = r is not None and all((lambda m: m and m.group(0) == s and m.group(1) == t and (m.group(2) or '') == n)(r.search(s)) for s, t, n in good) \
        and not any(r.search(s) for s in bad)
    rep.ob('C09:pattern', ok, 'the pattern accepts exactly $TYPE{name} with the documented letters', where(f, pats[0].get('l')), pat)
    # --- registration under its own name
    f = P.one(EXP + '::add_token_type')
    outs = Engine(P).run(f)
    rep.saw(f, outs)
    for o in outs:
        ms = [m for m in mutations(o) if m[1] in ('put', 'put?') and (m[1] == 'put') and contains(m[3], ('par', f['p'][0]['n']))]
        rep.ob('C09:register', o.kind != 'ret' or len(ms) == 1 and contains(ms[0][2], ('par', f['p'][0]['n'])), 'a provider is found under its own name, the latest one wins', where(f, o.line), fmt_path(o) + str(ms)[:300])
    # --- providers
    nm, res = 0, 1
    n = 0
    for c in sorted(P.classes.values(), key=lambda c: c['q']):
        if c['q'] == NS + 'token_type' or not P.derives(c['q'], NS + 'token_type') or '/tests/' in c.get('file', ''):
            continue
        g = P.one(c['q'] + '::lookup_entry')
        n += 1

        def thr(q, e):
            return ['kwiver::vital::no_such_configuration_value_exception'] if last(q) == 'get_value' else ()
        E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or last(q) == 'get_value', throws=thr)
        E.keepobj = lambda q: True
        outs = E.run(g)
        rep.saw(g, outs)
        R = ('P', ('ref', g['p'][1]['n']))
        name = P_(g, 0)
        tab = set()
        short = c['q'].split('::')[-1]
        for o in outs:
            if o.kind != 'ret':
                rep.ob('C09:%s:throws' % short, False, 'an unknown name is not an error', where(g, o.line), fmt_path(o))
                continue
            tru = E.truth(o.st, o.val) if o.val[0] != 'c' else bool(o.val[1])
            fin = o.st.store.get(R)
            fin = None if fin == P_(g, 1) else fin
            if tru is None:
                rep.ob('C09:%s:result' % short, False, 'the result tells whether the name is known', where(g, o.line), fmt_path(o))
            elif not tru:
                emptyv = fin is None or fin in (EMPTYSTR, ('s', '')) or (fin[0] == 'mut' and fin[1] == 'clear')
                rep.ob('C09:%s:unknown' % short, emptyv, 'an unknown name yields an empty text', where(g, o.line), fmt_path(o) + show(fin or ())[:200])
                src = source_of(short, o, name)
                rep.ob('C09:%s:missing' % short, src is not True, 'a known name is not reported as unknown', where(g, o.line), fmt_path(o))
            else:
                if short == 'token_type_sysenv':
                    eq = [k[3][1] if k[3][0] == 's' else k[2][1] for k, v in o.facts.items() if v and k[0] == 'op' and k[1] == '==' and name in k[2:4] and any(x[0] == 's' for x in k[2:4])]
                    acc = sorted({last(t[1]) for t in subterms(fin or ()) if isinstance(t, tuple) and t and t[0] in ('call', 'pcall')})
                    if fin is not None and fin[0] == 's':
                        acc = sorted({last(t[1]) + ('=' + fin[1] if v else '!=' + fin[1]) for k, v in o.facts.items() for t in subterms(k) if isinstance(t, tuple) and t and t[0] in ('call', 'pcall')})
                    rep.ob('C09:sysenv:one', len(eq) == 1, 'each answer belongs to one name', where(g, o.line), fmt_path(o))
                    for x in eq:
                        tab.add((x, ','.join(acc)))
                        rep.ob('C09:sysenv:%s' % x, x in SYSENV and ','.join(acc) in SYSENV[x], 'the system property of that name is delivered', where(g, o.line), '%s from %s' % (x, acc))
                else:
                    want = fin is not None and value_of(short, fin, name)
                    rep.ob('C09:%s:known' % short, want, 'the value stored under the name is delivered', where(g, o.line), fmt_path(o) + show(fin or ())[:200])
        if short == 'token_type_sysenv':
            rep.ob('C09:sysenv:all', {x for x, _ in tab} >= set(SYSENV), 'every documented system property exists', where(g), str(sorted(set(SYSENV) - {x for x, _ in tab})))
        else:
            rep.ob('C09:%s:both' % short, len(outs) >= 2, 'known and unknown names are told apart', where(g))
    if n < 4:
        raise Broken('only %d macro providers' % n)


SYSENV = {
    'cwd': ('GetCurrentWorkingDirectory',), 'numproc': ('GetNumberOfLogicalCPU',), 'totalvirtualmemory': ('GetTotalVirtualMemory',),
    'availablevirtualmemory': ('GetAvailableVirtualMemory',), 'totalphysicalmemory': ('GetTotalPhysicalMemory',),
    'availablephysicalmemory': ('GetAvailablePhysicalMemory',), 'hostname': ('GetHostname',), 'domainname': ('GetFullyQualifiedDomainName',),
    'osname': ('GetOSName',), 'osdescription': ('GetOSDescription',), 'osplatform': ('GetOSPlatform',), 'osversion': ('GetOSVersion',),
    'is64bits': ('Is64Bits=TRUE', 'Is64Bits!=FALSE'), 'iswindows': ('GetOSIsWindows=TRUE', 'GetOSIsWindows!=FALSE'),
    'islinux': ('GetOSIsLinux=TRUE', 'GetOSIsLinux!=FALSE'), 'isapple': ('GetOSIsApple=TRUE', 'GetOSIsApple!=FALSE'),
}


def source_of(short, o, name):
    """does the path know that the name has a value?"""
    for k, v in o.facts.items():
        if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) == 'GetEnv' and k[1][3] and k[1][3][0] in (name, ('cstr', name)):
            return v
        if k[0] == 'in' and k[2] == name:
            return v
    return None


def value_of(short, fin, name):
    if fin[0] == 'cat' and len(fin) == 2:
        fin = fin[1]
    if fin[0] in ('call', 'pcall') and last(fin[1]) in ('GetEnv', 'get_value') and fin[3] and fin[3][0] in (name, ('cstr', name)):
        return True
    t = fin
    while t[0] in ('fld', 'val', 'deref', 'at') or t[0] == 'find':
        if t[0] in ('at', 'find') and t[2] == name:
            return True
        if not isinstance(t[1], tuple):
            return False
        t = t[1]
    return False
