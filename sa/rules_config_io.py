"""rules about finding, merging and writing configuration files"""
from base import *
from rules_parser import last

NS = 'kwiver::vital::'


def P_(f, i):
    p = f['p'][i]
    return ('deref', ('ref', p['n'])) if p['m'] in 'crm' else ('par', p['n'])


def additions(o, loc_final):
    """what the returned list is made of, in order: ('one', v) ('all', v) ('each', facts, v, space)"""
    seq = []

    def unroll(v):
        if v[0] == 'mut' and v[1] in ('push_back', 'emplace_back') and len(v[3]) == 1:
            unroll(v[2])
            seq.append(('one', v[3][0]))
        elif v[0] == 'mut' and v[1] == 'insert' and len(v[3]) == 2 and v[3][0][0] == 'end' and v[3][1][0] == 'rangeof':
            unroll(v[2])
            seq.append(('all', v[3][1][1]))
        elif v[0] == 'out':
            c = v[3]
            if c[0] in ('call', 'pcall') and v[2] < len(c[3]):
                unroll(c[3][v[2]])
                seq.append(('by', last(c[1]), tuple(x for i, x in enumerate(c[3]) if i != v[2])))
            else:
                seq.append(('?', v))
        elif v[0] == 'ilist':
            for x in v[1]:
                seq.append(('one', x))
        elif v[0] == 'loopv':
            lid, loc = v[1], v[2]
            # value before the loop, then what each iteration adds
            for e in o.flat():
                if e[0] == 'loop' and e[1] == lid:
                    per = []
                    for facts, evs, upd in e[3]:
                        u = dict(upd).get(loc)
                        a = []
                        while u is not None and u[0] == 'mut' and u[1] in ('push_back', 'emplace_back') and len(u[3]) == 1:
                            a.append(u[3][0])
                            u = u[2]
                        per.append((facts, tuple(reversed(a)), u is None or u == v))
                    pre = prevalue(o, e, loc)
                    if pre is not None:
                        unroll(pre)
                    else:
                        seq.append(('?pre', v))
                    if e[2][0] == 'range' and len(per) == 1 and not per[0][0] and len(per[0][1]) == 1 and per[0][2] and runs_through(o, e) \
                            and per[0][1][0][0] == 'at' and per[0][1][0][1] == e[2][1]:
                        seq.append(('all', e[2][1]))
                    else:
                        seq.append(('each', e[2], per) if runs_through(o, e) else ('?', v))
                    return
            seq.append(('?', v))
        elif v[0] in ('call', 'pcall') and v[0]:
            seq.append(('all', v))
        elif v == ('ctor', '', ()) or (v[0] == 'ctor' and not v[2]):
            pass
        else:
            seq.append(('?', v))
    unroll(loc_final)
    return seq


def prevalue(o, loopev, loc):
    """value of loc when the loop was entered: as recorded, or the last recorded modification before it"""
    v = dict(loopev[4]).get(loc)
    if v is not None:
        return v
    for e in o.events:
        if e is loopev:
            return v if v is not None else ('ilist', ())
        if e[0] == 'cmut' and e[1] == loc:
            v = ('mut', e[2], e[5], e[3])
        elif e[0] == 'call':
            for i, x in enumerate(e[3]):
                pass
    return v


def check_search(P, rep):
    rep.rule('a direct read rejects a missing file and a directory with the not-found error, otherwise parses exactly that file with the given search path')
    rep.rule('a named read takes an absolute name directly; otherwise it visits the search locations in order, then the current directory; locations without '
             'such a regular file are skipped; without merging the first hit is returned; with merging the result so far is merged over each further hit, '
             'so that earlier locations win; no hit at all is the not-found error')
    rep.rule('the search locations are, in this order: the environment override, the application directories below the user and system configuration roots, '
             'the application data directories with /config, and the install prefix; version-specific before version-less')
    opq = ('kwiversys::', NS + 'config_parser', NS + 'config_file_paths', NS + 'config_block::merge_config')
    E = Engine(P, opaque=lambda q, fn, e: q.startswith(opq))

    def fact(o, name, arg):
        for k, v in o.facts.items():
            if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) == name and k[1][3] and k[1][3][0] == arg:
                return v
        return None
    # ---- direct
    f = P.one(NS + 'read_config_file', 2)
    outs = E.run(f)
    rep.saw(f, outs)
    for o in outs:
        ex, isdir = fact(o, 'FileExists', P_(f, 0)), fact(o, 'FileIsDirectory', P_(f, 0))
        if o.kind == 'throw':
            rep.ob('C07:direct:error', o.val[0] == NS + 'config_file_not_found_exception' and (ex is False or isdir is True),
                   'only a missing file or a directory is refused', where(f, o.line), fmt_path(o))
        else:
            ps = [e for e in o.events if e[0] == 'call' and last(e[1]) == 'parse_config']
            ok = ex is True and isdir is False and len(ps) == 1 and ps[0][3][0] == P_(f, 0) and last(o.val[1]) == 'get_config' and contains(o.val, ps[0][4])
            sp = [e for e in o.events if e[0] == 'call' and last(e[1]) == 'add_search_path']
            rep.ob('C07:direct:parse', ok and len(sp) == 1 and sp[0][3][0] == P_(f, 1), 'an existing regular file is parsed with the given search path', where(f, o.line), fmt_path(o))
    rep.ob('C07:direct:cases', len([o for o in outs if o.kind == 'throw']) >= 2 and any(o.kind == 'ret' for o in outs), 'both refusals exist', where(f))
    # ---- named
    f = P.one(NS + 'read_config_file', 5)
    direct = P.one(NS + 'read_config_file', 2)
    E = Engine(P, opaque=lambda q, fn, e: q.startswith(opq) or e.get('u') == direct['u'])
    outs = E.run(f)
    rep.saw(f, outs)
    name = P_(f, 0)
    paths = None
    for o in outs:
        for e in o.flat():
            if e[0] == 'call' and last(e[1]) == 'config_file_paths':
                paths = e[4]
                rep.ob('C07:named:locations', e[3] == tuple(P_(f, i) for i in (1, 2, 3)), 'the locations of this application, version and prefix are searched', where(f, e[5]), show(e[4]))
    if paths is None:
        rep.ob('C07:named:locations', False, 'the search locations are consulted', where(f))
        return
    isread = lambda e: e[0] == 'call' and e[1] == direct['q']
    seen = set()
    for o in outs:
        full = fact(o, 'FileIsFullPath', name)
        if full is None:
            rep.ob('C07:named:absolute', False, 'absolute names are recognised', where(f, o.line), fmt_path(o))
            continue
        reads = [e for e in o.events if isread(e)]
        if full:
            seen.add('absolute')
            rep.ob('C07:named:absolute', o.kind == 'ret' and len(reads) == 1 and reads[0][3][0] == name and reads[0][3][1] == paths and o.val == reads[0][4],
                   'an absolute name is read directly', where(f, o.line), fmt_path(o))
            continue
        loops = [e for e in o.events if e[0] == 'loop' and any(isread(x) for b in e[3] for x in b[1]) or e[0] == 'loop' and e[2][0] == 'range' and contains(e[2], paths)]
        rep.ob('C07:named:loop', len(loops) == 1 and loops[0][2][0] == 'range', 'the locations are visited one by one', where(f, o.line), fmt_path(o))
        if len(loops) != 1:
            continue
        sp = loops[0][2][1]
        rep.ob('C07:named:order', sp == ('mut', 'push_back', paths, (('s', '.'),)), 'all locations in order, then the current directory', where(f, o.line), show(sp)[:300])
        merge = E.truth(o.st, ('par', f['p'][4]['n']))
        if o.kind == 'ret' and reads:
            seen.add('first')
            r = reads[-1]
            cand = r[3][0]
            rep.ob('C07:named:first', merge is False and o.val == r[4] and fact(o, 'FileExists', cand) is True and fact(o, 'FileIsDirectory', cand) is False
                   and cand[0] == 'cat' and len(cand) == 4 and cand[1][0] == 'at' and cand[1][1] == sp and cand[2:] == (('s', '/'), name) and r[3][1] == paths,
                   'without merging the first existing regular file is returned', where(f, o.line), fmt_path(o))
        elif o.kind == 'throw':
            seen.add('none')
            rep.ob('C07:named:none', runs_through(o, loops[0]) and o.val[0] == NS + 'config_file_not_found_exception' and name in list(subterms(o.val[1] or ())) and
                   any(k[0] == 'nz' and not v and k[1][0] == 'loopv' for k, v in o.facts.items()), 'nothing found is the not-found error', where(f, o.line), fmt_path(o))
        else:
            seen.add('merged')
            rep.ob('C07:named:merged', runs_through(o, loops[0]) and o.val[0] == 'loopv' and E.truth(o.st, o.val) is True, 'the accumulated configuration is returned', where(f, o.line), fmt_path(o))
        acc = None
        for facts, evs, upd in loops[0][3]:
            rd = [e for e in evs if isread(e)]
            mg = [e for e in evs if e[0] == 'call' and last(e[1]) == 'merge_config']
            up = [(l, v) for l, v in upd if v[0] in ('call', 'pcall', 'out') and (rd and v == rd[0][4])]
            b = Out('body', St({}, dict(facts), evs), None)
            if not rd:
                ok = not mg and not [1 for l, v in upd if l[0] == 'L' and v[0] == 'call' and last(str(v[1])) != 'get_logger']
                miss = [1 for k, v in facts if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and
                        ((last(k[1][1]) == 'FileExists' and not v) or (last(k[1][1]) == 'FileIsDirectory' and v))]
                rep.ob('C07:named:skip', ok and bool(miss), 'only a location without a regular file of that name is skipped', where(f, loops[0][1][1]), fmt_path(b))
                continue
            cand = rd[0][3][0]
            ok = len(rd) == 1 and cand[0] == 'cat' and len(cand) == 4 and cand[1][0] == 'at' and cand[1][1] == sp and cand[2:] == (('s', '/'), name)
            rep.ob('C07:named:candidate', ok and rd[0][3][1] == paths, 'the candidate is the location followed by the name', where(f, rd[0][5]), show(cand)[:200])
            rep.ob('C07:named:continue', len(up) == 1, 'with merging the search continues with the file just read', where(f, rd[0][5]), fmt_path(b))
            if len(up) == 1:
                prev = ('loopv', loops[0][1], up[0][0])
                had = [v for k, v in facts if k == ('nz', prev)]
                if mg:
                    ok = had == [True] and len(mg) == 1 and mg[0][3] == (prev,) and mg[0][6] == ('P', rd[0][4])
                else:
                    ok = had == [False]
                rep.ob('C07:named:precedence', ok, 'earlier results are merged over the file just read', where(f, rd[0][5]), '; '.join(show(e[4])[:200] for e in mg) + fmt_path(b))
    rep.ob('C07:named:cases', seen == {'absolute', 'first', 'none', 'merged'}, 'every documented outcome exists', where(f), str(seen))
    # ---- the locations
    f = P.one(NS + 'config_file_paths')
    apps = [g for g in P.funcs.values() if g.get('body') is not None and g['file'] == f['file'] and g['u'] != f['u'] and len(g['p']) == 3 and
            g['p'][0]['t'].startswith(('const std::vector', 'std::vector')) and g['rt'].startswith('std::vector')]
    if len(apps) != 1:
        raise Broken('helper that derives application directories not identified')
    app = apps[0]
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or e.get('u') == app['u'])
    outs = E.run(f)
    rep.saw(f, outs)
    pre = P_(f, 2)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            rep.ob('C07:paths:throws', False, 'the list is always produced', where(f, o.line), fmt_path(o))
            continue
        n += 1
        home = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] == 'call' and last(k[1][1]) == 'GetEnv' and k[1][3] == (('s', 'HOME'),)]
        homev = [k[1] for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] == 'call' and last(k[1][1]) == 'GetEnv' and k[1][3] == (('s', 'HOME'),)]
        blank = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] in ('deref', 'at') and homev and contains(k[1], homev[0])] + \
                [not v for k, v in o.facts.items() if k[0] == 'empty' and homev and contains(k[1], homev[0])]
        hashome = home == [True] and (bool(blank) and all(blank))
        std = E.truth(o.st, ('empty', pre)) is True or any(E.truth(o.st, ('op', '==', pre, ('s', x))) is True for x in ('/usr', '/usr/local'))

        def canon(seq):
            r = []
            for x in seq:
                if x[0] == 'by' and x[1] == 'GetPath':
                    r.append('$' + str(x[2][0][1]))
                elif x[0] == 'one':
                    r.append(txt(x[1]))
                elif x[0] == 'all' and x[1][0] in ('call', 'pcall') and x[1][1] == app['q']:
                    if x[1][3][1:] != (P_(f, 0), P_(f, 1)):
                        r.append('?')
                    r.append('app(%s)' % ','.join(canon(additions(o, x[1][3][0]))))
                elif x[0] == 'each' and x[1][0] == 'range':
                    adds = {a for _f, a, whole in x[2] if whole}
                    sp = canon([('all', x[1][1])]) if x[1][1][0] in ('call', 'pcall') else canon(additions(o, x[1][1]))
                    if len(adds) == 1 and len(list(adds)[0]) == 1:
                        a = list(adds)[0][0]
                        if a[0] == 'cat' and a[1][0] == 'at' and a[1][1] == x[1][1]:
                            r.append('%s+%s' % (';'.join(sp), ''.join(txt(t) for t in a[2:])))
                            continue
                    r.append('?each')
                else:
                    r.append('?' + show(x[1])[:80] if len(x) > 1 and isinstance(x[1], tuple) else '?')
            return r

        def txt(t):
            if t[0] == 's':
                return t[1]
            if t[0] == 'cat':
                return ''.join(txt(x) for x in t[1:])
            if homev and contains(t, homev[0]):
                return '~'
            if t == pre:
                return '<prefix>'
            return '?'
        got = canon(additions(o, o.val))
        want = ['$KWIVER_CONFIG_PATH',
                'app($XDG_CONFIG_HOME%s,/etc/xdg,/etc)' % (',~/.config' if hashome else ''),
                'app(/usr/local/share,/usr/share%s)+/config' % ('' if std else ',<prefix>/share')]
        if not std:
            want += ['<prefix>/share/config', '<prefix>/config']
        rep.ob('C07:paths:order', got == want, 'the locations are the documented ones in the documented order', where(f, o.line), 'have %s want %s | %s' % (got, want, fmt_path(o)[:300]))
    if n < 4:
        raise Broken('location list: %d paths' % n)
    E = Engine(P)
    outs = E.run(app)
    rep.saw(app, outs)
    src, an, av = P_(app, 0), P_(app, 1), P_(app, 2)
    for o in outs:
        seq = additions(o, o.val) if o.kind == 'ret' else []
        ok = len(seq) == 1 and seq[0][0] == 'each' and seq[0][1] == ('range', src)
        rep.ob('C07:app:each', ok, 'every root contributes, in order', where(app, o.line), str([x[0] for x in seq]))
        if not ok:
            continue
        for facts, adds, whole in seq[0][2]:
            nov = [v for k, v in facts if k == ('empty', av)]
            el = adds[0][1] if adds and adds[0][0] == 'cat' else None
            base = ('cat', el, ('s', '/'), an)
            want = (base,) if nov == [True] else (base + (('s', '/'), av), base)
            rep.ob('C07:app:order', whole and len(nov) == 1 and el is not None and el[0] == 'at' and adds == want,
                   'the version directory comes before the application directory', where(app), '; '.join(show(a) for a in adds))


# ---------------------------------------------------------------------- C08
def check_write(P, rep):
    rep.rule('writing emits, for every available key in sorted order, the non-empty description as comment, then "key = value" and, when known, the '
             'location as comment; an empty block is refused')
    rep.rule('writing to a file refuses a directory, creates the parent directory or fails, and returns normally only when the stream was good after opening '
             'and after the last write')
    opq = ('kwiversys::', NS + 'config_block::')
    wr = P.one(NS + 'write_config', 2)
    cm = [g for g in P.funcs.values() if g.get('body') is not None and g['file'] == wr['file'] and len(g['p']) == 2 and 'ostream' in g['p'][0]['t'] and g['u'] != wr['u']]
    cm = [g for g in cm if any('tokenize' in str(x.get('q', '')) for x in calls(g['body']))]
    cmq = [strip_targs(g['q']) for g in cm]
    if not cm:
        raise Broken('comment writer not identified')
    E = Engine(P, opaque=lambda q, fn, e: q.startswith(opq) or e.get('u') in [g['u'] for g in cm])
    E.keepobj = lambda q: True
    outs = E.run(wr)
    rep.saw(wr, outs)
    nb = 0
    for o in outs:
        emp = [v for k, v in o.facts.items() if k[0] == 'empty' and 'available_values' in repr(k)]
        if o.kind == 'throw':
            rep.ob('C08:empty', o.val[0] == NS + 'config_file_write_exception' and emp == [True], 'only an empty block is refused', where(wr, o.line), fmt_path(o))
            continue
        rep.ob('C08:nonempty', emp == [False] or emp and not any(emp), 'an empty block is not written', where(wr, o.line), fmt_path(o))
        loops = [e for e in o.events if e[0] == 'loop' and e[2][0] == 'range' and 'available_values' in repr(e[2])]
        rep.ob('C08:all', len(loops) == 1 and space_is_sorted_keys(loops[0][2][1]) and runs_through(o, loops[0]), 'every available key is visited, in sorted order', where(wr, o.line), show(loops[0][2])[:200] if loops else '')
        if len(loops) != 1:
            continue
        for facts, evs, upd in loops[0][3]:
            nb += 1
            b = Out('body', St({}, dict(facts), evs), None)
            outv = streamed(evs, P_(wr, 1), cmq)
            key = None
            for t in outv:
                if t[0] == 'at' and 'available_values' in repr(t):
                    key = t
                    break
            ls = lines(outv)
            hit = [i for i, (ps, t) in enumerate(ls) if t and len(ps) == 3 and ps[0] == key and ps[1] == ('s', ' = ') and is_get(ps[2], 'get_value', key)]
            rep.ob('C08:entry', key is not None and len(hit) == 1, 'the line "key = value" is written', where(wr), ' '.join(show(t)[:60] for t in outv) + ' | ' + fmt_path(b)[:400])
            if len(hit) != 1:
                continue
            rest = [i for i, (ps, t) in enumerate(ls) if ps and i != hit[0] and ps[0][0] != 'comment' and not (t and ps[0][0] == 's' and ps[0][1].startswith('#'))]
            rep.ob('C08:only', not rest, 'nothing but the entry, comments and blank lines is written', where(wr), ' '.join(show(t)[:60] for t in outv))
            d = [v for k, v in facts if (k[0] == 'empty' and is_get(k[1], 'get_description', key)) or (k[0] == 'op' and k[1] == '==' and any(is_get(x, 'get_description', key) for x in k[2:4]))]
            c = [i for i, (ps, t) in enumerate(ls) if ps and ps[0][0] == 'comment']
            ok = (not c and d and d[0]) or (len(c) == 1 and c[0] < hit[0] and is_get(ls[c[0]][0][0][1], 'get_description', key))
            rep.ob('C08:description', ok, 'a non-empty description is written as comment before the entry', where(wr), ' '.join(show(t)[:60] for t in outv))
            loc = [v for k, v in facts if k[0] == 'nz' and is_get(k[1], 'get_location', key)]
            after = [x for x in ls[hit[0] + 1:] if x[0]]
            if loc == [True]:
                o1 = [t for ps, _t in after for t in ps if t[0] == 'out']
                ok = len(after) == 1 and [t[2] for t in o1] == [1, 2]
            else:
                ok = loc == [False] and not after
            rep.ob('C08:location', ok, 'a known location follows as comment', where(wr), ' '.join(show(t)[:60] for t in outv))
    if nb < 4:
        raise Broken('writer loop not understood')
    # every line of the comment starts with the comment token
    for g in cm:
        check_comment(P, rep, g)
    # file
    f = P.one(NS + 'write_config_file', 2)
    E = Engine(P, opaque=lambda q, fn, e: q.startswith(opq) or e.get('u') == wr['u'])
    outs = E.run(f)
    rep.saw(f, outs)
    path = P_(f, 1)
    for o in outs:
        isdir = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) == 'FileIsDirectory' and k[1][3][0] == path]
        if o.kind == 'throw':
            rep.ob('C08:file:error', o.val[0] == NS + 'config_file_write_exception', 'a failure is reported as the write error', where(f, o.line), fmt_path(o))
            continue
        w = [e for e in o.events if e[0] == 'call' and e[1] == wr['q']]
        rep.ob('C08:file:content', len(w) == 1 and w[0][3][0] == P_(f, 0), 'the configuration is written once', where(f, o.line), fmt_path(o))
        rep.ob('C08:file:dir', isdir == [False], 'a directory is never written to', where(f, o.line), fmt_path(o))
        md = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) == 'MakeDirectory']
        pd = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) == 'FileIsDirectory' and k[1][3][0] != path]
        rep.ob('C08:file:parent', pd == [True] or md == [True], 'the parent directory exists or was created', where(f, o.line), fmt_path(o))
        good_writes(rep, 'C08:file', E, f, o, [e for e in w])
    rep.ob('C08:file:cases', any(o.kind == 'ret' for o in outs) and len([o for o in outs if o.kind == 'throw']) >= 3, 'all outcomes exist', where(f))


def good_writes(rep, tag, E, f, o, writes):
    """the output stream was good after it was opened and after it was last written / closed"""
    st = [(k[1], v) for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] == 'stream']
    opened = [s for s, v in st if v and not any(contains(s, w[4]) for w in writes)]
    final = [s for s, v in st if v and any(contains(s, w[4]) for w in writes)] if writes else opened
    rep.ob(tag + ':opened', bool(opened or final), 'a file that cannot be opened is reported', where(f, o.line), fmt_path(o))
    rep.ob(tag + ':written', bool(final), 'a failed write is reported', where(f, o.line), fmt_path(o))


def is_get(t, name, key):
    return isinstance(t, tuple) and len(t) > 3 and t[0] in ('call', 'pcall') and last(str(t[1])) == name and t[3] and t[3][0] == key


def space_is_sorted_keys(v):
    while v[0] == 'mut' and v[1] in ('sort', 'stable_sort'):
        if v[2][0] != 'mut':
            return 'available_values' in repr(v[2]) and len(v[3]) == 2
        v = v[2]
    return False


def pieces(t):
    """flat list of the text pieces of a streamed value"""
    if t[0] == 'cat':
        return [y for x in t[1:] for y in pieces(x)]
    return [t]


def streamed(evs, stream, cm):
    """what one path writes to the stream, flattened: text pieces and ('comment', text)"""
    out = []
    for e in evs:
        if e[0] == 'call' and strip_targs(e[1]) in cm:
            out.append(('comment', e[3][1]))
        elif e[0] == 'emit':
            for t in pieces(e[2]):
                if out and out[-1][0] == 's' and t[0] == 's':
                    out[-1] = ('s', out[-1][1] + t[1])
                else:
                    out.append(t)
    return out


def lines(seq):
    """split flattened text into lines -> [(pieces, terminated)]"""
    cur, res = [], []
    for t in seq:
        if t[0] == 's':
            ps = t[1].split('\n')
            for i, x in enumerate(ps):
                if i:
                    res.append((cur, True))
                    cur = []
                if x:
                    cur.append(('s', x))
        elif t[0] == 'comment':
            res.append((cur, True)) if cur else None
            res.append(([t], True))
            cur = []
        else:
            cur.append(t)
    if cur:
        res.append((cur, False))
    return res


def starts_hash(o, v, assume=()):
    if v in assume:
        return True
    if v[0] == 's':
        return v[1].startswith('#')
    if v[0] == 'cat':
        return starts_hash(o, v[1], assume)
    if v[0] == 'mut' and v[1] in ('append', 'push_back'):
        return starts_hash(o, v[2], assume)
    if v[0] == 'loopv':
        lp = loop_of(o, v[1])
        if lp is None:
            return False
        ini = dict(lp[4]).get(v[2]) if len(lp) > 4 else None
        if ini is None or not starts_hash(o, ini, assume):
            return False
        for facts, evs, upd in lp[3]:
            u = dict(upd).get(v[2])
            if u is not None and not starts_hash(o, u, tuple(assume) + (v,)):
                return False
        return True
    return False


def loop_of(o, lid):
    for e in o.flat():
        if e[0] == 'loop' and e[1] == lid:
            return e
    return None


def check_comment(P, rep, g):
    E = Engine(P, opaque=lambda q, fn, e: 'tokenize' in q)
    outs = E.run(g)
    rep.saw(g, outs)
    n = 0
    for o in outs:
        segs = o.segments()
        for sg in segs:
            bad = None
            for ps, term in lines([t for e in sg.events if e[0] == 'emit' for t in pieces(e[2])]):
                if not ps:
                    continue
                n += 1
                if not (starts_hash(o, ps[0]) and term):
                    bad = ps
            rep.ob('C08:comment:prefix', bad is None, 'every comment line starts with the comment token and ends', where(g), ' '.join(show(x)[:100] for x in bad or []) + fmt_path(sg)[:500])
    if n < 2:
        rep.ob('C08:comment:lines', False, 'the comment is written line by line', where(g))
