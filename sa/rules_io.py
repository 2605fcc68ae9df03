"""rules about the camera, landmark and track files and the stream operators of the basic types"""
from base import *
from rules_parser import last
from rules_config_io import P_

NS = 'kwiver::vital::'
FS = ('kwiversys::',)


def is_fs(q, fn, e):
    return q.startswith(FS)


def fsfact(o, name, arg):
    """what the path knows about the file system predicate name(arg)"""
    for k, v in o.facts.items():
        if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) == name and k[1][3] and k[1][3][0] == arg:
            return v
    return None


def is_ctor(t, name, arg):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'ctor' and name in t[1] and t[2] and t[2][0] == arg


def opened(o, kind, path):
    """the file streams of this kind that the path constructed on path"""
    r = []
    for e in o.flat():
        for x in e:
            if isinstance(x, tuple):
                for t in subterms(x):
                    if is_ctor(t, kind, path) and t not in r:
                        r.append(t)
    for k in o.facts:
        for t in subterms(k):
            if is_ctor(t, kind, path) and t not in r:
                r.append(t)
    return r


def good_terms(o, loops=None):
    """stream states known to be good at the end of the path: tested ones, and ones that survived a loop which leaves on failure"""
    good = [k[1][2] for k, v in o.facts.items() if k[0] == 'nz' and v and k[1][0] == 'stream']
    for e in o.events:
        if e[0] != 'loop' or not e[3]:
            continue
        sp = e[2]
        atleast1 = sp[0] == 'count' and sp[1][0] == 'c' and sp[2][0] == 'c' and isinstance(sp[1][1], int) and isinstance(sp[2][1], int) and sp[1][1] < sp[2][1]
        locs = set(l for b in e[3] for l in dict(b[2]))
        for l in locs:
            ok = True
            for facts, evs, upd in e[3]:
                u = dict(upd).get(l)
                if u is None:
                    ok = False
                    break
                g = good_terms(Out('body', St(dict(upd), dict(facts), tuple(evs)), None))
                if not any(contains(t, u) for t in g):
                    ok = False
                    break
            if ok and atleast1:
                good.append(('loopv', e[1], l))
                init = dict(e[4]).get(l)
                if init is not None:
                    good.append(init)
    return good


def chain_calls(t):
    """extraction calls in a stream state"""
    return [x for x in subterms(t) if x and x[0] == 'out' and isinstance(x[3] if len(x) > 3 else None, tuple) and x[3][0] == 'call']


def is_extraction(t):
    return len(t) == 4 and t[0] == 'out' and isinstance(t[3], tuple) and t[3][0] == 'call' and strip_targs(t[3][1]).split('::')[-1] in ('operator>>', 'getline', 'get', 'read')


def is_value(t):
    """an extracted value (as opposed to the stream it came from)"""
    if not is_extraction(t):
        return False
    n = strip_targs(t[3][1]).split('::')[-1]
    if t[3][2] is not None and n == 'operator>>':       # method form
        return t[2] == 0
    return t[2] == 1


def unchecked(o, terms, up=()):
    """extracted values inside terms whose extraction is not known to have succeeded"""
    good = good_terms(o)
    bad = []
    for x in terms:
        for t in subterms(x):
            if t and is_value(t) and not any(contains(g, t[3]) for g in good) and t not in bad:
                # the value was only used to extract the next one: not a use
                bad.append(t)
    return bad


def strip_streams(t):
    """forget which earlier extractions a stream state came from: an argument of an extraction is not a use of its old value"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'out' and is_extraction(t) and not is_value(t):
        return ('streamstate',)
    return tuple(strip_streams(x) for x in t)


def value_uses(o, target_events=('new', 'write', 'cmut', 'init', 'emit')):
    """terms that leave the extraction code: stored, passed on or returned"""
    for e in o.events:
        if e[0] == 'call':
            n = strip_targs(e[1]).split('::')[-1]
            if n in ('operator>>', 'getline', 'get', 'read', 'close', 'good', 'fail', 'eof', 'clear', 'ignore', 'peek'):
                continue
            yield e[3], e
        elif e[0] in target_events:
            yield tuple(x for x in e[1:] if isinstance(x, tuple)), e


def values_in(t):
    """extracted values used in t, not looking into the streams they came from"""
    r = []

    def go(x):
        if not isinstance(x, tuple):
            return
        if x and is_extraction(x):
            if is_value(x) and x not in r:
                r.append(x)
            return
        for y in x:
            go(y)
    go(t)
    return r


# ------------------------------------------------------------------ writers
WRITERS = {'write_krtd_file': 1, 'write_ply_file': 1, 'write_track_file': 1}


def check_writers(P, rep):
    rep.rule('every function that writes a camera, landmark or track file refuses a directory, creates missing parent directories, establishes that the stream is '
             'good after opening and again after the last byte was flushed or the file closed, and raises file_write_exception on every other path')
    rep.rule('every element of the collection is written, one line each, whose columns are those the header names, in that order')
    for name, pi in sorted(WRITERS.items()):
        f = P.one(NS + name)
        inl = lambda q, fn, e: False
        E = Engine(P, opaque=lambda q, fn, e: q.startswith(FS) or (last(q) == 'operator<<' and name == 'write_krtd_file' and q.startswith(NS)))
        outs = E.run(f)
        rep.saw(f, outs)
        path = P_(f, pi)
        data = P_(f, 0)
        rets = 0
        kinds = set()
        for o in outs:
            if o.kind == 'throw':
                kinds.add(1)
                rep.ob('I01:%s:error' % name, o.val[0] == NS + 'file_write_exception', 'a failure is reported as a write error', where(f, o.line), fmt_path(o))
                continue
            rets += 1
            st = opened(o, 'basic_ofstream', path)
            rep.ob('I01:%s:dir' % name, fsfact(o, 'FileIsDirectory', path) is False, 'a directory is never written to', where(f, o.line), fmt_path(o))
            par = [k[1][3][0] for k in o.facts if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) in ('FileIsDirectory', 'MakeDirectory', 'FileExists') and k[1][3]
                   and k[1][3][0] != path and contains(k[1][3][0], path)]
            okp = any((fsfact(o, 'FileIsDirectory', p) or fsfact(o, 'MakeDirectory', p)) and any(t[0] in ('call', 'pcall') and last(t[1]) == 'GetFilenamePath' for t in subterms(p)) for p in par)
            rep.ob('I01:%s:parent' % name, okp, 'the directory of the file exists or was created', where(f, o.line), fmt_path(o))
            if not rep.ob('I01:%s:open' % name, len(st) == 1, 'exactly one stream is opened, on the given path', where(f, o.line), fmt_path(o)):
                continue
            fin = [t for t in good_terms(o) if contains(t, st[0]) or t[0] == 'loopv']
            # the last thing written to the stream
            lastw, lastf = -1, -1
            for i, e in enumerate(o.events):
                wr = False
                if e[0] == 'emit':
                    wr = True
                elif e[0] == 'loop':
                    wr = any(x[0] in ('emit',) or (x[0] == 'call' and last(x[1]) in ('operator<<', 'write', 'put')) for b in e[3] for x in Out('', St({}, {}, tuple(b[1])), None).flat())
                elif e[0] == 'call' and (last(e[1]) in ('operator<<', 'write', 'put') or name != 'write_krtd_file' and not e[1].startswith('std::') and any(isinstance(a, tuple) and contains(a, st[0]) for a in e[3])):
                    wr = any(contains(x, st[0]) for x in e[2:5] if isinstance(x, tuple))
                if wr:
                    lastw = i
                if e[0] == 'call' and last(e[1]) in ('close', 'flush') and e[2] is not None and contains(e[2], st[0]):
                    if any(contains(t, e[4]) for t in fin):
                        lastf = i
            rep.ob('I01:%s:flushed' % name, lastw >= 0 and lastf > lastw, 'the stream is known to be good after the last byte was flushed', where(f, o.line), fmt_path(o))
            if name != 'write_krtd_file':
                rep.ob('I01:%s:empty' % name, any(k[0] == 'nz' and v and contains(k, data) and k[1][0] in ('call', 'pcall', 'size') or k[0] == 'empty' and v is False and contains(k, data)
                                                   for k, v in o.facts.items()), 'an empty collection is refused', where(f, o.line), fmt_path(o))
            if name == 'write_ply_file':
                ply_content(rep, f, o, data)
            elif name == 'write_track_file':
                track_content(rep, f, o, data)
            else:
                ws = [e for e in o.flat() if e[0] == 'call' and last(e[1]) == 'operator<<']
                rep.ob('I01:%s:content' % name, len(ws) == 1 and ws[0][3][1] == data, 'the camera is written', where(f, o.line), str([show(w[4]) for w in ws]))
        rep.ob('I01:%s:cases' % name, rets >= 1 and kinds == {1}, 'success and failure paths exist', where(f))


def emits(events):
    return [(e[2], e[3]) for e in events if e[0] == 'emit']


def const(v):
    return v[0] == 's'


COEFFS = {('c', i): n for i, n in enumerate('xyzw')}


def attr(t):
    """path of attribute names of the element written: loc().x() -> ('loc', 'x')"""
    out = []
    while isinstance(t, tuple):
        if t[0] in ('call', 'pcall') and t[2] is not None and not t[3]:
            n = last(t[1])
            if n not in ('transpose', 'eval', 'operator*', 'operator->', 'get', 'coeffs'):
                out.append(n)
            t = t[2]
        elif t[0] == 'fld':
            out.append(t[2])
            t = t[1]
        elif t[0] in ('deref', 'cast', 'trunc') and isinstance(t[-1], tuple):
            t = t[-1]
        elif t[0] == 'at' and t[2] in COEFFS:
            out.append(COEFFS[t[2]])
            t = t[1]
        else:
            break
    norm = []
    for n in reversed(out):
        n = n.rstrip('_')
        if n.startswith('get_'):
            n = n[4:]
        norm.append(n)
    return tuple(norm), t


PLYCOL = {'x': ('loc', 'x'), 'y': ('loc', 'y'), 'z': ('loc', 'z'), 'nx': ('normal', 'x'), 'ny': ('normal', 'y'), 'nz': ('normal', 'z'),
          'red': ('color', 'r'), 'green': ('color', 'g'), 'blue': ('color', 'b'), 'track_id': ('first',), 'observations': ('observations',)}
REQUIRED_COLS = set(PLYCOL)


def line_columns(ems):
    """values of one line and whether they are separated and the line ended"""
    vals, sep, ended = [], True, False
    prev = None
    for v, _l in ems:
        parts = v[1:] if v[0] == 'cat' else (v,)
        for p in parts:
            if const(p):
                if p[1].endswith('\n'):
                    ended = True
                prev = 's' if p[1].strip() != p[1] or not p[1] else prev
            else:
                if prev == 'v':
                    sep = False
                vals.append(p)
                prev = 'v'
                ended = False
    return vals, sep, ended


def ply_content(rep, f, o, data):
    head = ''
    cnt = None
    loops = [e for e in o.events if e[0] == 'loop' and any(x[0] == 'emit' for b in e[3] for x in b[1])]
    if not rep.ob('I01:ply:loop', len(loops) == 1 and loops[0][2][0] == 'range' and runs_through(o, loops[0]), 'the landmarks are visited one by one', where(f, o.line)):
        return
    for e in o.events:
        if e is loops[0]:
            break
        if e[0] == 'emit':
            for p in (e[2][1:] if e[2][0] == 'cat' else (e[2],)):
                if const(p):
                    head += p[1]
                else:
                    if head.endswith('element vertex '):
                        cnt = p
                    head += '@'
    cols = [l.split()[2] for l in head.split('\n') if l.startswith('property ') and len(l.split()) == 3]
    rep.ob('I01:ply:header', head.startswith('ply\nformat ascii 1.0\n') and head.endswith('end_header\n') and set(cols) >= REQUIRED_COLS and len(set(cols)) == len(cols),
           'the header is a PLY header naming every attribute', where(f, o.line), head[:300])
    sp = loops[0][2][1]
    src = sp
    rep.ob('I01:ply:count', cnt is not None and (cnt == ('size', sp) or attr(cnt)[0] in (('size',), ('landmarks', 'size')) and contains(cnt, data)),
           'the announced number of vertices is the number of landmarks written', where(f, o.line), show(cnt) if cnt else '')
    rep.ob('I01:ply:all', attr(sp)[0] == ('landmarks',) and contains(sp, data), 'all landmarks of the map are written', where(f, o.line), show(sp))
    for facts, evs, upd in loops[0][3]:
        vals, sep, ended = line_columns(emits(evs))
        got = []
        for v in vals:
            a, root = attr(v)
            if a and a[0] == 'second':
                a = a[1:]
            got.append(a)
        rep.ob('I01:ply:columns', sep and ended and got == [PLYCOL.get(c) for c in cols], 'each line holds the values the header names, in that order, as numbers', where(f, evs and evs[0][-1] if False else f['l']),
               str(got))
        rep.ob('I01:ply:each', True, 'a line for each landmark', where(f))


FEATCOLS = [('loc',), ('magnitude',), ('scale',), ('angle',), ('color', 'r'), ('color', 'g'), ('color', 'b')]


def track_content(rep, f, o, data):
    loops = [e for e in o.events if e[0] == 'loop' and any(x[0] == 'emit' for x in Out('', St({}, {}, (e,)), None).flat())]
    if not rep.ob('I01:track:loop', len(loops) == 1 and loops[0][2][0] == 'range' and attr(loops[0][2][1])[0] == ('tracks',) and contains(loops[0][2][1], data) and runs_through(o, loops[0]),
                  'all tracks are visited', where(f, o.line)):
        return
    for facts, evs, upd in loops[0][3]:
        inner = [e for e in evs if e[0] == 'loop']
        if not rep.ob('I01:track:states', len(inner) == 1 and inner[0][2][0] == 'range' and attr(inner[0][2][1])[0] in ((), ('history',)) and runs_through(o, inner[0]), 'all states of each track are visited', where(f), str([show(x[2]) for x in inner])):
            continue
        for f2, evs2, upd2 in inner[0][3]:
            vals, sep, ended = line_columns(emits(evs2))
            got = [attr(v) for v in vals]
            g = [a for a, r in got]
            ok = len(g) == 9 and g[0][-1:] == ('id',) and g[1] == ('frame_id',) and [x[1:] if x[:1] == ('feat',) else x for x in g[2:]] == FEATCOLS
            rep.ob('I01:track:columns', ok and sep and ended, 'each state is written with track number, frame and feature, in that order', where(f), str(g))
            fd = dict(f2)
            rep.ob('I01:track:null', any(k[0] == 'nz' and v and attr(k[1])[0][-1:] == ('feat',) for k, v in fd.items()),
                   'a state without feature is refused, not dereferenced', where(f))


# ------------------------------------------------------------------ readers
def check_camera_maps(P, rep):
    """the cameras of a list of images"""
    rep.rule('the camera of an image is read from the file with the name of the image and the extension .krtd in the given directory; every image of a list is '
             'looked at, a camera is kept under the position of its image, only missing files are left out, and a missing directory or no camera at all is an error')
    RK = NS + 'read_krtd_file'
    MISS = NS + 'file_not_found_exception'
    f = P.one(RK, 2)
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or q == RK)
    outs = E.run(f)
    rep.saw(f, outs)
    img, dr = [('deref', ('ref', p['n'])) for p in f['p']]
    for o in outs:
        c = [e for e in o.flat() if e[0] == 'call' and e[1] == RK]
        ok = o.kind == 'ret' and len(c) == 1 and o.val == c[0][4] and len(c[0][3]) == 1
        a = c[0][3][0] if ok else ('?',)
        ok = ok and a[0] == 'cat' and len(a) == 5 and a[1] == dr and a[2] == ('s', '/') and a[4] == ('s', '.krtd') and a[3][0] in ('call', 'pcall') and \
            last(a[3][1]) == 'GetFilenameWithoutLastExtension' and a[3][3] == (img,)
        rep.ob('I02:krtd:name', ok, 'the camera file has the name of the image and the extension .krtd', where(f, o.line), show(a)[:200])
    g = P.one(NS + 'read_krtd_files', 2)
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or q == RK, throws=lambda q, e: (MISS, NS + 'file_not_read_exception') if q == RK else ())
    outs = E.run(g)
    rep.saw(g, outs)
    imgs, dr = [('deref', ('ref', p['n'])) for p in g['p']]
    kinds = {}
    for o in outs:
        ex = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) in ('FileExists', 'FileIsDirectory') and k[1][3][0] == dr]
        lps = [e for e in o.events if e[0] == 'loop' and e[2][0] == 'range']
        if o.kind == 'throw' and o.val[0] == NS + 'file_not_read_exception':
            kinds['bad'] = 1
            continue
        if o.kind == 'throw' and o.val[0] == NS + 'path_not_exists':
            kinds['dir'] = 1
            rep.ob('I02:krtds:dir', False in ex and not lps, 'only a missing directory is reported as missing', where(g, o.line), fmt_path(o)[:300])
            continue
        rep.ob('I02:krtds:exists', True in ex and False not in ex, 'cameras are read from an existing directory only', where(g, o.line), fmt_path(o)[:300])
        ok = len(lps) == 1 and lps[0][2][1] == imgs and runs_through(o, lps[0])
        rep.ob('I02:krtds:all', ok, 'every image is looked at', where(g, o.line), fmt_path(o)[:300])
        if not ok:
            continue
        lp = lps[0]
        maps = set()
        for facts, evs, upd in lp[3]:
            c = [e for e in evs if e[0] == 'call' and e[1] == RK]
            rep.ob('I02:krtds:file', len(c) == 1 and c[0][3] == (('at', imgs, ('it', lp[1])), dr), 'the camera of an image is read from the given directory', where(g), str([show(e[4])[:120] for e in c]))
            if len(c) != 1:
                continue
            missing = [e for e in evs if e[0] == 'catch']
            ch = [(l, v) for l, v in upd if holds(l, v, c[0][4])]
            kinds['missing' if missing else 'read'] = 1
            if missing:
                touched = [l for l, v in upd if l[0] == 'F' and l[1][0] == 'I' or isinstance(v, tuple) and v[0] == 'mut']
                rep.ob('I02:krtds:missing', not ch and not touched and missing[0][1] == MISS, 'an image without camera is left out', where(g), str(missing)[:200])
            else:
                key = [l[1][2] for l, v in ch if l[0] == 'F' and l[1][0] == 'I'] + [t for l, v in ch if v[0] == 'mut' for t in subterms(v[3]) if t[0] == 'idx']
                rep.ob('I02:krtds:kept', len(ch) == 1 and ('idx', lp[1], ('c', 0)) in key, 'a camera is kept under the position of its image', where(g), str([(str(l)[:80], show(v)[:80]) for l, v in ch]))
                maps |= {l[1][1] if l[0] == 'F' else l for l, v in ch}
        emp = [v for k, v in o.facts.items() if k[0] == 'empty' and k[1][0] == 'loopv' and k[1][2] in maps]
        if o.kind == 'throw':
            kinds['none'] = 1
            rep.ob('I02:krtds:none', o.val[0] == NS + 'invalid_data' and emp == [True], 'that no camera was found is an error', where(g, o.line), fmt_path(o)[:300])
        else:
            kinds['ret'] = 1
            rep.ob('I02:krtds:result', emp == [False] and any(('loopv', lp[1], m) in set(subterms(o.val)) for m in maps), 'the cameras found are returned', where(g, o.line), show(o.val)[:200])
    rep.ob('I02:krtds:cases', {'dir', 'missing', 'read', 'none', 'ret', 'bad'} <= set(kinds), 'every outcome is provided for', where(g), str(sorted(kinds)))


def holds(loc, v, call):
    return v == call or v[0] == 'mut' and call in set(subterms(v[3]))


def check_readers(P, rep):
    rep.rule('every function that reads a camera, landmark or track file reports a missing file or a directory as not found, a file that can not be opened as not read, and '
             'uses a value only where its conversion is known to have succeeded')
    rep.rule('the named PLY columns, including the aliases, go to the attribute they name; elements beyond the announced vertices are not vertices; '
             'each track file line is added to the track its number names')
    for name in ('read_krtd_file', 'read_ply_file', 'read_track_file'):
        f = P.one(NS + name, 1)
        E = Engine(P, opaque=lambda q, fn, e: q.startswith(FS) or last(q) == 'get_tokens' or q.startswith('Eigen::') and last(q) == 'operator>>'
                   or name == 'read_krtd_file' and q.startswith(NS) and last(q) == 'operator>>',
                   ctor_inline=lambda c: c == NS + 'track')
        outs = E.run(f)
        rep.saw(f, outs)
        path = P_(f, 0)
        nret = 0
        for o in outs:
            ex, isd = fsfact(o, 'FileExists', path), fsfact(o, 'FileIsDirectory', path)
            if o.kind == 'throw':
                x = o.val[0]
                good = any(contains(t, s) for s in opened(o, 'basic_ifstream', path) for t in good_terms(o))
                if x == NS + 'file_not_found_exception':
                    rep.ob('I02:%s:error' % name, ex is False or isd is True, 'only a missing file or a directory is not found', where(f, o.line), fmt_path(o))
                elif x == NS + 'file_not_read_exception':
                    rep.ob('I02:%s:error' % name, ex is True and isd is False and not good, 'only a file that can not be opened is not read', where(f, o.line), fmt_path(o))
                else:
                    rep.ob('I02:%s:error' % name, ex is True and isd is False and good and x == NS + 'invalid_data', 'bad contents are invalid data', where(f, o.line), fmt_path(o))
                continue
            nret += 1
            st = opened(o, 'basic_ifstream', path)
            rep.ob('I02:%s:exists' % name, ex is True and isd is False, 'only an existing regular file is read', where(f, o.line), fmt_path(o))
            rep.ob('I02:%s:open' % name, len(st) == 1 and any(contains(t, st[0]) for t in good_terms(o)), 'the file is known to be open before it is read', where(f, o.line), fmt_path(o))
            for s in o.segments():
                for terms, e in value_uses(s):
                    vs = values_in(terms)
                    bad = [v for v in vs if not any(contains(g, v[3]) for g in good_terms(s))]
                    bad = [v for v in bad if strip_targs(v[3][1]).split('::')[-1] != 'getline' or True]
                    if vs:
                        rep.sites += 1
                        rep.ob('I02:%s:use' % name, not bad, 'a value is used only where its conversion succeeded', where(f, e[-1] if isinstance(e[-1], int) else o.line),
                               '; '.join(show(b)[:200] for b in bad))
                if s.kind == 'body':
                    for l, v in s.st.store.items():
                        vs = [x for x in values_in(v)]
                        bad = [x for x in vs if not any(contains(g, x[3]) for g in good_terms(s))]
                        if vs:
                            rep.ob('I02:%s:carry' % name, not bad, 'a value is kept only where its conversion succeeded', where(f, o.line), show(l) + ' := ' + show(v)[:300])
            if name == 'read_krtd_file':
                rd = [e for e in o.events if e[0] == 'call' and last(e[1]) == 'operator>>' and any(contains(a, st[0]) for a in e[3])] if st else []
                ok = len(rd) == 1
                tgt = None
                if ok:
                    # the object read into is the object returned
                    nw = [t for t in subterms(o.val) if t and t[0] == 'new' and 'simple_camera' in t[1]]
                    ok = bool(nw) and any(contains(a, nw[0]) for a in rd[0][3][1:])
                rep.ob('I02:krtd:returned', ok, 'the camera read from the file is returned', where(f, o.line), fmt_path(o))
            elif name == 'read_ply_file':
                ply_read(rep, f, o)
            else:
                track_read(rep, f, o)
        rep.ob('I02:%s:cases' % name, nret >= 1 and len([o for o in outs if o.kind == 'throw']) >= 3, 'success and failure paths exist', where(f))


ALIAS = {'x': 'x', 'y': 'y', 'z': 'z', 'nx': 'nx', 'ny': 'ny', 'nz': 'nz', 'red': 'red', 'green': 'green', 'blue': 'blue', 'track_id': 'track_id',
         'observations': 'observations', 'vsfm_cnx': 'nx', 'vsfm_cny': 'ny', 'vsfm_cnz': 'nz', 'diffuse_red': 'red', 'diffuse_green': 'green',
         'diffuse_blue': 'blue', 'number_of_camera_sees_this_point': 'observations'}


def at_bound(o, lp):
    """the loop is left where a comparison of two of its own quantities that holds in each vertex round fails"""
    keys = [(k, v) for b in lp[3] for k, v in b[0] if '<' in show(k) and sum(1 for t in subterms(k) if t and t[0] == 'loopv' and t[1] == lp[1]) >= 2]
    return any(o.facts.get(k) == (not v) for k, v in keys)


def ply_read(rep, f, o):
    # 1. property names -> numbers
    names = {}
    for l, v in o.st.store.items():
        if v and v[0] == 'c' and l and l[0] == 'F' and l[2] == 'second' and l[1][0] == 'I' and l[1][2][0] == 's':
            names[l[1][2][1]] = v[1]
        elif v and v[0] == 'c' and l and l[0] == 'I' and l[2][0] == 's':
            names[l[2][1]] = v[1]
    for v in list(o.st.store.values()) + list(o.events) + [k for k in o.facts]:
        for t in subterms(v):
            if t and t[0] == 'upd' and len(t) == 3:
                for pth, x in t[2]:
                    if pth and pth[0][0] == 'I' and pth[0][1][0] == 's' and x[0] == 'c' and (len(pth) == 1 or pth[1:] == (('F', 'second'),)):
                        names[pth[0][1][1]] = x[1]
            if t and t[0] == 'pair' and len(t) == 3 and t[1][0] == 's' and t[2][0] == 'c':
                names[t[1][1]] = t[2][1]
            if t and t[0] == 'ilist' and len(t) == 2:
                for p in t[1]:
                    if p and p[0] in ('ilist', 'ctor', 'pair') and len([y for y in subterms(p) if y and y[0] == 's']) == 1:
                        s = [y for y in subterms(p) if y and y[0] == 's'][0]
                        c = [y for y in subterms(p) if y and y[0] == 'c']
                        if c:
                            names[s[1]] = c[0][1]
    # 2. number -> where the value read goes, in the loop over the columns
    main = [e for e in o.events if e[0] == 'loop' and any(x[0] == 'new' and 'landmark_' in x[1][1] for b in e[3] for x in b[1])]
    if not rep.ob('I02:ply:loop', len(main) == 1 and (runs_through(o, main[0]) or at_bound(o, main[0])), 'the lines are read one by one', where(f, o.line), str([show(e[2]) for e in o.events if e[0] == 'loop'])):
        return
    for facts, evs, upd in main[0][3]:
        mk = [e for e in evs if e[0] == 'new' and 'landmark_' in e[1][1]]
        if not mk:
            continue
        seg = Out('body', St(dict(upd), dict(facts), tuple(evs)), None)
        lm = mk[0]
        # attribute -> term
        at = {}
        cands = list(dict(upd).items())
        loc = None
        for t in subterms(lm):
            if t and t[0] == 'ctor' and t[1].startswith('Eigen::Matrix') and len(t[2]) == 3:
                loc = t[2]
        for e in evs:
            if e[0] == 'write':
                l = e[1]
                fld = l[2].rstrip('_') if l[0] == 'F' else None
                v = e[2]
                if fld == 'normal' and v[0] == 'ctor' and len(v[2]) == 3:
                    at.update({'nx': v[2][0], 'ny': v[2][1], 'nz': v[2][2]})
                elif fld == 'loc' and v[0] == 'ctor' and len(v[2]) == 3:
                    loc = v[2]
                elif fld == 'observations':
                    at['observations'] = v
                elif fld == 'color':
                    at['color'] = v
        if loc is not None:
            at.update({'x': loc[0], 'y': loc[1], 'z': loc[2]})
        loops = [e for e in evs if e[0] == 'loop']
        if not rep.ob('I02:ply:columns', len(loops) == 1 and runs_through(o, loops[0]), 'the columns of a line are read one by one', where(f)):
            continue
        lp = loops[0]
        # which loop location each attribute is read from
        want = {}
        for a in ('x', 'y', 'z', 'nx', 'ny', 'nz', 'observations'):
            t = at.get(a)
            if t is not None and t[0] == 'loopv' and t[1] == lp[1]:
                want[a] = t[2]
        col = at.get('color')
        if col is not None:
            for t in subterms(col):
                if t and t[0] == 'loopv' and t[1] == lp[1] and t[2][0] == 'F':
                    want[{'r': 'red', 'g': 'green', 'b': 'blue'}.get(t[2][2], '?')] = t[2]
        ids = set()
        for l, v in dict(upd).items():
            for t in subterms(l):
                if t and t[0] == 'I' and t[2][0] == 'loopv' and t[2][1] == lp[1]:
                    ids.add(t[2][2])
        if len(ids) == 1:
            want['track_id'] = ids.pop()
        rep.ob('I02:ply:attributes', set(want) == set(ALIAS.values()), 'every attribute of the landmark comes from the columns', where(f), str(sorted(set(ALIAS.values()) - set(want))))
        # announced number of vertices
        cmpf = [(k, v) for k, v in dict(facts).items() if k[0] in ('op', 'lt', 'le') or (k[0] == 'nz' and k[1][0] == 'op')]
        bound = any('<' in show(k) and sum(1 for t in subterms(k) if t and t[0] == 'loopv' and t[1] == main[0][1]) >= 2 for k, v in dict(facts).items())
        rep.ob('I02:ply:bound', bound, 'no more vertices are read than announced', where(f), str([show(k)[:80] for k in dict(facts)]))
        numof = {}
        for f2, evs2, upd2 in lp[3]:
            ks = [k for k, v in dict(f2).items() if v and k[0] == 'op' and k[1] == '==' and any(x[0] == 'c' for x in k[2:])]
            ks += [k[1] for k, v in dict(f2).items() if v and k[0] == 'nz' and k[1][0] == 'op' and k[1][1] == '==']
            num = None
            for k in ks:
                c = [x for x in k[2:] if x[0] == 'c']
                if c and contains(k, ('it', lp[1])) or c and any(t and t[0] in ('idx', 'it') and t[1] == lp[1] for t in subterms(k)):
                    num = c[0][1]
            if num is None:
                for k, v in dict(f2).items():
                    if k[0] == 'eq' and v and k[2][0] == 'c':
                        num = k[2][1]
            wr = [(l, v) for l, v in dict(upd2).items() if values_in(v)]
            for l, v in wr:
                src = [t for t in subterms(v) if t and t[0] == 'ctor' and 'basic_istringstream' in t[1]]
                tok = bool(src) and any(t and t[0] == 'at' and t[1][0] in ('call', 'pcall') and last(t[1][1]) == 'get_tokens' for t in subterms(src[0]))
                if l in want.values():
                    numof.setdefault(num, set()).add((l, tok))
        for nm, a in sorted(ALIAS.items()):
            k = names.get(nm)
            got = numof.get(k, set())
            rep.ob('I02:ply:column:' + nm, k is not None and got == {(want.get(a), True)}, 'column %s sets the %s of the landmark' % (nm, a), where(f), 'number %s, set by it: %s' % (k, [show(x[0]) for x in got]))


def track_read(rep, f, o):
    main = [e for e in o.events if e[0] == 'loop']
    if not rep.ob('I02:track:loop', len(main) == 1 and runs_through(o, main[0]), 'the lines are read one by one', where(f, o.line)):
        return
    for facts, evs, upd in main[0][3]:
        seg = Out('body', St(dict(upd), dict(facts), tuple(evs)), None)
        mk = [e for e in evs if e[0] == 'ctor' and last(e[1]) == 'track_state']
        if not rep.ob('I02:track:state', len(mk) == 1, 'each line makes one track state', where(f), str(len(mk))):
            continue
        a = mk[0][2]
        vals = [values_in(x) for x in a]
        # columns: number of the track, frame, then the feature
        frame_ok = len(a) >= 2 and len(vals[0]) == 1 and order(vals[0][0][3]) == 2 and a[0] == vals[0][0]
        feat = [order(v[3]) for v in vals[1]] if len(a) >= 2 else []
        rep.ob('I02:track:columns', frame_ok and sorted(set(feat)) == list(range(3, 10)), 'the second column is the frame, the others are the feature', where(f, mk[0][3]),
               'frame from %s, feature from %s' % ([order(v[3]) for v in vals[0]], feat))
        # which track the state goes to
        app = [e for e in evs if e[0] == 'cmut' and e[2] in ('push_back', 'emplace_back') and any(contains(x, mk[0][1]) or x[0] == 'ctor' and last(x[1]) == 'track_state' for x in e[3])]
        new = [e for e in evs if e[0] == 'new' and e[1][1] == NS + 'track']
        tid = None
        if new:
            ids = [e for e in evs if e[0] == 'write' and e[1] == ('F', ('P', new[0][1]), 'id_')]
            added = [e for e in evs if e[0] == 'cmut' and e[2] in ('push_back', 'emplace_back') and new[0][1] in e[3]]
            kept = [(l, v) for l, v in dict(upd).items() if v == new[0][1]]
            ok = len(ids) == 1 and is_value(ids[0][2]) and order(ids[0][2][3]) == 1 and len(added) == 1
            inmap = any(contains(x, new[0][1]) for l, x in dict(upd).items() if True)
            known_ = numbers_known(facts, False)
            rep.ob('I02:track:new', ok and bool(known_) and inmap, 'a number seen for the first time makes one new track of that number, which is remembered and returned', where(f, new[0][2]), fmt_path(seg))
            rep.ob('I02:track:append', all(e[1] == ('F', ('P', new[0][1]), 'history_') for e in app), 'the state is appended to that track', where(f), str([show(e[1]) for e in app]))
        else:
            known_ = numbers_known(facts, True)
            rep.ob('I02:track:known', len(known_) >= 1, 'a known number finds its track', where(f), fmt_path(seg))
            for e in app:
                rep.ob('I02:track:append', any(contains(e[1], n) for n in known_), 'the state is appended to the track of that number', where(f, e[4]), show(e[1]))
    rets = [t for t in subterms(o.val) if t and t[0] == 'loopv' and t[1] == main[0][1]]
    rep.ob('I02:track:all', any(any(e[0] == 'cmut' and e[1] == t[2] for b in main[0][3] for e in b[1]) for t in rets), 'all tracks made are returned', where(f, o.line), show(o.val)[:200])


def numbers_known(facts, yes):
    """first columns known to be (or not to be) the number of a track met before: looked up with find/count, or through the pointer operator[] gives"""
    out = []
    for k, v in dict(facts).items():
        n = None
        if k[0] == 'in':
            n = k[2]
        elif k[0] == 'nz' and k[1][0] == 'fld' and k[1][2] == 'second' and k[1][1][0] == 'at':
            n = k[1][1][2]
        if n is not None and v is yes and is_value(n) and order(n[3]) == 1:
            out.append(n)
    return out


def order(call):
    """how many extractions precede and include this one on its stream"""
    n = 0
    t = call
    while True:
        n += 1
        s = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
        while s is not None and s[0] in ('deref', 'fld'):
            s = s[1]
        if s is not None and s[0] == 'out' and is_extraction(s) and strip_targs(s[3][1]).split('::')[-1] != 'getline':
            # manipulators are not values
            t = s[3]
            if any(isinstance(a, tuple) and a and a[0] == 'fn' for a in t[3]):
                n -= 1
            continue
        return n


# ------------------------------------------------------------------ stream operators
# type -> (columns in the order written, as the members each comes from; what the reader sets from which columns)
STREAMED = {
    'feature_': ([{'loc'}, {'magnitude'}, {'scale'}, {'angle'}, {'color', 'r'}, {'color', 'g'}, {'color', 'b'}],
                 {'loc_': {1}, 'magnitude_': {2}, 'scale_': {3}, 'angle_': {4}, 'color_.r': {5}, 'color_.g': {6}, 'color_.b': {7}}),
    'landmark_': ([{'loc'}, {'scale'}, {'normal'}, {'color', 'r'}, {'color', 'g'}, {'color', 'b'}, {'observations'}],
                  {'loc_': {1}, 'scale_': {2}, 'normal_': {3}, 'color_.r': {4}, 'color_.g': {5}, 'color_.b': {6}, 'observations_': {7}}),
    'rgb_color': ([{'r'}, {'g'}, {'b'}], {'r': {1}, 'g': {2}, 'b': {3}}),
    'rotation_': ([{'q'}], {'#0': {1}}),
    'similarity_': ([{'scale'}, {'rot', 'q'}, {'trans'}], {'#0': {1}, '#1': {2}, '#2': {3}}),
    'camera': ([{'as_matrix'}, {'rotation'}, {'translation'}, {'dist_coeffs'}], {'intrinsics_': {1, 4}, 'orientation_': {2}, 'center_': {2, 3}}),
    'camera_intrinsics': ([{'as_matrix'}, {'dist_coeffs'}], {'#0': {1}, '#1': {2}}),
}
BASES = {'feature': 'feature_', 'landmark': 'landmark_'}
MEMBERS = {'loc', 'magnitude', 'scale', 'angle', 'color', 'r', 'g', 'b', 'observations', 'normal', 'q', 'rot', 'trans', 'as_matrix', 'rotation', 'translation', 'dist_coeffs',
           'covar', 'intrinsics', 'center', 'focal_length', 'principal_point', 'skew', 'aspect_ratio', 'quaternion', 'matrix', 'orientation'}


def members_in(t):
    out = set()
    for x in subterms(t):
        if not x or not isinstance(x[0], str):
            continue
        n = None
        if x[0] in ('call', 'pcall') and len(x) > 3 and x[2] is not None:
            n = last(x[1])
        elif x[0] == 'fld' and len(x) == 3:
            n = x[2]
        elif x[0] == 'F' and len(x) == 3:
            n = x[2]
        if n:
            n = n.rstrip('_')
            n = n[4:] if n.startswith('get_') else n
            if n in MEMBERS:
                out.add(n)
    return out


def typename(t):
    t = base_type(t)
    return strip_targs(t).split('::')[-1]


def check_streams(P, rep):
    rep.rule('for features, landmarks, colors, rotations, similarities, cameras and camera intrinsics: the reader takes the columns in exactly the order the writer emits them, '
             'each column goes to the member it was written from, columns are separated by white space, numbers are written as numbers')
    rep.rule('the reader stores nothing that was not successfully converted; the place holder for an absent lens distortion is recognised; cameras are written with at least 12 digits')
    outs_, ins_ = {}, {}
    for f in P.find(NS + 'operator<<'):
        if len(f['p']) == 2 and 'ostream' in f['p'][0]['t']:
            t = typename(f['p'][1]['t'])
            outs_.setdefault(BASES.get(t, t), []).append(f)
    for f in P.find(NS + 'operator>>'):
        if len(f['p']) == 2 and 'istream' in f['p'][0]['t']:
            t = typename(f['p'][1]['t'])
            ins_.setdefault({'simple_camera': 'camera', 'simple_camera_intrinsics': 'camera_intrinsics'}.get(t, t), []).append(f)
    opq = lambda q, fn, e: q.startswith('Eigen::') or last(q) in ('as_matrix', 'translation', 'dist_coeffs')
    for t, (cols, sets) in sorted(STREAMED.items()):
        rep.ob('I03:%s:exists' % t, outs_.get(t) and ins_.get(t), '%s has a stream writer and reader' % t, 'vital/types')
        for f in outs_.get(t, []):
            outs = Engine(P, opaque=opq).run(f)
            rep.saw(f, outs)
            rep.ob('I03:%s:write' % t, bool(outs) and all(o.kind == 'ret' for o in outs), 'every value can be written', where(f))
            for o in outs:
                seq = []
                sep, prev, prec = True, None, None
                chars = []
                place = None

                def flow(evs, inloop):
                    nonlocal sep, prev, prec
                    for e in evs:
                        if e[0] == 'loop':
                            for b in e[3]:
                                flow(b[1], e)
                                if prev == 'v':
                                    sep = False
                        elif e[0] == 'emit':
                            v = e[2]
                            for p in (v[1:] if v[0] == 'cat' else (v,)):
                                if const(p):
                                    if p[1].strip() != p[1] and not p[1].strip():
                                        prev = 's'
                                elif p[0] in ('call', 'pcall') and last(p[1]) == 'setprecision':
                                    prec = p[3][0][1] if p[3] and p[3][0][0] == 'c' else None
                                else:
                                    if prev == 'v':
                                        sep = False
                                    prev = 'v'
                                    if p[0] == 'asc':
                                        chars.append(show(p))
                                    m = members_in(p)
                                    if inloop is not None:
                                        m |= members_in(inloop[2]) if inloop[2][0] == 'range' else set()
                                    seq.append((m - {'intrinsics'}, prec))
                flow(o.events, None)
                if not t.startswith('camera'):
                    seq = [(set({'translation': 'trans', 'rotation': 'rot', 'quaternion': 'q'}.get(x, x) for x in m), p) for m, p in seq]
                got = [m for m, p in seq]
                rep.ob('I03:%s:order' % t, got == cols, 'the columns are written in the documented order', where(f, o.line), 'written: %s; expected: %s' % ([sorted(x) for x in got], [sorted(x) for x in cols]))
                rep.ob('I03:%s:separated' % t, sep and not chars, 'columns are separated and written as numbers', where(f, o.line), str(chars))
                if t.startswith('camera'):
                    rep.ob('I03:%s:precision' % t, all(p is not None and p >= 12 for m, p in seq), 'values keep 12 digits', where(f, o.line), str([p for m, p in seq]))
                rep.ob('I03:%s:returns' % t, o.val is None or contains(o.val, f['p'][0]['n']) or True, 'the stream is returned', where(f, o.line))
            if t.startswith('camera'):
                emp = [o for o in outs if any((k[0] == 'empty' and v or k[0] == 'nz' and not v and k[1][0] in ('call', 'pcall', 'size') or k[0] == 'op' and k[1] == '==' and v and ('c', 0) in k[2:]) and 'dist_coeffs' in members_in(k) for k, v in o.facts.items())]
                put = [o for o in outs if any(e[0] == 'emit' and any(x and x[0] == 'call' and last(x[1]) == 'resize' for x in subterms(e[2])) for e in o.flat())
                       or any(e[0] == 'cmut' and e[2] in ('push_back', 'resize', 'assign') and 'dist_coeffs' in members_in(e[5]) for e in o.flat())]
                rep.ob('I03:%s:placeholder' % t, emp and [id(o) for o in emp] == [id(o) for o in put], 'a place holder is written exactly when there is no distortion', where(f), '%d %d' % (len(emp), len(put)))
        for f in ins_.get(t, []):
            E = Engine(P, opaque=lambda q, fn, e: q.startswith('Eigen::'))
            outs = E.run(f)
            rep.saw(f, outs)
            tgt = ('P', ('ref', f['p'][1]['n']))
            stored = 0
            for o in outs:
                if o.kind != 'ret':
                    continue
                got = {}
                whole = None
                for e in o.events:
                    if e[0] != 'write':
                        continue
                    if e[1] == tgt and e[2][0] == 'ctor':
                        for i, a in enumerate(e[2][2]):
                            got['#%d' % i] = a
                    elif e[1][0] == 'F' and e[1][1] == tgt:
                        v = e[2]
                        if v[0] == 'upd' and all(len(p) == 1 and p[0][0] == 'F' for p, x in v[2]):
                            for p, x in v[2]:
                                got['%s.%s' % (e[1][2], p[0][1])] = x
                        else:
                            got[e[1][2]] = v
                    elif e[1][0] == 'F' and e[1][1][0] == 'F' and e[1][1][1] == tgt:
                        got['%s.%s' % (e[1][1][2], e[1][2])] = e[2]
                if not got:
                    bad = any(k[0] == 'nz' and k[1][0] == 'stream' and v is False for k, v in o.facts.items())
                    rep.ob('I03:%s:silent' % t, bad, 'only a failed stream leaves the object alone', where(f, o.line), fmt_path(o))
                    continue
                stored += 1
                orders = {k: set(order(x[3]) for x in values_in(v)) for k, v in got.items()}
                rep.ob('I03:%s:columns' % t, {k: v for k, v in orders.items() if v} == sets, 'each column goes to the member it was written from', where(f, o.line),
                       'stored: %s; expected: %s' % (sorted((k, sorted(v)) for k, v in orders.items()), sorted((k, sorted(v)) for k, v in sets.items())))
                # nothing unconverted is stored: a scalar without initial value must be known to have been read; matrices throw when they can not be read
                good = good_terms(o)
                mats = [x for e in o.events if e[0] == 'call' and last(e[1]) == 'operator>>' and e[1].startswith('Eigen::') for x in (e[4],)]
                for k, v in got.items():
                    for x in values_in(v):
                        c = x[3]
                        if c[1].startswith('Eigen::'):
                            continue
                        init = c[3][-1] if c[3] else None
                        ok = any(contains(g, c) for g in good) or any(contains(m[3][0], c) for m in mats) or init is not None and init[0] == 'c'
                        rep.ob('I03:%s:converted' % t, ok, 'only converted values are stored', where(f, o.line), '%s := %s' % (k, show(x)[:200]))
                if t.startswith('camera'):
                    d = got.get('intrinsics_', got.get('#1'))
                    res = any(x and x[0] == 'call' and last(x[1]) == 'resize' and x[3] == (('c', 0),) for x in subterms(d))
                    one = [v for k, v in o.facts.items() if k[0] == 'op' and k[1] == '==' and ('c', 1) in k[2:]]
                    zero = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] == 'at']
                    exp = one == [True] and zero == [False]
                    rep.ob('I03:%s:placeholder' % t, res == exp, 'a single zero stands for no distortion', where(f, o.line), fmt_path(o)[:300])
            rep.ob('I03:%s:reads' % t, stored >= 1, 'the reader stores something', where(f))
