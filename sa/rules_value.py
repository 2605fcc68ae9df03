"""value types: state, initialisation, covariance storage"""
import os
import re
from base import *
from facts import Broken
import facts
from numeric import *
from numeric import Num, World, Unknown, Obj, Mat, Quat, Cell, Ptr, SymPtr, Sym, Vec, Rat, equal, leaves, text, typename, short
from algebra import TooBig

DIR = '/vital/types/'
# decided by their own rules, or without state of their own
OTHERS = ('image', 'image_memory', 'simple_image_container', 'track', 'simple_track_set', 'timestamp', 'compare_state_frame')

# public constructors: (class, arguments) -> accessor that gives each argument back
CTORS = {
    ('feature_', 5): ('loc', 'magnitude', 'scale', 'angle', 'color'),
    ('landmark_', 2): ('loc', 'scale'),
    ('simple_camera', 3): ('center', 'rotation', 'intrinsics'),
    ('simple_camera_intrinsics', 5): ('focal_length', 'principal_point', 'aspect_ratio', 'skew', 'dist_coeffs'),
    ('similarity_', 3): ('scale', 'rotation', 'translation'),
    ('homography_', 1): ('matrix',),
    ('fundamental_matrix_', 1): (None,),
    ('f2f_homography', 3): ('homography', 'from_id', 'to_id'),
    ('f2f_homography', 1): (('from_id', 'to_id'),),
    ('f2w_homography', 2): ('homography', 'frame_id'),
    ('f2w_homography', 1): ('frame_id',),
    ('geo_lat_lon', 2): ('get_latitude', 'get_longitude'),
    ('rgb_color', 3): ('r', 'g', 'b'),
    ('track_state', 3): ('frame_id', 'feat', 'desc'),
    ('simple_camera_map', 1): ('cameras',),
    ('simple_landmark_map', 1): ('landmarks',),
    ('simple_feature_set', 1): ('features',),
    ('simple_descriptor_set', 1): ('descriptors',),
    ('simple_match_set', 1): ('matches',),
}


def one(x):
    return Rat.c(x)


def ident(n):
    return Mat.of(n, n, lambda i, j: one(1) if i == j else one(0))


def zeros(n):
    return Mat.of(n, 1, lambda i, j: one(0))


# documented results of default construction
DEFAULTS = {
    'feature_': dict(loc=zeros(2), magnitude=one(0), scale=one(1), angle=one(0)),
    'landmark_': dict(loc=zeros(3), scale=one(1)),
    'simple_camera': dict(center=zeros(3)),
    'simple_camera_intrinsics': dict(focal_length=one(1), principal_point=zeros(2), aspect_ratio=one(1), skew=one(0)),
    'similarity_': dict(scale=one(1), translation=zeros(3)),
    'homography_': dict(matrix=ident(3)),
    'rgb_color': dict(r=one(255), g=one(255), b=one(255)),
}


def cname(rec):
    return rec['n']


def records(W):
    out = {}
    for c in W.P.classes.values():
        if DIR in c['file'] and not c.get('lam') and not c.get('union') and not c['abs'] and cname(c) not in OTHERS:
            out[c['u']] = c
    recs = sorted(out.values(), key=lambda c: (c['file'], c['l'], typename(c)))
    if len(recs) < 20:
        raise Broken('only %d value classes found' % len(recs))
    return recs


def methods(W, rec):
    """public methods, own and inherited ones that are not overridden: [(name, function)]"""
    out, seen = [], set()
    todo = [rec]
    while todo:
        c = todo.pop(0)
        for m in c['methods']:
            if m.get('ctor') or m.get('impl') or m.get('del') or m['n'].startswith('~'):
                continue
            k = (m['n'], len(m['p']), m.get('cm'))
            if k in seen:
                continue
            seen.add(k)
            f = W.P.funcs.get(m['u'])
            if m['acc'] == 'public':
                out.append((m, f))
        todo += list(W.base_recs(c))
    return out


NOT_STATE = re.compile(r'^(clone|inverse|normalize|data_type|static_data_type|operator.*|begin|end|raw_data|data|node_.*)$')


def accessors(W, rec):
    """names of the parameterless observers: name -> function or None (pure)"""
    out = {}
    for m, f in methods(W, rec):
        if m.get('cm') and not m['p'] and not m.get('st') and m['rt'] != 'void' and not NOT_STATE.match(m['n']):
            out[m['n']] = (m, f)
    return out


def observe(N, o, names=None):
    """what the observers of o say: name -> value; names of those that could not be analysed are left out"""
    out = {}
    W = N.W
    for n, (m, f) in sorted(accessors(W, o.rec).items()):
        if names is not None and n not in names:
            continue
        g = f
        if not o.exact and m.get('virt') and (f is None or f.get('body') is None or W.P.overriders(m['u'])):
            key = '%s.%s()' % (o.name, n)
            if key not in N.opq:
                N.opq[key] = N.sym(m['rt'], key, exact=False)
            out[n] = N.opq[key]
            continue
        if g is None or g.get('body') is None:
            continue
        try:
            out[n] = N.invoke(g, o, [], 1)
        except (Unknown, TooBig):
            pass
    for fr in o.rec['fields']:
        if fr.get('acc', None) == 'public' or cname(o.rec) in ('rgb_color', 'track_state'):
            if fr['n'] in o.f:
                out[fr['n']] = o.f[fr['n']]
    return out


def is_state(v):
    """the value is a piece of the object's state: distinct raw inputs"""
    ls = [x for _, x in leaves(v)]
    if not ls:
        return False
    seen = set()
    for x in ls:
        if isinstance(x, Rat):
            vs = x.vars()
            if len(vs) != 1 or not x.eq(Rat.var(next(iter(vs)))):
                # a dependent quaternion component is still itself
                return False
            k = next(iter(vs))
        elif isinstance(x, (Sym, SymPtr)):
            k = str(x)
        else:
            return False
        if k in seen or '(' in k.split('.')[-1]:
            return False
        seen.add(k)
    return True


def strip_clone(v):
    return re.sub(r'(\*)?([\w.]+)\.clone\(\)', r'\2', v)


def same(a, b):
    """equal, a copy of a shared object counting as the object"""
    while isinstance(a, Cell):
        a = a.v
    while isinstance(b, Cell):
        b = b.v
    if isinstance(a, SymPtr) and isinstance(b, SymPtr):
        return strip_clone(a.name) == strip_clone(b.name)
    if isinstance(a, Mat) and isinstance(b, Vec):
        return a.r * a.c == len(b.cells) and all(same(x, y) for x, y in zip(a.cells, b.cells))
    if isinstance(a, Vec) and isinstance(b, Mat):
        return same(b, a)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.rec is not b.rec and cname(a.rec) == cname(b.rec):
        ka = [k for k in a.f if k != 'm_logger']
        return bool(ka) and all(k in b.f and same(a.f[k], b.f[k]) for k in ka)
    if isinstance(a, Mat) and a.r == a.c == 1 and isinstance(b, Rat):
        return equal(a.get(0, 0), b)
    if isinstance(a, SymPtr) and isinstance(b, Sym) or isinstance(a, Sym) and isinstance(b, SymPtr):
        return strip_clone(str(a)) == strip_clone(str(b))
    return equal(a, b)


def differ(ob1, ob2, names):
    return ['%s() is %s, not %s' % (n, text(ob1[n])[:90], text(ob2[n])[:90]) for n in names if not same(ob1[n], ob2[n])]


def ctors(W, rec):
    return [f for f in W.by_clsu.get(rec['u'], ()) if f.get('ctor') and not f.get('dflt')]


def related(W, rec, t):
    """t names rec's class, another instance of its template, or an interface of it"""
    r = W.record(t)
    if r is None:
        return None
    if r['u'] == rec['u'] or cname(r) == cname(rec) or W.derives(rec, r):
        return r
    return None


def attempt(rep, oid, title, f, proc, N, judge):
    """run an analysis; judge(path) -> list of complaints"""
    try:
        ps = N.paths(proc)
    except (Unknown, TooBig) as e:
        rep.notes.append('%s: not analysed (%s)' % (f['q'] if f else oid, e))
        return None
    rep.paths += len(ps)
    rep.sites += 1
    bad = []
    for p in ps:
        for c in judge(p):
            bad.append('%s (%s)' % (c, p.given()[:200]) if p.signs or p.choices else c)
    rep.ob(oid, not bad, title, where(f) if f else '', '; '.join(bad[:4]))
    return not bad


def check_state(P, rep):
    rep.rule('A setter makes its own observers return the argument and leaves the other state alone; constructors, copies, conversions and '
             'assignments leave every observer with the value of the argument or source; equality is equality of the state.')
    W = World(P)
    recs = records(W)
    nset = nctor = ncopy = neq = 0
    for rec in recs:
        C = cname(rec)
        T = short(typename(rec))
        N = Num(W)
        for m, f in methods(W, rec):
            if f is not None and f.get('body') is not None and DIR in f['file']:
                rep.saw(f)
        # observers that are raw state
        try:
            ps = N.paths(lambda: observe(N, N.sym(typename(rec), 'this')))
        except (Unknown, TooBig):
            continue
        base = ps[0].val if ps and ps[0].kind == 'ret' else {}
        state = [n for n in base if is_state(base[n])]
        acc = accessors(W, rec)
        # setters
        for m, f in methods(W, rec):
            if not m['n'].startswith('set_') or len(m['p']) != 1 or f is None or f.get('body') is None:
                continue
            x = m['n'][4:]
            names = [n for n in (x, 'get_' + x) if n in acc]
            if not names:
                continue

            def proc(f=f):
                o = N.sym(typename(rec), 'this')
                a = N.sym(f['p'][0]['t'], 'ARG')
                keep = N.sym(f['p'][0]['t'], 'ARG')
                before = observe(N, o)
                N.invoke(f, o, [a], 0)
                return before, observe(N, o), keep

            def judge(p, names=names, x=x):
                if p.kind != 'ret':
                    return ['leaves by throwing %s' % p.val]
                before, after, a = p.val
                out = []
                null = any('ARG is null' in k and v for k, v in p.choices.items())
                for n in names:
                    if n not in after:
                        continue
                    v = after[n]
                    if null:
                        u = N.un(v)
                        if not (isinstance(u, Ptr) and u.t is not None):
                            out.append('%s() is %s after a null argument' % (n, text(v)))
                    elif not same(v, a):
                        out.append('%s() is %s afterwards' % (n, text(v)[:90]))
                out += ['changes ' + d for d in differ(after, before, [n for n in state if n not in names and n in after and n not in ('get_' + x,)
                                                                      and not (x == 'translation' and n.endswith('center'))])]
                return out
            r = attempt(rep, 'set:%s:%s' % (T, x), 'after %s::%s the observer returns the argument and nothing else changed' % (T, m['n']), f, proc, N, judge)
            nset += r is not None
        # constructors
        for f in ctors(W, rec):
            rep.saw(f)
            n = len(f['p'])
            src = related(W, rec, f['p'][0]['t']) if n == 1 else None
            if src is not None:
                def proc(f=f, src=src):
                    s = N.sym(typename(src), 'SRC', exact=not src['abs'])
                    o = Obj(rec)
                    N.invoke(f, o, [s], 0)
                    return observe(N, o), observe(N, s), o, s

                def judge(p):
                    if p.kind != 'ret':
                        return ['leaves by throwing %s' % p.val]
                    a, b, o, s = p.val
                    common = [k for k in a if k in b and (k in state or not src['abs'])]
                    if not common and not a:
                        fa, fb = o.f, s.f
                        return ['field %s differs' % k for k in fa if k in fb and not same(fa[k], fb[k])]
                    return differ(a, b, common)
                r = attempt(rep, 'copy:%s:%s' % (T, short(norm_t(f['p'][0]['t']))), 'constructing %s from a %s takes over everything it says' % (T, short(norm_t(f['p'][0]['t']))),
                            f, proc, N, judge)
                ncopy += r is not None
                continue
            if not n and C in DEFAULTS:
                def proc(f=f):
                    o = Obj(rec)
                    N.invoke(f, o, [], 0)
                    return observe(N, o)

                def judge(p):
                    if p.kind != 'ret':
                        return ['leaves by throwing %s' % p.val]
                    return ['%s() is %s' % (k, text(p.val[k])[:80]) for k, v in DEFAULTS[C].items() if k in p.val and not same(p.val[k], v)]
                attempt(rep, 'default:%s' % T, 'a default constructed %s has the documented values' % T, f, proc, N, judge)
                continue
            spec = CTORS.get((C, n))
            if spec is None or n == 1 and shape(norm_t(f['p'][0]['t'])) is None and W.record(f['p'][0]['t']) is None and C not in (
                    'f2f_homography', 'f2w_homography') and not C.startswith('simple_'):
                continue
            if C == 'simple_camera_intrinsics' and n != 5:
                continue

            def proc(f=f):
                o = Obj(rec)
                args = [N.sym(p['t'], 'A%d' % i) for i, p in enumerate(f['p'])]
                keep = [N.sym(p['t'], 'A%d' % i) for i, p in enumerate(f['p'])]
                N.invoke(f, o, args, 0)
                return observe(N, o), keep

            def judge(p, spec=spec, f=f):
                if p.kind != 'ret':
                    return ['leaves by throwing %s' % p.val]
                ob, args = p.val
                out = []
                for i, names in enumerate(spec):
                    for nm in (names if isinstance(names, tuple) else (names,) if names else ()):
                        for k in (nm, 'get_' + nm):
                            if k not in ob:
                                continue
                            v, a = ob[k], args[i]
                            null = p.choices.get('A%d is null' % i)
                            u = N.un(v)
                            if null:
                                if not (isinstance(u, Ptr) and u.t is not None):
                                    out.append('%s() is %s for a null argument' % (k, text(v)))
                            elif isinstance(N.un(a), Obj) and isinstance(u, (Ptr, SymPtr)):
                                if strip_clone(text(u)) != text(a) and strip_clone(text(u)) != N.un(a).name:
                                    out.append('%s() is %s' % (k, text(v)[:80]))
                            elif isinstance(u, Ptr) and isinstance(u.t, Obj) and isinstance(N.un(a), Mat):
                                got = observe(N, u.t)
                                if not any(same(x, a) for x in got.values()):
                                    out.append('%s() does not hold argument %d' % (k, i + 1))
                            elif not same(v, a):
                                out.append('%s() is %s, not argument %d' % (k, text(v)[:80], i + 1))
                return out
            r = attempt(rep, 'ctor:%s/%d:%s' % (T, n, short(norm_t(f['p'][0]['t']))[:30]), 'the observers of a new %s return the %d arguments of its constructor' % (T, n), f, proc, N, judge)
            nctor += r is not None
        # assignment
        ca = W.special(rec, 'ca')
        if ca is not None:
            def proc():
                s, o = N.sym(typename(rec), 'SRC'), N.sym(typename(rec), 'this')
                keep = N.sym(typename(rec), 'SRC')
                v = N.invoke(ca, o, [s], 0)
                return observe(N, o), observe(N, keep), N.un(v) is o, o, keep

            def judge(p):
                if p.kind != 'ret':
                    return ['leaves by throwing %s' % p.val]
                a, b, me, o, s = p.val
                out = differ(a, b, [k for k in a if k in b])
                if not a:
                    out += ['field %s differs' % k for k in o.f if not same(o.f[k], s.f[k])]
                if not me:
                    out.append('does not return the object assigned to')
                return out
            r = attempt(rep, 'assign:%s' % T, 'assignment makes a %s equal to its source and returns it' % T, ca, proc, N, judge)
            ncopy += r is not None
        # clone
        for m, f in methods(W, rec):
            if m['n'] == 'clone' and not m['p'] and f is not None and f.get('body') is not None:
                def proc(f=f):
                    o = N.sym(typename(rec), 'this')
                    v = N.un(N.invoke(f, o, [], 0))
                    t = v.t if isinstance(v, Ptr) else None
                    return o, t, observe(N, o), observe(N, t) if isinstance(t, Obj) else {}

                def judge(p):
                    if p.kind != 'ret':
                        return ['leaves by throwing %s' % p.val]
                    o, t, a, b = p.val
                    if not isinstance(t, Obj) or t is o:
                        return ['does not make a new object']
                    if t.rec['u'] != rec['u']:
                        return ['makes a %s' % typename(t.rec)]
                    return differ(b, a, [k for k in a if k in b])
                attempt(rep, 'clone:%s' % T, 'clone() is a new %s equal to the original' % T, f, proc, N, judge)
        # equality
        for f in equalities(W, rec):
            neg = f['n'] == 'operator!='

            def proc(f=f):
                a, b = N.sym(typename(rec), 'L'), N.sym(typename(rec), 'R')
                ob = (observe(N, a, state), observe(N, b, state))
                r = N.invoke(f, a, [b], 0) if len(f['p']) == 1 else N.invoke(f, None, [a, b], 0)
                return ob, N.truth(r)

            def judge(p, neg=neg):
                if p.kind != 'ret':
                    return ['leaves by throwing %s' % p.val]
                (a, b), r = p.val
                if neg:
                    r = not r
                pairs = []
                for n in a:
                    if n in b and n in state:
                        la, lb = list(leaves(a[n])), list(leaves(b[n]))
                        pairs += [(n, x[1], y[1]) for x, y in zip(la, lb) if isinstance(x[1], Rat)]
                known0 = [k for k, (d, s) in p.signs.items() if s == {'0'}]
                apart = [k for k, (d, s) in p.signs.items() if '0' not in s]
                keys = {}
                for n, x, y in pairs:
                    keys[str((x - y).sign_free()[0])] = n
                if r:
                    miss = sorted(set(n for k, n in keys.items() if k not in known0))
                    return ['said equal without comparing %s' % ', '.join(miss)] if miss else []
                return [] if any(k in keys for k in apart) else ['said different without a difference']
            r = attempt(rep, 'equal:%s:%s' % (T, f['n']), '%s of %s holds exactly if the state is%s the same' % (f['n'], T, ' not' if neg else ''), f, proc, N, judge)
            neq += r is not None
    # containers
    for rec in recs:
        if not cname(rec).startswith('simple_') or 'size' not in accessors(W, rec):
            continue
        N = Num(W)
        ps = N.paths(lambda: observe(N, N.sym(typename(rec), 'this')))
        ob = ps[0].val
        stored = [n for n in ob if n != 'size' and isinstance(N.un(ob[n]), Sym)]
        ok = len(ps) == 1 and any(text(ob.get('size', '')) == text(ob[n]) + '.size()' for n in stored)
        rep.ob('size:%s' % cname(rec), ok, 'size() of a %s is the number of elements it gives out' % cname(rec), '%s:%s' % (rel(rec['file']), rec['l']), '' if ok else 'size() is %s' % text(ob.get('size', '?')))
    geo(W, rep)
    owners(W, rep)
    intrinsics(W, rep)
    elements(W, rep)
    conversions(P, rep)
    if nset < 25 or nctor < 12 or ncopy < 12 or neq < 6:
        raise Broken('value types: %d setters, %d constructors, %d copies, %d equalities analysed' % (nset, nctor, ncopy, neq))


def geo(W, rep):
    """validity of a geographic coordinate"""
    rec = next((c for c in records(W) if cname(c) == 'geo_lat_lon'), None)
    if rec is None:
        raise Broken('geo_lat_lon not found')
    N = Num(W)
    acc = accessors(W, rec)

    def region(name, inside, cuts, title):
        f = acc[name][1]
        ps = N.paths(lambda: N.truth(N.invoke(f, N.sym(typename(rec), 'this'), [], 0)))
        o = N.sym(typename(rec), 'this')
        ob = observe(N, o, ('get_latitude', 'get_longitude'))
        lat, lon = (next(iter(ob['get_' + k].vars())) for k in ('latitude', 'longitude'))
        # every condition compares one of the two with a known constant, so the regions below are all there are
        pts = {}
        for v, cs in ((lat, cuts[0]), (lon, cuts[1])):
            all_ = sorted(set(cs) | set(c for p in ps for d, _ in p.signs.values() if d.vars() == {v} for c in [root(d, v)] if c is not None))
            pts[v] = [all_[0] - 1] + [x for a, b in zip(all_, all_[1:] + [all_[-1] + 2]) for x in (a, (a + b) / 2)]
        bad = []
        if any(len(d.vars()) != 1 or root(d, next(iter(d.vars()))) is None for p in ps for d, _ in p.signs.values()):
            raise Broken('%s is not decided by comparisons with constants' % name)
        for x in pts[lat]:
            for y in pts[lon]:
                env = {lat: Rat.c(x), lon: Rat.c(y)}
                got = [p for p in ps if all(sgn(d.subst(env)) in s for d, s in p.signs.values())]
                want = inside(x, y)
                for p in got:
                    if p.kind != 'ret' or bool(p.val) != want:
                        bad.append('%s for latitude %s, longitude %s' % (p.val if p.kind == 'ret' else 'throws', float(x), float(y)))
        rep.ob('geo:' + name, not bad, title, where(f), '; '.join(bad[:3]))
        rep.paths += len(ps)
    region('is_valid', lambda x, y: -90 <= x <= 90 and -180 <= y <= 360, ([-90, 90], [-180, 360]), 'a coordinate is valid exactly for latitudes in [-90, 90] and longitudes in [-180, 360]')
    region('is_empty', lambda x, y: x == 444 and y == 444, ([444], [444]), 'a coordinate is empty exactly if both values are INVALID')
    f = next(f for f in ctors(W, rec) if not f['p'])

    def proc():
        o = Obj(rec)
        N.invoke(f, o, [], 0)
        return N.truth(N.invoke(acc['is_empty'][1], o, [], 0)), N.truth(N.invoke(acc['is_valid'][1], o, [], 0))
    bad = [str(p.val) for p in N.paths(proc) if p.kind != 'ret' or p.val != (True, False)]
    rep.ob('geo:default', not bad, 'a default constructed coordinate is empty and not valid', where(f), '; '.join(bad))


def root(d, v):
    """the value of v at which the linear d vanishes"""
    from fractions import Fraction
    a = d.subst({v: Rat.c(0)}).const()
    b = d.subst({v: Rat.c(1)}).const()
    c = d.subst({v: Rat.c(2)}).const()
    if a is None or b is None or c is None or b == a or c - b != b - a:
        return None
    return Fraction(-a) / (b - a)


def sgn(x):
    c = x.const()
    return '?' if c is None else '-' if c < 0 else '+' if c > 0 else '0'


def equalities(W, rec):
    out = [f for f in W.by_clsu.get(rec['u'], ()) if f['n'] in ('operator==', 'operator!=') and len(f['p']) == 1]
    for f in W.P.funcs.values():
        if f['n'] in ('operator==', 'operator!=') and not f.get('clsu') and f.get('body') is not None and len(f['p']) == 2 and DIR in f['file']:
            if W.record(f['p'][0]['t']) is rec:
                out.append(f)
    return out


def intrinsics(W, rep):
    """a camera has intrinsics, whatever it is given"""
    rec = W.record('kwiver::vital::simple_camera')
    N = Num(W)
    null = lambda t: 'shared_ptr' in t and 'intrinsics' in t
    for f in W.by_clsu.get(rec['u'], ()):
        k = [i for i, p in enumerate(f['p']) if null(p['t'])]
        if not k and (not f.get('ctor') or f['p']) or f.get('body') is None:
            continue

        def proc(f=f):
            o = Obj(rec) if f.get('ctor') else N.sym(typename(rec), 'this')
            N.invoke(f, o, [Cell(NULL) if i in k else N.sym(p['t'], 'A%d' % i) for i, p in enumerate(f['p'])], 0)
            return N.un(N.invoke(accessors(W, rec)['intrinsics'][1], o, [], 0))

        def judge(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            return [] if isinstance(p.val, Ptr) and p.val.t is not None else ['intrinsics() is %s' % text(p.val)]
        attempt(rep, 'camera:intrinsics:%s:%d' % (f['n'], len(f['p'])), 'a camera given no intrinsics has default ones', f, proc, N, judge)


def elements(W, rep):
    """what a descriptor says about its elements"""
    n = 0
    for rec in records(W):
        if not cname(rec).startswith('descriptor_') or cname(rec) == 'descriptor_set':
            continue
        N = Num(W)
        acc = dict((m['n'], f) for m, f in methods(W, rec) if f is not None and f.get('body') is not None)
        for x in ('size', 'num_bytes', 'as_double'):
            f = acc.get(x)
            if f is None:
                continue

            def proc(f=f):
                o = N.sym(typename(rec), 'D')
                if isinstance(N.un(o.f.get('length_')), Rat):
                    o.f['length_'].v = Rat.c(3)
                    o.f['data_'] = Cell(ArrP([Cell(Rat.var('D.data_[%d]' % i)) for i in range(3)], 0))
                raw = N.un(N.invoke(acc['raw_data'], o, [], 0))
                return N.un(N.invoke(f, o, [], 0)), N.num(N.invoke(acc['size'], o, [], 0)).const(), raw

            def judge(p, x=x):
                if p.kind != 'ret':
                    return ['throws %s' % p.val]
                v, size, raw = p.val
                if x == 'size':
                    return [] if size == len(raw.cells) - raw.i else ['%s elements, but storage for %d' % (size, len(raw.cells) - raw.i)]
                if x == 'num_bytes':
                    el = norm_t(next(m['rt'] for m, f in methods(W, rec) if m['n'] == 'raw_data')).replace('const ', '').rstrip('* ')
                    k = {'float': 4, 'double': 8, 'unsigned char': 1}.get(el)
                    return [] if N.num(v).eq(Rat.c(size * k)) else ['%s bytes for %s elements of type %s' % (text(v), size, el)]
                got = [N.num(c.v) for c in v.cells] if isinstance(v, Vec) else None
                want = [N.num(c.v) for c in raw.cells[raw.i:]]
                return [] if got is not None and len(got) == len(want) and all(a.eq(b) for a, b in zip(got, want)) else ['the result is %s' % text(v)[:100]]
            if attempt(rep, 'elements:%s:%s' % (short(typename(rec)), x), '%s() tells all elements' % x, f, proc, N, judge) is not None:
                n += 1
    if n < 4:
        raise Broken('only %d descriptor members analysed' % n)


def owners(W, rep):
    """a class that deletes a member has copy operations of its own"""
    n = 0
    for c in sorted(W.P.classes.values(), key=lambda c: c['u']):
        if '/vital/' not in c['file'] or '/kwiversys/' in c['file'] or '/tests/' in c['file']:
            continue
        d = next((f for f in W.by_clsu.get(c['u'], ()) if f.get('dtor')), None)
        if d is None:
            continue
        dels = [x for x in walk(d['body']) if x.get('k') == 'delete' or x.get('k') == 'call' and x.get('q') == 'free']
        fields = set(f['n'] for f in c['fields'] if f['t'].endswith('*'))
        own = set(y['n'] for x in dels for y in walk(x) if y.get('k') == 'mem' and y['n'] in fields)
        if not own:
            continue
        n += 1
        has = {}
        for m in c['methods']:
            if m.get('ctor') and len(m['p']) == 1 and norm_t(m['p'][0]['t']) == typename(c) and not m.get('impl'):
                has['copy constructor'] = m
            if m['n'] == 'operator=' and not m.get('impl'):
                has['assignment'] = m
        miss = [k for k in ('copy constructor', 'assignment') if k not in has]
        rep.ob('owner:%s' % short(typename(c)), not miss, 'a class that deletes %s says how it is copied' % ', '.join(sorted(own)), '%s:%s' % (rel(c['file']), c['l']),
               'no %s: copies would delete the same memory twice' % ' and no '.join(miss) if miss else '')
        # they do not share the pointer
        for f in W.by_clsu.get(c['u'], ()):
            if not (f.get('cc') or f.get('ca')) or f.get('del'):
                continue
            E = Engine(W.P)
            bad = []
            for o in E.run(f):
                for fld in own:
                    v = E.read(o.st, TF(fld))
                    if v is not None and ('fld' in str(v)[:8] or v[0] == 'fld') and v[-1] == fld and v[1] != ('deref', ('this',)):
                        bad.append('%s is the pointer of the source' % fld)
            rep.saw(f)
            rep.ob('owner:%s:%s' % (short(typename(c)), f['n']), not bad, 'a copied %s does not share the memory it deletes' % cname(c), where(f), '; '.join(bad[:2]))
    if n < 1:
        raise Broken('only %d classes that delete a member' % n)


def conversions(P, rep):
    """programs that must be well-formed (decided by the type checker)"""
    tu = next((t for t in P.tus if t.get('witness', '').endswith('convert.cxx')), None)
    if tu is None:
        raise Broken('the conversion programs were not analysed')
    src = open(tu['witness']).read().split('\n')
    cur, errs = None, {}
    # an error inside a template names, in the notes that follow, the program that asked for it
    last = None
    for l in tu['diag'].split('\n'):
        m = re.match(r'(\S+?):(\d+):\d+: (fatal error|error|note): (.*)', l)
        if not m:
            continue
        f, n, kind, msg = m.group(1), int(m.group(2)), m.group(3), m.group(4)
        if kind != 'note':
            last = ('%s:%d' % (f, n), msg)
        if f.endswith('convert.cxx') and last:
            errs.setdefault(n, last)
    if last and not errs:
        errs[0] = last
    for i, l in enumerate(src):
        m = re.match(r'\S.* (\w+_from_\w+)\(', l)
        if m:
            e = errs.get(i + 1)
            rep.ob('convert:' + m.group(1), not e, 'a program that needs %s is accepted by the compiler' % m.group(1).replace('_', ' '), e[0] if e else 'vital/types', e[1][:200] if e else '')
            rep.sites += 1
    if 0 in errs:
        rep.ob('convert:headers', False, 'the headers of the value types are accepted by the compiler', errs[0][0], errs[0][1][:200])
