"""rules about images: pixel addressing, memory layout, copies, comparison and transformation"""
import itertools

from base import *
from linear import Loops, add, mul, counters, single, showp

NS = 'kwiver::vital::'
IMG = NS + 'image'
MEM = NS + 'image_memory'
DIMS = ('width_', 'height_', 'depth_')
STEPS = ('w_step_', 'h_step_', 'd_step_')
FIELDS = ('data_', 'first_pixel_') + DIMS + STEPS


def fld(obj, name):
    return ('fld', ('deref', obj), name)


ME = ('this',)


def has(t, name):
    """the term mentions a field of this name"""
    return any(x and x[0] == 'fld' and x[2] == name for x in subterms(t))


def check_pixels(P, rep):
    """every pixel accessor: address formula, dominating bounds, exception type"""
    rep.rule('the address of a returned pixel is first_pixel_ + i*w_step_ + j*h_step_ + k*d_step_ and the path established i < width_, j < height_, k < depth_')
    rep.rule('an accessor throws out_of_range on exactly the other paths; getters return their field')
    E = Engine(P)
    n = 0
    for f in sorted(P.methods(IMG), key=lambda f: f['l']):
        if f.get('kind') == 'ctor' or not f['p'] or f['q'].split('::')[-1] in ('operator=', 'copy_from', 'set_size', 'image', '~image'):
            continue
        if not any(x.get('k') in ('mem', 'memf') and x.get('n') == 'first_pixel_' for x in walk(f['body'])) and not list(calls(f['body'])):
            continue
        if f.get('rt') == 'void' or f.get('st') or f.get('acc', 'public') != 'public':
            continue        # helpers: seen through from the accessors
        outs = E.run(f)
        rep.saw(f, outs)
        par = [('par', p['n']) for p in f['p']]
        n += 1
        got = False
        for o in outs:
            if o.kind == 'ret':
                px = [t for t in subterms(o.val) if t and t[0] == 'at' and t[1] == ('deref', fld(ME, 'first_pixel_'))] + \
                     [t for t in subterms(o.val) if t and t[0] == 'deref' and contains(t[1], fld(ME, 'first_pixel_')) and t[1] != fld(ME, 'first_pixel_') and not t[1][0] == 'at']
                rep.sites += len(px)
                L = Loops(o.events)
                chans = []
                for t in px:
                    got = True
                    a = add(L.addr(t), {(fld(ME, 'first_pixel_'),): -1})
                    why = pixel_ok(E, o, a, par)
                    rep.ob('addr:%s/%d' % (f['q'].split('::')[-1], len(par)), why is None, 'pixel address and bounds', where(f), '%s %s' % (why, fmt_path(o)))
                if f['q'].endswith('::at') and o.val[0] == 'ctor':
                    chans = [channel(L, t) for t in o.val[2]]
                    small = E.truth(o.st, ('op', '<', fld(ME, 'depth_'), C(3)))
                    want = [0, 0, 0] if small else [0, 1, 2]
                    rep.ob('at:channels', chans == want and small is not None, 'gray below three channels, otherwise channels 0, 1 and 2', where(f), '%s %s' % (chans, fmt_path(o)))
            elif o.kind == 'throw':
                out = any(E.truth(o.st, ('op', '<', p, fld(ME, d))) is False for p, d in zip(par, DIMS)) or \
                    E.truth(o.st, ('nz', fld(ME, 'depth_'))) is False or E.truth(o.st, ('op', '==', fld(ME, 'depth_'), C(0))) is True
                rep.ob('throw:%s/%d' % (f['q'].split('::')[-1], len(par)), out and o.val[0].startswith('std::out_of_range'), 'out_of_range only for an index outside the image', where(f), fmt_path(o))
        rep.ob('access:%s/%d' % (f['q'].split('::')[-1], len(par)), got, 'accessor returns a pixel', where(f))
    if n < 5:
        raise Broken('image has only %d pixel accessors' % n)
    for cls, obj in ((IMG, None), (NS + 'simple_image_container', 'data')):
        for name, field in (('width', 'width_'), ('height', 'height_'), ('depth', 'depth_'), ('w_step', 'w_step_'), ('h_step', 'h_step_'), ('d_step', 'd_step_'), ('first_pixel', 'first_pixel_')):
            fs = [f for f in P.methods(cls) if f['q'] == cls + '::' + name]
            for f in fs:
                for o in E.run(f):
                    want = fld(ME, field) if obj is None else ('fld', fld(ME, obj), field)
                    rep.ob('getter:%s' % name, o.kind == 'ret' and o.val == want, 'getter returns %s' % field, where(f), show(o.val) if o.val else '')
                    rep.saw(f)
            if cls == IMG and not fs:
                raise Broken('image::%s not found' % name)
    return rep


def pixel_ok(E, o, a, par):
    """a: address relative to first_pixel_"""
    seen = {}
    for m, c in a.items():
        st = [x for x in m if x in [fld(ME, s) for s in STEPS]]
        if len(st) != 1:
            return 'term %s has no step' % (showp({m: c}))
        d = STEPS.index(st[0][2])
        rest = list(m)
        rest.remove(st[0])
        if d in seen:
            return 'two terms in dimension %d' % d
        if not rest:
            seen[d] = C(c)
        elif len(rest) == 1 and c == 1:
            seen[d] = rest[0]
        else:
            return 'not linear'
    for d in range(3):
        v = seen.get(d, C(0))
        if d < len(par) and v != par[d]:
            return 'index %d is not multiplied by %s' % (d, STEPS[d])
        if v[0] == 'c':
            lo = E.interval(o.st, fld(ME, DIMS[d]))[0]
            if lo is None or lo <= v[1]:
                if not (v[1] == 0 and (E.truth(o.st, ('nz', fld(ME, DIMS[d]))) is True or E.truth(o.st, ('op', '==', fld(ME, DIMS[d]), C(0))) is False)):
                    return 'channel %d is not known to exist' % v[1]
        elif E.truth(o.st, ('op', '<', v, fld(ME, DIMS[d]))) is not True:
            return '%s is not known to be below %s' % (show(v), DIMS[d])
    return None


def channel(L, t):
    a = L.addr(t) if t[0] in ('at', 'deref') else None
    if a is None:
        return None
    c = [(m, k) for m, k in a.items() if fld(ME, 'd_step_') in m]
    if not c:
        return 0
    return c[0][1] if len(c) == 1 and len(c[0][0]) == 1 else None


# ------------------------------------------------------------------ copies
def final(E, o, obj, name):
    """value of a field of *obj at the end of the path"""
    return E.read(o.st, ('F', ('P', obj), name))


def scan(events, kind, stack=(), always=True):
    """(event, loops around it, does every iteration reach it)"""
    for e in events:
        if e[0] == 'loop':
            for (f, b, u) in e[3]:
                yield from scan(b, kind, stack + ((e, f),), always and len(e[3]) == 1)
        elif e[0] == kind:
            yield e, stack, always


def layout_ok(E, o, obj, w, h, d):
    """the steps enumerate w*h*d distinct bytes from the start"""
    L = Loops(o.events)
    p = lambda t: L.poly(t)
    W, H, D = p(w), p(h), p(d)
    ws, hs, ds = (p(final(E, o, obj, s)) for s in STEPS)

    def eqdepth(q):
        # w_step == depth as a value: the term itself, or a term the path equated with it
        if q == D:
            return True
        a = single(q)
        b = single(D)
        return a is not None and b is not None and (E.eqfact(o.st, a, b) is True)
    planar = ws == {(): 1} and hs == W and ds == mul(W, H)
    inter = eqdepth(ws) and (hs == mul(W, D) or hs == mul(W, ws)) and ds == {(): 1}
    # planar: one channel may also use the depth as its step
    if not planar and eqdepth(ws) and hs in (mul(W, ws), mul(W, D)) and ds == mul(W, H):
        one = any(E.truth(o.st, ('op', '==', x, C(1))) is True for x in (single(ws), single(D)) if x is not None)
        return one
    return planar or inter


def check_copies(P, rep):
    rep.rule('copy constructor and assignment take over all eight members; allocating members reserve width*height*depth bytes and set steps that enumerate exactly these bytes')
    rep.rule('deep copy, comparison and transformation visit first_pixel + sum(counter*step) with one loop per dimension counting to that dimension, in every memory order')
    E = Engine(P)
    ctor = [f for f in P.methods(IMG) if f['q'] == IMG + '::image']
    for f in ctor:
        ps = [p['n'] for p in f['p']]
        outs = E.run(f)
        rep.saw(f, outs)
        for o in outs:
            vals = {x: final(E, o, ME, x) for x in FIELDS}
            if len(ps) == 1:
                other = ('ref', ps[0])
                for x in FIELDS:
                    rep.ob('copy:%s' % x, vals[x] == fld(other, x), 'copy constructor takes over %s' % x, where(f), show(vals[x]))
            elif not ps:
                for x in FIELDS:
                    rep.ob('default:%s' % x, vals[x] == C(0), 'empty image', where(f), show(vals[x]))
            elif 'first_pixel' in ps or len(ps) >= 7:
                k = len(ps) - 7
                pp = [('par', p) for p in ps]
                want = dict(zip(('first_pixel_',) + DIMS + STEPS, pp[k:]))
                for x, v in want.items():
                    rep.ob('wrap:%s' % x, vals[x] == v, 'wrapping constructor sets %s from its parameter' % x, where(f), show(vals[x]))
                rep.ob('wrap:data', vals['data_'] == (C(0) if k == 0 else vals['data_']) and (k == 0 or any(x and len(x) == 2 and x[1] == ps[0] for x in subterms(vals['data_']))), 'memory is shared as given', where(f), show(vals['data_']))
            else:
                pp = [('par', p) for p in ps[:3]]
                allocated(E, rep, f, o, pp, vals)
                if len(ps) > 3:
                    il = E.truth(o.st, ('nz', ('par', ps[3])))
                    w = Loops(o.events).poly(vals['w_step_'])
                    rep.ob('alloc:order', il is True and w == {(pp[2],): 1} or il is False and w == {(): 1}, 'interleaved exactly when asked for', where(f), fmt_path(o))
    if len(ctor) < 5:
        raise Broken('constructors of image')
    f = P.one(IMG + '::operator=')
    other = ('ref', f['p'][0]['n'])
    for o in E.run(f):
        rep.paths += 1
        same = E.truth(o.st, ('op', '==', *sorted((('addr', ('deref', other)), ME), key=repr)))
        for x in FIELDS:
            v = final(E, o, ME, x)
            selfc = any(k[0] == 'op' and k[1] == '==' and v2 and ME in k for k, v2 in o.facts.items())
            rep.ob('assign:%s' % x, v == fld(other, x) or selfc and v == fld(ME, x), 'assignment takes over %s' % x, where(f), show(v))
    rep.saw(f)
    # set_size
    f = P.one(IMG + '::set_size')
    outs = E.run(f)
    rep.saw(f, outs)
    pp = [('par', p['n']) for p in f['p']]
    for o in outs:
        if o.kind != 'ret':
            rep.ob('set_size:returns', False, 'set_size returns', where(f), fmt_path(o))
            continue
        vals = {x: final(E, o, ME, x) for x in FIELDS}
        if all(vals[x] == fld(ME, x) for x in FIELDS):
            eq = all(E.eqfact(o.st, p, fld(ME, d)) is True for p, d in zip(pp, DIMS))
            rep.ob('set_size:same', eq, 'only an unchanged size keeps the memory', where(f), fmt_path(o))
        else:
            ne = any(E.eqfact(o.st, p, fld(ME, d)) is False for p, d in zip(pp, DIMS))
            rep.ob('set_size:changed', ne, 'an unchanged size keeps the memory', where(f), fmt_path(o))
            allocated(E, rep, f, o, pp, vals)
    # size()
    f = P.one(IMG + '::size')
    for o in E.run(f):
        null = [v for k, v in o.facts.items() if k == ('nz', fld(ME, 'data_'))]
        ok = o.val == C(0) if null and null[0] is False else has(o.val, 'size_') and contains(o.val, fld(ME, 'data_'))
        rep.ob('size', ok and null, 'bytes of the memory, zero without memory', where(f), fmt_path(o))
    memory(E, P, rep)
    copy_from(E, P, rep)
    equal(E, P, rep)
    transform(E, P, rep)
    return rep


def allocated(E, rep, f, o, pp, vals):
    L = Loops(o.events)
    d = vals['data_']
    n = [t for t in subterms(d) if t and t[0] == 'new' and strip_targs(t[1]) == MEM]
    size = mul(mul(L.poly(pp[0]), L.poly(pp[1])), L.poly(pp[2]))
    rep.ob('alloc:size', len(n) >= 1 and len(n[0][2]) == 1 and L.poly(n[0][2][0]) == size, 'width*height*depth bytes are allocated', where(f), show(d))
    fp = vals['first_pixel_']
    rep.ob('alloc:first', bool(n) and contains(fp, n[0]) and has(fp, 'data_') and fp[0] in ('fld', 'pcall', 'call'), 'the first pixel is the start of the new memory', where(f), show(fp))
    for x, p in zip(DIMS, pp):
        v = vals[x]
        rep.ob('alloc:%s' % x, v == p or v == fld(ME, x) and E.eqfact(o.st, p, v) is True, '%s is set' % x, where(f), show(v))
    rep.ob('alloc:steps', layout_ok(E, o, ME, *pp), 'steps enumerate the allocated bytes', where(f),
           '%s %s' % ([show(vals[s]) for s in STEPS], fmt_path(o)))


def memory(E, P, rep):
    """image_memory owns its bytes"""
    for f in P.methods(MEM):
        n = f['q'].split('::')[-1]
        if n not in ('image_memory', 'operator=', '~image_memory', 'data', 'size'):
            continue
        outs = E.run(f)
        rep.saw(f, outs)
        for o in outs:
            d, s = final(E, o, ME, 'data_'), final(E, o, ME, 'size_')
            cps = [e for e in o.flat() if e[0] == 'call' and e[1].split('<')[0].split('::')[-1] in ('memcpy', 'memmove', 'copy', 'copy_n')]
            dels = [e for e in o.flat() if e[0] == 'delete']
            if n == 'data':
                rep.ob('mem:data', o.val == fld(ME, 'data_'), 'data() is the allocated memory', where(f), show(o.val))
            elif n == 'size':
                rep.ob('mem:size', o.val == fld(ME, 'size_'), 'size() is the allocated size', where(f), show(o.val))
            elif n.startswith('~'):
                rep.ob('mem:free', len(dels) == 1 and dels[0][1] == fld(ME, 'data_') and dels[0][2] is True, 'the destructor frees the array once', where(f), fmt_path(o))
            elif not f['p']:
                rep.ob('mem:empty', d == C(0) and s == C(0), 'empty memory', where(f), '')
            elif n == 'image_memory' and 'image_memory' not in f['p'][0]['t']:
                p = ('par', f['p'][0]['n'])
                rep.ob('mem:new', d[0] == 'new' and d[2] == (p,) and s == p, 'n bytes are allocated and recorded', where(f), show(d))
            else:
                other = ('ref', f['p'][0]['n'])
                selfc = any(k[0] == 'op' and k[1] == '==' and v and ME in k for k, v in o.facts.items())
                if selfc:
                    rep.ob('mem:self', d == fld(ME, 'data_') and s == fld(ME, 'size_') and not dels, 'self assignment keeps the memory', where(f), fmt_path(o))
                    continue
                osz = fld(other, 'size_')
                same = E.eqfact(o.st, osz, fld(ME, 'size_')) is True
                okd = d[0] == 'new' and d[2] == (osz,) or d == C(0) and E.truth(o.st, ('op', '<', C(0), osz)) is False or d == C(0) and E.truth(o.st, ('nz', osz)) is False or \
                    d == fld(ME, 'data_') and same and n == 'operator='
                rep.ob('mem:copy:alloc', okd and (s == osz or same), 'a copy owns memory of the same size', where(f), '%s %s' % (show(d), fmt_path(o)))
                okc = len(cps) == 1 and copied(cps[0], d, fld(other, 'data_'), (osz, s))
                rep.ob('mem:copy:bytes', okc or d == C(0) and not cps, 'all bytes are copied', where(f), fmt_path(o))
                if n == 'operator=':
                    fresh = d != fld(ME, 'data_')
                    rep.ob('mem:copy:old', len(dels) == (1 if fresh else 0) and all(e[1] == fld(ME, 'data_') and e[2] is True for e in dels), 'the old memory is freed exactly when it is replaced', where(f), fmt_path(o))


def copied(e, dst, src, sizes):
    n = e[1].split('<')[0].split('::')[-1]
    a = e[3]
    if n == 'copy' and len(a) == 3:
        return a[0] == src and a[2] == dst and a[1] in [('op', '+', src, z) for z in sizes]
    if n == 'copy_n' and len(a) == 3:
        return a[0] == src and a[2] == dst and a[1] in sizes
    if n in ('memcpy', 'memmove'):
        args = ((e[2],) + tuple(a)) if e[2] is not None and len(a) == 2 else tuple(a)
        return len(args) == 3 and args[0] == dst and args[1] == src and args[2] in sizes
    return False


# ------------------------------------------------------------------ loops over all pixels
class Perm(object):
    """evaluate step-order dependent terms for one total preorder of the three steps of an image"""

    def __init__(self, obj, ranks):
        self.obj = obj
        self.env = {fld(obj, s): r for s, r in zip(STEPS, ranks)}

    def val(self, t):
        """integer value of an index or order term, or None"""
        v = cval(t, self.env)
        if v is not None:
            return v
        if t[0] == 'at':
            v = self.sym(t)
            return self.val(v) if v != t else None
        return None

    def sym(self, t):
        """resolve reads of local arrays"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'at' and t[1][0] == 'upd':
            i = self.val(t[2])
            v = None
            for path, x in t[1][2]:
                if len(path) == 1 and path[0][0] == 'I':
                    j = self.val(path[0][1])
                    if j is None or i is None:
                        return t
                    if i == j:
                        v = x
            if v is not None:
                return self.sym(v)
            return ('unset', t[2])
        if t[0] in ('ite',) and len(t) == 4:
            c = self.val(t[1])
            if c is not None:
                return self.sym(t[2] if c else t[3])
        return tuple(self.sym(x) for x in t)

    def fits(self, facts):
        for k, v in facts.items():
            x = self.val(k)
            if x is not None and bool(x) != v:
                return False
        return True


def orders():
    for r in itertools.product((1, 2, 3), repeat=3):
        u = sorted(set(r))
        if u == list(range(1, len(u) + 1)):
            yield r


def full_visit(L, stack, a, first, steps, dims, eq, perm=None):
    """None when the address a is first + sum(counter*step) over one complete loop per dimension, otherwise the reason"""
    S = perm.sym if perm else (lambda t: t)
    by, rest = counters(a)
    if rest != first:
        return 'start is %s' % showp(rest)
    lids = [e[1] for e, _f in stack]
    if set(by) != set(lids) or len(lids) != 3:
        return '%d loops, address uses %d' % (len(lids), len(by))
    used = {}
    if L.early:
        return 'a loop is left early'
    for e, _f in stack:
        sp = e[2]
        if sp[0] != 'count' or sp[1] != C(0):
            return 'loop over %s' % show(sp)
        lim = L.poly(S(sp[2]))
        co = by[e[1]]
        co2 = {}
        for m, c in co.items():
            co2 = add(co2, mul({(): c}, _prod(L, [S(x) for x in m])))
        ds = [i for i in range(3) if any(lim == L.poly(x) for x in dims[i]) or any(eq(sp[2], x) for x in dims[i])]
        ds = [i for i in ds if co2 == L.poly(S(steps[i])) and i not in used]
        if not ds:
            return 'loop to %s advances by %s' % (showp(lim), showp(co2))
        used[ds[0]] = e[1]
    return None if len(used) == 3 else 'dimension missing'


def _prod(L, atoms):
    r = {(): 1}
    for a in atoms:
        r = mul(r, L.poly(a))
    return r


def _names(v):
    for t in subterms(v):
        yield t
        for x in t:
            if isinstance(x, str):
                yield x


def copy_from(E, P, rep):
    f = P.one(IMG + '::copy_from')
    other = ('ref', f['p'][0]['n'])
    outs = E.run(f)
    rep.saw(f, outs)
    for o in outs:
        if o.kind != 'ret':
            rep.ob('deep:returns', False, 'the copy completes', where(f), fmt_path(o))
            continue
        L = Loops(o.events)
        ws = [(e, st, al) for e, st, al in scan(o.events, 'write') if st and L.locaddr(e[1]) is not None]
        rep.sites += len(ws)
        for x in DIMS:
            v = final(E, o, ME, x)
            rep.ob('deep:%s' % x, v == fld(other, x) or v == fld(ME, x) and E.eqfact(o.st, v, fld(other, x)) is True, 'the copy has the size of the original', where(f), fmt_path(o))
        dims = [(fld(other, d), final(E, o, ME, d)) for d in DIMS]
        eq = lambda a, b: E.eqfact(o.st, a, b) is True
        if len(ws) != 1:
            rep.ob('deep:pixels', False, 'one store per pixel', where(f), '%d stores' % len(ws))
            continue
        e, st, al = ws[0]
        src = L.addr(e[2])
        dst = L.locaddr(e[1])
        why = 'value is no pixel' if src is None else full_visit(L, st, src, L.poly(fld(other, 'first_pixel_')), [fld(other, s) for s in STEPS], dims, eq) or \
            full_visit(L, st, dst, L.poly(final(E, o, ME, 'first_pixel_')), [final(E, o, ME, s) for s in STEPS], dims, eq)
        # same counter on both sides: the loop limits determine the dimension, so the source step and the target step of a loop are of one dimension
        rep.ob('deep:pixels', al and why is None and same_dims(L, st, src, dst, [fld(other, s) for s in STEPS], [final(E, o, ME, s) for s in STEPS]), 'every pixel is copied to its place', where(f, e[3]), '%s %s' % (why, fmt_path(o)))


def same_dims(L, stack, src, dst, ss, ds):
    if src is None or dst is None:
        return False
    a, _ = counters(src)
    b, _ = counters(dst)
    return all(any(a.get(e[1]) == L.poly(x) and b.get(e[1]) == L.poly(y) for x, y in zip(ss, ds)) for e, _f in stack)


def equal(E, P, rep):
    f = P.one(NS + 'equal_content')
    outs = E.run(f)
    rep.saw(f, outs)
    A, B = (('ref', p['n']) for p in f['p'])

    def pixfact(L, k):
        """(address of first image's pixel, of the second's) compared by the fact"""
        if k[0] == 'op' and k[1] == '==':
            x, y = L.addr(k[2]) if k[2][0] in ('at', 'deref') else None, L.addr(k[3]) if k[3][0] in ('at', 'deref') else None
            if x is None or y is None:
                return None
            if any(contains(m, B) for m in x):
                x, y = y, x
            return x, y
        return None
    for o in outs:
        if o.kind == 'ret' and o.val not in (C(0), C(1)) and E.truth(o.st, o.val) is not None:
            o.val = C(1 if E.truth(o.st, o.val) else 0)
        if o.kind != 'ret' or o.val not in (C(0), C(1)):
            rep.ob('equal:result', False, 'the comparison returns true or false', where(f), fmt_path(o))
            continue
        L = Loops(o.events)
        eqd = [E.eqfact(o.st, fld(A, d), fld(B, d)) for d in DIMS]
        if o.val == C(0):
            ok = False in eqd
            for k, v in o.facts.items():
                pf = pixfact(L, k)
                if pf and not v:
                    a, ra = counters(pf[0])
                    b, rb = counters(pf[1])
                    ok = ok or ra == L.poly(fld(A, 'first_pixel_')) and rb == L.poly(fld(B, 'first_pixel_')) and set(a) == set(b) and \
                        all(any(a[l] == L.poly(fld(A, s)) and b[l] == L.poly(fld(B, s)) for s in STEPS) for l in a)
            rep.ob('equal:false', ok, 'different only when a size or a pixel differs', where(f), fmt_path(o))
        else:
            ok = all(x is True for x in eqd)
            pix = False
            why = 'no comparison in every iteration'
            for st, facts in innermost(o.events):
                for k, v in facts.items():
                    pf = pixfact(L, k)
                    if pf and v:
                        dims = [(fld(A, d), fld(B, d)) for d in DIMS]
                        eq = lambda a, b: E.eqfact(o.st, a, b) is True
                        why = full_visit(L, st, pf[0], L.poly(fld(A, 'first_pixel_')), [fld(A, s) for s in STEPS], dims, eq) or \
                            full_visit(L, st, pf[1], L.poly(fld(B, 'first_pixel_')), [fld(B, s) for s in STEPS], dims, eq)
                        if why is None and same_dims(L, st, pf[0], pf[1], [fld(A, s) for s in STEPS], [fld(B, s) for s in STEPS]):
                            pix = True
                            rep.sites += 1
            rep.ob('equal:true', ok and pix, 'equal only when every pixel was compared equal', where(f), '%s %s' % (why, fmt_path(o)))


def innermost(events, stack=()):
    """the only path through a loop nest: (loops, facts of the innermost body); nothing when some body has several paths"""
    for e in events:
        if e[0] == 'loop' and len(e[3]) == 1:
            f, b, u = e[3][0]
            sub = [x for x in b if x[0] == 'loop']
            if sub:
                yield from innermost(b, stack + ((e, f),))
            else:
                yield stack + ((e, f),), dict(f)


def transform(E, P, rep):
    f = P.one(NS + 'transform_image')
    outs = E.run(f)
    rep.saw(f, outs)
    img, op = ('ref', f['p'][0]['n']), f['p'][1]['n']
    for r in orders():
        pm = Perm(img, r)
        n = 0
        for o in outs:
            if not pm.fits(o.facts):
                continue
            n += 1
            L = Loops(o.events)
            ws = [(e, st, al) for e, st, al in scan(o.events, 'write') if st and L.locaddr(e[1]) is not None and any(has(m, 'first_pixel_') for m in L.locaddr(e[1]))]
            why = None
            if o.kind != 'ret' or len(ws) != 1:
                why = '%s, %d stores' % (o.kind, len(ws))
            else:
                e, st, al = ws[0]
                v = e[2]
                arg = [t for t in subterms(v) if t and t[0] in ('deref', 'at') and L.addr(t) is not None]
                if not (v[0] in ('call', 'pcall') and any(x and len(x) == 2 and x[1] == op or x == op for x in _names(v)) and arg and L.addr(arg[0]) == L.locaddr(e[1])):
                    why = 'the value is not the operation applied to the pixel: ' + show(v)[:200]
                elif not al:
                    why = 'some iteration stores nothing'
                else:
                    why = full_visit(L, st, L.locaddr(e[1]), L.poly(fld(img, 'first_pixel_')), [fld(img, s) for s in STEPS], [(fld(img, d),) for d in DIMS], lambda a, b: False, pm)
            rep.ob('transform:%d%d%d' % r, why is None, 'the operation is applied once to every pixel', where(f), '%s' % why)
            rep.paths += 1
        if not n:
            rep.ob('transform:%d%d%d' % r, False, 'no path for this order of steps', where(f))
