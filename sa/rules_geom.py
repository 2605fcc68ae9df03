"""geometry: rotations, similarities, cameras, homographies, essential matrices, covariances"""
import math
import os
import time
import re
from fractions import Fraction
from base import *
from facts import Broken
from numeric import Num, World, Unknown, Obj, Mat, Quat, Cell, Ptr, SymPtr, Sym, Vec, Rat, equal, leaves, text, typename, short, norm_t, shape, matmul, det, inverse
from algebra import TooBig, fn, ARGS, ZERO, UNIT
from rules_value import records, cname, ctors, methods, same, accessors, observe


class Geo(object):
    """obligations stated as equations between normal forms"""

    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.W = World(P)
        self.done = 0

    def rec(self, name, t=None):
        rs = [c for c in records(self.W) if cname(c) == name and (t is None or '<%s>' % t in typename(c) or t in typename(c))]
        if not rs:
            rs = [c for c in self.W.P.classes.values() if c['n'] == name and (t is None or t in typename(c))]
        if not rs:
            raise Broken('class %s %s not found' % (name, t or ''))
        return rs[0]

    def meth(self, rec, n, *pts):
        """member function of that name whose parameter types contain the given texts"""
        todo = [rec]
        while todo:
            c = todo.pop(0)
            for f in self.W.by_clsu.get(c['u'], ()):
                if f['n'] == n and len(f['p']) == len(pts) and all(re.search(x, norm_t(p['t'])) for x, p in zip(pts, f['p'])):
                    return f
            todo += list(self.W.base_recs(c))
        raise Broken('%s::%s not found' % (typename(rec), n))

    def ctor(self, rec, *pts):
        for f in self.W.by_clsu.get(rec['u'], ()):
            if f.get('ctor') and len(f['p']) == len(pts) and all(re.search(x, norm_t(p['t'])) for x, p in zip(pts, f['p'])):
                return f
        raise Broken('constructor of %s not found' % typename(rec))

    def conv(self, rec, r, c):
        for f in self.W.by_clsu.get(rec['u'], ()):
            if f['n'].startswith('operator ') and shape(norm_t(f['rt'])) == (r, c):
                return f
        raise Broken('conversion of %s to a matrix not found' % typename(rec))

    def free(self, n, *pts):
        for f in self.P.funcs.values():
            if f['n'] == n and f.get('body') is not None and not f.get('clsu') and len(f['p']) == len(pts) and \
                    all(re.search(x, norm_t(p['t'])) for x, p in zip(pts, f['p'])):
                return f
        raise Broken('%s not found' % n)

    def eq(self, oid, title, f, proc, judge=None, dyn=3, need=1):
        """proc(N) -> pairs (label, computed, expected); judge(path) -> complaints"""
        t0 = time.time()
        N = Num(self.W, dyn=dyn)
        self.rep.saw(f)
        try:
            ps = N.paths(lambda: proc(N))
        except (Unknown, TooBig) as e:
            self.rep.notes.append('%s: not analysed (%s)' % (oid, e))
            return None
        self.rep.paths += len(ps)
        self.rep.sites += 1
        bad = []
        # what happens to values that are not numbers is not part of any law
        ps = [p for p in ps if not any(s <= {'n'} for _, s in p.signs.values())]
        for p in ps:
            p.signs = dict((k, (d, set(s) - {'n'})) for k, (d, s) in p.signs.items())
            if judge is not None:
                c = judge(p)
            elif p.kind != 'ret':
                c = ['leaves by throwing %s' % p.val]
            else:
                c = ['%s is %s, not %s' % (l, text(a)[:110], text(b)[:110]) for l, a, b in p.val if not same(a, b)]
            bad += ['%s%s' % (x, ' (%s)' % p.given()[:200] if p.signs or p.choices else '') for x in c]
        if len(ps) < need:
            bad.append('only %d cases' % len(ps))
        self.rep.ob(oid, not bad, title, where(f), '; '.join(bad[:3]))
        self.done += 1
        if TIME: print("%6.2f %s" % (time.time() - t0, oid))
        return not bad


def vec(*xs):
    return Mat(len(xs), 1, [Cell(x) for x in xs])


def ident(n):
    return Mat.of(n, n, lambda i, j: UNIT if i == j else ZERO)


def cross(v):
    a, b, c = (v.get(i, 0) for i in range(3))
    z = ZERO
    return Mat(3, 3, [Cell(x) for x in (z, -c, b, c, z, -a, -b, a, z)])


def tr(m):
    return Mat.of(m.c, m.r, lambda i, j: m.get(j, i))


def msum(a, b, k=UNIT):
    return Mat.of(a.r, a.c, lambda i, j: a.get(i, j) + k * b.get(i, j))


def scale(k, m):
    return Mat.of(m.r, m.c, lambda i, j: k * m.get(i, j))


def norm(v):
    s = ZERO
    for c in v.cells:
        s = s + c.v * c.v
    return fn('sqrt', s)


def half_quat(half, k):
    """unit quaternion of a rotation by 2*half about the unit vector k"""
    s, c = fn('sin', half), fn('cos', half)
    return Quat([Cell(c)] + [Cell(s * x.v) for x in k.cells])


PI = math.pi
TIME = os.environ.get("GEO_TIME")


def check_rotation(P, rep):
    rep.rule('Members of rotation_ and similarity_ compute the rational functions of their inputs that make the group laws hold; values are compared as normal forms '
             '(unit quaternion, sqrt, sine and cosine relations applied).')
    G = Geo(P, rep)
    for T in ('double', 'float'):
        R = G.rec('rotation_', T)
        M33 = G.conv(R, 3, 3)
        new = lambda N, f, *a: (lambda o: (N.invoke(f, o, list(a), 0), o)[1])(Obj(R))
        mat = lambda N, o: N.mat(N.invoke(M33, o, [], 0))
        sym = lambda N, n: N.sym(typename(R), n)
        tag = 'rotation<%s>' % T
        mulv = G.meth(R, 'operator*', 'Matrix<')
        mulr = G.meth(R, 'operator*', 'rotation_<')
        inv = G.meth(R, 'inverse')
        G.eq(tag + ':vector', 'rotating a vector is multiplying it with the matrix', mulv,
             lambda N: [('q*v', N.invoke(mulv, sym(N, 'A'), [N.sym(mulv['p'][0]['t'], 'v')], 0), matmul(mat(N, sym(N, 'A')), N.sym(mulv['p'][0]['t'], 'v')))])
        G.eq(tag + ':product', 'the matrix of a product is the product of the matrices', mulr,
             lambda N: [('(A*B)', mat(N, N.un(N.invoke(mulr, sym(N, 'A'), [sym(N, 'B')], 0))), matmul(mat(N, sym(N, 'A')), mat(N, sym(N, 'B'))))])
        G.eq(tag + ':inverse', 'the inverse has the transposed matrix', inv,
             lambda N: [('A.inverse()', mat(N, N.un(N.invoke(inv, sym(N, 'A'), [], 0))), tr(mat(N, sym(N, 'A'))))])
        G.eq(tag + ':orthonormal', 'the matrix of a rotation is orthonormal with determinant 1', M33,
             lambda N: [('M*M^T', matmul(mat(N, sym(N, 'A')), tr(mat(N, sym(N, 'A')))), ident(3)), ('det', det(mat(N, sym(N, 'A'))), UNIT)])
        c0 = G.ctor(R)
        G.eq(tag + ':default', 'a default constructed rotation is the identity', c0, lambda N: [('M', mat(N, new(N, c0)), ident(3))])
        # axis and angle
        caa = G.ctor(R, '^(double|float)$', 'Matrix<')

        def aa(N):
            a, k = N.sym(caa['p'][0]['t'], 'angle'), N.sym(caa['p'][1]['t'], 'k')
            h = N.num(a) * Rat.c(Fraction(1, 2))
            u = scale(UNIT / norm(k), k)
            return [('M', mat(N, new(N, caa, a, k)), half_quat(h, u).matrix())]
        G.eq(tag + ':axis-angle', 'a rotation made of angle and axis turns by the angle about the direction of the axis', caa, aa)
        cr = G.ctor(R, '3, 1')

        def rod(N):
            v = N.sym(cr['p'][0]['t'], 'v')
            m = mat(N, new(N, cr, v))
            n = norm(v)
            return m, half_quat(n * Rat.c(Fraction(1, 2)), scale(UNIT / n, v)).matrix()

        def rodj(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            m, want = p.val
            zero = [s for d, s in p.signs.values() if s == {'0'}]
            want = ident(3) if zero else want
            out = [] if same(m, want) else ['M is %s' % text(m)[:120]]
            if not zero and not any('0' not in s for d, s in p.signs.values()):
                out.append('divides by the length without having seen that it is not 0')
            return out
        G.eq(tag + ':from-rodrigues', 'a rotation made of a rotation vector turns by its length about its direction; the zero vector gives the identity', cr, rod, rodj, need=2)
        cm = G.ctor(R, '3, 3')
        G.eq(tag + ':from-matrix', 'a rotation made of a rotation matrix has that matrix', cm,
             lambda N: [('M', mat(N, new(N, cm, N.sym(cm['p'][0]['t'], 'K'))), N.sym(cm['p'][0]['t'], 'K'))])
        axis, angle, rodr = G.meth(R, 'axis'), G.meth(R, 'angle'), G.meth(R, 'rodrigues')

        def axj(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            a, q = p.val
            v = vec(*[c.v for c in q.cells[1:]])
            zero = any(s == {'0'} for d, s in p.signs.values())
            want = vec(ZERO, ZERO, UNIT) if zero else scale(UNIT / norm(v), v)
            out = [] if same(a, want) else ['axis() is %s' % text(a)[:120]]
            if not zero and not any('0' not in s for d, s in p.signs.values()):
                out.append('divides by the length without having seen that it is not 0')
            return out

        def quat(N, o):
            return N.quat(o.f['q_']) if 'q_' in o.f else N.quat(N.invoke(G.meth(R, 'quaternion'), o, [], 0))
        G.eq(tag + ':axis', 'axis() is the direction of the vector part, (0,0,1) for the identity', axis, lambda N: (N.mat(N.invoke(axis, sym(N, 'A'), [], 0)), quat(N, sym(N, 'A'))), axj, need=2)

        def anj(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            a, q = p.val
            base = fn('atan2', norm(vec(*[c.v for c in q.cells[1:]])), q.cells[0].v)
            d = a - Rat.c(2) * base
            c = d.const()
            w = q.cells[0].v
            front = any(t <= {'0', '+', 'n'} if r.eq(w) else t <= {'0', '-', 'n'} if r.eq(-w) else False for r, t in p.signs.values())
            if c is None:
                # the same turn about the opposite axis
                other = fn('atan2', -norm(vec(*[c.v for c in q.cells[1:]])), -w)
                back = any(t <= {'-', '0', 'n'} if r.eq(w) else t <= {'0', '+', 'n'} if r.eq(-w) else False for r, t in p.signs.values())
                if back and a.eq(Rat.c(2) * other):
                    return []
                return ['angle() is %s' % text(a)[:150]]
            c = float(c)
            if abs(c) > 1e-6 and abs(abs(c) - 2 * PI) > 1e-5:
                return ['angle() is off by %g' % c]
            # the value lies in (-pi, pi]: which side of +-pi 2*atan2() lies on is known
            hi = lo = None
            for r, s in p.signs.values():
                for k in (1, -1):
                    e = (r - Rat.c(2 * k) * base) if k == 1 else (r + Rat.c(2) * base)
                    b = e.const()
                    if b is None:
                        continue
                    t = s if k == 1 else set({'-': '+', '+': '-'}.get(x, x) for x in s)
                    if abs(float(b) * k + PI) < 1e-5:
                        hi = t          # sign of 2*atan2 - pi
                    if abs(float(b) * k - PI) < 1e-5:
                        lo = t          # sign of 2*atan2 + pi
            over = hi is not None and hi <= {'0', '+'}
            under = lo is not None and lo <= {'0', '-'}
            if c < -1:
                return [] if over else ['a full turn is taken off an angle not known to be at least pi']
            if c > 1:
                return [] if under else ['a full turn is added to an angle not known to be at most -pi']
            if not front and (hi is None or not hi <= {'-', '0', 'n'}):
                return ['an angle of pi or more is left as it is']
            return []
        G.eq(tag + ':angle', 'angle() is twice the arc tangent of vector part and real part, brought below a half turn', angle,
             lambda N: (N.num(N.invoke(angle, sym(N, 'A'), [], 0)), quat(N, sym(N, 'A'))), anj, need=2)

        def rdj(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            r, a, x = p.val
            if a.const() == 0 or any(s == {'0'} and (d.eq(a) or d.eq(-a)) for d, s in p.signs.values()):
                return [] if same(r, vec(ZERO, ZERO, ZERO)) else ['rodrigues() is %s for the identity' % text(r)[:120]]
            return [] if same(r, scale(a, x)) else ['rodrigues() is %s' % text(r)[:120]]

        def rdp(N):
            o = sym(N, 'A')
            a = N.num(N.invoke(angle, o, [], 0))
            x = N.mat(N.invoke(axis, o, [], 0))
            return N.mat(N.invoke(rodr, o, [], 0)), a, x
        G.eq(tag + ':rodrigues', 'rodrigues() is the axis times the angle, 0 for the identity', rodr, rdp, rdj, need=2)
        # yaw, pitch and roll
        cy = G.ctor(R, '^(double|float)$', '^(double|float)$', '^(double|float)$')
        gy = G.meth(R, 'get_yaw_pitch_roll', 'double|float', 'double|float', 'double|float')

        def ypr(N):
            o = new(N, cy, *[N.sym(p['t'], n) for p, n in zip(cy['p'], ('yaw', 'pitch', 'roll'))])
            out = [Cell(ZERO) for _ in range(3)]
            N.invoke(gy, o, out, 0)
            pairs = []
            cs = [(fn('cos', Rat.var(n) * Rat.c(Fraction(1, 2))), fn('sin', Rat.var(n) * Rat.c(Fraction(1, 2)))) for n in ('yaw', 'pitch', 'roll')]
            full = [(c * c - s * s, Rat.c(2) * s * c) for c, s in cs]
            for n, c, (co, si), k in zip(('yaw', 'pitch', 'roll'), out, full, range(3)):
                vs = [v for v in c.v.vars()]
                if len(vs) != 1 or ARGS.get(vs[0], ('',))[0] != 'atan2' or not c.v.eq(Rat.var(vs[0])):
                    pairs.append((n, c.v, Rat.var(n)))
                    continue
                y, x = ARGS[vs[0]][1]
                cp = full[1][0]
                if k == 1:
                    pairs += [('sine of the pitch', y, si), ('square of the cosine of the pitch', x * x, co * co)]
                else:
                    pairs += [('cos(pitch) * sin(%s)' % n, y, cp * si), ('cos(pitch) * cos(%s)' % n, x, cp * co)]
            return pairs
        G.eq(tag + ':yaw-pitch-roll', 'yaw, pitch and roll that made a rotation are given back (pitch between -90 and 90 degrees)', gy, ypr)
        # interpolation
        it = G.free('interpolate_rotation', 'rotation_<%s>' % T, 'rotation_<%s>' % T, '^%s$' % T)

        def interp(N):
            a, b, f = sym(N, 'A'), sym(N, 'B'), N.num(N.sym(it['p'][2]['t'], 'f'))
            c = N.un(N.invoke(mulr, N.un(N.invoke(inv, a, [], 0)), [b], 0))
            an = N.num(N.invoke(angle, c, [], 0))
            ax = N.mat(N.invoke(axis, c, [], 0))
            got = N.un(N.invoke(it, None, [a, b, Cell(f)], 0))
            step = new(N, caa, Cell(an * f), ax)
            want = N.un(N.invoke(mulr, a, [step], 0))
            return [('quaternion', quat(N, got), quat(N, want))]
        G.eq(tag + ':interpolate', 'interpolating turns A by the fraction of the rotation from A to B', it, interp)
        its = G.free('interpolated_rotations', 'rotation_<%s>' % T, 'rotation_<%s>' % T, 'unsigned long', 'vector<')

        def interps(N, n):
            a, b = sym(N, 'A'), sym(N, 'B')
            out = Vec([])
            N.invoke(its, None, [a, b, Cell(Rat.c(n)), out], 0)
            pairs = [('number of rotations', Rat.c(len(out.cells)), Rat.c(n))]
            for i, c in enumerate(out.cells):
                w = N.un(N.invoke(it, None, [a, b, Cell(Rat.c(Fraction(i + 1, n + 1)))], 0))
                pairs.append(('rotation %d of %d' % (i + 1, n), quat(N, N.un(c)), quat(N, w)))
            return pairs
        for n in (0, 1, 2):
            G.eq(tag + ':interpolated:%d' % n, 'the %d rotations in between are at equal fractions' % n, its, lambda N, n=n: interps(N, n))
        # similarities
        S = G.rec('similarity_', T)
        ss = lambda N, n: N.sym(typename(S), n)
        M44 = G.conv(S, 4, 4)
        ap, pr, si = G.meth(S, 'operator*', 'Matrix<'), G.meth(S, 'operator*', 'similarity_<'), G.meth(S, 'inverse')
        tag = 'similarity<%s>' % T
        vt = ap['p'][0]['t']

        def parts(N, o):
            return (N.num(N.invoke(G.meth(S, 'scale'), o, [], 0)), mat(N, N.un(N.invoke(G.meth(S, 'rotation'), o, [], 0))), N.mat(N.invoke(G.meth(S, 'translation'), o, [], 0)))

        def apply(N, o, v):
            k, r, t = parts(N, o)
            return msum(scale(k, matmul(r, v)), t)
        G.eq(tag + ':vector', 'a similarity maps v to s*R*v + t', ap, lambda N: [('S*v', N.mat(N.invoke(ap, ss(N, 'S'), [N.sym(vt, 'v')], 0)), apply(N, ss(N, 'S'), N.sym(vt, 'v')))])
        G.eq(tag + ':product', 'the product of two similarities maps like one after the other', pr,
             lambda N: [('(S*U)*v', apply(N, N.un(N.invoke(pr, ss(N, 'S'), [ss(N, 'U')], 0)), N.sym(vt, 'v')), apply(N, ss(N, 'S'), apply(N, ss(N, 'U'), N.sym(vt, 'v'))))])
        G.eq(tag + ':inverse', 'the inverse of a similarity undoes it', si,
             lambda N: [('S^-1*(S*v)', apply(N, N.un(N.invoke(si, ss(N, 'S'), [], 0)), apply(N, ss(N, 'S'), N.sym(vt, 'v'))), N.sym(vt, 'v'))])

        def smat(N):
            m = N.mat(N.invoke(M44, ss(N, 'S'), [], 0))
            k, r, t = parts(N, ss(N, 'S'))
            want = Mat.of(4, 4, lambda i, j: (k * r.get(i, j) if j < 3 else t.get(i, 0)) if i < 3 else UNIT if j == 3 else ZERO)
            return [('matrix', m, want)]
        G.eq(tag + ':matrix', 'the matrix of a similarity is [s*R t; 0 1]', M44, smat)
        cs = G.ctor(S, '4, 4')

        def sfrom(N):
            M = N.sym(cs['p'][0]['t'], 'M')
            o = Obj(S)
            N.invoke(cs, o, [M], 0)
            k = N.num(N.invoke(G.meth(S, 'scale'), o, [], 0))
            r = mat(N, N.un(N.invoke(G.meth(S, 'rotation'), o, [], 0)))
            t = N.mat(N.invoke(G.meth(S, 'translation'), o, [], 0))
            return k, r, t, N.sym(cs['p'][0]['t'], 'M')

        def sfj(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            k, r, t, M = p.val
            A = Mat.of(3, 3, lambda i, j: M.get(i, j))
            row = {str((M.get(3, j) - (UNIT if j == 3 else ZERO)).sign_free()[0]): j for j in range(4)}
            known = dict((row[x], s) for x, (d, s) in p.signs.items() if x in row)
            ok = all(known.get(j) == {'0'} for j in range(4))
            dt = [s if d.eq(det(A)) else set({'-': '+', '+': '-'}.get(x, x) for x in s) for d, s in p.signs.values() if d.eq(det(A)) or d.eq(-det(A))]
            if ok and dt and any(s <= {'+', 'n'} for s in dt):
                out = []
                if not (k * k * k).eq(det(A)):
                    out.append('the scale %s is not the cube root of the determinant' % text(k)[:60])
                if not same(scale(k, r), A):
                    out.append('s*R is not the upper left block')
                if not same(t, Mat.of(3, 1, lambda i, j: M.get(i, 3))):
                    out.append('the translation is %s' % text(t)[:80])
                return out
            if same(t, Mat.of(3, 1, lambda i, j: M.get(i, 3))) and same(scale(k, r), A):
                return ['a matrix that is no similarity is accepted']
            return []
        G.eq(tag + ':from-matrix', 'a similarity made of a similarity matrix has its scale, rotation and translation; other matrices are not taken', cs, sfrom, sfj, need=3)
    if G.done < 40:
        raise Broken('only %d laws analysed' % G.done)


def distorted(p, d):
    """the distortion model: radial (0, 1, 4; 5, 6, 7 in the denominator) and tangential (2, 3) coefficients"""
    x, y = p.get(0, 0), p.get(1, 0)
    r2 = x * x + y * y
    n = len(d)
    s = UNIT
    if n > 0:
        s = s + d[0] * r2
    if n > 1:
        s = s + d[1] * r2 * r2
    if n > 4:
        s = s + d[4] * r2 * r2 * r2
    if n > 7:
        s = s / (UNIT + d[5] * r2 + d[6] * r2 * r2 + d[7] * r2 * r2 * r2)
    ox = oy = ZERO
    if n > 3:
        two = Rat.c(2)
        ox = two * d[2] * x * y + d[3] * (r2 + two * x * x)
        oy = two * d[3] * x * y + d[2] * (r2 + two * y * y)
    return vec(s * x + ox, s * y + oy)


def check_camera(P, rep):
    rep.rule('The camera model is the stated function: calibration matrix, distortion polynomial and its Jacobian, projection, depth and look-at computed by the members are compared, as normal forms, with the model.')
    G = Geo(P, rep)
    W = G.W
    I = G.rec('simple_camera_intrinsics')
    B = W.record('kwiver::vital::camera_intrinsics')
    C = G.rec('simple_camera')
    if B is None:
        raise Broken('camera_intrinsics not found')
    call = lambda N, o, n, *a: N.invoke(N.W.overrider(o.rec, None) if False else G.meth(o.rec, n, *['.'] * len(a)), o, list(a), 0)

    def par(N, o):
        pp = N.mat(call(N, o, 'principal_point'))
        return (N.num(call(N, o, 'focal_length')), N.num(call(N, o, 'aspect_ratio')), N.num(call(N, o, 'skew')), pp.get(0, 0), pp.get(1, 0))

    def K(N, o):
        f, a, s, u, v = par(N, o)
        return Mat(3, 3, [Cell(x) for x in (f, s, u, ZERO, f / a, v, ZERO, ZERO, UNIT)])

    intr = lambda N: N.sym(typename(I), 'I')
    asm = G.meth(B, 'as_matrix')
    mp2, mp3 = G.meth(B, 'map', '2, 1'), G.meth(B, 'map', '3, 1')
    unm, dis, und = G.meth(B, 'unmap', '2, 1'), G.meth(I, 'distort', '2, 1'), G.meth(I, 'undistort', '2, 1')
    V2, V3 = 'Eigen::Matrix<double, 2, 1, 0, 2, 1>', 'Eigen::Matrix<double, 3, 1, 0, 3, 1>'
    pt = lambda N: N.sym(V2, 'p')
    p3 = lambda N: N.sym(V3, 'p')
    G.eq('intrinsics:matrix', 'the calibration matrix is [f s u; 0 f/a v; 0 0 1]', asm, lambda N: [('K', N.invoke(asm, intr(N), [], 0), K(N, intr(N)))])

    def calibrated(N, o, q):
        f, a, s, u, v = par(N, o)
        x, y = q.get(0, 0), q.get(1, 0)
        return vec(f * x + s * y + u, f / a * y + v)
    for n in (0, 5, 8):
        G.eq('intrinsics:map:%d' % n, 'map() is the calibration matrix applied to the distorted point (%d coefficients)' % n, mp2,
             lambda N: [('map', N.invoke(mp2, intr(N), [pt(N)], 0), calibrated(N, intr(N), N.mat(N.invoke(dis, intr(N), [pt(N)], 0))))], dyn=n)
    G.eq('intrinsics:map3', 'a point in camera coordinates is mapped at (x/z, y/z)', mp3,
         lambda N: [('map', N.invoke(mp3, intr(N), [p3(N)], 0), N.invoke(mp2, intr(N), [vec(*[p3(N).get(i, 0) / p3(N).get(2, 0) for i in (0, 1)])], 0))], dyn=0)
    G.eq('intrinsics:unmap', 'without distortion unmap() undoes map()', unm, lambda N: [('unmap(map(p))', N.invoke(unm, intr(N), [N.mat(N.invoke(mp2, intr(N), [pt(N)], 0))], 0), pt(N))], dyn=0)

    def general(N):
        o = N.sym(typename(B), 'I', exact=False)
        ob = observe(N, o, ('focal_length', 'aspect_ratio', 'skew', 'principal_point'))
        f, a, s = (N.num(N.opq['I.%s()' % n]) for n in ('focal_length', 'aspect_ratio', 'skew'))
        pp = N.mat(N.opq['I.principal_point()'])
        N.asked = []
        r = N.mat(N.invoke(unm, o, [pt(N)], 0))
        q = [x for x in N.asked if x[0] == 'undistort']
        y = (pt(N).get(1, 0) - pp.get(1, 0)) * a / f
        x = (pt(N).get(0, 0) - pp.get(0, 0) - s * y) / f
        if len(q) != 1:
            return [('calls of undistort', Rat.c(len(q)), UNIT)]
        return [('undistort() is asked about', q[0][2][0], vec(x, y)), ('the result', r, q[0][3])]
    G.eq('intrinsics:unmap:general', 'unmap() undistorts the point with the calibration matrix taken off', unm, general)

    def gmap(N):
        o = N.sym(typename(B), 'I', exact=False)
        observe(N, o, ('focal_length', 'aspect_ratio', 'skew', 'principal_point'))
        f, a, s = (N.num(N.opq['I.%s()' % n]) for n in ('focal_length', 'aspect_ratio', 'skew'))
        pp = N.mat(N.opq['I.principal_point()'])
        N.asked = []
        r = N.mat(N.invoke(mp2, o, [pt(N)], 0))
        q = [x for x in N.asked if x[0] == 'distort']
        if len(q) != 1:
            return [('calls of distort', Rat.c(len(q)), UNIT)]
        d = N.mat(q[0][3])
        x, y = d.get(0, 0), d.get(1, 0)
        return [('distort() is asked about', q[0][2][0], pt(N)), ('the result', r, vec(f * x + s * y + pp.get(0, 0), f / a * y + pp.get(1, 0)))]
    G.eq('intrinsics:map:general', 'map() distorts the point and applies the calibration matrix', mp2, gmap)
    ck = G.ctor(I, '3, 3', 'Matrix<')

    def fromk(N):
        k = N.sym(ck['p'][0]['t'], 'K')
        o = Obj(I)
        N.invoke(ck, o, [k, N.sym(ck['p'][1]['t'], 'd')], 0)
        m = N.mat(N.invoke(asm, o, [], 0))
        k = N.sym(ck['p'][0]['t'], 'K')
        want = Mat.of(3, 3, lambda i, j: k.get(i, j) if j >= i and (i, j) not in ((1, 2), (2, 2)) else k.get(1, 2) if (i, j) == (1, 2) else UNIT if i == j else ZERO)
        return [('the matrix', m, want), ('the coefficients', call(N, o, 'get_dist_coeffs'), N.sym(ck['p'][1]['t'], 'd'))]
    G.eq('intrinsics:from-matrix', 'intrinsics made of a calibration matrix have that matrix and the coefficients', ck, fromk)
    for n in range(0, 10):
        G.eq('distort:%d' % n, 'distort() is the distortion polynomial of %d coefficients' % n, dis,
             lambda N, n=n: [('distort(p)', N.invoke(dis, intr(N), [pt(N)], 0), distorted(pt(N), [Rat.var('I.dist_coeffs_[%d]' % i) for i in range(n)]))], dyn=n)
    G.eq('undistort:0', 'without coefficients undistort() is the identity', und, lambda N: [('undistort(p)', N.invoke(und, intr(N), [pt(N)], 0), pt(N))], dyn=0)
    # one step of the iteration
    for n in (1, 2, 3, 4, 5, 8):
        coef = [Rat.var('I.dist_coeffs_[%d]' % i) for i in range(n)]

        def steps(N, n=n):
            got = []

            class Enough(Exception):
                pass

            def on(N, m, r):
                got.append((m.copy(), r.copy()))
                if len(got) == 2:
                    raise Enough()
                # a general point: one step away by anything
                return vec(pt(N).get(0, 0) - Rat.var('s0'), pt(N).get(1, 0) - Rat.var('s1'))
            N.on_solve = on
            try:
                N.invoke(und, intr(N), [pt(N)], 0)
            except Enough:
                pass
            finally:
                N.on_solve = None
            return got

        def stepj(p, n=n, coef=coef):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            pairs = []
            for k, (m, r) in enumerate(p.val):
                q = vec(Rat.var('p[0]'), Rat.var('p[1]')) if k == 0 else vec(Rat.var('s0'), Rat.var('s1'))
                if n == 0:
                    continue
                d = distorted(vec(Rat.var('x'), Rat.var('y')), coef)
                env = dict(x=q.get(0, 0), y=q.get(1, 0))
                J = Mat.of(2, 2, lambda i, j: d.get(i, 0).diff('xy'[j]).subst(env))
                res = distorted(q, coef)
                res = vec(res.get(0, 0) - Rat.var('p[0]'), res.get(1, 0) - Rat.var('p[1]'))
                if not same(m, J):
                    bad = [(i, j) for i in range(2) for j in range(2) if not same(m.get(i, j), J.get(i, j))]
                    pairs.append('entry %s of the matrix solved with is not the derivative of distort()' % ', '.join('(%d,%d)' % x for x in bad))
                if not same(r, res):
                    pairs.append('the residual is not distort(q) - p')
            return pairs
        G.eq('undistort:step:%d' % n, 'each step of undistort() solves with the Jacobian of distort() at the current point (%d coefficients)' % n, und, steps, stepj, dyn=n)
    # cameras
    cam = lambda N: N.sym(typename(C), 'C')
    CB = W.record('kwiver::vital::camera')
    prj, dep, cas = G.meth(CB, 'project', '3, 1'), G.meth(CB, 'depth', '3, 1'), G.meth(CB, 'as_matrix')

    def view(N, o):
        """point in camera coordinates"""
        c = N.mat(call(N, o, 'center'))
        R = N.mat(N.un(call(N, o, 'rotation')))
        return matmul(R, msum(p3(N), c, -UNIT)), R, c

    def camI(N):
        o = cam(N)
        o.f['intrinsics_'] = Cell(Ptr(intr(N)))
        return o

    def project(N):
        v, _, _ = view(N, camI(N))
        v = vec(v.get(0, 0) / v.get(2, 0), v.get(1, 0) / v.get(2, 0))
        return [('project(p)', N.mat(N.invoke(prj, camI(N), [p3(N)], 0)), N.mat(N.invoke(mp2, intr(N), [v], 0)))]
    G.eq('camera:project:0', 'project() maps R*(p - c) with the intrinsics', prj, project, dyn=0)
    RD = G.rec('rotation_', 'double')

    def camR(N):
        o = camI(N)
        r = Obj(RD)
        N.invoke(G.ctor(RD), r, [], 0)
        o.f['orientation_'] = r
        return o

    def upright(N):
        v, _, _ = view(N, camR(N))
        v = vec(v.get(0, 0) / v.get(2, 0), v.get(1, 0) / v.get(2, 0))
        return [('project(p)', N.mat(N.invoke(prj, camR(N), [p3(N)], 0)), N.mat(N.invoke(mp2, intr(N), [v], 0)))]
    for n in (1, 5):
        G.eq('camera:project:%d' % n, 'project() of an upright camera maps p - c with the intrinsics (%d coefficients)' % n, prj, upright, dyn=n)
    G.eq('camera:depth', 'depth() is the third coordinate of R*(p - c)', dep, lambda N: [('depth', N.num(N.invoke(dep, cam(N), [p3(N)], 0)), view(N, cam(N))[0].get(2, 0))])

    def casm(N):
        m = N.mat(N.invoke(cas, camI(N), [], 0))
        _, R, c = view(N, camI(N))
        t = scale(-UNIT, matmul(R, c))
        return [('P', m, matmul(K(N, intr(N)), Mat.of(3, 4, lambda i, j: R.get(i, j) if j < 3 else t.get(i, 0))))]
    G.eq('camera:matrix', 'the projection matrix is K*[R | -R*c]', cas, casm, dyn=0)

    def agree(N):
        m = N.mat(N.invoke(cas, camI(N), [], 0))
        h = matmul(m, vec(*[p3(N).get(i, 0) for i in range(3)] + [UNIT]))
        return [('project(p)', N.mat(N.invoke(prj, camI(N), [p3(N)], 0)), vec(h.get(0, 0) / h.get(2, 0), h.get(1, 0) / h.get(2, 0)))]
    G.eq('camera:agree', 'without distortion projecting a point is applying the projection matrix', prj, agree, dyn=0)
    trn = G.meth(C, 'translation')
    G.eq('camera:translation', 'the translation is -R*c', trn, lambda N: [('t', N.mat(N.invoke(trn, cam(N), [], 0)), scale(-UNIT, matmul(view(N, cam(N))[1], view(N, cam(N))[2])))])
    look = G.meth(C, 'look_at', '3, 1', '3, 1')

    def lookat(N):
        o = cam(N)
        a, u = N.sym(V3, 'at'), N.sym(V3, 'up')
        N.invoke(look, o, [a, u], 0)
        a, u = N.sym(V3, 'at'), N.sym(V3, 'up')
        c0 = N.mat(call(N, cam(N), 'center'))
        R = N.mat(N.un(call(N, o, 'rotation')))
        d = msum(a, c0, -UNIT)
        z = scale(UNIT / norm(d), d)
        u = scale(UNIT / norm(u), u)
        x = matmul(cross(z), u)
        x = scale(UNIT / norm(x), x)
        return [('the third row', Mat.of(3, 1, lambda i, j: R.get(2, i)), z), ('the first row', Mat.of(3, 1, lambda i, j: R.get(0, i)), x),
                ('the center', N.mat(call(N, o, 'center')), c0)], R, x, z

    def lookj(p):
        if p.kind != 'ret':
            return ['throws %s' % p.val]
        pairs, R, x, z = p.val
        out = ['%s is %s, not %s' % (l, text(a)[:100], text(b)[:100]) for l, a, b in pairs if not same(a, b)]
        y = matmul(cross(z), x)
        got = Mat.of(3, 1, lambda i, j: R.get(1, i))
        if not same(got, y) and not same(got, scale(UNIT / norm(y), y)):
            out.append('the second row is %s' % text(got)[:100])
        return out
    G.eq('camera:look-at', 'look_at() turns the optical axis to the point, the image upright, and keeps the center', look, lookat, lookj)
    if G.done < 28:
        raise Broken('only %d laws analysed' % G.done)


def check_homography(P, rep):
    rep.rule('Homographies, essential and fundamental matrices compute the stated functions; division by a value happens only where the value was seen not to vanish; frames follow the composition.')
    G = Geo(P, rep)
    W = G.W
    V2 = 'Eigen::Matrix<double, 2, 1, 0, 2, 1>'
    for T in ('double', 'float'):
        H = G.rec('homography_', T)
        tag = 'homography<%s>' % T
        h = lambda N, n='H': N.sym(typename(H), n)
        mx = G.meth(H, 'matrix')
        M = lambda N, o: N.mat(N.invoke(mx, o, [], 0))

        def mapped(f, t):
            def proc(N):
                r = N.mat(N.invoke(f, h(N), [N.sym(t, 'p')], 0))
                return r

            def inputs(N):
                p = N.sym(t, 'p')
                return matmul(M(N, h(N)), vec(p.get(0, 0), p.get(1, 0), UNIT))
            box = []

            def both(N):
                box[:] = [inputs(N)]
                return proc(N), inputs(N)

            def judge(p):
                w = box[0].get(2, 0)
                seen = [s for d, s in p.signs.values()]
                if p.kind == 'throw':
                    return [] if 'point_maps_to_infinity' in str(p.val) and any('0' in s for s in seen) else ['throws %s' % p.val]
                r, q = p.val
                out = [] if same(r, vec(q.get(0, 0) / w, q.get(1, 0) / w)) else ['the result is %s' % text(r)[:100]]
                if not apart(p, w):
                    out.append('divides by the third coordinate without having seen that it is not 0')
                return out
            return both, judge
        for f in [G.meth(H, 'map', '2, 1'), G.meth(H, 'map_point', '2, 1')]:
            b, j = mapped(f, f['p'][0]['t'])
            G.eq('%s:%s' % (tag, f['n']), '%s() divides the first two coordinates of H*(p,1) by the third and throws where that is 0' % f['n'], f, b, j, need=2)
        nrm, inv = G.meth(H, 'normalize'), G.meth(H, 'inverse')

        def nj(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            r, m = p.val
            w = m.get(2, 2)
            big = apart(p, w)
            want = Mat.of(3, 3, lambda i, j: m.get(i, j) / w)
            if same(r, want):
                return [] if big else ['divides by the corner without having seen that it is not 0']
            return [] if same(r, m) and not big else ['the result is %s' % text(r)[:120]]
        G.eq(tag + ':normalize', 'normalize() divides by the lower right corner unless that is 0', nrm, lambda N: (M(N, N.un(N.invoke(nrm, h(N), [], 0)).t), M(N, h(N))), nj, need=2)

        def ij(p):
            if p.kind == 'throw':
                return [] if 'non_invertible_matrix' in str(p.val) else ['throws %s' % p.val]
            r, m = p.val
            return [] if same(matmul(r, m), ident(3)) and same(matmul(m, r), ident(3)) else ['H^-1*H is %s' % text(matmul(r, m))[:120]]
        G.eq(tag + ':inverse', 'inverse() is the inverse matrix, or throws non_invertible_matrix', inv, lambda N: (M(N, N.un(N.invoke(inv, h(N), [], 0)).t), M(N, h(N))), ij, need=2)
        ml = G.meth(H, 'operator*', 'homography_')
        G.eq(tag + ':product', 'the product has the product of the matrices', ml, lambda N: [('A*B', M(N, N.un(N.invoke(ml, h(N, 'A'), [h(N, 'B')], 0))), matmul(M(N, h(N, 'A')), M(N, h(N, 'B'))))])
        # essential matrices
        E = G.rec('essential_matrix_', T)
        es = lambda N: N.sym(typename(E), 'E')
        emx, erot, etr, etw = (G.meth(E, n) for n in ('matrix', 'rotation', 'translation', 'twisted_rotation'))
        rmat = lambda N, o: N.mat(N.un(o))
        G.eq('essential<%s>:matrix' % T, 'the matrix is [t]x R', emx,
             lambda N: [('E', N.mat(N.invoke(emx, es(N), [], 0)), matmul(cross(N.mat(N.invoke(etr, es(N), [], 0))), rmat(N, N.invoke(erot, es(N), [], 0))))])

        def twist(N):
            t = N.mat(N.invoke(etr, es(N), [], 0))
            # turned by 180 degrees about t (t has unit length): 2 t t^T - I
            n2 = sum((c.v * c.v for c in t.cells), ZERO)
            flip = Mat.of(3, 3, lambda i, j: Rat.c(2) * t.get(i, 0) * t.get(j, 0) - (n2 if i == j else ZERO))
            got = rmat(N, N.invoke(etw, es(N), [], 0))
            want = matmul(flip, rmat(N, N.invoke(erot, es(N), [], 0)))
            n = Rat.var('E.trans_[2]')
            return [('twisted_rotation', unit(got, 'E.trans_'), unit(want, 'E.trans_'))]
        G.eq('essential<%s>:twisted' % T, 'the twisted rotation is the rotation followed by a half turn about the translation', etw, twist)
        ce = G.ctor(E, 'rotation_<', '3, 1')

        def fromrt(N):
            o = Obj(E)
            r, t = N.sym(ce['p'][0]['t'], 'R'), N.sym(ce['p'][1]['t'], 't')
            N.invoke(ce, o, [r, t], 0)
            t = N.sym(ce['p'][1]['t'], 't')
            return [('the rotation', rmat(N, N.invoke(erot, o, [], 0)), rmat(N, N.sym(ce['p'][0]['t'], 'R'))), ('the translation', N.mat(N.invoke(etr, o, [], 0)), scale(UNIT / norm(t), t))]
        G.eq('essential<%s>:from-motion' % T, 'an essential matrix made of a motion has its rotation and the direction of its translation', ce, fromrt)
        cme = G.ctor(E, '3, 3')

        def svd(N):
            o = Obj(E)
            N.invoke(cme, o, [N.sym(cme['p'][0]['t'], 'M')], 0)
            R, t = rmat(N, N.invoke(erot, o, [], 0)), N.mat(N.invoke(etr, o, [], 0))
            U, V = factors(N, cme, 'M')
            return R, t, U, V

        def svdj(p):
            if p.kind != 'ret':
                return ['throws %s' % p.val]
            R, t, U, V = p.val
            out = []
            u3 = Mat.of(3, 1, lambda i, j: U.get(i, 2))
            if not same(t, u3) and not same(t, scale(-UNIT, u3)):
                out.append('the translation is %s, not the last column of U' % text(t)[:80])
            Wm = Mat(3, 3, [Cell(Rat.c(x)) for x in (0, -1, 0, 1, 0, 0, 0, 0, 1)])
            cands = []
            for k in (Wm, tr(Wm)):
                m = matmul(matmul(U, k), tr(V))
                cands += [(m, UNIT, m), (scale(-UNIT, m), -UNIT, m)]
            hit = [(s, m) for c, s, m in cands if same(R, c)]
            if not hit:
                return out + ['the rotation is %s, not +-U*W*V^T' % text(R)[:80]]
            s, m = hit[0]
            dm = det(m)
            neg = pos = False
            for d, sg in p.signs.values():
                if d.eq(dm):
                    neg, pos = sg <= {'-'}, not ('-' in sg)
                elif d.eq(-dm):
                    neg, pos = sg <= {'+'}, not ('+' in sg)
            if s.eq(UNIT) and not pos or s.eq(-UNIT) and not neg:
                out.append('a reflection is taken for a rotation')
            return out
        G.eq('essential<%s>:from-matrix' % T, 'an essential matrix is taken apart into the last column of U and the proper rotation +-U*W*V^T', cme, svd, svdj, need=2)
        # fundamental matrices
        F = G.rec('fundamental_matrix_', T)
        cf, fm = G.ctor(F, '3, 3'), G.meth(F, 'matrix')

        def fund(N):
            o = Obj(F)
            N.invoke(cf, o, [N.sym(cf['p'][0]['t'], 'M')], 0)
            U, V = factors(N, cf, 'M')
            s = singular(N, cf, 'M')
            n = fn('sqrt', s[0] * s[0] + s[1] * s[1])
            D = Mat.of(3, 3, lambda i, j: s[i] / n if i == j and i < 2 else ZERO)
            return [('F', N.mat(N.invoke(fm, o, [], 0)), matmul(matmul(U, D), tr(V)))]
        G.eq('fundamental<%s>:from-matrix' % T, 'a fundamental matrix is made singular and of unit norm: U*diag(s0,s1,0)/|s|*V^T', cf, fund)
    # the default of the interface
    EB = W.record('kwiver::vital::essential_matrix')
    etb = G.meth(EB, 'twisted_rotation')

    def tb(N):
        o = N.sym(typename(EB), 'E', exact=False)
        got = N.mat(N.un(N.invoke(etb, o, [], 0)))
        q = dict((n, r) for n, _, _, r in N.asked)
        if 'rotation' not in q or 'translation' not in q:
            return [('rotation and translation', ZERO, UNIT)]
        t = N.mat(q['translation'])
        n2 = sum((c.v * c.v for c in t.cells), ZERO)
        flip = Mat.of(3, 3, lambda i, j: Rat.c(2) * t.get(i, 0) * t.get(j, 0) - (n2 if i == j else ZERO))
        nm = next(iter(t.get(0, 0).vars()))[:-3]
        return [('twisted_rotation', unit(got, nm), unit(matmul(flip, N.mat(N.un(q['rotation']))), nm))]
    G.eq('essential:twisted', 'the twisted rotation of any essential matrix is its rotation followed by a half turn about the translation', etb, tb)
    # frames
    FF = G.rec('f2f_homography')
    ff = lambda N, n: N.sym(typename(FF), n)
    get = lambda N, o, n: N.invoke(G.meth(FF, n), o, [], 0)
    fi, fm_ = G.meth(FF, 'inverse'), G.meth(FF, 'operator*', 'f2f_homography')

    def finv(N):
        N.asked = []
        r = N.un(N.invoke(fi, ff(N, 'A'), [], 0))
        q = [x for x in N.asked if x[0] == 'inverse']
        return [('from_id', N.num(get(N, r, 'from_id')), N.num(get(N, ff(N, 'A'), 'to_id'))), ('to_id', N.num(get(N, r, 'to_id')), N.num(get(N, ff(N, 'A'), 'from_id'))),
                ('inversions', Rat.c(len(q)), UNIT),
                ('the homography', Sym(origin(N.un(get(N, r, 'homography')))), Sym(origin(N.un(q[0][3])) if q else '?'))]
    G.eq('f2f:inverse', 'the inverse of a frame homography is the inverse homography with the frames exchanged', fi, finv)

    def fprod(N):
        a, b = ff(N, 'A'), ff(N, 'B')
        ids = [N.num(get(N, o, n)) for o in (a, b) for n in ('from_id', 'to_id')]
        N.asked = []
        r = N.un(N.invoke(fm_, a, [b], 0))
        ms = [(N.un(o).name, N.mat(v)) for n, o, _, v in N.asked if n == 'matrix']
        hm = N.un(get(N, r, 'homography'))
        hm = hm.t if isinstance(hm, Ptr) else hm
        got = N.mat(N.invoke(G.meth(hm.rec, 'matrix'), hm, [], 0))
        return ids, ms, got, N.num(get(N, r, 'from_id')), N.num(get(N, r, 'to_id'))

    def fpj(p):
        names = {'A': None, 'B': None}
        apart = [s for d, s in p.signs.values()]
        if p.kind == 'throw':
            return [] if 'invalid_matrix_operation' in str(p.val) and apart and all('0' not in s for s in apart) else ['throws %s' % p.val]
        ids, ms, got, fr, to = p.val
        out = []
        d = (ids[0] - ids[3]).sign_free()[0]
        if not any(x.eq(d) and s == {'0'} for x, s in p.signs.values()):
            out.append('composes homographies without having seen that the frames meet')
        if not fr.eq(ids[2]) or not to.eq(ids[1]):
            out.append('goes from %s to %s' % (fr, to))
        ma = [m for n, m in ms if n and 'A.' in n]
        mb = [m for n, m in ms if n and 'B.' in n]
        if not ma or not mb or not same(got, matmul(ma[0], mb[0])):
            out.append('the matrix is %s' % text(got)[:100])
        return out
    G.eq('f2f:product', 'frame homographies compose if the frames meet, and otherwise throw; the product goes from the frame of the right to that of the left one', fm_, fprod, fpj, need=2)
    for name in ('f2f_homography', 'f2w_homography'):
        R = G.rec(name)
        c1 = next(f for f in W.by_clsu.get(R['u'], ()) if f.get('ctor') and len(f['p']) == 1 and not W.record(f['p'][0]['t']) and 'long' in norm_t(f['p'][0]['t']))

        def idh(N, R=R, c1=c1):
            o = Obj(R)
            N.invoke(c1, o, [N.sym(c1['p'][0]['t'], 'id')], 0)
            hm = N.un(N.invoke(G.meth(R, 'homography'), o, [], 0)).t
            return [('the matrix', N.mat(N.invoke(G.meth(hm.rec, 'matrix'), hm, [], 0)), ident(3))]
        G.eq(name + ':identity', 'made of a frame alone it is the identity', c1, idh)
        for f in W.by_clsu.get(R['u'], ()):
            own = f.get('ctor') and (len(f['p']) > 1 and 'shared_ptr' in f['p'][0]['t'] or f.get('cc')) or f.get('ca')
            if not own or f.get('dflt'):
                continue

            def cl(N, f=f, R=R):
                o = N.sym(typename(R), 'this') if f.get('ca') else Obj(R)
                a = [N.sym(p['t'], 'A%d' % i) for i, p in enumerate(f['p'])]
                N.invoke(f, o, a, 0)
                return N.un(o.f['h_'])

            def cj(p):
                if p.kind != 'ret':
                    return ['throws %s' % p.val]
                return [] if isinstance(p.val, SymPtr) and 'clone()' in p.val.name and 'A0' in p.val.name else ['holds %s, the homography of its source' % text(p.val)[:80]]
            G.eq('%s:%s:%d%s' % (name, f['n'], len(f['p']), 'c' if f.get('cc') else ''), 'holds a homography of its own', f, cl, cj)
    if G.done < 26:
        raise Broken('only %d laws analysed' % G.done)


def apart(p, w):
    """the path has seen that w is not 0: w compared with 0, or its absolute value with a bound"""
    for d, s in p.signs.values():
        for a in (w, -w):
            if '0' not in s and d.eq(a):
                return True
        mag = [v for v in d.vars() if ARGS.get(v, ('',))[0] in ('fabs', 'abs') and any(ARGS[v][1][0].eq(a) for a in (w, -w))]
        for v in mag:
            x = Rat.var(v)
            for k, t in ((1, s), (-1, set({'+': '-', '-': '+'}.get(c, c) for c in s))):
                t = t - {'n'}           # a value that is not a number is passed on
                rest = d * Rat.c(k) - x
                if v in rest.vars():
                    continue
                # |w| + rest has a sign in t: -rest is the bound
                if rest.const() is not None and rest.const() == 0:
                    if '0' not in t:
                        return True
                elif t <= {'+', '0'}:
                    return True
    return False


def unit(m, name):
    """m with the vector called name having unit length: the last component squared is replaced"""
    from algebra import REL
    x, y, z = ('%s[%d]' % (name, i) for i in range(3))
    u = 'unit %s[2]' % name
    REL.add(u, 2, {(): Fraction(1), ((x, 2),): Fraction(-1), ((y, 2),): Fraction(-1)})
    return Mat.of(m.r, m.c, lambda i, j: m.get(i, j).subst({z: Rat.var(u)}))


def origin(v):
    """name of the object, copies not counted"""
    s = v.name if isinstance(v, SymPtr) else text(v)
    while True:
        t = re.sub(r'^\*?(.*)\.clone\(\)$', r'\1', s)
        if t == s:
            return s.lstrip('*')
        s = t


def factors(N, f, name):
    s = N.svd_of(N.sym(f['p'][0]['t'], name))
    return s


def singular(N, f, name):
    return N.singular_of(N.sym(f['p'][0]['t'], name))


def check_covariance(P, rep):
    rep.rule('The packed storage of a covariance addresses each pair of indices inside the storage, the same for (i,j) and (j,i) and different otherwise; every constructor and the conversion to a matrix agree with that addressing.')
    G = Geo(P, rep)
    seen = 0
    for C in records(G.W):
        if cname(C) != 'covariance_':
            continue
        m = re.search(r'<(\d+), (\w+)>', typename(C))
        n, T = int(m.group(1)), m.group(2)
        tag = 'covariance<%d,%s>' % (n, T)
        seen += 1
        at = [f for f in G.W.by_clsu.get(C['u'], ()) if f['n'] == 'operator()']
        if not at:
            raise Broken('%s has no element access' % tag)
        cov = lambda N: N.sym(typename(C), 'C')
        size = n * (n + 1) // 2

        def cell(N, f, o, i, j):
            return N.num(N.invoke(f, o, [Cell(Rat.c(i)), Cell(Rat.c(j))], 0))
        for f in at:
            def lay(N, f=f):
                return [[cell(N, f, cov(N), i, j) for j in range(n)] for i in range(n)]

            def layj(p):
                if p.kind != 'ret':
                    return ['leaves by throwing %s' % p.val]
                v, out, used = p.val, [], {}
                for i in range(n):
                    for j in range(i, n):
                        if not v[i][j].eq(v[j][i]):
                            out.append('(%d,%d) is %s, (%d,%d) is %s' % (i, j, v[i][j], j, i, v[j][i]))
                        k = str(v[i][j])
                        if not re.match(r'C\.data_\[\d+\]$', k):
                            out.append('(%d,%d) is %s' % (i, j, k))
                        if k in used:
                            out.append('(%d,%d) and (%d,%d) are stored in one place' % ((i, j) + used[k]))
                        used[k] = (i, j)
                return out
            G.eq('%s:layout%s' % (tag, ':const' if f.get('cm') else ''), 'each pair of indices has a place of its own, the same for (i,j) and (j,i)', f, lay, layj)
        acc = next((f for f in at if f.get('cm')), at[0])

        def full(N, o):
            return Mat.of(n, n, lambda i, j: cell(N, acc, o, i, j))
        cv = G.conv(C, n, n)
        G.eq(tag + ':matrix', 'the full matrix has the elements in their places', cv, lambda N: [('the matrix', N.mat(N.invoke(cv, cov(N), [], 0)), full(N, cov(N)))])
        made = lambda N, f, *a: (lambda o: (N.invoke(f, o, list(a), 0), o)[1])(Obj(C))
        cs, cm, c0 = G.ctor(C, '^(double|float)$'), G.ctor(C, 'Eigen::Matrix'), G.ctor(C)
        G.eq(tag + ':scalar', 'made of a number it is that multiple of the identity', cs,
             lambda N: [('the matrix', full(N, made(N, cs, N.sym(T, 's'))), Mat.of(n, n, lambda i, j: Rat.var('s') if i == j else ZERO))])
        G.eq(tag + ':default', 'a default constructed covariance is the identity', c0, lambda N: [('the matrix', full(N, made(N, c0)), ident(n))])

        def fm(N):
            M = N.sym(cm['p'][0]['t'], 'M')
            o = made(N, cm, M)
            M = N.sym(cm['p'][0]['t'], 'M')
            return [('the matrix', full(N, o), Mat.of(n, n, lambda i, j: (M.get(i, j) + M.get(j, i)) * Rat.c(Fraction(1, 2))))]
        G.eq(tag + ':from-matrix', 'made of a matrix it is its symmetric part', cm, fm)
        for f in G.W.by_clsu.get(C['u'], ()):
            if f.get('ctor') and len(f['p']) == 1 and 'covariance_' in f['p'][0]['t']:
                def cc(N, f=f):
                    s = N.sym(f['p'][0]['t'], 'C')
                    o = made(N, f, s)
                    return [('the matrix', full(N, o), full(N, cov(N)))]
                G.eq('%s:copy:%s' % (tag, short(norm_t(f['p'][0]['t']))), 'a copy or conversion keeps every element', f, cc)
        ca = G.W.special(C, 'ca')
        if ca is not None:
            def asg(N):
                o, s = N.sym(typename(C), 'D'), cov(N)
                N.invoke(ca, o, [s], 0)
                return [('the matrix', full(N, o), full(N, cov(N)))]
            G.eq(tag + ':assign', 'assignment keeps every element', ca, asg)
        d = G.meth(C, 'data')

        def raw(N):
            p = N.invoke(d, cov(N), [], 0)
            p = N.un(p)
            return [('number of values', Rat.c(len(p.cells) - p.i), Rat.c(size))]
        G.eq(tag + ':data', 'data() gives the %d stored values' % size, d, raw)
    if seen < 4 or G.done < 36:
        raise Broken('%d covariance classes, %d laws analysed' % (seen, G.done))
