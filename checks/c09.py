"""C09 circle-polygon contacts"""
from vlib.engine import Case
from .common import *

BOUNDS = ('every circle centre and radius, every GJK start vertex, both argument orders, every remembered edge, contact distances up to 1; '
          'polygons: a triangle, a rectangle of any width, a rectangle at a Pythagorean orientation (thorough: also an obtuse triangle, a '
          'slanted quadrilateral, rectangles of any two dimensions); coordinates up to 100')
OUTSIDE = 'polygons with 5 or more vertices; other polygon shapes; float rounding'

SHAPES = {'acute': [[3, -1], [-1, 3], [-2, -2]],
          'obtuse': [[6, 0], [-2, 1], [-4, -1]],
          'quad': [[4, 1], [-1, 3], [-3, -2], [0, -2]]}


def polygon(H, kind):
    B = H.R.bodies
    c = H.reals('o', 2, -100, 100)
    if kind in ('rect', 'anyrect'):
        b = B.Rect(c, [H.pos('w', 100), H.pos('h', 100) if kind == 'anyrect' else 2])
        b.aligned = True
        return b
    if kind == 'box':
        return B.Rect(c, [4, 3])
    if kind == 'tilted':
        return B.Rect([H.pyth('th', F(12, 13), F(5, 13))] + c, [6, 4])
    return B.Hull(c, SHAPES[kind])


def edges(H, vs):
    """outward unit normals with their vertex"""
    out = []
    n = len(vs)
    for i in range(n):
        e = sub(vs[(i + 1) % n], vs[i])
        l = norm(H, e)
        out.append([e[1] / l, -e[0] / l])
    return out


def check(H, poly, circ, eps, cs, flip):
    vs = wverts(H, poly)
    ns = edges(H, vs)
    c, r = vec(H, circ.pos), H.num(circ.rad)
    n = len(vs)
    s = [dot(ns[i], sub(c, vs[i])) for i in range(n)]
    H.true('at most one contact', len(cs) <= 1)
    if not cs:
        H.cover('miss')
        H.true('a miss is outside', H.either(*[x > 0 for x in s]))
        if not poly_generic(H, poly):
            g = aligned_gap2(H, poly, c)
            H.lt('a miss is far', (r + eps) * (r + eps), g)
            return
        for i in range(n):
            d, e = sub(c, vs[i]), sub(vs[(i + 1) % n], vs[i])
            H.lt('a miss is far from vertex %d' % i, (r + eps) * (r + eps), dot(d, d))
            t = dot(d, e)
            H.true('a miss is far from edge %d' % i, H.either(t < 0, t > dot(e, e), s[i] < 0, s[i] > r + eps))
        return
    nrm, p1, p2, pen = cs[0]
    if flip:           # circle second
        nrm, p1, p2 = scale(nrm, -1), p2, p1
    q = add(vec(H, poly.pos), p2)
    H.eq('contact points coincide', add(c, p1), q)
    H.le('near', -eps, pen)
    H.eq('unit normal', dot(nrm, nrm), 1)
    d = sub(c, q)
    if H.branch(H.both(*[x <= 0 for x in s])):
        H.cover('deep')
        H.true('deepest edge', H.either(*[
            H.both(H.is_eq(pen, r - s[k]), *[H.is_le(s[j], s[k]) for j in range(n) if j != k],
                   *[H.is_eq(nrm[i], ns[k][i]) for i in (0, 1)], *[H.is_eq(q[i], c[i] - s[k] * ns[k][i]) for i in (0, 1)])
            for k in range(n)]))
    else:
        H.cover('shallow')
        for i in range(n):
            H.le('nearest point is in the polygon', dot(ns[i], sub(q, vs[i])), 0)
            H.le('no nearer point towards vertex %d' % i, dot(d, sub(vs[i], q)), 0)
        H.eq('normal points to the circle', [nrm[0] * (r - pen), nrm[1] * (r - pen)], d)
        H.le('distance', pen, r)


def poly_generic(H, poly):
    return not (hasattr(poly, 'dims') and hasattr(poly, 'aligned'))


def aligned_gap2(H, poly, c):
    """squared distance to an axis-aligned rectangle, region by region"""
    g = 0
    for x, o, d in zip(c, vec(H, poly.pos), vec(H, poly.dims)):
        u = x - o
        if H.branch(u > d / 2):
            g = g + (u - d / 2) * (u - d / 2)
        elif H.branch(u < -d / 2):
            g = g + (u + d / 2) * (u + d / 2)
    return g


def detect(kind, flip, inside=False):
    def fn(H):
        B = H.R.bodies
        eps = H.pos('eps', 1)
        poly = polygon(H, kind)
        o = vec(H, poly.pos)
        rel = H.reals('c', 2, -100, 100)
        circ = B.Circle(add(o, rel), H.pos('r', 100))
        if inside:
            vs = verts(H, poly)
            n = len(vs)
            for i in range(n):
                H.assume(cross(sub(vs[(i + 1) % n], vs[i]), sub(rel, vs[i])) >= 0)
            poly.last_sat_idx = H.choose(n, 'edge')
            if kind != 'acute':
                H.pin('random', 1)
        cs = collide(H, poly, circ, eps) if flip else collide(H, circ, poly, eps)
        check(H, poly, circ, eps, cs, flip)
    return fn


def cases(tier):
    kinds = ['acute', 'rect', 'tilted'] + (['anyrect', 'box', 'obtuse', 'quad'] if tier == 'thorough' else [])
    cs = []
    for i, k in enumerate(kinds):
        for flip in (0, 1) if tier == 'thorough' else (i % 2,):
            cs.append(Case('%s-%d' % (k, flip), detect(k, flip), ['deep', 'shallow', 'miss'], angle_div=2, zero_policy='violate'))
        cs.append(Case('%s-inside' % k, detect(k, 0, True), ['deep'], angle_div=2, zero_policy='violate'))
    return cs
