"""C03 inertia and mass matrices"""
from vlib.engine import Case
from .common import *

BOUNDS = ('all radii, dimensions, masses; all triangles; all centrally symmetric quadrilaterals and convex '
          'quadrilaterals with any one vertex anywhere; triangles turned by any angle, shifted, re-ordered; worlds of 1 to 3 bodies of mixed type')
OUTSIDE = 'polygons with 5 or more vertices; non-convex polygons'


def moment(vs):
    """second moment / area about the origin, vertices wound positively"""
    n, num_, den = len(vs), 0, 0
    for i in range(n):
        a, b = vs[i], vs[(i + 1) % n]
        w = cross(a, b)
        num_ = num_ + w * (dot(a, a) + dot(a, b) + dot(b, b))
        den = den + w
    return num_ / (6 * den)


def block(H, body, I, m):
    H.eq('inertia', body.ang_inertia, I)
    H.eq('mass kept', body.mass, m)
    H.eq('mass matrix', body.M, [I, 0, 0, 0, m, 0, 0, 0, m])
    H.lt('inertia positive', 0, body.ang_inertia)


def circle(H):
    r, m = H.pos('r'), H.pos('m')
    form = H.choose(2, 'form')
    b = H.R.bodies.Circle(H.reals('c', 2), r if form else H.tensor(r), mass=m if form else H.tensor(m))
    block(H, b, m * r * r / 2, m)


def rect(H):
    w, h, m = H.pos('w'), H.pos('h'), H.pos('m')
    form = H.choose(2, 'form')
    pos = H.reals('c', 2) if form else [H.angle('th')] + H.reals('c', 2)
    b = H.R.bodies.Rect(pos, [w, h], mass=m)
    block(H, b, m * (w * w + h * h) / 12, m)
    hull = H.R.bodies.Hull([0, 0], [[w / 2, h / 2], [-w / 2, h / 2], [-w / 2, -h / 2], [w / 2, -h / 2]], mass=m)
    H.eq('same shape, same inertia', hull.ang_inertia, b.ang_inertia)


def tri(H):
    m = H.pos('m')
    vs = [H.reals('v%d_' % i, 2) for i in range(3)]
    H.assume(poly_area2(vs) > 0)
    b = H.R.bodies.Hull(H.reals('ref', 2), vs, mass=m)
    # sides: m/36 (a^2 + b^2 + c^2)
    s = 0
    for i in range(3):
        d = sub(vs[i], vs[(i + 1) % 3])
        s = s + dot(d, d)
    block(H, b, m * s / 36, m)


def tri_placed(H):
    """translated, turned and re-ordered copies have the same inertia"""
    a, b, m = H.reals('a', 2), H.reals('b', 2), H.pos('m')
    H.assume(cross(a, b) > 0)
    k = H.choose(3, 'start')
    t, o = H.angle('t'), H.reals('o', 2)
    vs = [[0, 0], a, b]
    ref = H.R.bodies.Hull([0, 0], vs, mass=m)
    turned = [add(rot(H, t, v), o) for v in vs]
    turned = turned[k:] + turned[:k]
    other = H.R.bodies.Hull([1, 2], turned, mass=m)
    H.eq('placement does not matter', other.ang_inertia, ref.ang_inertia)
    H.eq('mass matrix the same', other.M, ref.M)


def parallelogram(H):
    a, b, m = H.reals('a', 2), H.reals('b', 2), H.pos('m')
    H.assume(cross(a, b) > 0)
    vs = [a, b, scale(a, -1), scale(b, -1)]
    body = H.R.bodies.Hull(H.reals('ref', 2), vs, mass=m)
    block(H, body, m * moment(vs), m)


def quad(H):
    """convex quadrilateral, one vertex (any of the last three) anywhere"""
    m = H.pos('m')
    abc = [list(map(F, v)) for v in ((4, 1), (3, 4), (-1, 3))]
    abc[H.choose(3, 'free')] = H.reals('a', 2)
    a, b, c = abc
    vs = [[F(0), F(0)], a, b, c]
    convex(H, vs)
    body = H.R.bodies.Hull([0, 0], vs, mass=m)
    # about the centroid: moment about the origin minus |centroid|^2
    w1, w2 = cross(a, b), cross(b, c)
    c1, c2 = scale(add(a, b), F(1, 3)), scale(add(b, c), F(1, 3))
    area2 = w1 + w2
    cen = scale(add(scale(c1, w1), scale(c2, w2)), 1 / area2)
    s1 = (dot(a, a) + dot(a, b) + dot(b, b)) / 6
    s2 = (dot(b, b) + dot(b, c) + dot(c, c)) / 6
    I = (w1 * s1 + w2 * s2) / area2 - dot(cen, cen)
    H.eq('inertia', body.ang_inertia, m * I)
    H.eq('mass matrix', body.M, [m * I, 0, 0, 0, m, 0, 0, 0, m])


def worldM(H):
    B = H.R.bodies
    n = H.choose(3, 'n') + 1
    ms, bodies, Is = [], [], []
    for i in range(n):
        m = H.pos('m%d' % i)
        ms.append(m)
        r = H.pos('r%d' % i)
        kind = i if n < 3 else (i + 1) % 3
        if kind == 0:
            bodies.append(B.Circle([100 * i, 0], r, mass=m))
            Is.append(m * r * r / 2)
        elif kind == 1:
            h = H.pos('h%d' % i)
            bodies.append(B.Rect([100 * i, 0], [r, h], mass=m))
            Is.append(m * (r * r + h * h) / 12)
        else:
            bodies.append(B.Hull([100 * i, 0], [[r, 0], [0, r], [-r, -r]], mass=m))
            Is.append(m * r * r * F(2 + 5 + 5, 36))
    w = world(H, bodies, contact_callback=quiet(H))
    M = rows(H, w.M())
    for i in range(3 * n):
        want = [0] * (3 * n)
        want[i] = Is[i // 3] if i % 3 == 0 else ms[i // 3]
        H.eq('row %d' % i, M[i], want)
    H.cover('n%d' % n)


def quiet(H):
    class Quiet(H.R.contacts.ContactHandler):
        def __call__(self, *a):
            pass
    return Quiet


def cases(tier):
    return [Case('circle', circle), Case('rect', rect, angle_div=2), Case('triangle', tri), Case('triangle-placed', tri_placed),
            Case('parallelogram', parallelogram), Case('quad', quad),
            Case('world', worldM, ['n1', 'n2', 'n3'], fake_ode=True)]
