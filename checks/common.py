"""Small vocabulary shared by the harnesses.  Vectors are Python lists of scalars (symbolic or
float), so no oracle below goes through the code under test."""
from fractions import Fraction

F = Fraction


def vec(H, t):
    return list(H.flat(t))


def num(H, t):
    return H.num(t)


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def scale(a, k):
    return [x * k for x in a]


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def norm(H, a):
    return H.sqrt(dot(a, a))


def rot(H, th, v):
    c, s = H.cos(th), H.sin(th)
    return [c * v[0] - s * v[1], s * v[0] + c * v[1]]


def verts(H, body):
    """vertices in the body's frame, as lists"""
    return [vec(H, v) for v in body.verts]


def wverts(H, body):
    p = vec(H, body.pos)
    return [add(p, v) for v in verts(H, body)]


def poly_area2(vs):
    n = len(vs)
    r = cross(vs[0], vs[1 % n])
    for i in range(1, n):
        r = r + cross(vs[i], vs[(i + 1) % n])
    return r


def convex(H, vs, margin=0):
    """assume the vertices (code's clockwise order = positive cross products) form a convex polygon"""
    n = len(vs)
    for i in range(n):
        a, b, c = vs[i], vs[(i + 1) % n], vs[(i + 2) % n]
        H.assume(cross(sub(b, a), sub(c, b)) > margin)


def matvec(M, v):
    return [dot(r, v) for r in M]


def rows(H, t):
    return [vec(H, r) for r in t]


class Scene:
    """what a contact handler sees of a world"""

    def __init__(self, H, bodies, eps):
        self.bodies = bodies
        self.eps = eps
        self.tol = 1e-6
        self.contacts = []
        for i, b in enumerate(bodies):
            b.geom.body = i


def handler(H):
    return H.R.contacts.DiffContactHandler()


def collide(H, b1, b2, eps=0.1, h=None):
    """contacts reported for (b1, b2): list of (normal, p1, p2, penetration) scalars"""
    w = Scene(H, [b1, b2], eps)
    (h or handler(H))([w], b1.geom, b2.geom)
    out = []
    for c in w.contacts:
        (n, p1, p2, pen), i, j = c
        H.true('contact names its bodies', i == 0 and j == 1)
        out.append((vec(H, n), vec(H, p1), vec(H, p2), num(H, pen)))
    return out


def world(H, bodies, constraints=None, **kw):
    kw.setdefault('strict_no_penetration', False)
    return H.R.world.World(bodies, [] if constraints is None else constraints, **kw)


def tri_centered(H, a, b):
    """vertices of a triangle whose centroid is the origin, from two of them"""
    return [a, b, [-a[0] - b[0], -a[1] - b[1]]]
