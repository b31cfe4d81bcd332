"""C12 contacts do not depend on detection history or argument order"""
from vlib.engine import Case
from .common import *
from .poly import *

BOUNDS = ('pairs of two circles, circle and triangle, circle and rectangle, and of two polygons (see checks/poly.py) at fixed relative '
          'orientations; every relative position; every value of either remembered edge; detection at two other poses first; both orders')
OUTSIDE = 'other shapes and orientations; exact ties between separating directions of two polygons'


def same(H, label, c1, c2, swapped=False, slack=False, tie=None):
    if len(c1) != len(c2):
        H.true(label + ': number of contacts', tie() if tie else False)
        return
    if not c1:
        H.cover('none')
        return
    H.cover('some')
    if swapped:
        c2 = [(scale(n, -1), p2, p1, pen) for n, p1, p2, pen in c2]

    def match(x, y):
        n, p1, p2, pen = x
        m, q1, q2, pem = y
        cs = [H.is_eq(n[i], m[i]) for i in (0, 1)] + [H.is_eq(pen, pem)]
        for p, q in ((p1, q1), (p2, q2)):
            cs.append(H.either(H.both(*[H.is_eq(p[i], q[i]) for i in (0, 1)]),
                               *([H.both(*[H.is_eq(p[i], q[i] + sg * pen * n[i]) for i in (0, 1)]) for sg in (1, -1)] if slack else [])))
        return H.both(*cs)
    if len(c1) == 1:
        m = match(c1[0], c2[0])
    else:
        m = H.either(H.both(match(c1[0], c2[0]), match(c1[1], c2[1])), H.both(match(c1[0], c2[1]), match(c1[1], c2[0])))
    if tie and not (m is True or (H.symbolic and H.both(m).b.op == 't')):
        m = H.either(m, tie())
    H.true(label + ': same contacts', m)


def edges(ka, kb):
    """every remembered edge against none"""
    def fn(H):
        a, b, eps = pair(H, ka, kb, eps=F(1, 10) if H.symbolic else 0.1)
        S = Sat(H, a, b)
        fresh = collide(H, a, b, eps)
        na, nb = len(a.verts), len(b.verts)
        k = H.choose(na + nb - 1, 'edges')
        a.last_sat_idx, b.last_sat_idx = (k, 0) if k < na else (0, k - na + 1)
        same(H, 'remembered edge', fresh, collide(H, a, b, eps), tie=lambda: S.tie(H))
    return fn


def swap(ka, kb):
    def fn(H):
        a, b, eps = pair(H, ka, kb, eps=F(1, 10) if H.symbolic else 0.1)
        S = Sat(H, a, b)
        one = collide(H, a, b, eps)
        a.last_sat_idx = b.last_sat_idx = 0
        same(H, 'swapped', one, collide(H, b, a, eps), True, True, lambda: S.tie(H))
    return fn


def history(ka, kb):
    """two detections elsewhere first, then the same poses as fresh bodies"""
    def fn(H):
        eps = F(1, 10) if H.symbolic else 0.1
        o, d = H.reals('o', 2, -50, 50), H.reals('d', 2, -50, 50)
        old = [make(H, ka, 'a', o), make(H, kb, 'b', [0.0, 0.0])]
        new = [make(H, ka, 'a', o), make(H, kb, 'b', d)]
        a, b = old
        h = handler(H)
        back = vec(H, new[1].p)
        pa = vec(H, a.pos)
        for q in ([0.25, 2.0], [-3.0, 0.5]):
            b.set_p(H.tensor([back[0]] + add(pa, q)))
            collide(H, a, b, eps, h)
        b.set_p(H.tensor(back))
        S = Sat(H, *new)
        same(H, 'after a history', collide(H, *new, eps), collide(H, a, b, eps, h), tie=lambda: S.tie(H))
    return fn


def circles(H):
    B = H.R.bodies
    eps = H.pos('eps', 1)
    ca, cb = H.reals('a', 2), H.reals('b', 2)
    d = sub(ca, cb)
    H.assume(H.either(d[0] != 0, d[1] != 0))
    a, b = B.Circle(ca, H.pos('ra')), B.Circle(cb, H.pos('rb'))
    one = collide(H, a, b, eps)
    same(H, 'swapped', one, collide(H, b, a, eps), True)
    same(H, 'again', one, collide(H, a, b, eps))


def circle(kind):
    def fn(H):
        B = H.R.bodies
        eps = F(1, 10) if H.symbolic else 0.1
        H.pin('random', 0)
        o = H.reals('o', 2, -50, 50)
        p, q = make(H, kind, 'p', o), make(H, kind, 'p', o)
        r = H.pos('r', 50)
        po = vec(H, p.pos)
        c = add(po, H.reals('c', 2, -50, 50))
        ca = B.Circle(c, r)
        cb = B.Circle(add(po, [0.25, 0.5]), r)
        h = handler(H)
        for w in ([3.0, 0.25], [0.5, -0.5]):
            cb.set_p(H.tensor([0.0] + add(po, w)))
            collide(H, cb, q, eps, h)
        cb.set_p(H.tensor([0.0] + c))
        H.pin('random', 2)
        flip = H.choose(2, 'flip')
        one = collide(H, ca, p, eps)
        two = collide(H, q, cb, eps, h) if flip else collide(H, cb, q, eps, h)
        same(H, 'history', one, two, bool(flip), tie=lambda: tie1(H, p, sub(c, po)))
    return fn


def tie1(H, p, c):
    """the centre is inside and equally near to two faces"""
    vs = verts(H, p)
    d = []
    for i in range(len(vs)):
        e = sub(vs[(i + 1) % len(vs)], vs[i])
        d.append((e[1] * (c[0] - vs[i][0]) - e[0] * (c[1] - vs[i][1])) / norm(H, e))
    return H.both(*[H.is_le(x, 0) for x in d], H.either(*[H.is_eq(d[i], d[j]) for i in range(len(d)) for j in range(i)]))


def cases(tier):
    cov = ['none', 'some']
    cs = [Case('circles', circles, cov), Case('circle-tri', circle('tri'), cov), Case('circle-box', circle('box'), cov)]
    runs = [('edges', 'tri', 'box'), ('swap', 'tri', 'box'), ('swap', 'box', 'tilt'), ('history', 'box', 'tilt')]
    if tier == 'thorough':
        ps = [('box', 'tilt'), ('tri', 'box'), ('box', 'slab'), ('tilt2', 'tilt'), ('tri', 'tri2'), ('quad', 'tilt')]
        runs = [(nm,) + p for p in ps for nm in ('edges', 'swap', 'history')]
    fs = {'edges': edges, 'swap': swap, 'history': history}
    for nm, a, b in runs:
        cs.append(Case('%s-%s-%s' % (nm, a, b), fs[nm](a, b), cov, angle_div=2))
    return cs
