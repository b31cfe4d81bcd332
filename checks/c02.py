"""C02 polygon construction"""
from vlib.engine import Case
from .common import *

BOUNDS = ('lists of 3 arbitrary vertices; lists of 4 and 5 with any one coordinate of one vertex free within 50 (4, convex: two coordinates), any signed area, any reference point; lists of fewer than 3; '
          'rectangles with any dimensions, any pose, given as list or tensor, with 2 or 3 coordinates')
OUTSIDE = 'longer vertex lists; self-intersecting polygons are only covered through their signed area'


def centroid(vs):
    """triangle fan from the first vertex"""
    ax, ay, tot = 0, 0, 0
    a = vs[0]
    for i in range(1, len(vs) - 1):
        b, c = vs[i], vs[i + 1]
        w = cross(sub(b, a), sub(c, a))
        ax = ax + w * (a[0] + b[0] + c[0])
        ay = ay + w * (a[1] + b[1] + c[1])
        tot = tot + w
    return [ax / (3 * tot), ay / (3 * tot)]


def hull(n, tensors=False, free=False):
    def fn(H):
        B = H.R.bodies
        if n == 3:
            vs = [H.reals('v%d_' % i, 2) for i in range(n)]
        else:        # one vertex anywhere, the others at fixed places
            vs = [list(map(F, v)) for v in ([(3, 1), (-2, 4), (-1, -2), (2, -3)] if n == 4 else
                                            [(3, 1), (0, 4), (-3, 1), (-2, -2), (2, -3)])]
            k, axis = H.choose(n, 'free'), H.choose(2, 'axis')
            vs[k][axis] = H.real('v', -50, 50)
            if n == 4 and free:      # second coordinate of another vertex too
                vs[(k + 1) % n][axis] = H.real('u', -50, 50)
                convex(H, vs)
        ref = H.reals('ref', 2)
        area2 = poly_area2(vs)
        H.assume(area2 != 0)
        ok = H.branch(area2 > 0)
        given = [H.tensor(v) for v in vs] if tensors else vs
        made = []
        err = H.raises(lambda: made.append(B.Hull(H.tensor(ref) if tensors else ref, given)))
        H.true('accepted exactly when wound the right way', (err is None) == ok)
        if err is not None:
            H.cover('rejected')
            return
        H.cover('accepted')
        b = made[0]
        c = centroid(vs)
        H.eq('position is the centroid', b.pos, add(ref, c))
        H.eq('initial angle', b.rot, 0)
        H.true('all vertices kept', len(b.verts) == n)
        for i, w in enumerate(wverts(H, b)):
            H.eq('vertex %d stays in place' % i, w, add(ref, vs[i]))
        H.eq('centred', centroid(verts(H, b)), [0, 0])
        if tensors:
            H.eq('caller data', sum([vec(H, g) for g in given], []), sum(vs, []))
    return fn


def few(H):
    B = H.R.bodies
    n = H.choose(2, 'n') + 1
    vs = [H.reals('v%d_' % i, 2) for i in range(n)]
    H.true('too few vertices rejected', H.raises(lambda: B.Hull([0, 0], vs)) is not None)


def degenerate(H):
    B = H.R.bodies
    a, s = H.reals('a', 2), H.real('s')
    H.true('zero area rejected', H.raises(lambda: B.Hull([0, 0], [[0, 0], a, scale(a, s)])) is not None)


def rect(H):
    B = H.R.bodies
    w, h, c = H.pos('w'), H.pos('h'), H.reals('c', 2)
    form = H.choose(4, 'form')
    th = H.angle('th') if form in (1, 2) else 0
    if form == 0:
        b = B.Rect(c, [w, h])
    elif form == 1:
        b = B.Rect([th] + c, [w, h])
    elif form == 2:
        b = B.Rect(H.tensor([th] + c), H.tensor([w, h]))
    else:
        b = B.Rect(H.tensor(c), [w, h], vel=[1, 2, 3])
    H.cover('form%d' % form)
    H.eq('pose', b.p, [th] + c)
    H.eq('position', b.pos, c)
    H.eq('dimensions', b.dims, [w, h])
    want = [[w / 2, h / 2], [-w / 2, h / 2], [-w / 2, -h / 2], [w / 2, -h / 2]]
    H.true('four vertices', len(b.verts) == 4)
    for i, v in enumerate(wverts(H, b)):
        H.eq('corner %d' % i, v, add(c, rot(H, th, want[i]) if form in (1, 2) else want[i]))


def cases(tier):
    cs = [Case('triangle', hull(3), ['accepted', 'rejected']), Case('triangle-tensors', hull(3, True), ['accepted', 'rejected']),
          Case('quad', hull(4), ['accepted', 'rejected']), Case('quad-convex', hull(4, free=True), ['accepted'], branch_timeout=0.5),
          Case('few', few), Case('degenerate', degenerate), Case('rect', rect, ['form%d' % i for i in range(4)], angle_div=2)]
    return cs + [Case('pentagon', hull(5), ['accepted', 'rejected'])]
