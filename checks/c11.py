"""C11 polygon-polygon contact manifolds"""
from vlib.engine import Case
from .common import *
from .poly import *

BOUNDS = ('pairs of rectangles and triangles (see checks/poly.py) at fixed relative orientations (aligned, Pythagorean), one rectangle width '
          'symbolic; every relative position, every contact distance up to 1')
OUTSIDE = 'other shapes and orientations; polygons with 5 or more vertices'

QUICK = [('box', 'slab'), ('anyw', 'box'), ('box', 'tilt'), ('tilt2', 'tilt'), ('tri', 'box'), ('tri', 'tri')]
MORE = [('slab', 'tilt'), ('tilt', 'tri2'), ('tri2', 'tri'), ('quad', 'tri'), ('quad', 'tilt')]


def on_segment(H, x, a, b, n):
    """x on the segment ab with normal n"""
    e, d = sub(b, a), sub(x, a)
    return H.both(H.is_eq(dot(n, d), 0), H.is_le(0, dot(e, d)), H.is_le(dot(e, d), dot(e, e)))


def corner(H, x, a, b):
    return H.either(H.both(H.is_eq(x[0], a[0]), H.is_eq(x[1], a[1])), H.both(H.is_eq(x[0], b[0]), H.is_eq(x[1], b[1])))


def check(H, a, b, eps, cs):
    S = Sat(H, a, b)
    H.true('at most two contacts', len(cs) <= 2)
    rel = sub(vec(H, b.pos), vec(H, a.pos))
    for nrm, p1, p2, pen in cs:
        w = p1
        H.eq('points coincide in the world', p1, add(rel, p2))
        H.eq('unit normal', dot(nrm, nrm), 1)
        H.le('within the contact distance', -eps, pen)
        alts = []
        for k in (0, 1):
            V, I = S.V[k], S.V[1 - k]
            sg = -1 if k == 0 else 1
            inc = incident(H, S, k)
            for i, n in enumerate(S.N[k]):
                v = sub(w, scale(n, pen))          # clipped incident vertex
                va, vb = V[i], V[(i + 1) % len(V)]
                for j in inc[i]:
                    ia, ib = I[j], I[(j + 1) % len(I)]
                    alts.append(H.both(
                        H.is_eq(nrm[0], sg * n[0]), H.is_eq(nrm[1], sg * n[1]),
                        on_segment(H, w, va, vb, n), on_segment(H, v, ia, ib, S.N[1 - k][j]),
                        H.either(corner(H, v, ia, ib), corner(H, w, va, vb)), S.greatest(H, (k, i))))
        H.true('manifold', H.either(*alts))
    complete(H, S, cs, eps)
    if len(cs) == 2:
        H.eq('one normal', cs[0][0], cs[1][0])
        H.cover('two')


def complete(H, S, cs, eps):
    """every point of the incident edge opposite the reference edge lies between two contacts, unless an end of that
    stretch is beyond the contact distance"""
    t = H.real('t', 0, 1)
    nrm = [approx(x) for x in cs[0][0]]
    alts = []
    for k in (0, 1):
        V, I = S.V[k], S.V[1 - k]
        sg = -1 if k == 0 else 1
        inc = incident(H, S, k)
        for i, n in enumerate(S.N[k]):
            if abs(sg * approx(n[0]) - nrm[0]) + abs(sg * approx(n[1]) - nrm[1]) > 1e-9:
                continue
            va, vb = V[i], V[(i + 1) % len(V)]
            e = [-n[1], n[0]]
            lo, hi = dot(e, va), dot(e, vb)
            if approx(sub([hi], [lo])[0]) < 0:
                lo, hi = hi, lo
            for j in inc[i]:
                ia, ib = I[j], I[(j + 1) % len(I)]
                x = add(ia, scale(sub(ib, ia), t))
                off = H.either(H.neg(H.is_le(lo, dot(e, x))), H.neg(H.is_le(dot(e, x), hi)))
                along = [dot(e, c[1]) for c in cs]
                ends = [ia, ib]
                run = dot(e, sub(ib, ia))
                if abs(approx(run)) > 1e-9:
                    ends += [add(ia, scale(sub(ib, ia), (z - dot(e, ia)) / run)) for z in (lo, hi)]
                far = H.either(*[H.both(H.is_le(lo, dot(e, y)), H.is_le(dot(e, y), hi), H.is_le(eps, dot(n, sub(y, va)))) for y in ends])
                between = H.both(H.either(*[H.is_le(a, dot(e, x)) for a in along]), H.either(*[H.is_le(dot(e, x), a) for a in along]))
                alts.append(H.both(S.greatest(H, (k, i)), H.either(off, between, far)))
    H.true('both ends of the common stretch are reported', H.either(*alts))


def incident(H, S, k):
    """for every face of polygon k, the faces of the other one that are most opposed to it"""
    out = []
    for n in S.N[k]:
        ds = [dot(n, m) for m in S.N[1 - k]]
        fl = [float(x) if not H.symbolic else approx(x) for x in ds]
        lo = min(fl)
        out.append([j for j, x in enumerate(fl) if x <= lo + 1e-9])
    return out


def manifold(ka, kb):
    def fn(H):
        a, b, eps = pair(H, ka, kb)
        cs = collide(H, a, b, eps)
        if cs:
            H.cover('contact')
            check(H, a, b, eps, cs)
        else:
            H.true('nothing to check', True)
    return fn


def cases(tier):
    return [Case('%s-%s' % p, manifold(*p), ['contact', 'two'], angle_div=2) for p in QUICK + (MORE if tier == 'thorough' else [])]
