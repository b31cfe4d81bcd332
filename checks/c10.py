"""C10 polygon-polygon detection and depth"""
from vlib.engine import Case
from .common import *
from .poly import *

BOUNDS = ('pairs of rectangles and triangles (see checks/poly.py) at fixed relative orientations (aligned, Pythagorean), one rectangle width '
          'symbolic; every relative position, every contact distance up to 1; the search for an axis starting at any '
          'edge for triangle against rectangle, at the first for the others')
OUTSIDE = 'other shapes and orientations; polygons with 5 or more vertices'

QUICK = [('box', 'slab'), ('anyw', 'box'), ('box', 'tilt'), ('tilt2', 'tilt'), ('tri', 'box'), ('tri', 'tri'), ('box', 'spike')]
MORE = [('slab', 'tilt'), ('tilt', 'tri2'), ('tri2', 'tri'), ('quad', 'tri'), ('quad', 'tilt')]


def detect(ka, kb, start=False):
    def fn(H):
        a, b, eps = pair(H, ka, kb)
        if start:
            # the edges an earlier call has left as a starting point
            a.last_sat_idx, b.last_sat_idx = H.choose(len(a.verts), 'edge a'), H.choose(len(b.verts), 'edge b')
        cs = collide(H, a, b, eps)
        S = Sat(H, a, b)
        if not cs:
            H.cover('silent')
            H.true('overlapping polygons are reported', H.either(*[H.both(*[H.is_le(0, s) for s in S.seps[f]]) for f in S.seps]))
            return
        H.cover('contact')
        H.true('separated polygons are not reported', S.at_most(H, eps))
        H.true('at most two contacts', len(cs) <= 2)
        if not H.branch(S.at_most(H, 0)):
            H.cover('gap')
            return
        H.cover('overlap')
        deep = [c[3] for c in cs]
        for p in deep:
            H.true('no deeper than the least overlap', S.at_most(H, -p))
        H.true('as deep as the least overlap', H.either(*[S.some_at_least(H, -p) for p in deep]))
    return fn


def cases(tier):
    return [Case('start-' + '-'.join(p), detect(*p, True), ['silent', 'contact', 'overlap', 'gap'], angle_div=2)
            for p in ([('tri', 'box')] if tier == 'quick' else [('tri', 'box'), ('box', 'tilt'), ('tri2', 'tri')])] + [
        Case('%s-%s' % p, detect(*p), ['silent', 'contact', 'overlap', 'gap'], angle_div=2) for p in QUICK + (MORE if tier == 'thorough' else [])]
