"""C01 polygon bodies move rigidly under every history of motions"""
from vlib.engine import Case
from .common import *

BOUNDS = ('triangles, quadrilaterals and rectangles with arbitrary vertices/dimensions and initial angle; every sequence of 2 (quick) '
          'or 3 (thorough) operations out of pose assignment, turn-free pose assignment, timed move, move through the world')
OUTSIDE = 'polygons with 5 or more vertices; longer histories; drift by float rounding'


def shape(H, kind):
    B = H.R.bodies
    if kind == 'rect':
        return B.Rect([H.angle('a0')] + H.reals('c', 2), [H.pos('w'), H.pos('h')])
    if kind == 'tri':
        a, b, r = H.reals('a', 2), H.reals('b', 2), H.reals('ref', 2)
        H.assume(cross(a, b) > 0)
        return B.Hull(r, tri_centered(H, a, b))
    if kind == 'free':     # vertices anywhere, not centred
        a, b = H.reals('a', 2), H.reals('b', 2)
        H.assume(cross(a, b) > 0)
        return B.Hull(H.reals('ref', 2), [[0, 0], a, b])
    a, b = H.reals('a', 2), H.reals('b', 2)
    H.assume(cross(a, b) > 0)
    return B.Hull(H.reals('ref', 2), [a, b, [-a[0], -a[1]], [-b[0], -b[1]]])


def op(H, body, k, which):
    """one motion; returns the turn it makes and the expected new pose"""
    p = vec(H, body.p)
    if which == 0:       # arbitrary pose
        d, q = H.angle('turn%d' % k), H.reals('q%d' % k, 2)
        new = [p[0] + d] + q
        body.set_p(H.tensor(new))
    elif which == 1:     # translation only
        d, q = 0, H.reals('q%d' % k, 2)
        new = [p[0]] + q
        body.set_p(H.tensor(new))
    elif which == 2:     # timed move (unit time keeps the turn an atomic angle)
        d, lv = H.angle('turn%d' % k), H.reals('lv%d' % k, 2)
        body.v = H.tensor([d] + lv)
        body.move(1)
        new = add(p, [d] + lv)
    else:                # the same through a symbolic time step without turning
        d, lv, dt = 0, H.reals('lv%d' % k, 2), H.pos('dt%d' % k)
        body.v = H.tensor([0] + lv)
        body.move(dt)
        new = add(p, [0, lv[0] * dt, lv[1] * dt])
    return d, new


def history(kind, nops, names=('set', 'shift', 'move', 'slide')):
    def fn(H):
        body = shape(H, kind)
        v0 = verts(H, body)
        n = len(v0)
        total = 0
        for k in range(nops):
            which = H.choose(4, 'op')
            H.cover(names[which])
            d, new = op(H, body, k, which)
            total = total + d
            H.eq('pose', body.p, new)
            H.eq('position view', body.pos, new[1:])
            vs = verts(H, body)
            H.true('vertex count', len(vs) == n)
            for i in range(n):
                H.eq('vertex %d turned rigidly' % i, vs[i], rot(H, total, v0[i]) if total is not 0 else v0[i])
            if kind == 'rect':
                H.eq('opposite vertices', vs[0] + vs[1], scale(vs[2] + vs[3], -1))
    return fn


def world_motion(H):
    """poses assigned through a world"""
    B = H.R.bodies
    tri, rc = shape(H, 'tri'), B.Rect([0, 0], [H.pos('w'), H.pos('h')])
    w = world(H, [tri, rc], contact_callback=quiet(H))
    v0 = [verts(H, tri), verts(H, rc)]
    d0, d1 = H.angle('d0'), H.angle('d1')
    q = H.reals('q', 4)
    w.set_p(H.tensor([d0, q[0], q[1], d1, q[2], q[3]]))
    for b, d, vv, p in ((tri, d0, v0[0], q[:2]), (rc, d1, v0[1], q[2:])):
        H.eq('position', b.pos, p)
        for i, v in enumerate(verts(H, b)):
            H.eq('vertex', v, rot(H, d, vv[i]))


def quiet(H):
    """a contact handler that reports nothing"""
    class Quiet(H.R.contacts.ContactHandler):
        def __call__(self, *a):
            pass
    return Quiet


def independent(H):
    """two bodies built from the same vertex tensors do not move each other"""
    B = H.R.bodies
    a, b = H.reals('a', 2), H.reals('b', 2)
    H.assume(cross(a, b) > 0)
    vt = [H.tensor(v) for v in tri_centered(H, a, b)]
    b1, b2 = B.Hull(H.tensor([0., 0.]), vt), B.Hull(H.tensor([1., 2.]), vt)
    before = verts(H, b2)
    p2 = vec(H, b2.p)
    b1.set_p(H.tensor([H.angle('t'), H.real('x'), H.real('y')]))
    H.eq('other body', sum(verts(H, b2), []), sum(before, []))
    H.eq('other pose', b2.p, p2)
    H.eq('caller data', sum([vec(H, v) for v in vt], []), sum(tri_centered(H, a, b), []))


def cases(tier):
    n = 3 if tier == 'thorough' else 2
    names = ['set', 'shift', 'move', 'slide']
    cs = [Case('history-%s' % k, history(k, n), names, angle_div=2 if k == 'rect' else 1)
          for k in ('rect', 'tri', 'quad', 'free')]
    return cs + [Case('world', world_motion, angle_div=2, fake_ode=True), Case('independent', independent)]
