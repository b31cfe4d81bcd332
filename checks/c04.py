"""C04 pose integration and coherence of pose, velocity and their views"""
from vlib.engine import Case
from .common import *
from .c03 import quiet

BOUNDS = ('circles, rectangles, triangles with any pose and velocity (2 or 3 coordinates, list or tensor); sequences of up to 3 timed '
          'moves and pose assignments; worlds of up to 3 bodies, any assigned velocities and poses')
OUTSIDE = 'longer sequences; direct writes to the pose attributes'


def make(H, kind, pos, vel):
    B = H.R.bodies
    if kind == 0:
        return B.Circle(pos, H.pos('r'), vel=vel)
    if kind == 1:
        return B.Rect(pos, [H.pos('w'), H.pos('h')], vel=vel)
    return B.Hull(pos, [[2, 0], [0, 2], [-2, -2]], vel=vel)


def coherent(H, b, p, v, tag=''):
    H.eq(tag + 'pose', b.p, p)
    H.eq(tag + 'angle view', b.rot, p[0])
    H.eq(tag + 'position view', b.pos, p[1:])
    H.eq(tag + 'velocity', b.v, v)
    H.true(tag + 'shapes', b.p.numel() == 3 and b.v.numel() == 3 and b.pos.numel() == 2)


def moves(H):
    kind = H.choose(3, 'kind')
    form = H.choose(4, 'form')
    c, lv = H.reals('c', 2), H.reals('v', 2)
    th = H.angle('th') if form >= 2 and kind != 2 else 0
    om = H.angle('om') if form >= 2 else 0
    pos = [th] + c if form >= 2 and kind != 2 else c
    vel = [om] + lv if form >= 2 else lv
    b = make(H, kind, H.tensor(pos) if form % 2 else pos, H.tensor(vel) if form % 2 else vel)
    p, v = [th] + c, [om] + lv
    coherent(H, b, p, v, 'initial ')
    m0 = vec(H, b.M)
    for k in range(2):
        dt = H.pos('dt%d' % k)
        b.move(dt)
        p = add(p, scale(v, dt))
        coherent(H, b, p, v, 'moved ')
        if k == 0:
            om2, lv2 = H.real('om2'), H.reals('u', 2)
            v = [om2] + lv2
            b.v = H.tensor(v)
    q = [H.angle('q0')] + H.reals('q', 2)
    b.set_p(H.tensor(q))
    coherent(H, b, q, v, 'assigned ')
    H.eq('mass matrix untouched', b.M, m0)
    H.cover('kind%d' % kind)


def split(H):
    """moving for a+b is moving for a and then for b"""
    B = H.R.bodies
    kind = H.choose(2, 'kind')
    pos, vel = [H.angle('th')] + H.reals('c', 2), [H.angle('om')] + H.reals('v', 2)
    b1, b2 = make(H, kind, pos, vel), make(H, kind, pos, vel)
    a, c = H.pos('a'), H.pos('b')
    b1.move(a + c)
    b2.move(a)
    b2.move(c)
    H.eq('same pose', b1.p, b2.p)
    if kind:
        H.eq('same vertices', sum(verts(H, b1), []), sum(verts(H, b2), []))


def world_state(H):
    B = H.R.bodies
    n = H.choose(3, 'n') + 1
    bodies, v, p = [], [], []
    for i in range(n):
        vi = [H.angle('w%d' % i)] + H.reals('v%d_' % i, 2)
        pi = [H.angle('a%d' % i)] + H.reals('p%d_' % i, 2)
        bodies.append(B.Circle(pi, H.pos('r%d' % i), vel=vi) if i != 1 else B.Rect(pi, [1, 2], vel=vi))
        v, p = v + vi, p + pi
    w = world(H, bodies, contact_callback=quiet(H))
    H.eq('initial velocities', w.get_v(), v)
    for i, b in enumerate(bodies):
        coherent(H, b, p[3 * i:3 * i + 3], v[3 * i:3 * i + 3], 'initial ')
    v2 = [H.real('nv%d' % i) for i in range(3 * n)]
    w.set_v(H.tensor(v2))
    H.eq('velocities read back', w.get_v(), v2)
    for i, b in enumerate(bodies):
        coherent(H, b, p[3 * i:3 * i + 3], v2[3 * i:3 * i + 3], 'after set_v ')
    p2 = []
    for i in range(n):
        p2 += [H.angle('na%d' % i)] + H.reals('np%d_' % i, 2)
    w.set_p(H.tensor(p2))
    for i, b in enumerate(bodies):
        coherent(H, b, p2[3 * i:3 * i + 3], v2[3 * i:3 * i + 3], 'after set_p ')
    H.eq('velocities kept', w.get_v(), v2)
    dt = H.pos('dt')
    for b in bodies:
        b.move(dt)
    for i, b in enumerate(bodies):
        coherent(H, b, [x + y * dt for x, y in zip(p2[3 * i:3 * i + 3], v2[3 * i:3 * i + 3])], v2[3 * i:3 * i + 3], 'after move ')
    H.cover('n%d' % n)


def cases(tier):
    return [Case('moves', moves, ['kind0', 'kind1', 'kind2'], angle_div=2), Case('split', split, angle_div=2),
            Case('world', world_state, ['n1', 'n2', 'n3'], fake_ode=True, angle_div=2)]
