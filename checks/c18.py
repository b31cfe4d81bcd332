"""C18 conservation laws"""
from vlib.engine import Case
from .common import *
from .c03 import quiet
from .c16 import MECH, make
from .c16 import bodies as some_bodies
from .c17 import depth, reporting, momentum, rates, tangent
from .script import Lcp

BOUNDS = ('worlds of 2 and 3 bodies (circle, rectangle, polygon) with arbitrary masses, poses and velocities; up to 2 contacts at arbitrary places '
          'with arbitrary normals, one or two joints, or both; every exact solution of the complementarity problem. Energy: joints without contacts; '
          'frictionless contacts with a common restitution up to 1; inelastic contacts with arbitrary friction (one contact, also with joints); '
          'round bodies with any friction and restitution up to 1')
OUTSIDE = ('energy with friction and restitution together (for bodies that turn on impact, Newton restitution with Coulomb friction can add energy; '
           'this is a known limit of the contact law and not claimed); more bodies or contacts')


def cast(H, n, rest, fric, plain=False):
    B = H.R.bodies
    out = []
    for i in range(n):
        kw = dict(vel=H.reals('v%d_' % i, 3), mass=1 if plain else H.pos('m%d' % i), restitution=rest, fric_coeff=fric(i))
        c = H.reals('c%d_' % i, 2)
        out.append([lambda: B.Circle(c, 1 if plain else H.pos('r%d' % i), **kw), lambda: B.Rect(c, [2, 1], **kw), lambda: B.Hull(c, [[2, 0], [0, 2], [-2, -2]], **kw)][i % 3]())
    return out


def touching(H, bs, k, i, j):
    """a contact anywhere in the plane, its points coinciding in the world"""
    th, x = H.angle('n%d' % k), H.reals('x%d_' % k, 2)
    return i, j, [H.cos(th), H.sin(th)], sub(x, vec(H, bs[i].pos)), sub(x, vec(H, bs[j].pos)), depth(H, k)


def totals(H, bs):
    lin, ang = [0, 0], 0
    for b in bs:
        m, I, v, c = H.num(b.mass), H.num(b.ang_inertia), vec(H, b.v), vec(H, b.pos)
        p = scale(v[1:], m)
        lin = add(lin, p)
        ang = ang + I * v[0] + cross(c, p)
    return lin + [ang]


def energy(H, bs):
    """twice the kinetic energy"""
    e = 0
    for b in bs:
        v = vec(H, b.v)
        e = e + H.num(b.ang_inertia) * v[0] * v[0] + H.num(b.mass) * (v[1] * v[1] + v[2] * v[2])
    return e


def conserved(n, pairs, joints=()):
    """momentum about the world's origin, before the bodies move"""
    def fn(H):
        bs = cast(H, n, H.real('e', 0), lambda i: H.real('f%d' % i, 0)) if pairs else some_bodies(H, n)
        found = [touching(H, bs, k, i, j) for k, (i, j) in enumerate(pairs)]
        js = [make(H, kind, bs[i], bs[j], k) for k, (kind, i, j) in enumerate(joints)]
        W = world(H, bs, js, dt=H.pos('dt'), contact_callback=reporting(H, found) if pairs else quiet(H))
        Lcp(H, lambda P: H.lcp(P, True)).attach(W)
        before = totals(H, bs)
        v = W.engine.solve_dynamics(W, W.dt)
        W.set_v(v)
        H.eq('momentum', totals(H, bs), before)
        H.cover('checked')
    return fn


def dissipative(n, pairs, joints=(), rest='common'):
    def fn(H):
        r = H.real('e', 0, 1) if rest == 'common' else H.frac(0)
        bs = cast(H, n, r, (lambda i: 0) if rest != 'none' else (lambda i: H.real('f%d' % i, 0)), n > 2) if pairs else some_bodies(H, n)
        found = [touching(H, bs, k, i, j) for k, (i, j) in enumerate(pairs)]
        js = [make(H, kind, bs[i], None if j is None else bs[j], k) for k, (kind, i, j) in enumerate(joints)]
        W = world(H, bs, js, dt=H.pos('dt'), contact_callback=reporting(H, found) if pairs else quiet(H))
        Lcp(H, H.lcp).attach(W)
        v0 = [vec(H, b.v) for b in bs]
        before = energy(H, bs)
        W.set_v(W.engine.solve_dynamics(W, W.dt))
        # 2 (1+r) (E' - E) = 2 w - (1-r) dv.M dv   with   w = (v' + r v).M dv
        w = 0
        for b, u in zip(bs, v0):
            d = sub(vec(H, b.v), u)
            w = w + dot(add(vec(H, b.v), scale(u, r) if pairs else [0, 0, 0]), momentum(H, b, d))
        H.le_via('kinetic energy does not grow', energy(H, bs), before, w <= 0)
        H.cover('checked')
    return fn


def circles(H):
    """the impact of round bodies, with any restitution up to 1 and any friction"""
    r = H.real('e', 0, 1)
    bs = [H.R.bodies.Circle(H.reals('c%d_' % i, 2), H.pos('r%d' % i), vel=H.reals('v%d_' % i, 3), mass=H.pos('m%d' % i), restitution=r, fric_coeff=H.real('f%d' % i, 0))
          for i in range(2)]
    th = H.angle('n')
    n = [H.cos(th), H.sin(th)]
    c = 0, 1, n, scale(n, -H.pos('a')), scale(n, H.pos('b')), depth(H, 0)
    W = world(H, bs, dt=H.pos('dt'), contact_callback=reporting(H, [c]))
    Lcp(H, H.lcp).attach(W)
    v0 = [vec(H, b.v) for b in bs]
    before = energy(H, bs)
    W.set_v(W.engine.solve_dynamics(W, W.dt))
    v1 = [vec(H, b.v) for b in bs]
    L = momentum(H, bs[0], sub(v1[0], v0[0]))[1:]
    vt, over = rates(H, bs, c, v0, v1)
    # normal and tangential motion do not mix; each loses energy when
    H.le_via('kinetic energy does not grow', energy(H, bs), before, dot(L, n) * over <= 0)
    H.le_via('kinetic energy does not grow', energy(H, bs), before, tangent(L, n) * vt <= 0)
    H.cover('checked')


def cases(tier):
    kw = dict(fake_ode=True)
    J = dict(fake_ode=True, angle_div=2)
    cs = [Case('momentum-contact', conserved(2, [(0, 1)]), ['checked'], **kw),
          Case('momentum-two', conserved(3, [(1, 0), (1, 2)]), ['checked'], **kw),
          Case('momentum-same', conserved(2, [(0, 1), (0, 1)]), ['checked'], **kw),
          Case('momentum-joint', conserved(2, [], [('revolute', 0, 1)]), ['checked'], **J),
          Case('momentum-fixed', conserved(2, [], [('fixed', 0, 1)]), ['checked'], **J),
          Case('momentum-joints', conserved(3, [], [('revolute', 2, 1), ('revolute', 1, 0)]), ['checked'], **J),
          Case('momentum-both', conserved(3, [(0, 1)], [('revolute', 1, 2)]), ['checked'], **J),
          Case('energy-contact', dissipative(2, [(0, 1)]), ['checked'], **kw),
          Case('energy-same', dissipative(2, [(0, 1), (0, 1)]), ['checked'], **kw),
          Case('energy-friction', dissipative(2, [(0, 1)], rest='none'), ['checked'], **kw),
          Case('energy-circles', circles, ['checked'], **kw),
          Case('energy-ground', dissipative(2, [(0, 1)], [('total', 1, None)], rest='none'), ['checked'], **kw),
          Case('energy-both', dissipative(3, [(0, 1)], [('revolute', 1, 2)], rest='smooth'), ['checked'], **J)]
    for k in ('revolute', 'fixed', 'pin', 'slider', 'total', 'pendulum', 'three'):
        n, mech = MECH[k]
        cs.append(Case('energy-' + k, dissipative(n, [], mech), ['checked'], **J))
    return cs
