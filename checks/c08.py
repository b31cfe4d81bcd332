"""C08 circle-circle contacts"""
from vlib.engine import Case
from .common import *

BOUNDS = 'all distinct centres, radii, initial angles and contact distances; first and repeated detection; after any pose change'
OUTSIDE = 'coincident centres (the normal is undefined)'


def check(H, a, b, eps, cs):
    d = sub(vec(H, a.pos), vec(H, b.pos))
    dist = norm(H, d)
    pen = H.num(a.rad) + H.num(b.rad) - dist
    near = H.branch(pen >= -eps)
    H.true('one contact exactly when near', len(cs) == (1 if near else 0))
    if not near:
        H.cover('miss')
        return
    H.cover('hit')
    if len(cs) != 1:
        return
    n, p1, p2, p = cs[0]
    H.eq('normal', n, [d[0] / dist, d[1] / dist])
    H.eq('penetration', p, pen)
    w1, w2 = add(vec(H, a.pos), p1), add(vec(H, b.pos), p2)
    H.eq('points coincide', w1, w2)
    mid = H.num(a.rad) - pen / 2
    H.eq('midway between the surfaces', p1, [-n[0] * mid, -n[1] * mid])


def circles(H):
    B = H.R.bodies
    eps = H.pos('eps', 100)
    ca, cb = H.reals('a', 2), H.reals('b', 2)
    d = sub(ca, cb)
    H.assume(H.either(d[0] != 0, d[1] != 0))
    a = B.Circle([H.angle('t')] + ca, H.pos('ra'))
    b = B.Circle(cb, H.pos('rb'))
    check(H, a, b, eps, collide(H, a, b, eps))


def moved(H):
    B = H.R.bodies
    eps = H.pos('eps', 100)
    a, b = B.Circle([0, 0], H.pos('ra')), B.Circle([3, 4], H.pos('rb'))
    h = handler(H)
    collide(H, a, b, eps, h)
    q = H.reals('q', 2)
    a.set_p(H.tensor([H.angle('t')] + q))
    b.v = H.tensor([1.0] + H.reals('v', 2))
    b.move(H.pos('dt'))
    d = sub(vec(H, a.pos), vec(H, b.pos))
    H.assume(H.either(d[0] != 0, d[1] != 0))
    check(H, a, b, eps, collide(H, a, b, eps, h))


def in_world(H):
    """through a world: default contact distance, any body order"""
    B = H.R.bodies
    bodies = [B.Rect([1000, 1000], [1, 1]), B.Circle(H.reals('a', 2, -100, 100), H.pos('ra', 10)),
              B.Circle(H.reals('b', 2, -100, 100), H.pos('rb', 10))]
    d = sub(vec(H, bodies[1].pos), vec(H, bodies[2].pos))
    H.assume(H.either(d[0] != 0, d[1] != 0))
    bodies[0].add_no_contact(bodies[1])
    bodies[0].add_no_contact(bodies[2])
    w = world(H, bodies)
    cs = []
    for (c, i, j) in w.contacts:
        H.true('the circles', {i, j} == {1, 2})
        n, p1, p2, p = c
        if i == 2:
            n, p1, p2 = -n, p2, p1
        cs.append((vec(H, n), vec(H, p1), vec(H, p2), H.num(p)))
    check(H, bodies[1], bodies[2], F(1, 10) if H.symbolic else 0.1, cs)


def cases(tier):
    return [Case('circles', circles, ['hit', 'miss']), Case('moved', moved, ['hit', 'miss']), Case('world', in_world, ['hit', 'miss'])]
