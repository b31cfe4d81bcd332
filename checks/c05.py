"""C05 broad phase volumes follow and enclose the bodies"""
from vlib.engine import Case
from .common import *

BOUNDS = ('circles, rectangles, triangles of any size with any contact distance; construction and every sequence of 2 pose changes '
          '(assignment, timed move, world assignment); worlds of 3 bodies')
OUTSIDE = 'the pair search of the ODE library itself (trusted to report every pair of overlapping volumes); longer histories'


def inside(H, body, slack):
    """the geom contains the body grown by slack (both in the plane)"""
    g = body.geom
    p = vec(H, body.pos)
    gp = [H.num(x) for x in g.getPosition()]
    H.eq('volume is centred on the body', gp, p + [0])
    if hasattr(g, 'getRadius'):
        R = H.num(g.getRadius())
        if hasattr(body, 'verts'):
            for v in verts(H, body):
                H.ge('sphere radius', R - slack, 0)
                H.ge('sphere contains vertex', (R - slack) * (R - slack), dot(v, v))
        else:
            H.ge('sphere contains circle', R, H.num(body.rad) + slack)
    else:
        L = [H.num(x) for x in g.getLengths()]
        M = [H.num(x) for x in g.getRotation()]
        ax = [[M[0], M[3]], [M[1], M[4]]]
        H.eq('turns in the plane', [M[2], M[5], M[6], M[7]], 0)
        for v in verts(H, body):
            for k in (0, 1):
                c = dot(v, ax[k])
                H.le('box contains corner', c, L[k] / 2 - slack)
                H.ge('box contains corner (other side)', c, slack - L[k] / 2)
        H.lt('box has depth', 0, L[2])


def make(H, kind, eps):
    B = H.R.bodies
    if kind == 0:
        return B.Circle(H.reals('c', 2), H.pos('r', 50), eps=eps)
    if kind == 1:
        return B.Rect([H.angle('th')] + H.reals('c', 2), [H.pos('w', 50), H.pos('h', 50)], eps=eps)
    if kind == 2:
        return B.Rect(H.reals('c', 2), [H.pos('w', 50), H.pos('h', 50)], eps=eps)
    s = H.pos('s', 20)
    vs = [[4 * s, 0], [0, s], [-s, -2 * s]]
    k = H.choose(3, 'first vertex')
    return B.Hull(H.reals('c', 2), vs[k:] + vs[:k], eps=eps)


def history(kind):
    def fn(H):
        eps = H.pos('eps', 5)
        b = make(H, kind, eps)
        inside(H, b, eps / 2)
        for k in range(2):
            if H.choose(2, 'op') == 0:
                H.cover('assign')
                b.set_p(H.tensor([vec(H, b.p)[0] + H.angle('t%d' % k)] + H.reals('q%d_' % k, 2)))
            else:
                H.cover('move')
                b.v = H.tensor([H.angle('w%d' % k)] + H.reals('v%d_' % k, 2))
                b.move(1)
            inside(H, b, eps / 2)
    return fn


def default_eps(H):
    """bodies built with defaults suit worlds built with defaults"""
    B = H.R.bodies
    r, w = H.pos('r', 50), H.pos('w', 50)
    bodies = [B.Circle([0, 0], r), B.Rect([0, 200], [w, r]), B.Hull([0, -200], [[r, 0], [0, r], [-r, -r]])]
    W = world(H, bodies, contact_callback=no_contacts(H))
    for i, b in enumerate(bodies):
        inside(H, b, F(1, 20))
        H.true('registered under its index', b.geom.body == i)
        H.true('in the space', W.space.query(b.geom) == 1)
    H.true('nothing else in the space', W.space.getNumGeoms() == 3)
    H.eq('contact distance', W.eps, F(1, 10))
    t = H.angle('t')
    q = H.reals('q', 9)
    W.set_p(H.tensor([t] + q[:2] + [t] + q[3:5] + [t] + q[6:8]))
    for b in bodies:
        inside(H, b, F(1, 20))


def no_contacts(H):
    class Quiet(H.R.contacts.ContactHandler):
        def __call__(self, *a):
            pass
    return Quiet


def pairs(H):
    """the world asks its handler about every pair of near bodies, for the current poses"""
    B = H.R.bodies
    asked = []

    class Asker(H.R.contacts.ContactHandler):
        def __call__(self, args, g1, g2):
            asked.append(frozenset((g1.body, g2.body)))
            self.world = args[0]
            args[0].contacts.append(((H.tensor([1., 0.]), H.tensor([0., 0.]), H.tensor([0., 0.]), H.tensor([-1.])), g1.body, g2.body))
    x = H.reals('x', 2, -1, 1)
    bodies = [B.Circle([0, 0], 1), B.Rect([x[0], 1], [2, 2]), B.Hull([0, x[1]], [[1, 0], [0, 1], [-1, -1]])]
    W = world(H, bodies, contact_callback=Asker)
    want = {frozenset(p) for p in ((0, 1), (0, 2), (1, 2))}
    H.true('all pairs asked', set(asked) == want)
    H.true('contacts collected', len(W.contacts) == 3)
    del asked[:]
    W.find_contacts()
    H.true('all pairs asked again', set(asked) == want)
    H.true('old contacts dropped', len(W.contacts) == 3)


def cases(tier):
    cs = [Case('history-%d' % k, history(k), ['assign', 'move'], angle_div=2) for k in range(4)]
    return cs + [Case('world', default_eps, angle_div=2), Case('pairs', pairs)]
