"""C17 steps with contact"""
from vlib.engine import Case
from .common import *
from .c16 import force
from .c13 import vel_at
from .script import Lcp

BOUNDS = ('worlds of 2 to 4 bodies (circle, rectangle, polygon) with arbitrary masses, poses, velocities, forces, friction and restitution '
          'coefficients, step sizes; one contact anywhere with any normal, between free bodies or one held by joints, also after a step with another '
          'contact; two frictionless contacts of one pair; '
          'two contacts of one normal of different pairs, with friction, and in a frictionless chain (thorough: any normals, friction); every exact solution of the complementarity problem')
OUTSIDE = ('how close the interior point iteration gets to an exact solution (C21 and C22 cover its parts); more contacts at once; two contacts with '
           'friction on one pair')
ASSUMPTIONS = ['the complementarity solver returns some exact solution']


def bodies(H, n, rough=True):
    B = H.R.bodies
    out = []
    for i in range(n):
        kw = dict(vel=H.reals('v%d_' % i, 3), restitution=H.real('e%d' % i, 0), fric_coeff=H.real('f%d' % i, 0) if rough else 0)
        if n < 3:
            kw['mass'] = H.pos('m%d' % i)
        c = H.reals('c%d_' % i, 2)
        out.append([lambda: B.Circle(c, 1, **kw), lambda: B.Rect(c, [2, 1], **kw), lambda: B.Hull(c, [[2, 0], [0, 2], [-2, -2]], **kw)][i % 3]())
    return out


def reporting(H, found):
    """a contact handler that reports the given contacts"""
    class Handler(H.R.contacts.ContactHandler):
        def __call__(self, args, g1, g2):
            for i, j, n, p, q, pen in found:
                if (g1.body, g2.body) == (min(i, j), max(i, j)):
                    args[0].contacts.append(((H.tensor(n), H.tensor(p), H.tensor(q), H.tensor(pen)), i, j))
    return Handler


def depth(H, k):
    """what is reported of a touching pair: anything within reach (velocities do not depend on it)"""
    return H.real('pen%d' % k, -1, 0)


def contact(H, k, i, j, up=False):
    """an arbitrary contact"""
    if up:
        # with one normal, which keeps the arithmetic small when there are several
        return i, j, [H.frac(0), H.frac(1)], H.reals('p%d_' % k, 2), H.reals('q%d_' % k, 2), depth(H, k)
    th = H.angle('n%d' % k)
    return i, j, [H.cos(th), H.sin(th)], H.reals('p%d_' % k, 2), H.reals('q%d_' % k, 2), depth(H, k)


def momentum(H, b, d):
    I, m = H.num(b.ang_inertia), H.num(b.mass)
    return [I * d[0], m * d[1], m * d[2]]


def rates(H, bs, c, v0, v1):
    """normal and tangential separation velocity after, and the excess over what restitution demands"""
    i, j, nr, p, q, _ = c
    a = sub(vel_at(v0[i], p), vel_at(v0[j], q))
    b = sub(vel_at(v1[i], p), vel_at(v1[j], q))
    r = (H.num(bs[i].restitution) + H.num(bs[j].restitution)) / 2
    return dot(b, [-nr[1], nr[0]]), dot(b, nr) + r * dot(a, nr)


def tangent(L, nr):
    return dot(L, [-nr[1], nr[0]])


def coulomb(H, bs, c, L, v0, v1):
    """the impulse L that the first body received at contact c"""
    i, j, nr = c[:3]
    mu = (H.num(bs[i].fric_coeff) + H.num(bs[j].fric_coeff)) / 2
    N, T = dot(L, nr), tangent(L, nr)
    vt, over = rates(H, bs, c, v0, v1)
    H.ge('normal impulse pushes', N, 0)
    H.ge('separation at least as fast as restitution demands', over, 0)
    H.eq('impulse only when separating exactly that fast', N * over, 0)
    H.le('friction cone', T, mu * N)
    H.le('friction cone', -T, mu * N)
    if H.positive(vt):
        H.eq('friction at its limit when sliding', T, -mu * N)
        H.cover('slides')
    elif H.positive(-vt):
        H.eq('friction at its limit when sliding', T, mu * N)
    else:
        H.cover('sticks')
    if H.branch(N > 0):
        H.cover('hits')
        if not (isinstance(mu, (int, float)) and not mu) and H.branch(mu > 0):
            H.cover('grips')
    else:
        H.cover('separates')


HOLD = {'TotalConstraint': [0, 1, 2], 'RotConstraint': [0], 'XConstraint': [1], 'YConstraint': [2]}


class Scene:
    def __init__(self, H, n, found, joints=(), forces=True, rough=True):
        self.H, self.n, self.joints = H, n, joints
        self.bs = bodies(H, n, rough)
        js = [getattr(H.R.constraints, kind)(self.bs[i]) for kind, i in joints]
        self.f = [[0, 0, 0]] * n
        if forces:
            self.f = [H.reals('F%d_' % i, 3) for i in range(n)]
            for b, x in zip(self.bs, self.f):
                force(H, b, x)
        self.dt = H.pos('dt')
        self.W = world(H, self.bs, js, dt=self.dt, contact_callback=reporting(H, found))
        Lcp(H, lambda P: H.lcp(P, must=True)).attach(self.W)

    def step(self):
        """velocities before and after, and every body's impulse from contacts and joints"""
        H = self.H
        v0 = [vec(H, b.v) for b in self.bs]
        self.W.step()
        v1 = [vec(H, b.v) for b in self.bs]
        for kind, i in self.joints:
            H.eq('joint velocity', [v1[i][k] for k in HOLD[kind]], 0)
        return v0, v1, [sub(momentum(H, b, sub(w, u)), scale(x, self.dt)) for b, u, w, x in zip(self.bs, v0, v1, self.f)]

    def rest(self, left):
        """what is left of the impulses comes from the joints"""
        held = {(i, k) for kind, i in self.joints for k in HOLD[kind]}
        for i in range(self.n):
            for k in range(3):
                if (i, k) not in held:
                    self.H.eq('no other impulses', left[i][k], 0)


def leaves(pairs, n, joints=(), forces=True, rough=True, then=None, up=False):
    """contacts such that the impulse of each is read off a body that takes part in no later one; then: other contacts in a second step"""
    def fn(H):
        now = [contact(H, k, i, j, up) for k, (i, j) in enumerate(pairs)]
        found = list(now)
        S = Scene(H, n, found, joints, forces, rough)
        if then:
            # a first step (with any outcome), at the end of which other contacts are found
            now = [contact(H, len(pairs) + k, i, j) for k, (i, j) in enumerate(then)]
            found[:] = now
            answers = [H.reals('x', 3 * n)]
            Lcp(H, lambda P: answers.pop() if answers else H.lcp(P, must=True)).attach(S.W)
            S.W.step()
            S.W.set_v(H.tensor(sum([H.reals('w%d_' % i, 3) for i in range(n)], [])))
        v0, v1, left = S.step()
        for c in now:
            i, j, nr, p, q, _ = c
            if i in [b for _, b in joints]:
                raise AssertionError('the first body must be the leaf')
            L = list(left[i][1:])
            H.eq('impulse acts at the contact point', left[i][0], cross(p, L))
            left[i] = [0, 0, 0]
            left[j] = add(left[j], [cross(q, L)] + L)
            coulomb(H, S.bs, c, L, v0, v1)
        S.rest(left)
        H.cover('checked')
    return fn


def manifold(H):
    """two frictionless contacts with one (here vertical) normal between the same bodies"""
    a, b = [(0, 1, [H.frac(0), H.frac(1)], H.reals('p%d_' % k, 2), H.reals('q%d_' % k, 2), depth(H, k)) for k in (0, 1)]
    S = Scene(H, 2, [a, b], forces=False, rough=False)
    v0, v1, left = S.step()
    nr = a[2]
    ca, cb = cross(a[3], nr), cross(b[3], nr)
    H.assume(ca > cb)
    L = left[0][1:]
    H.eq('no friction', tangent(L, nr), 0)
    tot = dot(L, nr)
    N = [left[0][0] - cb * tot, ca * tot - left[0][0]]      # both times ca - cb
    for c, x in zip((a, b), N):
        vt, over = rates(H, S.bs, c, v0, v1)
        H.ge('normal impulse pushes', x, 0)
        H.ge('separation at least as fast as restitution demands', over, 0)
        H.eq('impulse only when separating exactly that fast', x * over, 0)
    H.eq('opposite impulse', left[1][1:], scale(L, -1))
    H.eq('opposite torque', left[1][0] * (ca - cb), -N[0] * cross(a[4], nr) - N[1] * cross(b[4], nr))
    H.cover('checked')


def cases(tier):
    kw = dict(fake_ode=True)
    cov = ['slides', 'sticks', 'hits', 'separates', 'grips']
    return [Case('one', leaves([(0, 1)], 2), cov, **kw),
            Case('one-reversed', leaves([(1, 0)], 2, forces=False), cov, **kw),
            Case('ground', leaves([(0, 1)], 2, [('TotalConstraint', 1)]), cov, **kw),
            Case('slider', leaves([(0, 1)], 2, [('YConstraint', 1)], forces=False), cov, **kw),
            Case('manifold', manifold, ['checked'], **kw),
            Case('third', leaves([(2, 0)], 3, forces=False), cov, **kw),
            Case('disjoint', leaves([(0, 1), (2, 3)], 4, forces=False, up=True), cov, **kw),
            Case('chain', leaves([(0, 1), (1, 2)], 3, forces=False, rough=False, up=True), ['separates', 'hits', 'sticks'], **kw),
            Case('again', leaves([(0, 1)], 2, forces=False, then=[(1, 0)]), cov, **kw)] + ([Case('chain-any', leaves([(0, 1), (1, 2)], 3, forces=False, rough=False), ['separates', 'hits', 'sticks'], **kw),
                    Case('disjoint-any', leaves([(0, 1), (2, 3)], 4, forces=False), cov, **kw),
                    Case('chain-rough', leaves([(0, 1), (1, 2)], 3, forces=False), cov, **kw),
                    Case('welded', leaves([(0, 1)], 2, [('RotConstraint', 1), ('YConstraint', 1)]), cov, **kw)] if tier == 'thorough' else [])
