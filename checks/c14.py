"""C14 joint Jacobians"""
from vlib.engine import Case
from .common import *
from .c03 import quiet

BOUNDS = ('every joint and constraint type on arbitrary circle, rectangle and triangle bodies with arbitrary poses, anchors and velocities, at '
          'construction and after one and two moves; worlds of 3 bodies with 4 joints in any body order')
OUTSIDE = 'longer histories'


def mk(H, n):
    B = H.R.bodies
    out = []
    for i in range(n):
        c = [H.angle('a%d' % i)] + H.reals('c%d_' % i, 2)
        v = H.reals('v%d_' % i, 3)
        out.append(B.Circle(c, 1, vel=v) if i != 1 else B.Rect(c[1:], [2, 1], vel=v))
    return out


def vel_at(v, p):
    return [v[1] - v[0] * p[1], v[2] + v[0] * p[0]]


def state(H, b):
    return vec(H, b.v), vec(H, b.pos)


KINDS = ['revolute', 'pin', 'fixed', 'x', 'y', 'rot', 'total']


def make(H, kind, b1, b2, tag=''):
    C = H.R.constraints
    if kind == 'revolute':
        return C.Joint(b1, b2, H.reals('anchor' + tag, 2))
    if kind == 'pin':
        return C.Joint(b1, None, H.reals('anchor' + tag, 2))
    if kind == 'fixed':
        return C.FixedJoint(b1, b2)
    return {'x': C.XConstraint, 'y': C.YConstraint, 'rot': C.RotConstraint, 'total': C.TotalConstraint}[kind](b1)


def rates(H, kind, j, b1, b2):
    """what J v has to be"""
    v1, x1 = state(H, b1)
    if kind in ('revolute', 'pin'):
        a = vec(H, j.pos)
        r = vel_at(v1, sub(a, x1))
        if kind == 'pin':
            return r
        v2, x2 = state(H, b2)
        return sub(r, vel_at(v2, sub(a, x2)))
    if kind == 'fixed':
        v2, x2 = state(H, b2)
        return sub(v1[1:], vel_at(v2, sub(x1, x2))) + [v1[0] - v2[0]]
    return {'x': [v1[1]], 'y': [v1[2]], 'rot': [v1[0]], 'total': v1}[kind]


def apply(J, v):
    return [dot(r, v) for r in J]


def check(H, kind, j, b1, b2):
    J1, J2 = j.J()
    got = apply(rows(H, J1), vec(H, b1.v))
    two = kind in ('revolute', 'fixed')
    H.true('second block exactly for two bodies', (J2 is not None) == two)
    if two:
        got = add(got, apply(rows(H, J2), vec(H, b2.v)))
    want = rates(H, kind, j, b1, b2)
    H.true('number of rows', len(got) == len(want) == j.num_constraints)
    H.eq('rate of the joint error', got, want)


def single(kind, nmoves):
    def fn(H):
        b1, b2 = mk(H, 2)
        if H.choose(2, 'order'):
            b1, b2 = b2, b1
        j = make(H, kind, b1, b2)
        x0 = vec(H, j.pos)
        if kind in ('revolute', 'pin'):
            H.eq('anchor', x0, H.reals('anchor', 2))
        check(H, kind, j, b1, b2)
        for k in range(nmoves):
            r1 = sub(vec(H, j.pos), vec(H, b1.pos))
            w = H.angle('w%d' % k)
            b1.v = H.tensor([w] + H.reals('l%d_' % k, 2))
            b2.v = H.tensor([H.angle('z%d' % k)] + H.reals('k%d_' % k, 2))
            for b in (b1, b2):
                b.move(1)
            j.move(1)
            if kind in ('revolute', 'pin', 'fixed'):
                H.eq('anchor follows body 1', j.pos, add(vec(H, b1.pos), rot(H, w, r1)))
            check(H, kind, j, b1, b2)
            H.cover('moved')
        H.cover('checked')
    return fn


def stacked(order):
    """rows in the order of the joints, columns in the order of the bodies"""
    def fn(H):
        bs = mk(H, 3)
        js = [('revolute', 0, 2), ('x', 1, None), ('fixed', 2, 1), ('pin', 1, None), ('total', 2, None), ('rot', 0, None), ('y', 2, None)]
        js = [js[k] for k in order]
        objs = [make(H, k, bs[i], None if l is None else bs[l], str(n)) for n, (k, i, l) in enumerate(js)]
        W = world(H, bs, objs, contact_callback=quiet(H))
        Je = rows(H, W.Je())
        v = sum([vec(H, b.v) for b in bs], [])
        want, at = [], []
        for (k, i, l), j in zip(js, objs):
            r = rates(H, k, j, bs[i], None if l is None else bs[l])
            want += r
            at += [{i, l}] * len(r)
        H.true('rows', len(Je) == len(want) == W.num_constraints and all(len(r) == 9 for r in Je))
        H.eq('stacked rates', apply(Je, v), want)
        for r, who in zip(Je, at):
            for b in range(3):
                if b not in who:
                    H.eq('no effect on others', r[3 * b:3 * b + 3], 0)
        H.cover('checked')
    return fn


def cases(tier):
    n = 2 if tier == 'thorough' else 1
    cs = [Case(k, single(k, n), ['checked', 'moved'], angle_div=2) for k in KINDS]
    return cs + [Case('stack-%d' % i, stacked(o), ['checked'], angle_div=2)
                 for i, o in enumerate([(0, 1, 2, 3), (4, 2, 0, 5), (6, 5, 1), (3, 4, 0, 1, 2, 5, 6)])]
