"""C16 contact-free steps"""
from vlib.engine import Case
from .common import *
from .c03 import quiet
from .c14 import rates

BOUNDS = ('worlds of 1 to 3 bodies (circle, rectangle, polygon) with arbitrary masses, poses, velocities, clocks, step sizes (changing from step to step) and forces (constant, time '
          'dependent, gravity, any number of them); each joint and constraint type, and mechanisms of up to 3 bodies and 7 equations (chain, pinned '
          'chain, weld, slider); two to three consecutive steps, with arbitrary states in between')
OUTSIDE = 'mechanisms with redundant joints (singular system); closed loops; larger mechanisms'
ASSUMPTIONS = ['the joint system matrix is regular; torch.inverse returns its inverse']


def bodies(H, n, mass=True):
    B = H.R.bodies
    out = []
    for i in range(n):
        kw = dict(vel=H.reals('v%d_' % i, 3))
        if mass:
            kw['mass'] = H.pos('m%d' % i)
        c = H.reals('c%d_' % i, 2)
        out.append([lambda: B.Circle([H.angle('a%d' % i)] + c, H.pos('r%d' % i) if mass else 1, **kw), lambda: B.Rect(c, [2, 1], **kw),
                    lambda: B.Hull(c, [[2, 0], [0, 2], [-2, -2]], **kw)][i % 3]())
    return out


def force(H, b, f):
    """attach a force with value f (3 coordinates) at all times"""
    F = H.R.forces

    class Any(F.ExternalForce):
        def __init__(self):
            self.multiplier = 1

        def force(self, t):
            return H.tensor(f)
    b.add_force(Any())


def free(n, steps):
    def fn(H):
        bs = bodies(H, n)
        f = [[0, 0, 0] for _ in bs]
        for i, b in enumerate(bs):
            k = H.choose(3, 'forces%d' % i)
            if k == 1:
                f[i] = H.reals('f%d_' % i, 3)
                force(H, b, f[i])
            elif k == 2:
                g = H.real('g')
                b.add_force(H.R.forces.Gravity(g=g))
                f[i] = add(H.reals('f%d_' % i, 3), [0, 0, H.num(b.mass) * g])
                force(H, b, H.reals('f%d_' % i, 3))
        dt = H.pos('dt')
        W = world(H, bs, dt=dt, contact_callback=quiet(H))
        v = [vec(H, b.v) for b in bs]
        p = [vec(H, b.p) for b in bs]
        t = W.t = H.real('t0', 0)
        for s in range(steps):
            h = dt if s != 1 else H.pos('h')
            if s != 1:
                W.step()
            else:
                # a step of another length (what remains of a longer one, say)
                W.step_dt(h)
            t = t + h
            for i, b in enumerate(bs):
                I, m = H.num(b.ang_inertia), H.num(b.mass)
                v[i] = [v[i][0] + h * f[i][0] / I, v[i][1] + h * f[i][1] / m, v[i][2] + h * f[i][2] / m]
                p[i] = add(p[i], scale(v[i], h))
                H.eq('velocity', b.v, v[i])
                H.eq('pose', b.p, p[i])
            H.eq('world velocity', W.get_v(), sum(v, []))
            H.eq('clock', W.t, t)
            if s == 0 and H.choose(2, 'state set'):
                v = [H.reals('u%d_' % i, 3) for i in range(n)]
                W.set_v(H.tensor(sum(v, [])))
        H.cover('n%d' % n)
    return fn


def timed(H):
    """forces are taken at the time the step starts"""
    F = H.R.forces
    b = bodies(H, 1)[0]
    m, dt = H.pos('mult'), H.pos('dt')
    b.add_force(F.ExternalForce(F.hor_impulse, multiplier=m))
    W = world(H, [b], dt=dt, contact_callback=quiet(H))
    v, M = vec(H, b.v), H.num(b.mass)
    t = 0
    for s in range(2):
        W.step()
        if s == 0 or H.branch(t < H.frac(1, 10)):
            v = [v[0], v[1] + dt * m / M, v[2]]
            H.cover('pushed%d' % s)
        else:
            H.cover('over')
        t = t + dt
        H.eq('velocity', b.v, v)


# mechanism: list of (kind, i, j); leaves first, so that each impulse is read off a body that has no other unknown impulse
MECH = {
    'revolute': (2, [('revolute', 0, 1)]),
    'revolute-rev': (2, [('revolute', 1, 0)]),
    'pin': (1, [('pin', 0, None)]),
    'fixed': (2, [('fixed', 0, 1)]),
    'x': (1, [('x', 0, None)]), 'y': (1, [('y', 0, None)]), 'rot': (1, [('rot', 0, None)]), 'total': (2, [('total', 1, None)]),
    'slider': (2, [('y', 0, None), ('rot', 0, None)]),
    'three': (3, [('revolute', 2, 1)]),
    'pendulum': (2, [('revolute', 1, 0), ('pin', 0, None)]),
    'welded-slider': (2, [('fixed', 1, 0), ('x', 0, None)]),
    'cart': (2, [('revolute', 0, 1), ('y', 0, None), ('rot', 0, None)]),
    'chain': (3, [('revolute', 2, 1), ('revolute', 1, 0), ('pin', 0, None)]),
}


def make(H, kind, b1, b2, n):
    """joints with the anchor at an arbitrary place above the bodies (the other quadrants are C14's and C15's)"""
    C = H.R.constraints
    if kind in ('revolute', 'pin'):
        a = getattr(H, 'anchor', None) or H.reals('anchor%d_' % n, 2)
        for b in (b1, b2):
            if b is not None:
                H.assume(a[1] > H.num(b.pos[1]))
        return C.Joint(b1, b2, a)
    if kind == 'fixed':
        return C.FixedJoint(b1, b2)
    return {'x': C.XConstraint, 'y': C.YConstraint, 'rot': C.RotConstraint, 'total': C.TotalConstraint}[kind](b1)


def velocity_error(H, kind, b1, b2, r1, r2):
    from .c14 import vel_at
    v1 = vec(H, b1.v)
    if kind == 'pin':
        return vel_at(v1, r1)
    if kind in ('revolute', 'fixed'):
        v2 = vec(H, b2.v)
        e = sub(vel_at(v1, r1), vel_at(v2, r2))
        return e + ([v1[0] - v2[0]] if kind == 'fixed' else [])
    return {'x': [v1[1]], 'y': [v1[2]], 'rot': [v1[0]], 'total': v1}[kind]


def impulses(H, mech, imp, arms):
    """imp: impulse (ang, x, y) every body received from the joints; claims it is made of joint impulses"""
    imp = [list(x) for x in imp]
    for n, (kind, i, j) in enumerate(mech):
        r1, r2 = arms[n]
        others = [m for m in mech[n + 1:] if i in m[1:]]
        if kind in ('revolute', 'fixed'):
            # i is the leaf
            assert not [m for m in mech[n + 1:] if i in m[1:]] or all(m[0] in ('y', 'rot', 'x') for m in others)
            src, sgn, r = (i, 1, r1) if not others else (j, -1, r2)
            lam = scale(imp[src][1:], sgn)
            tor = (sgn * imp[src][0] - cross(r, lam)) if kind == 'fixed' else 0
            imp[i] = sub(imp[i], [cross(r1, lam) + tor] + lam)
            imp[j] = add(imp[j], [cross(r2, lam) + tor] + lam)
        elif kind == 'pin':
            lam = imp[i][1:]
            imp[i] = sub(imp[i], [cross(r1, lam)] + list(lam))
        else:
            for k in {'x': [1], 'y': [2], 'rot': [0], 'total': [0, 1, 2]}[kind]:
                imp[i][k] = 0
    for x in imp:
        H.eq('joint impulses act along the joints only', x, 0)


def joints(name, forces=True, steps=2, via='set', stab=False):
    n, mech = MECH[name]

    def fn(H):
        small = len(mech) > 2 or n > 2
        bs = bodies(H, n, not small)
        if via == 'step' and n == 2:
            # a fixed relative placement; everything else arbitrary
            a = H.reals('c0_', 2)
            bs[1].set_p(H.tensor([0., a[0] + H.frac(3, 2), a[1] - H.frac(1, 2)]))
            H.anchor = [a[0] + 3, a[1] + H.frac(3, 2)] if H.symbolic else [a[0] + 3, a[1] + 1.5]
        js = [make(H, k, bs[i], None if j is None else bs[j], m) for m, (k, i, j) in enumerate(mech)]
        f = [[0, 0, 0]] * n
        if forces:
            f = [H.reals('f%d_' % i, 3) for i in range(n)]
            for b, x in zip(bs, f):
                force(H, b, x)
        dt = H.pos('dt') if via == 'set' else 1
        W = world(H, bs, js, dt=dt, contact_callback=quiet(H), post_stab=stab)
        if via == 'set':
            W.t = H.real('t0', 0)
        for s in range(steps):
            h = H.pos('h') if s and via == 'set' else dt
            v0 = [vec(H, b.v) for b in bs]
            arms = []
            for (k, i, j), o in zip(mech, js):
                arms.append((sub(vec(H, o.pos), vec(H, bs[i].pos)), None if j is None else sub(vec(H, o.pos), vec(H, bs[j].pos))))
            p0 = [vec(H, b.p) for b in bs]
            W.step_dt(h) if s else W.step()
            for (k, i, j), a in zip(mech, arms):
                H.eq('joint velocity', velocity_error(H, k, bs[i], None if j is None else bs[j], *a), 0)
            imp = []
            for i, b in enumerate(bs):
                I, m = H.num(b.ang_inertia), H.num(b.mass)
                dv = sub(vec(H, b.v), v0[i])
                imp.append(sub([I * dv[0], m * dv[1], m * dv[2]], scale(f[i], h)))
                if not stab:
                    H.eq('pose', b.p, add(p0[i], scale(vec(H, b.v), h)))
            impulses(H, mech, imp, arms)
            H.cover('step%d' % s)
            if via == 'set' and s + 1 < steps:
                # any state: new poses and velocities (the joints follow body 1)
                W.set_p(H.tensor(sum([[H.num(b.p[0]) + H.angle('da%d' % i)] + H.reals('q%d_' % i, 2) for i, b in enumerate(bs)], [])))
                W.set_v(H.tensor(sum([H.reals('u%d_' % i, 3) for i in range(n)], [])))
                for o in js:
                    o.update_pos()
                W.find_contacts()
    return fn


def cases(tier):
    kw = dict(fake_ode=True, angle_div=2)
    cs = [Case('free-%d' % n, free(n, 3 if n < 3 else 2), ['n%d' % n], **kw) for n in (1, 2, 3)]
    cs.append(Case('timed', timed, ['pushed0', 'pushed1', 'over'], **kw))
    for k in MECH:
        cs.append(Case(k, joints(k), ['step0', 'step1'], **kw))
    for k in ('pin', 'revolute', 'fixed', 'slider'):
        cs.append(Case(k + '-consecutive', joints(k, False, 2, 'step'), ['step0', 'step1'], **kw))
    return cs
