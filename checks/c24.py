"""C24 derivatives of the motion"""
from vlib.engine import Case
from .common import *
from .c03 import quiet

BOUNDS = ('1-2 bodies (circles, boxes, one triangle), all poses, velocities, masses, sizes, anchor positions, multipliers, time steps symbolic; '
          '1-2 steps (free, pinned, hinged, welded, on rails, motor held, after a failed attempt, with post-stabilization); construction of any '
          'triangle; the contact problem posed for 1-2 contacts with arbitrary geometry; autograd is executed by the real torch on the symbolic '
          'tensors and compared, for every value of the inputs, with the exact derivative of the computed outputs with respect to each input')
OUTSIDE = ('derivatives through the interior point solver (C23) and collision detection (C25); kinks (paths decided by an equality are compared with '
           'the derivative of the expressions the outputs equal around it where those are known, otherwise with the one computed on the path); '
           'singular joint systems; second derivatives; rounding')
HUNT = False        # finite differences near a kink decide nothing


def stack(L, *names):
    import torch
    return torch.stack([L[n] for n in names])


class Leaves:
    """leaf values of one scene, with bodies built from them"""

    def __init__(self, H):
        self.H, self.vals, self.make = H, {}, []

    def leaf(self, name, v):
        self.vals[name] = v
        return name

    def body(self, kind, mass=True, turned=True, vel=True):
        H, i = self.H, len(self.make)
        B = H.R.bodies
        n = {k: '%s%d' % (k, i) for k in 'a x y w vx vy m r h'.split()}
        self.leaf(n['x'], H.real(n['x'])), self.leaf(n['y'], H.real(n['y']))
        self.leaf(n['a'], H.angle(n['a']))
        for k in ('w', 'vx', 'vy'):
            self.leaf(n[k], H.real(n[k]))
        self.leaf(n['m'], H.pos(n['m']))
        self.leaf(n['r'], H.pos(n['r']))
        if kind != 'circle':
            self.leaf(n['h'], H.pos(n['h']))

        def make(L):
            p, v = stack(L, n['a'], n['x'], n['y']), stack(L, n['w'], n['vx'], n['vy'])
            m = L[n['m']]
            if kind == 'circle':
                return B.Circle(p, L[n['r']], vel=v, mass=m)
            if kind == 'rect':
                return B.Rect(p, stack(L, n['r'], n['h']), vel=v, mass=m)
            return B.Hull(p[1:], [stack(L, n['r'], n['h']), [-1, 0.5], [0, -1]], vel=v, mass=m)
        self.make.append(make)
        return i


def state(bodies):
    out = []
    for b in bodies:
        out += list(b.p) + list(b.v)
        for v in getattr(b, 'verts', [])[:2]:
            out += list(v)
    return out


def triangle(H, vs):
    """(moment of inertia per mass, first vertices about the centroid, centroid)"""
    c = [(vs[0][i] + vs[1][i] + vs[2][i]) / 3 for i in (0, 1)]
    ws = [sub(v, c) for v in vs]
    return sum((dot(w, w) for w in ws[1:]), dot(ws[0], ws[0])) / 12, ws[:2], c


def free(kind, steps):
    def fn(H):
        S = Leaves(H)
        S.body(kind)
        f = [S.leaf('f%d' % i, H.real('f%d' % i)) for i in range(3)]
        g = S.leaf('g', H.real('g'))
        dt = H.pos('dt', 1)

        def run(L):
            F = H.R.forces
            b = S.make[0](L)

            class Any(F.ExternalForce):
                def __init__(self):
                    self.multiplier = 1

                def force(self, t):
                    return stack(L, *f)
            b.add_force(Any())
            b.add_force(F.Gravity(L[g]))
            W = world(H, [b], dt=dt, contact_callback=quiet(H))
            for _ in range(steps):
                W.step()
            return state([b])
        V = S.vals
        a, m, r = V['a0'], V['m0'], V['r0']
        p, v = [a, V['x0'], V['y0']], [V['w0'], V['vx0'], V['vy0']]
        vs = []
        if kind == 'circle':
            I = m * r * r / 2
        elif kind == 'rect':
            I = m * (r * r + V['h0'] * V['h0']) / 12
            vs = [rot(H, a, x) for x in ([r / 2, V['h0'] / 2], [-r / 2, V['h0'] / 2])]
        else:
            I, vs, c = triangle(H, [[r, V['h0']], [-1, H.frac(1, 2)], [0, -1]])
            I = m * I
            p = [0] + add(p[1:], c)
        F = [V['f0'], V['f1'], V['f2'] + m * V['g']]
        for _ in range(steps):
            v = [v[0] + dt * F[0] / I, v[1] + dt * F[1] / m, v[2] + dt * F[2] / m]
            p = add(p, scale(v, dt))
            vs = [rot(H, dt * v[0], x) for x in vs]
        H.gradcheck('free', run, S.vals, p + v + sum(vs, []))
        H.cover('free')
    return fn


def mech(kinds, spec, steps, leaves=None, post=False, retry=False, above=False):
    """bodies held by joints; above: anchored above the first body's centre; retry: the first attempt of each step is refused"""
    def fn(H):
        S = Leaves(H)
        for k in kinds:
            S.body(k)
        at = [S.leaf('j%d' % i, H.real('j%d' % i)) for i in range(2)]
        if above:
            H.assume(S.vals['j1'] > S.vals['y0'])
        mult = S.leaf('mult', H.real('mult'))
        dt = H.pos('dt', 1)
        n = list(S.vals)

        def run(L):
            C, F = H.R.constraints, H.R.forces
            bs = [m(L) for m in S.make]
            for b in bs:
                b.add_force(F.Gravity())
            bs[0].add_force(F.ExternalForce(F.rot_impulse, multiplier=L[mult]))
            js = []
            for k, i, j in spec:
                a, b = bs[i], None if j is None else bs[j]
                js.append({'joint': lambda: C.Joint(a, b, stack(L, *at)), 'fixed': lambda: C.FixedJoint(a, b), 'x': lambda: C.XConstraint(a),
                           'y': lambda: C.YConstraint(a), 'rot': lambda: C.RotConstraint(a), 'total': lambda: C.TotalConstraint(a)}[k]())
            R = Refuse(H, retry)
            W = H.R.world.World(bs, js, dt=dt, contact_callback=R.handler(), post_stab=post)
            for _ in range(steps):
                W.step()
            # the levers are what the next step is posed with
            held = [j for (k, _, _), j in zip(spec, js) if k in ('joint', 'fixed')]
            return state(bs) + sum([list(j.pos) for j in held], []) + [J[i, 0] for j in held for J in j.J() if J is not None for i in (0, 1)]
        vals = {k: v for k, v in S.vals.items() if k in (leaves or n)}
        rest = {k: H.tensor(v) for k, v in S.vals.items() if k not in vals}
        H.gradcheck('mechanism', lambda L: run(dict(rest, **L)), vals)
        H.cover('joint')
    return fn


class Refuse:
    """contact detection that reports a penetration after the first attempt of every step, nothing otherwise"""

    def __init__(self, H, on):
        self.H, self.on, self.calls = H, on, 0

    def handler(self):
        R, H = self, self.H

        class Handler(H.R.contacts.ContactHandler):
            def __call__(self, args, g1, g2):
                R.calls += 1
                if R.on and R.calls % 2 == 0:
                    args[0].contacts.append(((H.tensor([1., 0.]), H.tensor([0., 0.]), H.tensor([0., 0.]), H.tensor(2.)), 0, 1))
        return Handler


def posed(n, joints=False):
    """the complementarity problem of a step with n contacts as a function of the bodies' material and of the contacts"""
    def fn(H):
        B = H.R.bodies
        vals = {}

        def leaf(name, v):
            vals[name] = v
            return name
        vs, mat, con = [], [], []
        for i in range(2):
            vs.append([leaf('v%d_%d' % (i, k), H.real('v%d_%d' % (i, k))) for k in range(3)])
            mat.append([leaf('%s%d' % (k, i), H.pos('%s%d' % (k, i))) for k in ('m', 'r', 'rest', 'mu')])
        for c in range(n):
            con.append([leaf('c%d_%d' % (c, k), H.real('c%d_%d' % (c, k))) for k in range(6)])
        g = leaf('g', H.real('g'))
        dt = H.pos('dt', 1)

        def run(L):
            bs = [B.Circle(H.tensor([0., 3. * i, 0.]), L[mat[i][1]], vel=stack(L, *vs[i]), mass=L[mat[i][0]], restitution=L[mat[i][2]],
                           fric_coeff=L[mat[i][3]]) for i in range(2)]
            bs[0].add_force(H.R.forces.Gravity(L[g]))

            class Handler(H.R.contacts.ContactHandler):
                def __call__(self, args, g1, g2):
                    for k in con:
                        args[0].contacts.append(((stack(L, *k[0:2]), stack(L, *k[2:4]), stack(L, *k[4:6]), H.tensor(-1.)), 0, 1))
            js = [H.R.constraints.YConstraint(bs[1])] if joints else []
            W = H.R.world.World(bs, js, dt=dt, contact_callback=Handler)
            seen = []

            class Solver:
                def __init__(self, *a, **kw):
                    pass

                def __call__(self, *a):
                    seen.append(a)
                    return H.tensor([[0.] * 6])
            W.engine.lcp_solver = Solver
            W.step()
            out = []
            for t in seen[0]:
                out += list(t.reshape(-1))
            return out
        H.gradcheck('problem', run, vals)
        H.cover('posed')
    return fn


def built(H):
    """construction: everything a polygon derives from its vertices"""
    vals = {}
    for i in range(3):
        for k in 'xy':
            vals['%s%d' % (k, i)] = H.real('%s%d' % (k, i))
    vals.update(m=H.pos('m'), px=H.real('px'), py=H.real('py'))
    V = [[vals['x%d' % i], vals['y%d' % i]] for i in range(3)]
    H.assume(cross(sub(V[1], V[0]), sub(V[2], V[0])) > 0)

    def run(L):
        b = H.R.bodies.Hull(stack(L, 'px', 'py'), [stack(L, 'x%d' % i, 'y%d' % i) for i in range(3)], mass=L['m'])
        return list(b.p) + list(b.M.reshape(-1)) + sum([list(v) for v in b.verts], [])
    I, _, c = triangle(H, V)
    m = vals['m']
    H.gradcheck('polygon', run, vals, [0, vals['px'] + c[0], vals['py'] + c[1], m * I, 0, 0, 0, m, 0, 0, 0, m] + sum([sub(v, c) for v in V], []))
    H.cover('built')


DIFF = dict(inv_entries=True, opaque_angles=2)


def cases(tier):
    cs = []

    def case(name, fn, cov):
        cs.append(Case(name, fn, [cov], fake_ode=True, **DIFF))
    for k in ('circle', 'rect', 'hull'):
        case('free-%s' % k, free(k, 2), 'free')
    case('built', built, 'built')
    case('pin', mech(['circle'], [('joint', 0, None)], 2), 'joint')
    case('pin-box', mech(['rect'], [('joint', 0, None)], 1, above=True), 'joint')
    case('revolute', mech(['circle', 'circle'], [('joint', 0, 1)], 1), 'joint')
    case('weld', mech(['circle', 'circle'], [('fixed', 0, 1)], 1), 'joint')
    case('slider', mech(['rect'], [('y', 0, None), ('rot', 0, None)], 2), 'joint')
    case('rail', mech(['rect'], [('x', 0, None)], 2), 'joint')
    case('held', mech(['rect'], [('total', 0, None)], 2), 'joint')
    case('retry', mech(['rect', 'circle'], [('joint', 0, None)], 1, retry=True), 'joint')
    case('posed', posed(1), 'posed')
    case('posed-2', posed(2, True), 'posed')
    case('corrected', mech(['circle'], [('joint', 0, None)], 1, post=True, above=True, leaves=['x0', 'w0', 'm0', 'j1', 'mult']), 'joint')
    if tier == 'thorough':
        case('weld-2', mech(['circle', 'circle'], [('fixed', 1, 0)], 2), 'joint')
        case('weld-retry', mech(['circle', 'rect'], [('fixed', 0, 1)], 1, retry=True), 'joint')
        case('revolute-box', mech(['circle', 'rect'], [('joint', 1, 0)], 1, above=True), 'joint')
        case('pin-2', mech(['rect'], [('joint', 0, None)], 2, above=True, leaves=['x0', 'w0', 'm0', 'j0']), 'joint')
        case('corrected-2', mech(['circle'], [('joint', 0, None)], 1, post=True), 'joint')
        case('posed-3', posed(3, True), 'posed')
    return cs
