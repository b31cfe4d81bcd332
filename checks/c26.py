"""C26 post-stabilization"""
from vlib.engine import Case
from .common import *
from .c03 import quiet
from .c16 import joints, MECH, bodies, force, make, velocity_error, impulses
from .script import Script

BOUNDS = ('worlds of 1 and 2 bodies with arbitrary masses, poses, velocities and step sizes; no joint, every joint and constraint type and a '
          'slider; one step after arbitrary engine velocities (with 0 to 2 failed attempts) and one or two steps of the real engine, also with an arbitrary state between the steps; two steps with one contact whose geometry changes at every detection')
OUTSIDE = 'mechanisms with redundant joints; the value of the correction while bodies are in contact (its effect on velocities and clock is covered)'
ASSUMPTIONS = ['the joint system matrix is regular; torch.inverse returns its inverse']


def engine(H, S):
    """any velocities from the dynamics, the real post-stabilization"""
    E = S.engine()

    class Engine(H.R.engines.PdipmEngine):
        solve_dynamics = E.solve_dynamics
    return Engine


def corrected(name, fails):
    n, mech = MECH[name] if name else (2, [])
    n = max(n, 2)

    def fn(H):
        bs = bodies(H, n)
        js = [make(H, k, bs[i], None if j is None else bs[j], m) for m, (k, i, j) in enumerate(mech)]
        plan = {1 + k: [2.] for k in range(fails)}
        plan[0] = plan[1 + fails] = [0.] * 0
        S = Script(H, plan)
        S.joints = js
        W = H.R.world.World(bs, js, dt=1, engine=engine(H, S), contact_callback=S.handler(), post_stab=True)
        W.step()
        used = H.frac(1, 2 ** fails)
        H.eq('clock', W.t, used)
        vs = S.vels[0]
        H.eq('world velocity', W.get_v(), sum(vs, []))
        H.true('contacts are looked up at the corrected poses', len(S.seen) == fails + 3)
        before, anchors = S.seen[fails + 1]
        after = [vec(H, b.p) for b in bs]
        for i, b in enumerate(bs):
            H.eq('velocity', b.v, vs[i])
            H.eq('contacts are looked up at the corrected poses', S.seen[-1][0][i], after[i])
        dp = [scale(sub(after[i], before[i]), 2 / used) for i in range(n)]
        if not mech:
            H.eq('no joint, no correction', dp, 0)
            H.cover('done')
            return

        class Body:
            """what the joints see: velocity plus correction"""
            def __init__(self, i):
                self.v = add(vs[i], dp[i])
        arms = []
        for (k, i, j), a in zip(mech, anchors):
            arms.append((sub(a[0], before[i][1:]), None if j is None else sub(a[0], before[j][1:])))
        fake = [Body(i) for i in range(n)]
        for (k, i, j), a in zip(mech, arms):
            H.eq('the corrected motion keeps the joints', velocity_error(H, k, fake[i], None if j is None else fake[j], *a), 0)
        imp = [[H.num(b.ang_inertia) * d[0], H.num(b.mass) * d[1], H.num(b.mass) * d[2]] for b, d in zip(bs, dp)]
        impulses(H, mech, imp, arms)
        for (k, i, j), o, a in zip(mech, js, arms):
            r = sub(vec(H, o.pos), after[i][1:])
            if k in ('revolute', 'pin'):
                H.eq('anchor keeps its distance to the body', dot(r, r), dot(a[0], a[0]))
            else:
                H.eq('constraint stays with the body', r, a[0])
            if j is not None:
                H.eq('offset to the second body', add(after[j][1:], vec(H, o.pos2)), o.pos)
        H.cover('done')
    return fn


def alike(name, forces, steps):
    """the real engine, with and without: same velocities and clock; same poses where velocities satisfy the joints at the new pose, too"""
    n, mech = MECH[name] if name else (2, [])
    static = all(k[0] in ('x', 'y', 'rot', 'total') for k in mech)

    def fn(H):
        ws = []
        dt = H.pos('dt')
        for on in (False, True):
            bs = bodies(H, n)
            js = [make(H, k, bs[i], None if j is None else bs[j], m) for m, (k, i, j) in enumerate(mech)]
            if forces:
                for i, b in enumerate(bs):
                    force(H, b, H.reals('f%d_' % i, 3))
            ws.append(world(H, bs, js, dt=dt, contact_callback=quiet(H), post_stab=on))
        a, b = ws
        for s in range(steps):
            a.step()
            b.step()
            H.eq('same velocities', b.get_v(), vec(H, a.get_v()))
            H.eq('same clock', b.t, a.t)
            for x, y in zip(a.bodies, b.bodies):
                H.eq('same velocities of the bodies', y.v, vec(H, x.v))
                if static:
                    H.eq('satisfied joints need no correction', y.p, vec(H, x.p))
        H.cover('done')
    return fn


def touching(H):
    """in contact: whatever correction the solver returns, poses move by half of it and nothing else changes"""
    B = H.R.bodies
    dt = H.pos('dt')
    bs = [B.Circle([H.angle('a')] + H.reals('c', 2), 1, mass=H.pos('m')), B.Rect([H.angle('b')] + H.reals('d', 2), [2, 1])]
    k = H.choose(2, 'contacts')
    S = Script(H, {0: [0.], 1: [0.] * (k + 1), 2: [0.]})
    E = engine(H, S)
    x = H.reals('x', 6)
    calls = []

    class Solver:
        def __init__(self, *a, **kw):
            pass

        def __call__(self, *a):
            calls.append(a)
            return H.tensor([x])
    js = [[H.R.constraints.YConstraint(bs[1])], [H.R.constraints.FixedJoint(bs[0], bs[1])]][H.choose(2, 'joint')]
    W = H.R.world.World(bs, js, dt=dt, engine=E, contact_callback=S.handler(), post_stab=True)
    W.engine.lcp_solver = Solver
    W.step()
    vs = S.vels[0]
    H.true('solver asked once', len(calls) == 1)
    H.eq('clock', W.t, dt)
    H.eq('world velocity', W.get_v(), sum(vs, []))
    for i, b in enumerate(bs):
        H.eq('velocity', b.v, vs[i])
        H.eq('half the correction', b.p, sub(S.seen[1][0][i], scale(x[3 * i:3 * i + 3], dt / 2)))
    Q, p, G, h, A, bb, Fm = [c for c in calls[0]]
    V = sum(vs, [])
    H.eq('cost is the kinetic norm', Q, W.M().unsqueeze(0))
    H.eq('no bias', p, 0)
    H.eq('no coupling', Fm, 0)
    H.eq('joint equation', bb, apply(rows(H, A[0]), V))
    rest = (H.num(bs[0].restitution) + H.num(bs[1].restitution)) / 2
    g = apply(rows(H, G[0]), V)
    H.eq('contact inequality', h, [y * (1 - rest) for y in g])
    H.cover('k%d' % k)


def turning(H):
    """the contacts found after the motion, not those before it, are what the correction respects"""
    B = H.R.bodies
    dt = H.pos('dt')
    bs = [B.Circle(H.reals('c', 2), 1, mass=H.pos('m'), restitution=H.real('e0')), B.Circle(H.reals('d', 2), 2, restitution=H.real('e1'))]
    at = []

    class Handler(H.R.contacts.ContactHandler):
        def __call__(self, args, g1, g2):
            k = len(at)
            at.append((H.reals('n%d_' % k, 2), H.reals('p%d_' % k, 2), H.reals('q%d_' % k, 2)))
            args[0].contacts.append((tuple(H.tensor(x) for x in at[k]) + (H.tensor(H.frac(0)),), 0, 1))
    W = H.R.world.World(bs, [H.R.constraints.YConstraint(bs[1])], dt=dt, contact_callback=Handler, post_stab=True)
    W.t = H.real('t0')
    calls = []

    class Solver:
        def __init__(self, *a, **kw):
            pass

        def __call__(self, *a):
            calls.append(a)
            return H.tensor([H.reals('x%d_' % len(calls), 6)])
    W.engine.lcp_solver = Solver
    for s in range(2):
        W.step()
        V = [-y for y in H.reals('x%d_' % (2 * s + 1), 6)]
        H.eq('velocity', W.get_v(), V)
        H.true('one motion and one correction', len(calls) == 2 * s + 2 and len(at) == 2 * s + 3)
        n, p, q = at[2 * s + 1]
        row = [cross(p, n)] + n + [-cross(q, n)] + scale(n, -1)
        got = rows(H, calls[2 * s + 1][2][0])
        H.true('one contact', len(got) == 1)
        H.eq('contact as it is after the motion', got[0], row)
        H.eq('contact inequality', calls[2 * s + 1][3], dot(row, V) * (1 - (H.real('e0') + H.real('e1')) / 2))
    H.cover('done')


def apply(J, v):
    return [dot(r, v) for r in J]


def cases(tier):
    kw = dict(fake_ode=True, angle_div=2)
    cs = [Case('corrected-none', corrected(None, 1), ['done'], **kw)]
    for i, k in enumerate(('pin', 'revolute', 'revolute-rev', 'fixed', 'x', 'y', 'rot', 'total', 'slider')):
        for fails in range(3) if tier == 'thorough' else [i % 3]:
            cs.append(Case('corrected-%s-%d' % (k, fails), corrected(k, fails), ['done'], **kw))
    cs.append(Case('alike-none', alike(None, True, 2), ['done'], **kw))
    for k in ('pin', 'revolute', 'fixed', 'x', 'y', 'rot', 'total', 'slider'):
        cs.append(Case('alike-' + k, alike(k, True, 2 if k in ('x', 'y', 'rot', 'total', 'slider') else 1), ['done'], **kw))
    for k in ('pin', 'fixed', 'slider', 'total'):
        cs.append(Case('resumed-' + k, joints(k, stab=True), ['step0', 'step1'], **kw))
    cs.append(Case('touching', touching, ['k0', 'k1'], **kw))
    cs.append(Case('turning', turning, ['done'], **kw))
    return cs
