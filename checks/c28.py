"""C28 the same physics in every inertial placement"""
from vlib.engine import Case
from .common import *
from .c03 import quiet
from .c16 import force, impulses
from .script import Lcp

BOUNDS = ('scenes of two circles, circle and polygon, circle and rectangle, two rectangles, triangle and rectangle (fixed relative orientations) and of '
          'three bodies with revolute and fixed joints and forces: every placement and velocity, every common translation and velocity added, every '
          'renumbering; one step, with and without contact (in contact: the problem posed to the complementarity solver, and what is made of any answer)')
OUTSIDE = 'renumbering of two polygons in contact (several equivalent contact manifolds, C12); common rotations; joints to the world under a common velocity'
ASSUMPTIONS = ['the joint system matrix is regular; torch.inverse returns its inverse']


def body(H, kind, i, shift, boost, vel=True, mass=True):
    B = H.R.bodies
    kw = {}
    if vel:
        kw['vel'] = add(H.reals('v%d_' % i, 3), [0] + boost)
    if mass:
        kw['mass'] = H.pos('m%d' % i)
    if i == 0:
        H.o = H.reals('c0_', 2, -50, 50)
    c = add(H.o if i == 0 else add(H.o, H.reals('c%d_' % i, 2, -50, 50)), shift)
    if kind == 'c':
        return B.Circle([H.angle('a%d' % i)] + c, H.pos('r%d' % i, 50), **kw)
    if kind == 'r':
        return B.Rect(c, [4, 2], **kw)
    if kind == 't':
        return B.Hull(c, [[0, 0], [5.25, 0], [1.875, 4.5]], **kw)
    return B.Rect([H.pyth('th%d' % i, F(12, 13), F(5, 13))] + c, [3, 2], **kw)


def scene(H, kinds, shift=(0, 0), boost=(0, 0), order=None, **kw):
    bs = [body(H, k, i, list(shift), list(boost), **kw) for i, k in enumerate(kinds)]
    for b in bs[1:]:
        d = sub(vec(H, b.pos), vec(H, bs[0].pos))
        H.assume(H.either(d[0] != 0, d[1] != 0))
    return bs


def report(H, w, names=None):
    """contacts by pair (names of the bodies), smaller name first"""
    out = {}
    for (n, p1, p2, pen), i, j in w.contacts:
        if names:
            i, j = names[i], names[j]
        c = (vec(H, n), vec(H, p1), vec(H, p2), H.num(pen))
        if i > j:
            i, j, c = j, i, (scale(c[0], -1), c[2], c[1], c[3])
        out.setdefault((i, j), []).append(c)
    return out


def same(H, got, want):
    H.true('the same pairs touch', sorted(got) == sorted(want))
    for k in want:
        if k in got:
            H.true('as many contacts', len(got[k]) == len(want[k]))
            for g, w in zip(got[k], want[k]):
                for l, x, y in zip(('normal', 'first point', 'second point', 'penetration'), g, w):
                    H.eq('same ' + l, x, y)


def placed(kinds):
    def fn(H):
        H.pin('random')
        a = world(H, scene(H, kinds))
        b = world(H, scene(H, kinds, shift=H.reals('shift', 2, -50, 50)))
        H.cover('touch' if a.contacts else 'apart')
        same(H, report(H, b), report(H, a))
    return fn


def orders(n):
    return [[[0, 1], [1, 0]], [[0, 1, 2], [1, 0, 2], [2, 1, 0], [1, 2, 0]]][n - 2]


def renumbered(kinds):
    def fn(H):
        H.pin('random')
        n = len(kinds)
        a = world(H, scene(H, kinds))
        o = orders(n)[1 + H.choose(len(orders(n)) - 1, 'order')]
        bs = scene(H, kinds)
        b = world(H, [bs[i] for i in o])
        H.cover('touch' if a.contacts else 'apart')
        same(H, report(H, b, o), report(H, a))
        for r, s in zip(b.bodies, [a.bodies[i] for i in o]):
            H.eq('velocities follow the bodies', r.v, vec(H, s.v))
        for k in range(n):
            i = o[k]
            H.eq('mass matrix follows the bodies', rows(H, b.M()[3 * k:3 * k + 3, 3 * k:3 * k + 3]), rows(H, a.M()[3 * i:3 * i + 3, 3 * i:3 * i + 3]))
    return fn


MECHS = {'none': [], 'revolute': [('revolute', 0, 1)], 'fixed': [('fixed', 0, 1)], 'both': [('fixed', 0, 1), ('revolute', 1, 2)]}


def joints(H, bs, mech, shift):
    C = H.R.constraints
    out = []
    for k, i, j in mech:
        if k == 'fixed':
            out.append(C.FixedJoint(bs[i], bs[j]))
        else:
            a = add(H.reals('anchor', 2), H.o)
            for b in (i, j):
                H.assume(a[1] + shift[1] > H.num(bs[b].pos[1]))
            out.append(C.Joint(bs[i], bs[j], add(a, list(shift))))
    return out


def stepped(name, what, n=2):
    """a step without contact: moved along, or renumbered"""
    mech = MECHS[name]

    def fn(H):
        dt = H.pos('dt')
        shift, boost = [0, 0], [0, 0]
        o = list(range(n))
        if what == 'moved':
            shift, boost = H.reals('shift', 2), H.reals('boost', 2)
        else:
            o = orders(n)[1 + H.choose(len(orders(n)) - 1, 'order')]
        ws = []
        for s, u, order in (([0, 0], [0, 0], range(n)), (shift, boost, o)):
            bs = scene(H, ['c', 'r', 'c'][:n], s, u, mass=name != 'both')
            js = joints(H, bs, mech, s)
            if what == 'renumbered' and s is shift:
                js.reverse()
            for i, b in enumerate(bs):
                force(H, b, H.reals('f%d_' % i, 3))
            w = world(H, [bs[i] for i in order], js, dt=dt, contact_callback=quiet(H))
            w.given, w.js = bs, js
            ws.append(w)
        a, b = ws
        arms = []
        for j, (k, x, y) in zip(a.js, mech):
            arms.append((sub(vec(H, j.pos), vec(H, a.given[x].pos)), sub(vec(H, j.pos), vec(H, a.given[y].pos))))
        a.step()
        b.step()
        H.eq('clock', b.t, a.t)
        diff = [sub(sub(vec(H, y.v), vec(H, x.v)), [0] + boost) for x, y in zip(a.given, b.given)]
        if not mech:
            H.eq('same velocities', diff, 0)
        else:
            # equal because a motion that keeps the joints and is a joint impulse is zero (its kinetic energy is the impulse's work)
            from .c14 import vel_at
            for (k, x, y), (r1, r2) in zip(mech, arms):
                H.eq('the difference keeps the joints', sub(vel_at(diff[x], r1), vel_at(diff[y], r2)), 0)
                if k == 'fixed':
                    H.eq('the difference keeps the joints', diff[x][0] - diff[y][0], 0)
            imp = [[H.num(q.ang_inertia) * d[0], H.num(q.mass) * d[1], H.num(q.mass) * d[2]] for q, d in zip(a.given, diff)]
            impulses(H, mech if name != 'both' else [mech[0], mech[1]], imp, arms)
        for x, y in zip(a.given, b.given):
            H.eq('new poses', sub(vec(H, y.p), scale(vec(H, y.v), dt)), add(sub(vec(H, x.p), scale(vec(H, x.v), dt)), [0] + shift))
        H.cover('done')
    return fn


def posed(kinds, what):
    """a step in contact: the problem handed to the solver and what is made of its answer"""
    n = len(kinds)

    def fn(H):
        H.pin('random')
        shift, boost, o = [0, 0], [0, 0], list(range(n))
        if what == 'moved':
            shift, boost = H.reals('shift', 2, -50, 50), H.reals('boost', 2)
        else:
            o = orders(n)[1 + H.choose(len(orders(n)) - 1, 'order')]
        x = H.reals('x', 3 * n)
        U = [0] + boost
        lcp = [Lcp(H, lambda p: x), Lcp(H, lambda p: sum([sub(x[3 * i:3 * i + 3], U) for i in o], []))]
        ws = []
        for k, (s, u, order) in enumerate((([0, 0], [0, 0], range(n)), (shift, boost, o))):
            bs = scene(H, kinds, s, u)
            js = [H.R.constraints.FixedJoint(bs[0], bs[2])] if n > 2 else []
            for i, b in enumerate(bs):
                force(H, b, H.reals('f%d_' % i, 3))
            if n > 2:
                bs[0].add_no_contact(bs[2])
            w = world(H, [bs[i] for i in order], js)
            w.given = bs
            if not w.contacts:
                H.cover('apart')
                return
            ws.append(w)
            lcp[k].attach(w)
            v = w.engine.solve_dynamics(w, H.pos('dt'))
            H.true('solver asked once', len(lcp[k].posed) == 1)
            w.newv = vec(H, v)
        a, b = [l.posed[0] for l in lcp]
        perm = [3 * i + k for i in o for k in range(3)]
        cols = lambda M: [[r[c] for c in perm] for r in M]
        H.eq('mass', b.Q, [[a.Q[r][c] for c in perm] for r in perm])
        MU = [dot(r, U * n) for r in a.Q]
        H.eq('momentum', b.p, [a.p[c] + MU[c] for c in perm])
        ra, rb = keys(ws[0], range(n)), keys(ws[1], o)
        H.true('the same contacts', sorted(ra) == sorted(rb))
        if sorted(ra) != sorted(rb):
            return
        H.true('one contact per pair', len(set(ra)) == len(ra))
        m = len(ra)
        idx = [ra.index(k) for k in rb]
        row = [i for i in idx] + [m + 2 * i + k for i in idx for k in (0, 1)] + [3 * m + i for i in idx]
        H.eq('contact rows', b.G, [cols(a.G)[r] for r in row])
        H.eq('restitution', b.h, [a.h[r] for r in row])
        H.eq('friction coupling', b.F, [[a.F[r][c] for c in row] for r in row])
        H.eq('joint rows', b.A, cols(a.A))
        H.eq('joint values', b.b, a.b)
        H.eq('a common velocity is no relative velocity', [dot(r, U * n) for r in a.G + a.A], 0)
        H.eq('velocities', ws[1].newv, sum([add(ws[0].newv[3 * i:3 * i + 3], U) for i in o], []))
        H.cover('touch')
    return fn


def keys(w, o):
    return [tuple(sorted((list(o)[c[1]], list(o)[c[2]]))) for c in w.contacts]


def cases(tier):
    kw = dict(fake_ode=True, angle_div=2)
    both = ['touch', 'apart']
    cs = [Case('placed-' + k, placed(k), both, **kw) for k in ['cc', 'cr', 'tc', 'rp', 'tr']]
    cs += [Case('renumbered-' + k, renumbered(k), both, **kw) for k in ['cc', 'cr', 'tc', 'ccc']]
    for k, n in (('none', 3), ('revolute', 2), ('fixed', 2), ('fixed', 3), ('both', 3)):
        for what in ('moved', 'renumbered'):
            cs.append(Case('step-%s-%d-%s' % (k, n, what), stepped(k, what, n), ['done'], **kw))
    for k in ('cc', 'cr', 'ccc') + (('tr',) if tier == 'thorough' else ()):
        cs.append(Case('contact-%s-moved' % k, posed(k, 'moved'), both, **kw))
    for k in ('cc', 'cr', 'ccc'):
        cs.append(Case('contact-%s-renumbered' % k, posed(k, 'renumbered'), both, **kw))
    return cs
