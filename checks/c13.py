"""C13 contact and friction rows"""
from vlib.engine import Case
from .common import *
from .c03 import quiet

BOUNDS = ('worlds of 2 and 3 bodies (circles, rectangles, triangles), up to 4 contacts between any two of them in either order, with arbitrary '
          'normals, points, velocities, friction and restitution coefficients')
OUTSIDE = 'more bodies or contacts; more than two friction directions (not supported by the code)'


def bodies(H, n):
    B = H.R.bodies
    out = []
    for i in range(n):
        kw = dict(vel=H.reals('v%d_' % i, 3), mass=H.pos('m%d' % i), restitution=H.real('e%d' % i, 0, 1), fric_coeff=H.real('f%d' % i, 0))
        c = H.reals('c%d_' % i, 2)
        out.append([lambda: B.Circle(c, 1, **kw), lambda: B.Rect(c, [2, 1], **kw), lambda: B.Hull(c, [[2, 0], [0, 2], [-2, -2]], **kw)][i % 3]())
    return out


def add_contact(H, W, k, i, j):
    th = H.angle('n%d' % k)
    n, p1, p2 = [H.cos(th), H.sin(th)], H.reals('p%d_' % k, 2), H.reals('q%d_' % k, 2)
    W.contacts.append(((H.tensor(n), H.tensor(p1), H.tensor(p2), H.tensor(H.real('pen%d' % k))), i, j))
    return n, p1, p2


def vel_at(v, p):
    return [v[1] - v[0] * p[1], v[2] + v[0] * p[0]]


def rowsets(n, pairs):
    def fn(H):
        bs = bodies(H, n)
        W = world(H, bs, contact_callback=quiet(H))
        H.true('no contacts reported', W.contacts == [])
        data = [add_contact(H, W, k, i, j) for k, (i, j) in enumerate(pairs)]
        m = len(pairs)
        V = [vec(H, b.v) for b in bs]
        v = sum(V, [])
        Jc, Jf = rows(H, W.Jc()), rows(H, W.Jf())
        H.true('shapes', len(Jc) == m and len(Jf) == 2 * m and all(len(r) == 3 * n for r in Jc + Jf))
        mu, E, res = rows(H, W.mu()), rows(H, W.E()), vec(H, W.restitutions())
        H.true('coupling shapes', len(mu) == m and len(E) == 2 * m and len(res) == m and all(len(r) == m for r in mu + E))
        for k, (i, j) in enumerate(pairs):
            nr, p, q = data[k]
            rel = sub(vel_at(V[i], p), vel_at(V[j], q))
            H.eq('separation rate', dot(Jc[k], v), dot(rel, nr))
            t = [nr[1], -nr[0]]
            f0, f1 = dot(Jf[2 * k], v), dot(Jf[2 * k + 1], v)
            s = dot(rel, t)
            H.true('tangential rates', H.either(H.both(H.is_eq(f0, s), H.is_eq(f1, -s)), H.both(H.is_eq(f0, -s), H.is_eq(f1, s))))
            bi, bj = bs[i], bs[j]
            for l in range(m):
                H.eq('friction coefficient', mu[k][l], (H.num(bi.fric_coeff) + H.num(bj.fric_coeff)) / 2 if l == k else 0)
                for r in (0, 1):
                    H.eq('coupling', E[2 * k + r][l], 1 if l == k else 0)
            H.eq('restitution', res[k], (H.num(bi.restitution) + H.num(bj.restitution)) / 2)
        H.cover('checked')
    return fn


def detected(H):
    """the same on contacts the narrow phase found, and again after the contacts and the velocities changed"""
    B = H.R.bodies
    bs = [B.Circle([0, 0], 1, vel=H.reals('u', 3), fric_coeff=H.real('f0', 0)), B.Circle([1.5, 0], 1, vel=H.reals('v', 3), restitution=H.real('e1', 0, 1)),
          B.Circle([10, 0], 1, vel=H.reals('w', 3), fric_coeff=H.real('f2', 0), restitution=H.real('e2', 0, 1))]
    W = world(H, bs)
    for rnd in range(2):
        m = len(W.contacts)
        H.true('one contact', m == 1)
        if m != 1:
            return
        (nr, p, q, _), i, j = W.contacts[0]
        nr, p, q = vec(H, nr), vec(H, p), vec(H, q)
        H.true('the near pair', {i, j} == ({0, 1} if rnd == 0 else {1, 2}))
        v = vec(H, W.get_v())
        rel = sub(vel_at(vec(H, bs[i].v), p), vel_at(vec(H, bs[j].v), q))
        Jf = rows(H, W.Jf())
        H.eq('separation rate', dot(rows(H, W.Jc())[0], v), dot(rel, nr))
        s = dot(rel, [nr[1], -nr[0]])
        H.eq('friction rates', [dot(Jf[0], v) * dot(Jf[1], v), dot(Jf[0], v) + dot(Jf[1], v)], [-s * s, 0])
        H.eq('friction', W.mu(), (H.num(bs[i].fric_coeff) + H.num(bs[j].fric_coeff)) / 2)
        H.eq('restitution', W.restitutions(), (H.num(bs[i].restitution) + H.num(bs[j].restitution)) / 2)
        H.eq('coupling', W.E(), [1, 1])
        W.set_p(H.tensor([0., 0., 50.] + [0., 9., 1.5] + [0., 10., 0.]))
        W.set_v(H.tensor(H.reals('x', 9)))
        W.find_contacts()
    H.cover('checked')


def cases(tier):
    sets = {'two': (2, [(0, 1)]), 'two-rev': (2, [(1, 0), (0, 1)]), 'three': (3, [(0, 1), (2, 1), (0, 2)]),
            'four': (3, [(2, 0), (2, 0), (1, 2), (1, 0)])}
    return [Case(k, rowsets(*s), ['checked']) for k, s in sets.items()] + [Case('detected', detected, ['checked'], fake_ode=True)]
