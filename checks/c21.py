"""C21 the factored KKT solve"""
from vlib.engine import Case
from .common import *

BOUNDS = ('all matrices, scalings and right-hand sides with 1 to 2 variables, 1 to 2 inequalities, 0 to 1 equality and batches of 1 and 2; symbolic '
          'scalings, couplings and right-hand sides with fixed matrices up to 3 variables, 4 inequalities and 2 equalities (the shape of a friction '
          'contact with joints); every nonzero pivot order; two scalings in a row on one factorization')
OUTSIDE = 'larger systems; singular systems; the unused variants with regularisation or iterative refinement'
ASSUMPTIONS = ['LU pivots are nonzero (the system is regular)']


def sym(H, name, n):
    """symmetric positive definite"""
    if n == 1:
        return [[H.pos(name)]]
    if n == 2:
        a, b, c = H.pos(name + 'a'), H.real(name + 'b'), H.pos(name + 'c')
        H.assume(a * c - b * b > 0)
        return [[a, b], [b, c]]


def mat(H, name, n, m):
    return [H.reals('%s%d_' % (name, i), m) for i in range(n)]


def diag(xs):
    return [[x if i == j else 0 for j in range(len(xs))] for i, x in enumerate(xs)]


def tr(M):
    return [list(c) for c in zip(*M)]


def mv(M, v):
    return [dot(r, v) for r in M]


def addv(*vs):
    out = vs[0]
    for v in vs[1:]:
        out = add(out, v)
    return out


def equations(H, label, P, d, r, sol):
    """the rows of the KKT system"""
    Q, G, F, A = P
    dx, ds, dz, dy = sol
    rx, rs, rz, ry = r
    first = addv(mv(Q, dx), mv(tr(G), dz), rx)
    if A:
        first = addv(first, mv(tr(A), dy))
        H.eq(label + ' equality row', addv(mv(A, dx), ry), 0)
    H.eq(label + ' stationarity row', first, 0)
    H.eq(label + ' complementarity row', [d[i] * ds[i] + dz[i] + rs[i] for i in range(len(d))], 0)
    H.eq(label + ' inequality row', [a + b - c + e for a, b, c, e in zip(mv(G, dx), ds, mv(F, dz), rz)], 0)


def setting(build, nb=1, rounds=1):
    """build(H, k) -> Q, G, F, A of batch element k"""
    def fn(H):
        K = H.R.pdipm
        Ps = [build(H, k) for k in range(nb)]
        n, m, e = len(Ps[0][0]), len(Ps[0][1]), len(Ps[0][3])
        T = [H.tensor([P[i] for P in Ps]) if i < 3 or e else H.torch.tensor([]) for i in range(4)]
        Q, G, F, A = T
        Q_LU, S_LU, R = K.pre_factor_kkt(Q, G, F, A)
        for r in range(rounds):
            d = [[H.pos('d%d_%d_%d' % (r, k, i)) for i in range(m)] for k in range(nb)]
            rhs = [[H.reals('r%s%d_%d_' % (c, r, k), s) for c, s in zip('xszy', (n, m, m, e))] for k in range(nb)]
            K.factor_kkt(S_LU, R, H.tensor(d))
            args = [H.tensor([x[j] for x in rhs]) if j < 3 or e else None for j in range(4)]
            dt = H.tensor(d)
            got = K.solve_kkt(Q_LU, dt, G, A, S_LU, *args)
            for k in range(nb):
                sol = [vec(H, g[k]) if g is not None and g.numel() else [] for g in got]
                equations(H, 'round %d' % r if rounds > 1 else 'kkt', Ps[k], d[k], rhs[k], sol)
            for t, x in zip(args, list(zip(*rhs))):
                if t is not None:
                    H.eq('right-hand side kept', t, list(x))
        for t, i in zip(T, range(4)):
            if t.numel():
                H.eq('matrices kept', t, [P[i] for P in Ps])
        H.cover('done')
    return fn


def any_(n, m, e):
    return lambda H, k: (sym(H, 'Q%d' % k, n), mat(H, 'G%d' % k, m, n), mat(H, 'F%d' % k, m, m), mat(H, 'A%d' % k, e, n))


def diagonal(n, m, e):
    """diagonal cost, as in the engine"""
    return lambda H, k: (diag([H.pos('q%d_%d' % (k, i)) for i in range(n)]), mat(H, 'G%d' % k, m, n), mat(H, 'F%d' % k, m, m), mat(H, 'A%d' % k, e, n))


def fixed(n, m, e):
    """fixed matrices, one coupling symbolic"""
    def build(H, k):
        def val(i):
            return H.frac((i * 7 + k * 3) % 11 - 5, 1 + i % 3)
        F_ = [[val(30 + i * m + j) for j in range(m)] for i in range(m)]
        F_[0][m - 1] = H.real('f%d' % k)
        return ([[H.frac(4 + i if i == j else 1, 1) for j in range(n)] for i in range(n)],
                [[val(i * n + j) for j in range(n)] for i in range(m)], F_, [[val(60 + i * n + j) + i for j in range(n)] for i in range(e)])
    return build


def contact(n, e):
    """one contact with friction: normal row, two friction rows, one cone row; friction coefficient and arm symbolic"""
    def build(H, k):
        f = H.frac
        r = f(1, 2)
        mu = H.pos('mu')
        Jc, Jt = [r, 0, 1], [f(2, 1), 1, 0]
        A = [[0, 0, 1, 0, 0, -1], [1, 0, f(1, 2), -1, 0, 0]][:e] if n == 6 else [[0, 1, f(3, 1)], [1, 0, 1]][:e]
        Q = diag([f(1, 2), 1, 1] + [f(3, 1), 2, 2][:n - 3])
        pad = [0] * (n - 3) if n == 3 else [f(-1, 3), 0, -1]
        padt = [0] * (n - 3) if n == 3 else [f(1, 4), -1, 0]
        G = [Jc + pad, Jt + padt, [-x for x in Jt + padt], [0] * n]
        F = [[0] * 4, [0, 0, 0, 1], [0, 0, 0, 1], [mu, -1, -1, 0]]
        return [[f(1) * x for x in r_] for r_ in Q], [[f(1) * x for x in r_] for r_ in G], [[f(1) * x for x in r_] for r_ in F], \
            [[f(1) * x for x in r_] for r_ in A]
    return build


def cyclic(e):
    """three inequalities coupled in a circle, so that elimination orders them by a rotation (which is not its own inverse) or, for other scalings,
    by an exchange or not at all"""
    def build(H, k):
        f = H.frac
        z = f(0)
        return ([[f(1), z], [z, f(2)]], [[f(1), z], [z, f(1)], [f(1), f(-1)]], [[z, z, f(9)], [f(9), z, z], [z, f(9), z]],
                [[f(1), f(3)]][:e])
    return build


def in_turn(*fns):
    """solves of different sizes one after the other"""
    def fn(H):
        for f in fns:
            f(H)
    return fn


def cases(tier):
    cs = [Case('any-1-1-0', setting(any_(1, 1, 0), rounds=2), ['done']),
          Case('any-2-1-0', setting(any_(2, 1, 0), rounds=2), ['done']),
          Case('any-2-2-0', setting(any_(2, 2, 0)), ['done']),
          Case('any-2-1-1', setting(any_(2, 1, 1), rounds=2), ['done']),
          Case('diagonal-2-2-1', setting(diagonal(2, 2, 1), rounds=2), ['done']),
          Case('any-2-2-1', setting(any_(2, 2, 1)), ['done']),
          Case('fixed-3-2-2', setting(fixed(3, 2, 2), rounds=2), ['done']),
          Case('contact-3-2', setting(contact(3, 2)), ['done']),
          Case('contact-6-1', setting(contact(6, 1)), ['done']),
          Case('batch-1-1-0', setting(any_(1, 1, 0), nb=2, rounds=2), ['done']),
          Case('batch-2-1-1', setting(diagonal(2, 1, 1), nb=2), ['done']),
          Case('batch-1-2-0', setting(diagonal(1, 2, 0), nb=2), ['done']),
          Case('batch-shrinks', in_turn(setting(diagonal(1, 2, 0), nb=2), setting(diagonal(1, 2, 0))), ['done']),
          Case('batch-grows', in_turn(setting(diagonal(1, 2, 0)), setting(diagonal(1, 2, 0), nb=2)), ['done']),
          Case('cyclic', setting(cyclic(1), rounds=2), ['done']),
          Case('contact-3-0', setting(contact(3, 0), rounds=1), ['done']),
          Case('contact-3-1', setting(contact(3, 1), rounds=1), ['done']),
          ]
    if tier == 'thorough':
        cs += [Case('contact-6-2', setting(contact(6, 2)), ['done']),
               Case('contact-3-1-again', setting(contact(3, 1), rounds=2), ['done']),
               Case('fixed-4-3-2', setting(fixed(4, 3, 2)), ['done']),
               Case('diagonal-3-2-1', setting(diagonal(3, 2, 1), rounds=3), ['done']),
               Case('batch-3', setting(diagonal(2, 2, 1), nb=2), ['done'])]
    return cs
