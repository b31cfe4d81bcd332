"""C22 the interior point iteration"""
from vlib.engine import Case
from .common import *

BOUNDS = ('whatever directions the linear solves return (any real numbers, zero included), from every starting point: one full predictor-corrector '
          'step with up to 2 inequalities, 2 variables, 0 or 1 equality, batches of 1 and 2; histories of up to 5 iterates with any residuals, '
          'ended by the iteration limit, by convergence, by lack of progress or by a failed factorization; multipliers and slacks up to 1000')
OUTSIDE = 'that the iteration converges; rounding (steps that are positive but vanish numerically); overflow of the complementarity measure'
ASSUMPTIONS = ['a zero direction component is a positive zero']
HUNT = False        # claims at thresholds: rounding would decide


class Iteration:
    """the real iteration with scripted directions; records what every linear solve was asked"""

    def __init__(self, H, direction, fail_at=None):
        self.H, self.affine, self.asked, self.calls, self.factored = H, [], [], 0, 0
        K = H.R.pdipm

        def factor(S_LU, R, d):
            self.factored += 1
            if fail_at is not None and self.factored == fail_at:
                raise RuntimeError('singular')

        def solve(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
            k = self.calls
            self.calls += 1
            w = [len(self.P[1][0]), len(self.P[3][0]), len(self.P[3][0]), len(self.P[5][0]) if self.P[5] is not None else 0, len(self.P[3][0])]
            self.asked.append([self.wide(t, n) for t, n in zip((rx, rs, rz, ry, d), w)])
            if k % 2 == 1:
                self.affine.append((rows(H, d), rows(H, rs)))
            x, s, z, y = direction(k)
            return H.tensor(x), H.tensor(s), H.tensor(z), H.tensor(y) if y is not None else None
        K.factor_kkt, K.solve_kkt = factor, solve

    def wide(self, t, n):
        """a right hand side as rows of n numbers (a plain number stands for all of them)"""
        if n == 0:
            return None
        if isinstance(t, self.H.torch.Tensor) and t.dim() > 1:
            return rows(self.H, t)
        return [[self.H.num(t)] * n for _ in self.P[1]]

    def run(self, P, max_iter, **kw):
        H, self.P = self.H, P
        Q, p, G, h, A, b, F_ = [H.tensor(t) if t is not None else H.torch.tensor([]) for t in P]
        x, y, z, s = H.R.pdipm.forward(Q, p, G, h, A, b, F_, None, None, None, max_iter=max_iter, **kw)
        return [rows(H, t) if t is not None else None for t in (x, s, z, y)]


def mv(M, v):
    return [dot(r, v) for r in M]


def tr(M):
    return [list(c) for c in zip(*M)]


def residual(H, P, k, it):
    """residual of one iterate of batch element k"""
    Q, p, G, h, A, b, F_ = [t[k] if t is not None else None for t in P]
    x, s, z, y = it
    r = add(add(mv(Q, x), mv(tr(G), z)), p)
    if A is not None:
        r = add(r, mv(tr(A), y))
    q = [a + e - c - f for a, e, c, f in zip(mv(G, x), s, h, mv(F_, z))]
    t = norm(H, r) + norm(H, q)
    if A is not None:
        t = t + norm(H, sub(mv(A, x), b))
    return t + dot(s, z)


def shift(H, v):
    """the documented start: everything raised to at least one unless already positive"""
    lo = v[0]
    for x in v[1:]:
        if H.branch(x < lo):
            lo = x
    return v if H.branch(lo > 0) else [x - lo + 1 for x in v]


def problem(H, n, m, e, nb=1):
    return [[[H.reals('Q%d%d_' % (k, i), n) for i in range(n)] for k in range(nb)], [H.reals('p%d_' % k, n) for k in range(nb)],
            [[H.reals('G%d%d_' % (k, i), n) for i in range(m)] for k in range(nb)], [H.reals('h%d_' % k, m) for k in range(nb)],
            [[H.reals('A%d%d_' % (k, i), n) for i in range(e)] for k in range(nb)] if e else None,
            [H.reals('b%d_' % k, e) for k in range(nb)] if e else None,
            [[H.reals('F%d%d_' % (k, i), m) for i in range(m)] for k in range(nb)]]


def idle(H, n, m, e, nb=1):
    """problem data that keep the residuals simple (the directions are scripted, so they do not depend on the data)"""
    def Z(*k):
        return [Z(*k[1:]) for _ in range(k[0])] if k else H.frac(0)
    return [Z(nb, n, n), Z(nb, n), Z(nb, m, n), Z(nb, m), Z(nb, e, n) if e else None, Z(nb, e) if e else None, Z(nb, m, m)]


def start(m, nb):
    """the first iterate is interior whatever the first solve returns"""
    def fn(H):
        P = idle(H, 1, m, 0, nb)
        s = [H.reals('s%d_' % k, m, -1000, 1000) for k in range(nb)]
        z = [H.reals('z%d_' % k, m, -1000, 1000) for k in range(nb)]
        one = [[H.frac(1)] * m for _ in range(nb)]

        def direction(k):
            return [[H.frac(1)] for i in range(nb)], s if k == 0 else one, z if k == 0 else one, None
        I = Iteration(H, direction)
        xs, ss, zs, _ = I.run(P, 1, eps=0)
        for k in range(nb):
            for i in range(m):
                H.true('slack positive', ss[k][i] > 0)
                H.true('multiplier positive', zs[k][i] > 0)
            H.eq('slack kept or raised alike', [ss[k][i] - ss[k][0] for i in range(m)], [s[k][i] - s[k][0] for i in range(m)])
            H.eq('multiplier kept or raised alike', [zs[k][i] - zs[k][0] for i in range(m)], [z[k][i] - z[k][0] for i in range(m)])
        H.cover('done')
    return fn


def interior(H, n, m, e, nb, still=()):
    def part(c):
        return [[H.frac(i + 1) if c in still or c.upper() in still else H.pos('%s%d_%d' % (c, k, i), 1000) for i in range(m)] for k in range(nb)]
    return [[H.reals('x%d_' % k, n) for k in range(nb)], part('s'), part('z'), [H.reals('y%d_' % k, e) for k in range(nb)] if e else None]


def step(m, nb=1, e=0, which='affine', still=(), n=1):
    """one full step from any interior point along any directions (affine: the predictor is arbitrary; corrector: its correction)"""
    def fn(H):
        P = idle(H, n, m, e, nb)
        it = interior(H, n, m, e, nb, still)
        one = H.frac(1)

        def d(tag, k, i):
            return H.frac(0) if tag in still else H.real('d%s%d_%d' % (tag, k, i))
        free = ([H.reals('dx%d_' % k, n) for k in range(nb)], [[d('s', k, i) for i in range(m)] for k in range(nb)],
                [[d('z', k, i) for i in range(m)] for k in range(nb)], [H.reals('dy%d_' % k, e) for k in range(nb)] if e else None)
        none = ([[H.frac(0)] * n] * nb, [[H.frac(0)] * m] * nb, [[H.frac(0)] * m] * nb, [[H.frac(0)] * e] * nb if e else None)
        D = {0: it, 1: free if which == 'affine' else none, 2: free if which == 'corrector' else none}
        I = Iteration(H, lambda k: D.get(k, none))
        got = I.run(P, 2, eps=0)
        if not I.affine:
            return
        H.eq('first multipliers', I.affine[0][1], it[2])
        if len(I.affine) == 1:
            H.cover('ended')                # the second iterate is exact (or the measure overflows)
            return
        H.cover('stepped')
        al, s2, z2 = moved(H, I.affine[1], it, free)
        for k in range(nb):
            for i in range(m):
                H.true('slack positive', s2[k][i] > 0)
                H.true('multiplier positive', z2[k][i] > 0)
        al = [a if a is not None else 0 for a in al]
        nxt = [[add(it[c][k], scale(free[c][k], al[k])) for k in range(nb)] if it[c] is not None else None for c in range(4)]
        for k in range(nb):
            H.le('step length at most one', al[k], 1)
            H.ge('step length not negative', al[k], 0)
            H.eq('all slacks move by the step', s2[k], nxt[1][k])
            H.eq('all multipliers move by the step', z2[k], nxt[2][k])
        if nb == 1 and m == 1:
            best(H, P, [it, nxt], got, nb)
    return fn


def alone(m, still=()):
    """an element of a batch takes the step it takes on its own"""
    def fn(H):
        n = 1
        it = interior(H, n, m, 0, 2, still)

        def d(tag, k, i):
            return H.frac(0) if tag in still else H.real('d%s%d_%d' % (tag, k, i))
        free = ([H.reals('dx%d_' % k, n) for k in range(2)], [[d('s', k, i) for i in range(m)] for k in range(2)],
                [[d('z', k, i) for i in range(m)] for k in range(2)], None)
        zero = [[H.frac(0)] * m] * 2
        none = ([[H.frac(0)] * n] * 2, zero, zero, None)
        e = H.choose(2, 'element')
        runs = []
        for els in ([0, 1], [e]):
            def cut(t):
                return [t[k] for k in els] if t is not None else None
            D = {0: [cut(t) for t in it], 1: [cut(t) for t in free]}
            I = Iteration(H, lambda k: D.get(k, [cut(t) for t in none]))
            I.run(idle(H, n, m, 0, len(els)), 2, eps=0)
            runs.append(I.affine[1] if len(I.affine) > 1 else None)
        if None in runs:
            return H.cover('ended')
        for a, b in zip(*runs):
            H.eq('the same step on its own', a[e], b[0])
        H.cover('stepped')
    return fn


def asks(n, m, e, nb=1):
    """what the linear solves of one iteration are asked: together, the exact Newton step to the perturbed optimality conditions"""
    def fn(H):
        P = problem(H, n, m, e, nb)
        it = interior(H, n, m, e, nb)
        free = ([H.reals('dx%d_' % k, n) for k in range(nb)], [[H.frac(1)] * m for k in range(nb)],
                [[H.frac(i + 2) for i in range(m)] for k in range(nb)], [H.reals('dy%d_' % k, e) for k in range(nb)] if e else None)
        I = Iteration(H, lambda k: it if k == 0 else free)
        I.run(P, 1, eps=0)
        if len(I.asked) < 3:
            return H.cover('ended')
        for k in range(nb):
            Q, p, G, h, A, b, F_ = [t[k] if t is not None else None for t in P]
            x, s, z, y = [c[k] if c is not None else None for c in it]
            r = add(add(mv(Q, x), mv(tr(G), z)), p)
            tot = [add(I.asked[1][c][k], I.asked[2][c][k]) if I.asked[1][c] is not None else None for c in range(4)]
            H.eq('stationarity', tot[0], add(r, mv(tr(A), y)) if e else r)
            H.eq('inequalities', tot[2], [a + c - d - f for a, c, d, f in zip(mv(G, x), s, h, mv(F_, z))])
            if e:
                H.eq('equalities', tot[3], sub(mv(A, x), b))
            # s z + z ds + s dz = target - (predicted ds dz), the same nonnegative target for all
            target = [s[i] * z[i] + free[1][k][i] * free[2][k][i] - tot[1][i] * s[i] for i in range(m)]
            H.eq('one target', target, [target[0]] * m)
            H.ge('target not negative', target[0], 0)
            H.eq('current point', I.asked[1][4][k], [z[i] / s[i] for i in range(m)])
            H.eq('same point', I.asked[2][4][k], I.asked[1][4][k])
        H.cover('asked')
    return fn


def add2(a, b):
    return [add(u, v) for u, v in zip(a, b)] if a is not None else None


def moved(H, seen, it, D):
    """the step length per batch element, read off a component that moves, and the slacks and multipliers it moved to"""
    d2, z2 = seen
    s2 = [[z / d for z, d in zip(*t)] for t in zip(z2, d2)]
    al = []
    for k in range(len(z2)):
        a = None
        for v0, v1, dv in zip(it[2][k] + it[1][k], z2[k] + s2[k], D[2][k] + D[1][k]):
            if a is None and H.branch(H.neg(H.is_eq(dv, 0))):
                a = (v1 - v0) / dv
        al.append(a)
    return al, s2, z2


def best(H, P, its, got, nb):
    """got is, per batch element, an iterate of least residual, as a whole"""
    for k in range(nb):
        el = [[c[k] if c is not None else [] for c in it] for it in its]
        mine = [c[k] if c is not None else [] for c in got]
        r = [residual(H, P, k, it) for it in el]
        pick = 0
        for j in range(1, len(r)):
            if H.branch(r[j] < r[pick]):
                pick = j
        H.eq('best iterate: x', mine[0], el[pick][0])
        H.eq('best iterate: slacks', mine[1], el[pick][1])
        H.eq('best iterate: multipliers', mine[2], el[pick][2])
        H.eq('best iterate: equalities', mine[3], el[pick][3])
        H.cover('best%d' % pick)


def history(iters, nb=1, fail_at=None, lim=3):
    """iterates with arbitrary x (hence arbitrary residuals) and known slacks"""
    def fn(H):
        c = H.frac
        P = [[[[c(1)]]] * nb, [[H.real('q%d' % k)] for k in range(nb)], [[[c(0)]]] * nb, [[c(1)]] * nb, None, None, [[[c(0)]]] * nb]
        one, down = [[c(1)]] * nb, [[c(-1, 64)]] * nb
        x = [[[H.real('x%d_%d' % (k, j))] for k in range(nb)] for j in range(iters)]

        def direction(k):
            if k == 0:
                return x[0], one, one, None
            if k % 2:
                return x[(k + 1) // 2 if (k + 1) // 2 < iters else 0], down, down, None
            return [[c(0)]] * nb, down, down, None
        I = Iteration(H, direction, fail_at)
        got = I.run(P, iters, eps=0, not_improved_lim=lim)
        its = [[x[0], one, one, None]]
        for j in range(1, len(I.affine)):
            D = [x[j], [[c(-1, 32)]] * nb, [[c(-1, 32)]] * nb, None]
            al, s, z = moved(H, I.affine[j], its[-1], D)
            its.append([[add(its[-1][0][k], scale(x[j][k], al[k])) for k in range(nb)], s, z, None])
        if len(its) < iters and fail_at is None:
            return H.cover('ended')         # at an iterate the check does not see
        best(H, P, its, got, nb)
        H.cover('n%d' % len(its))
    return fn


def converged(H):
    """an early return means the returned point satisfies the optimality conditions to the tolerance"""
    P = problem(H, 1, 1, 1)
    s, z = [[H.pos('s', 1000)]], [[H.pos('z', 1000)]]
    it = [[[H.real('x')]], s, z, [[H.real('y')]]]
    one = H.frac(1)

    def direction(k):
        return it if k == 0 else ([[one]], [[one]], [[one]], [[one]])
    I = Iteration(H, direction)
    eps = H.frac(1, 100)
    got = I.run(P, 1, eps=eps if H.symbolic else float(eps))
    if not I.affine:
        x, s, z, y = [c[0][0] for c in got]
        Q, p, G, h, A, b, F_ = [t[0][0] if not isinstance(t[0][0], list) else t[0][0][0] for t in P]
        H.lt('complementarity', s * z, eps)
        for label, r in (('stationarity', Q * x + p + G * z + A * y), ('inequality', G * x + s - h - F_ * z), ('equality', A * x - b)):
            H.lt(label, r, eps)
            H.lt(label, -r, eps)
        H.cover('converged')
    else:
        H.cover('not')


def converged_batch(H):
    """the same for every element of a batch"""
    c = H.frac
    P = [[[[c(1)]]] * 2, [[c(0)]] * 2, [[[c(0)]]] * 2, [[c(1)]] * 2, None, None, [[[c(0)]]] * 2]
    x, z = [[H.real('x%d' % k)] for k in range(2)], [[H.pos('z%d' % k, 1000)] for k in range(2)]
    one = [[c(1)]] * 2
    I = Iteration(H, lambda k: (x, one, z, None) if k == 0 else (one, one, one, None))
    eps = c(1, 100)
    got = I.run(P, 1, eps=eps if H.symbolic else float(eps))
    if I.affine:
        return H.cover('not')
    for k in range(2):
        X, S, Z = [t[k][0] for t in got[:3]]
        H.lt('complementarity', S * Z, eps)
        H.lt('stationarity', X, eps)
        H.lt('stationarity', -X, eps)
    H.cover('converged')


def cases(tier):
    kw = dict(ieee=True, zero_policy='violate')
    cs = [Case('start-2', start(2, 1), ['done'], **kw), Case('start-batch', start(1, 2), ['done'], **kw),
          Case('converged', converged, ['converged', 'not'], **kw),
          Case('converged-batch', converged_batch, ['converged', 'not'], **kw),
          Case('step-1', step(1, which='affine'), ['stepped', 'best0', 'best1'], **kw),
          Case('step-1-corrector', step(1, which='corrector'), ['stepped', 'best0', 'best1'], **kw),
          Case('step-1-equality', step(1, e=1, which='affine'), ['stepped', 'best0', 'best1'], **kw),
          Case('step-2-slacks', step(2, still='zS'), ['stepped'], **kw),
          Case('step-2-multipliers', step(2, which='corrector', still='s'), ['stepped'], **kw),
          Case('step-batch-slacks', step(1, nb=2, still='z'), ['stepped'], **kw),
          Case('step-batch-multipliers', step(1, nb=2, still='s'), ['stepped'], **kw),
          Case('alone-multipliers', alone(1, 's'), ['stepped'], **kw), Case('alone-slacks', alone(1, 'z'), ['stepped'], **kw),
          Case('asks', asks(2, 2, 0), ['asked'], **kw), Case('asks-equality', asks(1, 1, 1), ['asked'], **kw),
          Case('history-3', history(3), ['n3', 'best0', 'best1', 'best2'], **kw),
          Case('history-fail', history(3, fail_at=3), ['n1'], **kw), Case('history-fail-2', history(3, fail_at=4), ['n2', 'best1'], **kw),
          Case('history-no-progress', history(4, lim=2), ['n4', 'ended'], **kw)]
    if tier == 'thorough':
        cs += [Case('asks-batch', asks(1, 1, 0, 2), ['asked'], **kw), Case('history-5', history(5), ['n5', 'best4'], **kw),
               Case('history-batch', history(2, nb=2), ['n2', 'best1'], **kw), Case('history-batch-3', history(3, nb=2), ['n3'], **kw),
               Case('start-3', start(3, 1), ['done'], **kw), Case('step-2-both', step(2), ['stepped'], **kw),
               Case('asks-2', asks(2, 2, 1), ['asked'], **kw)]
    return cs
