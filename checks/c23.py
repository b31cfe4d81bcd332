"""C23 the solver gradient"""
from vlib.engine import Case
from .common import *
from .c21 import any_, diagonal, fixed, contact, mv, tr, addv

BOUNDS = ('every point (x, y, s, z) with s, z > 0 that the iteration may return, every loss gradient, and all matrices with 1 to 2 variables, 1 to 2 '
          'inequalities, 0 to 1 equality, batches of 1 and 2; symbolic points, couplings and friction coefficients with fixed matrices up to 6 '
          'variables, 4 inequalities and 2 equalities (the shape of a friction contact with joints); all inputs differentiated')
OUTSIDE = 'larger problems; the limit s z -> 0 itself (the claim holds at every interior point, hence in the limit where it is regular)'
ASSUMPTIONS = ['the optimality system is regular at the returned point', 'Q is symmetric; its gradient is taken among symmetric matrices']


def setting(build, nb=1):
    def fn(H):
        Ps = [build(H, k) for k in range(nb)]
        n, m, e = len(Ps[0][0]), len(Ps[0][1]), len(Ps[0][3])
        x = [H.reals('x%d_' % k, n) for k in range(nb)]
        y = [H.reals('y%d_' % k, e) for k in range(nb)]
        s = [[H.pos('s%d_%d' % (k, i)) for i in range(m)] for k in range(nb)]
        z = [[H.pos('z%d_%d' % (k, i)) for i in range(m)] for k in range(nb)]
        asked = []

        def point(Q, p, G, h, A, b, F_, *a, **kw):
            asked.append((Q, p, G, h, A, b, F_))
            return H.tensor(x), H.tensor(y) if e else None, H.tensor(z), H.tensor(s)
        H.R.pdipm.forward = point
        leaf = [H.tensor([P[0] for P in Ps], True), H.tensor([H.reals('p%d_' % k, n) for k in range(nb)], True), H.tensor([P[1] for P in Ps], True),
                H.tensor([H.reals('h%d_' % k, m) for k in range(nb)], True)]
        if e:
            leaf += [H.tensor([P[3] for P in Ps], True), H.tensor([H.reals('b%d_' % k, e) for k in range(nb)], True)]
        leaf.append(H.tensor([P[2] for P in Ps], True))
        none = H.torch.tensor([])
        out = H.R.lcp.LCPFunction(max_iter=5)(*(leaf if e else leaf[:4] + [none, none] + leaf[4:]))
        H.eq('solution returned', out, x)
        H.true('posed as given', len(asked) == 1)
        for t, u in zip([t for t in asked[0] if t.numel()], leaf):
            H.eq('posed as given', t, vec(H, u))
        g = [H.reals('g%d_' % k, n) for k in range(nb)]
        grads = H.torch.autograd.grad(out, leaf, grad_outputs=H.tensor(g))
        for k in range(nb):
            Q, G, F_, A = Ps[k]
            D = [rows(H, t[k]) if t.dim() == 3 else vec(H, t[k]) for t in grads]
            dQ, dp, dG, dh = D[:4]
            dA, db = D[4:6] if e else ([], [])
            dF = D[-1]
            # adjoint variables, read off the gradients of p, h, b
            u, w, v = dp, scale(dh, -1), scale(db, -1)
            st = addv(mv(Q, u), mv(tr(G), w), g[k])
            if e:
                st = addv(st, mv(tr(A), v))
                H.eq('adjoint: equalities', mv(A, u), 0)
            H.eq('adjoint: stationarity', st, 0)
            H.eq('adjoint: inequalities', [a - c - s[k][i] / z[k][i] * w[i] for i, (a, c) in enumerate(zip(mv(G, u), mv(tr(F_), w)))], 0)
            for i in range(n):
                for j in range(n):
                    H.eq('gradient of Q', dQ[i][j] + dQ[j][i], u[i] * x[k][j] + u[j] * x[k][i])
            for i in range(m):
                H.eq('gradient of G', dG[i], [w[i] * x[k][j] + z[k][i] * u[j] for j in range(n)])
                H.eq('gradient of F', dF[i], [-w[i] * z[k][j] for j in range(m)])
            for i in range(e):
                H.eq('gradient of A', dA[i], [v[i] * x[k][j] + y[k][i] * u[j] for j in range(n)])
        H.cover('done')
    return fn


def cases(tier):
    cs = [Case('any-1-1-0', setting(any_(1, 1, 0)), ['done']),
          Case('any-2-1-0', setting(any_(2, 1, 0)), ['done']),
          Case('any-2-1-1', setting(any_(2, 1, 1)), ['done']),
          Case('any-2-2-0', setting(any_(2, 2, 0)), ['done']),
          Case('diagonal-2-2-1', setting(diagonal(2, 2, 1)), ['done']),
          Case('batch-1-1-0', setting(any_(1, 1, 0), 2), ['done']),
          Case('batch-2-1-1', setting(diagonal(2, 1, 1), 2), ['done']),
          Case('batch-1-2-0', setting(diagonal(1, 2, 0), 2), ['done']),
          Case('fixed-3-2-2', setting(fixed(3, 2, 2)), ['done']),
          Case('contact-3-0', setting(contact(3, 0)), ['done']),
          Case('contact-3-1', setting(contact(3, 1)), ['done'])]
    if tier == 'thorough':
        cs += [Case('any-2-2-1', setting(any_(2, 2, 1)), ['done']), Case('contact-3-2', setting(contact(3, 2)), ['done']),
               Case('contact-6-1', setting(contact(6, 1)), ['done']), Case('contact-6-2', setting(contact(6, 2)), ['done']),
               Case('batch-2-2-1', setting(diagonal(2, 2, 1), 2), ['done'])]
    return cs
