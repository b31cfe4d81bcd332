"""The complementarity solver's contract:  Q x + p + G'z + A'y = 0,  G x - F z + s = h,  A x = b,  s, z >= 0,  s z = 0.

Symbolic: multipliers are unknowns constrained by exactly these conditions (every solution is covered).
Concrete: a solution by enumeration of the active sets."""
import itertools

import numpy as np

from . import terms as T
from .terms import Sym


def numeric(Q, p, G, h, A, b, F, tol=1e-8):
    """(x, z, y) or None"""
    n, m, k = len(p), len(h), len(b)
    A = A.reshape(k, n)
    scale = 1 + max([abs(v).max() for v in (Q, p, G, h, A, b, F) if v.size])
    best = None
    for act in itertools.product((0, 1), repeat=m):
        a = [i for i in range(m) if act[i]]
        c = len(a)
        K = np.zeros((n + c + k, n + c + k))
        K[:n, :n] = Q
        K[:n, n:n + c] = G[a].T
        K[:n, n + c:] = A.T
        K[n:n + c, :n] = G[a]
        K[n:n + c, n:n + c] = -F[np.ix_(a, a)]
        K[n + c:, :n] = A
        rhs = np.concatenate([-p, h[a], b])
        try:
            v = np.linalg.lstsq(K, rhs, rcond=1e-12)[0]
        except np.linalg.LinAlgError:
            continue
        if not np.isfinite(v).all():
            continue
        z = np.zeros(m)
        z[a] = v[n:n + c]
        x = v[:n]
        s = h - G @ x + F @ z
        err = max([abs(K @ v - rhs).max()] + [-z.min() if m else 0, -s.min() if m else 0])
        if best is None or err < best[0]:
            best = err, x, np.maximum(z, 0), v[n + c:]
        if err <= 1e-11 * scale:
            break
    if best is None or best[0] > tol * scale:
        return None
    return best[1:]


class Solution:
    """gives a witness the numeric value of the multipliers"""

    def __init__(self, mats):
        self.mats = mats

    def value(self, wit, ix):
        v = wit.cont.get(id(self))
        if v is None:
            try:
                arr = [np.array([[wit.sym(Sym.lift(x)) for x in r] if isinstance(r, list) else wit.sym(Sym.lift(r)) for r in t], dtype=float)
                       for t in self.mats]
                ok = all(np.isfinite(t).all() for t in arr)
                r = numeric(*arr) if ok else None
            except (ValueError, OverflowError):
                r = None
            v = wit.cont[id(self)] = r if r is not None else 'none'
        return float('nan') if isinstance(v, str) else float(v[{'z': 1, 'y': 2}[ix[0]]][ix[1]])


def product(c, t, v):
    """t is zero on this path: so is its product with v (a lemma for claims that are sums of such products)"""
    q = T.psubst(T.to_b(t * v == 0).p or {}, c.subst)
    if q and len(q) <= 3000:
        c.defs.append(q)


def symbolic(H, P, free=False):
    """x of an arbitrary exact solution of problem P; poses the conditions on the path (free: only the first equation, the multipliers
    being arbitrary: covers more than the solutions)"""
    n, m, k = len(P.p), len(P.h), len(P.b)
    c = T.ctx()
    for i in range(n):
        for j in range(n):
            if i != j and Sym.lift(P.Q[i][j]).r.num:
                raise T.Unsupported('complementarity problem with a cost that is not diagonal')
    sol = Solution((P.Q, P.p, P.G, P.h, P.A, P.b, P.F))

    def fresh(tag, ix):
        v = T.new_var('%s%d' % (tag, ix), 'fresh')
        (mm, _), = v.r.num.items()
        T.universe().gens[mm[0][0]].info = (sol, (tag, ix))
        return v
    z = [fresh('z', i) for i in range(m)]
    y = [fresh('y', i) for i in range(k)]
    x = []
    for i in range(n):
        t = Sym.lift(P.p[i])
        for j in range(m):
            t = t + P.G[j][i] * z[j]
        for j in range(k):
            t = t + P.A[j][i] * y[j]
        x.append(-t / P.Q[i][i])
    if free:
        c.note('assume', 'the complementarity solver returns an exact solution of the problem posed to it (any one)')
        return x
    s = []
    for i in range(m):
        t = Sym.lift(P.h[i])
        for j in range(n):
            t = t - P.G[i][j] * x[j]
        for j in range(m):
            t = t + P.F[i][j] * z[j]
        s.append(t)
    for i in range(k):
        t = -Sym.lift(P.b[i])
        for j in range(n):
            t = t + P.A[i][j] * x[j]
        c.assume_def(t == 0)
        product(c, t, y[i])
    pat = []
    for i in range(m):
        if not any(Sym.lift(g).r.num for g in P.G[i]):
            c.add_pc(T.to_b(s[i] >= 0))          # a condition on multipliers only: settles most of the patterns below
    for i in range(m):
        pat.append(int(H.branch(z[i] > 0)))
        if not pat[-1]:
            c.assume_def(z[i] == 0)
    for i in range(m):
        b = T.b_subst(T.to_b(s[i] == 0 if pat[i] else s[i] >= 0), c.subst)
        if pat[i]:
            c.assume_def(b)
            product(c, s[i], z[i])
        else:
            c.add_pc(b)
    c.note('assume', 'the complementarity solver returns an exact solution of the problem posed to it (any one)')
    H.pattern = pat
    return x


def concrete(H, P, must=False):
    arr = [np.array(t, dtype=float) for t in (P.Q, P.p, P.G, P.h, P.A, P.b, P.F)]
    r = numeric(*arr, tol=1e-4) if must and H.hunting else numeric(*arr)
    if r is None:
        if must and H.hunting:
            H.fail('the complementarity problem has a solution', 'none of the active sets solves it')
        from .harness import Inadmissible
        raise Inadmissible('no solution of the complementarity problem')
    H.pattern = [int(v > 1e-9) for v in r[1]]
    return [float(v) for v in r[0]]
