"""scripted surroundings of World: a contact handler that reports what a script says and an engine that returns any velocity"""
from .common import *


class Script:
    """call k of contact detection (counted over the world's life, 0 = at construction) reports the penetrations plan[k] for bodies 0 and 1"""

    def __init__(self, H, plan):
        self.H, self.plan, self.seen, self.solved, self.vels = H, plan, [], [], []
        self.joints = []

    def handler(self):
        S, H = self, self.H

        class Handler(H.R.contacts.ContactHandler):
            def __call__(self, args, g1, g2):
                if (g1.body, g2.body) not in ((0, 1), (1, 0)):
                    return
                w = args[0]
                k = len(S.seen)
                S.seen.append(([vec(H, b.p) for b in w.bodies], [self_state(H, j) for j in S.joints]))
                for pen in S.plan.get(k, []):
                    w.contacts.append(((H.tensor([1., 0.]), H.tensor([0., 0.]), H.tensor([0., 0.]), H.tensor(pen)), 0, 1))
        return Handler

    def engine(self):
        S, H = self, self.H

        class Engine(H.R.engines.Engine):
            def solve_dynamics(self, world, dt):
                k = len(S.solved)
                v = []
                for i in range(len(world.bodies)):
                    v += [H.angle('w%d_%d' % (k, i))] + H.reals('l%d_%d_' % (k, i), 2)
                S.solved.append((world.t, dt, [vec(H, b.p) for b in world.bodies]))
                S.vels.append([v[3 * i:3 * i + 3] for i in range(len(world.bodies))])
                return H.tensor(v)

            def post_stabilization(self, world):
                raise AssertionError('not requested')
        return Engine


def self_state(H, j):
    out = [vec(H, j.pos)]
    for n in ('pos1', 'pos2'):
        if hasattr(j, n):
            out.append(vec(H, getattr(j, n)))
    return out


class Lcp:
    """stands in for the complementarity solver: records every problem posed and returns what answer(problem) says"""

    def __init__(self, H, answer):
        self.H, self.answer, self.posed = H, answer, []

    def attach(self, world):
        L = self

        class Solver:
            def __init__(self, *a, **kw):
                pass

            def __call__(self, *a):
                prob = Problem(L.H, *a)
                L.posed.append(prob)
                return L.H.tensor([L.answer(prob)])
        world.engine.lcp_solver = Solver


class Problem:
    """Q x + p + G'z + A'y = 0,  G x - F z + s = h,  A x = b,  s z = 0,  s, z >= 0   (lists of scalars)"""

    def __init__(self, H, Q, p, G, h, A, b, F):
        for t, shape in ((Q, 3), (p, 2), (G, 3), (h, 2), (F, 3)):
            H.true('batched problem', t.dim() == shape and t.size(0) == 1)
        self.Q, self.G, self.F = rows(H, Q[0]), rows(H, G[0]), rows(H, F[0])
        self.p, self.h = vec(H, p), vec(H, h)
        self.A = rows(H, A[0]) if A.dim() > 1 else []
        self.b = vec(H, b) if self.A else []
        n, m = len(self.p), len(self.h)
        H.true('shapes', len(self.Q) == n and len(self.G) == m and len(self.F) == m and len(self.b) == len(self.A)
               and all(len(r) == n for r in self.Q + self.G + self.A) and all(len(r) == m for r in self.F))
