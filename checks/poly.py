"""families of polygon pairs and their separating axis data (C10, C11, C12, C25)"""
from .common import *

A13 = (F(12, 13), F(5, 13))      # half angles
A5 = (F(2, 1), F(1, 1))


def make(H, kind, tag, at):
    B = H.R.bodies
    if kind == 'box':
        return B.Rect(at, [4, 2])
    if kind == 'slab':
        return B.Rect(at, [10, 1])
    if kind == 'anyw':
        return B.Rect(at, [H.pos(tag + 'w', 20), 2])
    if kind == 'tilt':
        return B.Rect([H.pyth(tag + 'th', F(12, 13), F(5, 13))] + at, [3, 2])
    if kind == 'tilt2':
        return B.Rect([H.pyth(tag + 'th', F(4, 5), F(-3, 5))] + at, [2, 5])
    # edges of rational length keep the arithmetic rational
    if kind == 'tri':
        return B.Hull(at, [[0, 0], [5.25, 0], [1.875, 4.5]])
    if kind == 'tri2':
        return B.Hull(at, [[0, 0], [3, 0], [-3.75, 9]])
    if kind == 'quad':
        return B.Hull(at, [[0, 0], [10, 0], [7, 4], [3, 4]])
    if kind == 'spike':
        return B.Hull(at, [[0, 0], [24, 0], [0, 7]])
    raise KeyError(kind)


def pair(H, ka, kb, eps=None):
    """two polygons at arbitrary places; returns (a, b, eps)"""
    eps = H.pos('eps', 1) if eps is None else eps
    o, d = H.reals('o', 2, -50, 50), H.reals('d', 2, -50, 50)
    a = make(H, ka, 'a', o)
    b = make(H, kb, 'b', add(vec(H, a.pos), d))
    return a, b, eps


class Sat:
    """vertices, outward unit normals and separations, relative to body a's centre"""

    def __init__(self, H, a, b):
        self.V = [verts(H, a), [add(v, sub(vec(H, b.pos), vec(H, a.pos))) for v in verts(H, b)]]
        self.N, self.L = [], []
        for vs in self.V:
            n = len(vs)
            ns, ls = [], []
            for i in range(n):
                e = sub(vs[(i + 1) % n], vs[i])
                l = norm(H, e)
                ns.append([e[1] / l, -e[0] / l])
                ls.append(l)
            self.N.append(ns)
            self.L.append(ls)
        # seps[(k, i)]: separations of the other polygon's vertices from face i of polygon k
        self.seps = {}
        for k in (0, 1):
            for i, n in enumerate(self.N[k]):
                self.seps[k, i] = [dot(n, sub(v, self.V[k][i])) for v in self.V[1 - k]]

    def at_most(self, H, x):
        """every face separates by at most x"""
        return H.both(*[H.either(*[H.is_le(s, x) for s in ss]) for ss in self.seps.values()])

    def face_at_least(self, H, f, x):
        return H.both(*[H.is_le(x, s) for s in self.seps[f]])

    def some_at_least(self, H, x):
        return H.either(*[self.face_at_least(H, f, x) for f in self.seps])

    def greatest(self, H, f):
        """no face separates the polygons further than face f"""
        return H.both(*[H.either(*[H.is_le(s, t) for s in ss]) for g, ss in self.seps.items() if g != f for t in self.seps[f]])

    def tie(self, H):
        """two faces that are not parallel separate the polygons most"""
        fs = list(self.seps)
        out = []
        for x in range(len(fs)):
            for y in range(x):
                f, g = fs[x], fs[y]
                nf, ng = self.N[f[0]][f[1]], self.N[g[0]][g[1]]
                sg = 1 if f[0] == g[0] else -1
                if abs(approx(nf[0] - sg * ng[0])) + abs(approx(nf[1] - sg * ng[1])) > 1e-9:
                    out.append(H.both(self.greatest(H, f), self.greatest(H, g)))
        return H.either(*out)


def approx(x):
    """float value of a constant"""
    from vlib import terms as T
    from vlib.explore import Witness
    return Witness({}).sym(x) if isinstance(x, T.Sym) else float(x)
