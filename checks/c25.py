"""C25 contact geometry derivatives"""
from vlib.engine import Case
from .common import *

BOUNDS = ('every detection path of circle/circle (any poses, radii, contact distance), circle/rectangle (any centres, radius, width and height), '
          'rectangle/rectangle (any centres, one with any width and height), triangle/rectangle (any centres and triangle scale), and a rectangle '
          'at any angle against a given circle or rectangle; derivatives of every reported number by every pose, size and angle left free; '
          'thorough: both argument orders, every free size of two rectangles, a triangle with a free vertex, more placements')
OUTSIDE = 'configurations on the boundary between two paths; polygons with 4 or more free vertices; angle and position free at once; derivatives of derivatives'
ASSUMPTIONS = ['circle centres do not coincide']
HUNT = False        # finite differences near a kink decide nothing


def report(H, bodies, eps):
    """the numbers a contact handler reports, as scalar tensors"""
    w = Scene(H, bodies, eps)
    handler(H)([w], bodies[0].geom, bodies[1].geom)
    out = []
    for (n, p1, p2, pen), i, j in w.contacts:
        out += [n[0], n[1], p1[0], p1[1], p2[0], p2[1], pen.reshape(())]
    return out


def stack(L, *names):
    import torch
    return torch.stack([L[n] for n in names])


def circles(H):
    eps = H.pos('eps', 1)
    o, d = H.reals('o', 2, -50, 50), H.reals('d', 2, -50, 50)
    ra, rb = H.pos('ra', 20), H.pos('rb', 20)
    vals = {'ax': o[0], 'ay': o[1], 'bx': o[0] + d[0], 'by': o[1] + d[1], 'ra': ra, 'rb': rb}

    def fn(L):
        B = H.R.bodies
        a = B.Circle(stack(L, 'ax', 'ay'), L['ra'])
        b = B.Circle(stack(L, 'bx', 'by'), L['rb'])
        out = report(H, [a, b], eps)
        if out:
            H.cover('contact')
        return out
    H.gradcheck('circles', fn, vals)
    H.true('alive', True)


def shape(H, kind, tag, at, vals):
    """names of leaves added to vals; returns a constructor from leaves"""
    B = H.R.bodies
    x, y = tag + 'x', tag + 'y'
    vals[x], vals[y] = at
    if kind == 'circle':
        r = tag + 'r'
        vals[r] = H.pos(r, 20)
        return lambda L: B.Circle(stack(L, x, y), L[r])
    if kind == 'rect':
        w, h = tag + 'w', tag + 'h'
        vals[w], vals[h] = H.pos(w, 20), H.pos(h, 20)
        return lambda L: B.Rect(stack(L, x, y), stack(L, w, h))
    if kind == 'box':
        return lambda L: B.Rect(stack(L, x, y), [4, 2])
    if kind == 'scaled':
        k = tag + 'k'
        vals[k] = H.pos(k, 4)
        return lambda L: B.Hull(stack(L, x, y), [H.tensor(v) * L[k] for v in ([0., 0.], [5.25, 0.], [1.875, 4.5])])
    if kind == 'turned':
        t = tag + 't'
        vals[t] = H.angle(t)
        return lambda L: B.Rect(stack(L, t, x, y), [4, 2])
    if kind == 'tri':
        h = tag + 'h'
        vals[h] = H.pos(h, 20)
        return lambda L: B.Hull(stack(L, x, y), [[0, 0], [4, 0], stack(dict(L, z=H.tensor(1.)), 'z', h)])
    raise KeyError(kind)


def pair(ka, kb, **fixed):
    def fn(H):
        eps = H.pos('eps', 1)
        o, d = H.reals('o', 2, -50, 50), H.reals('d', 2, -50, 50)
        vals = {}
        fa = shape(H, ka, 'a', o, vals)
        fb = shape(H, kb, 'b', add(o, d), vals)
        if 'start' in fixed:
            H.pin('random', fixed['start'])

        def f(L):
            out = report(H, [fa(L), fb(L)], eps)
            if out:
                H.cover('contact')
            return out
        H.gradcheck('%s-%s' % (ka, kb), f, vals)
        H.true('alive', True)
    return fn


def spun(ka, kb, at):
    """one of the two at any angle, the rest given"""
    def fn(H):
        B = H.R.bodies
        vals = {'t': H.angle('t')}

        def make(kind, tag, L, p):
            if kind == 'circle':
                return B.Circle([H.frac(x, 4) for x in p], H.frac(3, 2))
            return B.Rect(stack(dict(t=L['t'] if tag == 'b' else H.tensor(0.), x=H.tensor(H.frac(p[0], 4)), y=H.tensor(H.frac(p[1], 4))), 't', 'x', 'y'), [4, 2])

        def f(L):
            out = report(H, [make(ka, 'a', L, at), make(kb, 'b', L, [0, 0])], H.frac(1, 8))
            if out:
                H.cover('contact')
            return out
        H.pin('random', 0)
        H.gradcheck('spun', f, vals)
        H.true('alive', True)
    return fn


def cases(tier):
    cs = [Case('circles', circles, ['contact'])]
    quick = [('circle', 'rect'), ('rect', 'box'), ('scaled', 'box')]
    more = [('rect', 'circle'), ('circle', 'tri'), ('box', 'rect'), ('box', 'scaled'), ('rect', 'rect')]
    for p in quick + (more if tier == 'thorough' else []):
        cs.append(Case('%s-%s' % p, pair(*p, start=1), ['contact'], max_paths=20000))
    turns = [('near', 'circle', 'rect', [9, 2]), ('deep', 'circle', 'rect', [2, 1]), ('box', 'rect', 'rect', [10, 3])]
    extra = [('flipped', 'rect', 'circle', [1, 6]), ('corner', 'circle', 'rect', [11, 5]), ('low', 'rect', 'rect', [3, -9]), ('left', 'rect', 'rect', [-8, 6])]
    for n, *q in turns + (extra if tier == 'thorough' else []):
        cs.append(Case('spun-' + n, spun(*q), ['contact']))
    return cs
