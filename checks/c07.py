"""C07 no-contact exclusions"""
from vlib.engine import Case
from .common import *

BOUNDS = ('pairs of circles, circle and triangle, circle and rectangle, two rectangles at any relative position, both orders, exclusion '
          'declared on either body, after any one pose change; three circles with one excluded pair, or any two declarations before or after the world is made; both contact handlers')
OUTSIDE = 'more than 3 bodies; removal of an exclusion (no such operation)'


def body(H, kind, tag):
    B = H.R.bodies
    c = H.reals(tag, 2, -100, 100)
    if kind == 'circle':
        return B.Circle(c, H.pos(tag + 'r', 100))
    if kind == 'rect':
        return B.Rect(c, [H.pos(tag + 'w', 100), H.pos(tag + 'h', 100)])
    return B.Hull(c, [[2, 0], [0, 2], [-2, -2]])


PAIRS = [('circle', 'circle'), ('circle', 'tri'), ('circle', 'rect'), ('rect', 'rect'), ('tri', 'circle')]


def excluded(H):
    k = H.choose(len(PAIRS), 'pair')
    a, b = body(H, PAIRS[k][0], 'a'), body(H, PAIRS[k][1], 'b')
    if H.choose(2, 'declared on'):
        b.add_no_contact(a)
    else:
        a.add_no_contact(b)
    if H.choose(2, 'move'):
        a.set_p(H.tensor([0.0] + H.reals('q', 2, -100, 100)))
        b.v = H.tensor([0.0] + H.reals('v', 2, -100, 100))
        b.move(1)
    H.true('silent', collide(H, a, b) == [])
    H.true('silent the other way', collide(H, b, a) == [])
    H.cover('pair%d' % k)


def third(H):
    """exclusion of (0,1) leaves (0,2) and (1,2) as they were"""
    B = H.R.bodies
    xs = [H.reals('c%d_' % i, 2, -100, 100) for i in range(3)]
    rs = [H.pos('r%d' % i, 100) for i in range(3)]

    def mk():
        return [B.Circle(xs[i], rs[i]) for i in range(3)]
    plain, ex = mk(), mk()
    flip = H.choose(2, 'declared on')
    ex[flip].add_no_contact(ex[1 - flip])
    for i in range(3):
        for j in range(i):
            d = sub(xs[i], xs[j])
            H.assume(H.either(d[0] != 0, d[1] != 0))
    wp = world(H, plain)
    we = world(H, ex)
    key = lambda c: (c[1], c[2])
    got = {frozenset(key(c)): c for c in we.contacts}
    want = {frozenset(key(c)): c for c in wp.contacts}
    H.true('excluded pair silent', frozenset((0, 1)) not in got)
    want.pop(frozenset((0, 1)), None)
    H.true('same other pairs', set(got) == set(want))
    for k in want:
        if k in got:
            H.cover('other contact')
            for x, y in zip(got[k][0], want[k][0]):
                H.eq('same contact', x, y)


def several(H):
    """any two declarations one after the other, on a scene at rest or moved in between, before or after the world is made"""
    B = H.R.bodies
    bs = [B.Circle(x, H.real('r%d' % i, 2, 100)) for i, x in enumerate(([0, 0], [1, 0], [0, 1]))]
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    when = H.choose(3, 'world')
    w = world(H, bs) if when == 0 else None
    said = set()
    for k in range(2):
        i, j = pairs[H.choose(6, 'pair%d' % k)]
        bs[i].add_no_contact(bs[j])
        said |= {(i, j), (j, i)}
        if k == 0 and when == 1:
            w = world(H, bs)
            bs[i].set_p(H.tensor([0.0, 1.0, 1.0]))
    if w is None:
        w = world(H, bs)
    else:
        w.find_contacts()
    for i, j in pairs:
        if (i, j) in said:
            H.true('silent', collide(H, bs[i], bs[j]) == [])
            H.true('silent in the world', not any((c[1], c[2]) == (i, j) for c in w.contacts))
        elif H.branch(norm2(sub(vec(H, bs[i].pos), vec(H, bs[j].pos))) > 0):
            H.cover('other')
            H.true('others still touch', len([c for c in w.contacts if {c[1], c[2]} == {i, j}]) == 1)


def norm2(d):
    return dot(d, d)


def ode_handler(H):
    """the ODE based handler honours the exclusion, too"""
    C = H.R.contacts
    a, b = body(H, 'circle', 'a'), body(H, 'circle', 'b')
    calls = []
    n, pen = H.reals('n', 2), H.real('pen')

    class Contact:
        def getContactGeomParams(self):
            return ((H_val(H, 'px'), H_val(H, 'py'), -1.0), (n[0], n[1], 0.0), pen, a.geom, b.geom)

    old = C.ode.collide
    C.ode.collide = lambda g1, g2: calls.append(1) or [Contact()]
    try:
        w = Scene(H, [a, b], 0.1)
        ex = H.choose(2, 'excluded')
        if ex:
            a.add_no_contact(b)
        flip = H.choose(2, 'order')
        C.OdeContactHandler()([w], *((b.geom, a.geom) if flip else (a.geom, b.geom)))
    finally:
        C.ode.collide = old
    if ex:
        H.cover('excluded')
        H.true('silent', w.contacts == [])
    else:
        H.cover('reported')
        if H.branch(pen < 0):
            H.true('beyond the contact distance', w.contacts == [])
        else:
            H.true('reported', len(w.contacts) == 1)


def H_val(H, n):
    return H.real(n)


def cases(tier):
    return [Case('excluded', excluded, ['pair%d' % i for i in range(5)]), Case('third', third, ['other contact'], fake_ode=True),
            Case('several', several, ['other'], fake_ode=True), Case('ode-handler', ode_handler, ['excluded', 'reported'], fake_ode=True)]
