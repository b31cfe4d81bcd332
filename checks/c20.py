"""C20 strict worlds reject exactly the interpenetrating starts"""
from vlib.engine import Case
from .common import *
from .c09 import aligned_gap2
from .script import Script

BOUNDS = ('two and three circles, circle and rectangle, two rectangles, two triangles and rectangles at a fixed relative orientation: every placement (distinct '
          'centres), radii, tolerance from 0 up (default tolerance, too), contact distance; either body order; pairs excluded from contact; joints; any '
          'two penetrations a contact handler may report')
OUTSIDE = 'more bodies; negative tolerances'


def build(H, bs, strict, joints=None, **kw):
    """World(...); returns the world or None when it is refused; nothing about the bodies may change"""
    p, v = [vec(H, b.p) for b in bs], [vec(H, b.v) for b in bs]
    try:
        w = H.R.world.World(bs, [] if joints is None else joints, strict_no_penetration=strict, **kw) if strict != 2 else H.R.world.World(
            bs, [] if joints is None else joints, **kw)
    except AssertionError:
        w = None
    for b, x, y in zip(bs, p, v):
        H.eq('pose kept', b.p, x)
        H.eq('velocity kept', b.v, y)
    if w is not None:
        H.eq('velocities of the world', w.get_v(), sum(v, []))
        H.true('clock starts at zero', H.is_eq(w.t, 0))
        H.true('bodies of the world', list(w.bodies) == list(bs))
    return w


def verdict(H, w, bad, strict):
    if not strict:
        H.true('any start is accepted', w is not None)
        H.cover('lenient')
    elif bad:
        H.cover('refused')
        H.true('interpenetrating start refused', w is None)
    else:
        H.cover('accepted')
        H.true('separate start accepted', w is not None)


def deeper(H, a, b, tol):
    """do the bodies (circle/circle, circle/aligned rectangle, aligned rectangles) penetrate by more than tol"""
    ra, rb = hasattr(a, 'dims'), hasattr(b, 'dims')
    ca, cb = vec(H, a.pos), vec(H, b.pos)
    if not ra and not rb:
        d = sub(ca, cb)
        s = H.num(a.rad) + H.num(b.rad) - tol
        return H.branch(H.both(s > 0, dot(d, d) < s * s))
    if ra and rb:
        da, db = vec(H, a.dims), vec(H, b.dims)
        for k in (0, 1):
            for sg in (1, -1):
                if not H.branch((da[k] + db[k]) / 2 - sg * (ca[k] - cb[k]) > tol):
                    return False
        return True
    if rb:
        a, b, ca, cb = b, a, cb, ca
    r, dims = H.num(b.rad), vec(H, a.dims)
    out = []
    inside = True
    for k in (0, 1):
        for sg in (1, -1):
            inside = inside and H.branch(sg * (cb[k] - ca[k]) <= dims[k] / 2)
    if inside:
        # depth: radius plus the distance to the nearest side
        return all([H.branch(r + dims[k] / 2 - sg * (cb[k] - ca[k]) > tol) for k in (0, 1) for sg in (1, -1)])
    g = aligned_gap2(H, a, cb)
    s = r - tol
    return H.branch(H.both(s > 0, g < s * s))


def distinct(H, bs):
    for i in range(len(bs)):
        for j in range(i):
            d = sub(vec(H, bs[i].pos), vec(H, bs[j].pos))
            H.assume(H.either(d[0] != 0, d[1] != 0))


def body(H, kind, i, vel=True):
    B = H.R.bodies
    c = H.reals('c%d_' % i, 2, -100, 100)
    if i:
        c = add(H.placed, c)
    else:
        H.placed = c
    kw = dict(vel=H.reals('v%d_' % i, 3)) if vel else {}
    if kind == 'c':
        return B.Circle(c, H.pos('r%d' % i, 100), **kw)
    if kind == 's':
        return B.Circle([0.] + c, 2, **kw)
    if kind == 'b':
        return B.Rect(c, [4, 2], **kw)
    return B.Rect(c, [H.pos('w%d' % i, 100), 2], **kw)


def placed(kinds, strict, tol='sym', exclude=None):
    def fn(H):
        bs = [body(H, k, i) for i, k in enumerate(kinds)]
        distinct(H, bs)
        kw = {}
        t = F(1, 10 ** 6) if H.symbolic else 1e-6
        if tol == 'sym':
            t = H.real('tol', 0)
            kw['tol'] = t
        if exclude:
            i, j = exclude if H.choose(2, 'declared on') else exclude[::-1]
            bs[i].add_no_contact(bs[j])
        H.pin('random', 1)
        w = build(H, bs, strict, **kw)
        bad = False
        for i in range(len(bs)):
            for j in range(i + 1, len(bs)):
                if not bad and not (exclude and {i, j} == set(exclude)) and strict:
                    bad = deeper(H, bs[i], bs[j], t)
        verdict(H, w, bad, strict)
    return fn


def scripted(H):
    """whatever penetrations are reported, with joints in place"""
    B, C = H.R.bodies, H.R.constraints
    a = B.Circle([H.angle('a')] + H.reals('c', 2), 1, vel=H.reals('v', 3))
    b = B.Rect([H.angle('b')] + H.reals('d', 2), [2, 1], vel=H.reals('u', 3))
    js = [[], [C.YConstraint(b)], [C.FixedJoint(a, b), C.TotalConstraint(a)]][H.choose(3, 'joints')]
    n = H.choose(3, 'contacts')
    p = [H.real('pen%d' % i) for i in range(n)]
    S = Script(H, {0: p})
    strict = H.choose(3, 'strict')
    tol = H.real('tol', 0)
    w = build(H, [a, b], strict, js, tol=tol, contact_callback=S.handler(), engine=S.engine())
    bad = False
    for x in p:
        bad = bad or H.branch(x > tol)
    verdict(H, w, bad, strict)
    if w is not None:
        H.true('contacts known from the start', len(w.contacts) == n)


def cases(tier):
    kw = dict(fake_ode=False, angle_div=2)
    ok = ['refused', 'accepted']
    cs = [Case('circles', placed('cc', True), ok, **kw), Case('circles-default', placed('cc', 2, None), ok, **kw),
          Case('circles-lenient', placed('cc', False, None), ['lenient'], **kw),
          Case('three', placed('ccc', True, None), ok, **kw), Case('three-excluded', placed('ccc', True, 'sym', (0, 2)), ok, **kw),
          Case('circle-rect', placed('sb', True), ok, **kw), Case('rect-circle', placed('bc', 2, None), ok, **kw),
          Case('rects', placed('rb', True), ok, **kw), Case('rect-lenient', placed('br', False), ['lenient'], **kw),
          Case('scripted', scripted, ok + ['lenient'], fake_ode=True, angle_div=2)]
    if tier == 'thorough':
        cs += [Case('three-any', placed('ccc', True), ok, **kw), Case('rect-rect', placed('rr', True), ok, **kw),
               Case('three-excluded-2', placed('ccb', True, None, (0, 2)), ok, **kw)]
    return cs
