"""C15 joint anchors stay attached and survive retried steps"""
from vlib.engine import Case
from .common import *
from .c14 import mk, make, rates, apply, KINDS
from .script import Script, self_state

BOUNDS = ('every joint and constraint type on circle, rectangle and polygon bodies with arbitrary poses and anchors; one and two steps with arbitrary '
          'velocities, each with 0, 1 or 2 failed attempts (thorough: 3); several joints in one world (there, anchors above the bodies they join; anywhere in the others)')
OUTSIDE = 'longer histories; the pose correction of post-stabilization (C26)'


def bodies(H, tri):
    B = H.R.bodies
    v = [H.reals('v%d_' % i, 3) for i in range(3)]
    out = [B.Circle([H.angle('a0')] + H.reals('c0_', 2), 1, vel=v[0]), B.Rect(H.reals('c1_', 2), [2, 1], vel=v[1])]
    if tri:
        out.append(B.Hull(H.reals('c2_', 2), [[2, 0], [0, 2], [-2, -2]], vel=v[2]))
    return out


def pens(calls):
    """penetrating (2) or not (0): the real comparison against the tolerance is C19's"""
    return {k: [2. * c] for k, c in enumerate(calls)}


def offset(H, kind, j, b1, b2):
    x1, x2 = vec(H, b1.pos), vec(H, b2.pos)
    if kind in ('revolute', 'fixed'):
        H.eq('offset to the second body', add(x2, vec(H, j.pos2)), j.pos)
    if kind in ('revolute', 'pin', 'fixed', 'total'):
        H.eq('offset to the first body', add(x1, vec(H, j.pos1)), j.pos)
    else:
        H.eq('position of the constraint', j.pos, x1)


def anchored(kind, fails):
    """fails: failed attempts of each step"""
    def fn(H):
        bs = bodies(H, False)
        if H.choose(2, 'order'):
            bs.reverse()
        b1, b2 = bs
        j = make(H, kind, b1, b2)
        calls = [0]
        for f in fails:
            calls += [1] * f + [0]
        S = Script(H, pens(calls))
        W = H.R.world.World(bs, [j], dt=1, engine=S.engine(), contact_callback=S.handler())
        S.joints = [j]
        for s, f in enumerate(fails):
            n0 = len(S.seen)
            x0 = [vec(H, b1.pos), vec(H, b2.pos)]
            r0 = sub(vec(H, j.pos), x0[0])
            W.step()
            turn = H.frac(1, 2 ** f) * S.vels[s][0][0]
            for k in range(f + 1):
                # what this attempt shows is what an untried step of its length shows
                q = H.frac(1, 2 ** k)
                pos1 = add(x0[0], scale(S.vels[s][0][1:], q))
                pos2 = add(x0[1], scale(S.vels[s][1][1:], q))
                rk = rot(H, q * S.vels[s][0][0], r0)
                want = add(pos1, rk)
                st = S.seen[n0 + k][1][0]
                H.eq('anchor at attempt %d' % k, st[0], want)
                if kind in ('revolute', 'pin', 'fixed', 'total'):
                    H.eq('offset at attempt %d' % k, st[1], rk)
                if kind in ('revolute', 'fixed'):
                    H.eq('second offset at attempt %d' % k, st[2], sub(want, pos2))
            H.eq('anchor fixed in the frame of body 1', sub(vec(H, j.pos), vec(H, b1.pos)), rot(H, turn, r0))
            offset(H, kind, j, b1, b2)
            J1, J2 = j.J()
            got = apply(rows(H, J1), vec(H, b1.v))
            if J2 is not None:
                got = add(got, apply(rows(H, J2), vec(H, b2.v)))
            H.eq('rates', got, rates(H, kind, j, b1, b2))
        H.cover('stepped')
    return fn


def several(fails):
    """several joints at once, against the same world taking the smaller step right away"""
    def fn(H):
        kinds = [('revolute', 0, 1), ('fixed', 1, 2), ('pin', 2, None), ('total', 0, None), ('revolute', 2, 0), ('rot', 1, None)]

        def run(fails):
            bs = bodies(H, True)
            for n, (k, i, l) in enumerate(kinds):
                if k in ('revolute', 'pin'):
                    for b in (bs[i],) if l is None else (bs[i], bs[l]):
                        H.assume(H.reals('anchor%d' % n, 2)[1] > H.num(b.pos[1]))
            js = [make(H, k, bs[i], None if l is None else bs[l], str(n)) for n, (k, i, l) in enumerate(kinds)]
            S = Script(H, pens([0] + [1] * fails + [0]))
            W = H.R.world.World(bs, js, dt=1, engine=S.engine(), contact_callback=S.handler())
            return W, js, bs
        A, ja, ba = run(fails)
        A.step()
        Bw, jb, bb = run(0)
        Bw.step_dt(H.frac(1, 2 ** fails))
        for x, y in zip(ja, jb):
            for s, t in zip(self_state(H, x), self_state(H, y)):
                H.eq('as if the smaller step had been taken first', s, t)
        for x, y in zip(ba, bb):
            H.eq('pose', x.p, y.p)
            for s, t in zip(getattr(x, 'verts', []), getattr(y, 'verts', [])):
                H.eq('vertices', s, t)
        H.eq('Je', A.Je(), Bw.Je())
        H.eq('clock', A.t, Bw.t)
        H.cover('compared')
    return fn


def reassigned(kind):
    """the joint follows poses that are assigned"""
    def fn(H):
        bs = bodies(H, False)
        b1, b2 = bs
        j = make(H, kind, b1, b2)
        W = world(H, bs, [j], contact_callback=Script(H, {}).handler())
        t1 = H.num(b1.p[0])
        r = sub(vec(H, j.pos), vec(H, b1.pos))
        q = [t1] + H.reals('q', 2) + [H.num(b2.p[0]) + H.angle('d2')] + H.reals('k', 2)
        W.set_p(H.tensor(q))
        j.update_pos()
        H.eq('anchor fixed in the frame of body 1', sub(vec(H, j.pos), q[1:3]), r)
        offset(H, kind, j, b1, b2)
        H.cover('assigned')
    return fn


def cases(tier):
    kw = dict(fake_ode=True, angle_div=4)
    cs = [Case('%s-%s' % (k, ''.join(map(str, f))), anchored(k, f), ['stepped'], **kw)
          for k in KINDS for f in ([(0, 0), (1, 0), (2,), (0, 1)] if k in ('revolute', 'pin') else [(2,), (1, 0)])]
    cs += [Case('several-%d' % f, several(f), ['compared'], **kw) for f in (0, 1, 2)]
    cs += [Case('assigned-' + k, reassigned(k), ['assigned'], **kw) for k in ('revolute', 'fixed', 'pin')]
    if tier == 'thorough':
        kw = dict(fake_ode=True, angle_div=8)
        cs += [Case('%s-%s' % (k, ''.join(map(str, f))), anchored(k, f), ['stepped'], **kw) for k in KINDS for f in [(3,), (2, 1), (1, 1, 0)]]
    return cs
