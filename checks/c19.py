"""C19 how far a step goes"""
from vlib.engine import Case
from .common import *
from .script import Script

BOUNDS = ('worlds of 2 and 3 bodies (circle, polygon, rectangle) with arbitrary poses, step sizes, requested step lengths, tolerance, start time and any '
          'velocities the engine may return; contact detection reports up to two contacts with arbitrary penetrations at each of up to 5 attempts; one or two '
          'steps; fixed-length steps with up to 3 (thorough 4) failed attempts at any place, and with 12 pieces each half of what is left')
OUTSIDE = 'more attempts (more halvings); the velocities themselves (C16, C17); post-stabilization (C26)'
HUNT = False        # claims at thresholds: rounding would decide


def bodies(H, n):
    B = H.R.bodies
    out = [B.Circle([H.angle('a0')] + H.reals('c0_', 2), 1), B.Hull(H.reals('c1_', 2), [[2, 0], [0, 2], [-2, -2]]),
           B.Rect([H.angle('a2')] + H.reals('c2_', 2), [2, 1])]
    return out[:n]


def pens(H, calls, each=1):
    return {k: [H.real('pen%d_%d' % (k, i)) for i in range(each)] for k in calls}


def bad(H, ps, tol):
    """does the report exceed the tolerance (branches)"""
    for p in ps:
        if H.branch(p > tol):
            return True
    return False


def attempts(H, W, S, first, dt, strict):
    """what the world has to do from detection call `first` on, given the script: (time used, detections made)"""
    n = 0
    while True:
        n += 1
        if not bad(H, S.plan.get(first + n - 1, []), W.tol):
            break
        if not strict and H.branch(dt < W.dt / 4):
            break
        dt = dt / 2
    return dt, n


def follow(H, W, S, strict, call, requested):
    """one step_dt; returns nothing, claims everything"""
    t0, p0 = W.t, [vec(H, b.p) for b in W.bodies]
    first, solves = len(S.seen), len(S.solved)
    call()
    H.true('the engine is asked once', len(S.solved) == solves + 1)
    ts, ds, ps = S.solved[-1]
    H.eq('engine sees the start time', ts, t0)
    H.eq('engine sees the requested step', ds, requested)
    v = S.vels[-1]
    used, n = attempts(H, W, S, first, requested, strict)
    H.true('attempts', len(S.seen) == first + n)
    H.eq('clock', W.t, t0 + used)
    for i, b in enumerate(W.bodies):
        H.eq('pose', b.p, add(p0[i], scale(v[i], W.t - t0)))
        H.eq('velocity', b.v, v[i])
        H.eq('engine sees the start pose', ps[i], p0[i])
    H.eq('world velocity', W.get_v(), sum(v, []))
    for k in range(n):
        for i in range(len(W.bodies)):
            H.eq('attempt %d' % k, S.seen[first + k][0][i], add(p0[i], scale(v[i], requested / 2 ** k)))
    got = [H.num(c[0][3]) for c in W.contacts]
    want = S.plan.get(first + n - 1, [])
    H.true('contacts are those of the final pose', len(got) == len(want))
    H.eq('penetrations of the final pose', got, want)
    for g in got:
        if strict:
            H.le('no penetration at the end', g, W.tol)
        elif H.branch(g > W.tol):
            H.lt('penetration only below a quarter step', W.t - t0, W.dt / 4)
            H.cover('accepted')
    H.cover('n%d' % n)


def single(nb, strict, calls, each, steps=1):
    def fn(H):
        dt, tol = H.pos('dt'), H.real('tol', 0)
        S = Script(H, pens(H, calls, each))
        W = H.R.world.World(bodies(H, nb), dt=dt, tol=tol, engine=S.engine(), contact_callback=S.handler(), strict_no_penetration=strict)
        W.t = H.real('t0')
        mode = H.choose(3, 'call')
        for s in range(steps):
            if mode == 0:
                follow(H, W, S, strict, W.step, dt)
            elif mode == 1:
                r = H.pos('req')
                follow(H, W, S, strict, lambda: W.step_dt(r), r)
            else:
                follow(H, W, S, strict, lambda: W.step(fixed_dt=False), dt)
    return fn


def fixed(strict, calls):
    def fn(H):
        dt, tol = H.pos('dt'), H.real('tol', 0)
        S = Script(H, pens(H, calls))
        W = H.R.world.World(bodies(H, 2), dt=dt, tol=tol, engine=S.engine(), contact_callback=S.handler(), strict_no_penetration=strict)
        W.t = t0 = H.real('t0')
        p0 = [vec(H, b.p) for b in W.bodies]
        W.step(fixed_dt=True)
        H.eq('ends at the requested time', W.t, t0 + dt)
        # retrace
        first, rest, p = 1, dt, p0
        n = 0
        while True:
            H.true('substeps', n < len(S.solved))
            if n >= len(S.solved):
                return
            H.eq('substep requests the rest', S.solved[n][1], rest)
            used, k = attempts(H, W, S, first, rest, strict)
            p = [add(a, scale(v, used)) for a, v in zip(p, S.vels[n])]
            first, rest, n = first + k, rest - used, n + 1
            if not H.branch(rest > 0):
                break
        H.true('no further substep', n == len(S.solved) and first == len(S.seen))
        for b, q in zip(W.bodies, p):
            H.eq('pose', b.p, q)
        for c in W.contacts:
            if strict:
                H.le('no penetration at the end', c[0][3], tol)
        H.cover('substeps%d' % n)
    return fn


def staircase(n):
    """every piece of a fixed-length step fails once, so that each goes half of what is left, n times"""
    def fn(H):
        dt, tol = H.pos('dt'), H.real('tol', 0)
        plan = {2 * k + 1: [H.real('over', 0, strict=True) + tol] for k in range(n)}
        S = Script(H, plan)
        W = H.R.world.World([H.R.bodies.Circle(H.reals('c%d_' % i, 2), 1) for i in range(2)], dt=dt, tol=tol, engine=S.engine(), contact_callback=S.handler(), strict_no_penetration=True)
        W.t = t0 = H.real('t0')
        W.step(fixed_dt=True)
        H.true('pieces', len(S.solved) == n + 1)
        for k, (t, d, _) in enumerate(S.solved):
            H.eq('a piece requests what is left', d, dt / 2 ** k)
        H.eq('ends at the requested time', W.t, t0 + dt)
        H.cover('done')
    return fn


def cases(tier):
    kw = dict(fake_ode=True, angle_div=16)
    cs = [Case('strict', single(2, True, (1, 2, 3), 1), ['n1', 'n2', 'n4'], **kw),
          Case('strict-two-contacts', single(3, True, (1, 2), 2), ['n1', 'n2', 'n3'], **kw),
          Case('loose', single(2, False, (1, 2, 3, 4, 5), 1), ['n1', 'n4', 'accepted'], **kw),
          Case('loose-two-contacts', single(3, False, (1, 2), 2), ['n1', 'n2', 'accepted'], **kw),
          Case('two-steps', single(2, True, (1, 2, 3), 1, 2), ['n1', 'n2'], **kw),
          Case('fixed', fixed(True, (1, 2, 3)), ['substeps1', 'substeps2', 'substeps3'], **kw),
          Case('fixed-staircase', staircase(12), ['done'], **kw),
          Case('fixed-loose', fixed(False, (1, 2)), ['substeps1', 'substeps2'], **kw)]
    if tier == 'thorough':
        cs += [Case('fixed-4', fixed(True, (1, 2, 3, 4)), ['substeps3'], **dict(kw, angle_div=64)),
               Case('two-steps-loose', single(2, False, (1, 2, 3, 4, 5), 1, 2), ['n1', 'n2'], **kw),
               Case('strict-5', single(3, True, (1, 2, 3, 4, 5), 1), ['n6'], **dict(kw, angle_div=64))]
    return cs
