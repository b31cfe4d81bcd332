"""C30 the breakout environment"""
import numpy as np
from vlib.engine import Case
from .common import *
from .c03 import quiet

BOUNDS = ('any paddle, ball and one or two blocks (any place and size along any of the six rows), any ball velocity, paddle speeds, controls and thresholds; the '
          'placeholder for no blocks; up to two control steps without contact')
OUTSIDE = 'extraction of parameters from screen images; control optimisation (mpc is not installed); contacts during a control step (C17)'


def params(H, nblocks, tensors=False):
    paddle = [H.reals('pp', 2), [H.pos('pw'), H.pos('ph')]]
    blocks = []
    for i in range(nblocks):
        row = H.choose(6, 'row%d' % i) if i == 0 else 3
        y = 57 + 6 * row + 3
        blocks.append([[H.real('bx%d' % i), F(y) if H.symbolic else float(y)], [H.pos('bw%d' % i), F(6) if H.symbolic else 6.]])
    ball = [H.reals('ball', 2), H.pos('brad')]
    if tensors:
        return [H.tensor(x) for x in paddle], [[H.tensor(x) for x in b] for b in blocks], [H.tensor(ball[0]), H.tensor(ball[1])]
    return paddle, blocks, ball


def flatten(paddle, blocks, ball):
    return paddle[0] + paddle[1] + sum([b[0] + b[1] for b in blocks], []) + ball[0] + [ball[1]]


def roundtrip(n):
    def fn(H):
        R = H.R.run_breakout
        plain = params(H, n)
        form = H.choose(2, 'form') if n else 0
        # parameters come as lists (from a screen) or as tensors (from a state)
        v = R.to_vector(*(params(H, n, True) if form else plain)) if not form else R.to_vector(
            [H.tensor(x) for x in plain[0]], [[H.tensor(x) for x in b] for b in plain[1]], [H.tensor(plain[2][0]), plain[2][1]])
        if n == 0:
            plain = (plain[0], [[[1000, 60], [1, 1]]], plain[2])
        H.true('length of the state', v.dim() == 1 and v.size(0) == 4 + 4 * len(plain[1]) + 3)
        H.eq('state', v, flatten(*plain))
        p, bs, b = R.from_vector(v)
        H.true('shape of the parameters', len(p) == 2 and len(bs) == len(plain[1]) and len(b) == 2)
        H.eq('paddle', sum([vec(H, x) for x in p], []), plain[0][0] + plain[0][1])
        for x, y in zip(bs, plain[1]):
            H.eq('block', sum([vec(H, t) for t in x], []), y[0] + y[1])
        H.eq('ball', vec(H, b[0]) + [H.num(b[1])], plain[2][0] + [plain[2][1]])
        H.eq('and back', R.to_vector(p, bs, b), vec(H, v))
        H.cover('done')
    return fn


SCREEN = [[[4, 94.5], [8, 189]], [[156, 97.5], [8, 195]], [[80, 15.5], [144, 31]], [[4, 192], [8, 6]], [[164, 192], [8, 6]]]


def build(H, plain, vel, tensors):
    H.R.contacts.DiffContactHandler = quiet(H)
    args = plain
    if tensors:
        args = H.R.run_breakout.from_vector(H.R.run_breakout.to_vector(*plain))
    return H.R.encoder.make_world(*args, H.tensor(vel) if tensors else vel)


def check_world(H, w, ball, paddle, blocks, idx, plain, vel):
    H.true('ball, paddle, five walls and the blocks', len(w.bodies) == 7 + len(plain[1]))
    H.true('the paddle is where its index says', w.bodies[idx] is paddle and ball in w.bodies and len(blocks) == len(plain[1])
           and all(b in w.bodies for b in blocks))
    H.eq('ball', [0] + plain[2][0] + [plain[2][1]], vec(H, ball.p) + [H.num(ball.rad)])
    H.eq('ball velocity', ball.v, [0] + vel)
    H.eq('paddle', vec(H, paddle.p) + vec(H, paddle.dims), [0] + plain[0][0] + plain[0][1])
    for b, x in zip(blocks, plain[1]):
        H.eq('block', vec(H, b.p) + vec(H, b.dims), [0] + x[0] + x[1])
    walls = [b for b in w.bodies if b is not ball and b is not paddle and b not in blocks]
    got = sorted([[float(x) for x in vec(H, b.pos) + vec(H, b.dims)] for b in walls])
    H.true('walls', got == sorted([[float(x) for x in a + b] for a, b in SCREEN]))
    for b in w.bodies:
        if b is not ball:
            H.eq('all but the ball start at rest', b.v, 0)
        H.true('frictionless', float(H.num(b.fric_coeff)) == 0)


def made(n):
    def fn(H):
        plain = params(H, n)
        vel = H.reals('vel', 2)
        tensors = H.choose(2, 'from state')
        w, ball, paddle, blocks, idx = build(H, plain, vel, tensors)
        if not n and tensors:
            plain = (plain[0], [[[1000, 60], [1, 1]]], plain[2])
        check_world(H, w, ball, paddle, blocks, idx, plain, vel)
        # immobile, whatever velocity they are given
        start = [vec(H, b.p) for b in w.bodies]
        v = H.reals('v', 3 * len(w.bodies))
        w.set_v(H.tensor(v))
        w.step()
        for i, b in enumerate(w.bodies):
            if b is ball or b is paddle:
                H.eq('ball and paddle move freely', b.v, v[3 * i:3 * i + 3])
                H.eq('ball and paddle move freely', b.p, add(start[i], v[3 * i:3 * i + 3]))
            else:
                H.eq('everything else is immobile', b.p, start[i])
                H.eq('everything else is immobile', b.v, 0)
        H.cover('done')
    return fn


def meets(H):
    """the ball bounces off paddle, blocks, roof and side walls, and off nothing else"""
    real = H.R.contacts.DiffContactHandler
    plain = ([[80, 190], [H.pos('pw', 40), 4]], [[[H.real('bx', 20, 140), 60], [8, 6]], [[100, 66], [8, 6]]], [[80, 120], 1])
    if H.symbolic:
        plain[0][0][:] = [F(80), F(190)]
    w, ball, paddle, blocks, idx = build(H, plain, [1, 2], 0)
    H.R.contacts.DiffContactHandler = real
    walls = [b for b in w.bodies if b is not ball and b is not paddle and b not in blocks]
    t = H.choose(8, 'target')
    target = ([paddle] + blocks + walls)[t]
    ball.set_p(H.tensor([0] + add(vec(H, target.pos), [H.frac(1, 4), H.frac(1, 8)])))
    H.pin('random')
    n = len(collide(H, ball, target))
    stopper = t >= 3 and float(H.num(target.pos[1])) > 190
    H.true('the ball meets everything but the stoppers', n == (0 if stopper else 1))
    H.cover('t%d' % t)


def control(n):
    def fn(H):
        plain = params(H, n)
        vel = H.reals('vel', 2)
        w, ball, paddle, blocks, idx = build(H, plain, vel, 0)
        sx, sy = H.real('sx'), H.real('sy')
        bpos, ppos = plain[2][0], plain[0][0]
        for s in range(2):
            a = H.real('a%d' % s)
            how = H.choose(2, 'through simulate') if s == 0 else 1
            if how:
                sn = H.R.run_breakout.simulate_breakout(a, w, ball, paddle, blocks, idx, paddle_vel_x=sx, paddle_vel_y=sy)
            else:
                H.R.encoder.step_breakout(w, idx, a, sx, sy)
            bpos, ppos = add(bpos, vel), add(ppos, [sx * a, sy * a])
            H.eq('paddle driven at speed times control', paddle.v, [0, sx * a, sy * a])
            H.eq('paddle moves', paddle.p, [0] + ppos)
            H.eq('ball moves on', ball.p, [0] + bpos)
            H.eq('ball keeps its velocity', ball.v, [0] + vel)
            for b, x in zip(blocks, plain[1]):
                H.eq('blocks stay', vec(H, b.p) + vec(H, b.dims), [0] + x[0] + x[1])
            H.eq('clock', w.t, s + 1)
            if how:
                H.true('a batch of one state', sn.dim() == 2 and sn.size(0) == 1)
                H.eq('state after the step', sn, flatten([ppos, plain[0][1]], plain[1], [bpos, plain[2][1]]))
                H.eq('ball size', ball.rad, plain[2][1])
                H.cover('simulated%d' % s)
    return fn


def spinning(H):
    """paddle and ball also turn, and only the paddle's linear velocity is driven"""
    plain = params(H, 1)
    w, ball, paddle, blocks, idx = build(H, plain, H.reals('vel', 2), 0)
    v = [H.real('v%d' % i) if i // 3 in (w.bodies.index(ball), idx) else 0 for i in range(3 * len(w.bodies))]
    v[3 * idx] = H.angle('spin')
    w.set_v(H.tensor(v))
    sx, sy, a = H.real('sx'), H.real('sy'), H.real('a')
    H.R.encoder.step_breakout(w, idx, a, sx, sy)
    for i, b in enumerate(w.bodies):
        H.eq('nothing else is driven', b.v, [v[3 * i], sx * a, sy * a] if b is paddle else v[3 * i:3 * i + 3])
    H.eq('paddle', paddle.p, [v[3 * idx]] + add(plain[0][0], [sx * a, sy * a]))
    H.cover('done')


def driven(H):
    """run_breakout: one control per step, in order"""
    plain = params(H, 1)
    vel = H.reals('vel', 2)
    w, ball, paddle, blocks, idx = build(H, plain, vel, 0)
    speed = H.real('sx')
    acts = H.reals('a', 3)
    k = 1 + H.choose(3, 'steps')
    H.R.encoder.run_breakout(w, idx, list(acts), paddle_vel=speed, run_time=k)
    H.eq('clock', w.t, k)
    x = plain[0][0][0]
    for a in acts[:k]:
        x = x + speed * a
    H.eq('paddle', paddle.p, [0, x, plain[0][0][1]])
    H.eq('ball', ball.p, [0] + add(plain[2][0], scale(vel, k)))
    H.cover('k%d' % k)


def action(H):
    R = H.R.run_breakout
    a = H.real('a')
    th = H.real('th', 0)
    H.assume(th > 0)
    form = H.choose(2, 'default')
    if form:
        th = H.frac(9, 10)
    got = R.get_action([a]) if form else R.get_action([a], threshold=th)
    if H.branch(a >= th):
        H.cover('right')
        H.true('positive control', got == 3)
    elif H.branch(a <= -th):
        H.cover('left')
        H.true('negative control', got == 2)
    else:
        H.cover('neutral')
        H.true('small control', got == 0)


def cases(tier):
    kw = dict(fake_ode=True)
    cs = [Case('state-%d' % n, roundtrip(n), ['done'], **kw) for n in (0, 1, 2)]
    cs += [Case('world-%d' % n, made(n), ['done'], **kw) for n in (0, 1, 2)]
    cs += [Case('control-%d' % n, control(n), ['simulated0', 'simulated1'], **kw) for n in (1, 2)]
    cs.append(Case('meets', meets, ['t%d' % i for i in range(8)], **kw))
    cs += [Case('spinning', spinning, ['done'], **kw), Case('driven', driven, ['k1', 'k2', 'k3'], **kw), Case('action', action, ['right', 'left', 'neutral'], **kw)]
    return cs
