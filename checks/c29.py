"""C29 recording and running"""
import os
from vlib.engine import Case
from .common import *
from .c03 import quiet
from .script import Script

BOUNDS = ('recorders with any interval and any increasing sequence of up to 5 (thorough 7) times, and the real one driven by a running world; worlds run with any '
          'step sizes, any requested time reached within 4 (thorough 6) steps, from any clock value; with and without screen and recorder, window closed at any frame')
OUTSIDE = 'the images themselves; pacing to real time'

PATH = os.path.join('/tmp', '')          # exists: nothing is created


def saves(H):
    return [e[1] for e in H.log if e[0] == 'save']


def expected(k):
    return [os.path.join(PATH, '%d.bmp' % i) for i in range(k)]


def recorder(n):
    def fn(H):
        dt = H.pos('dt')
        R = H.R.utils.Recorder(dt, 'screen', PATH)
        t, due, k = 0, dt, 0
        for i in range(n):
            t = t + H.real('d%d' % i, 0)
            R.record(t)
            if H.branch(t >= due):
                due = due + dt
                k += 1
                H.cover('saved')
            else:
                H.cover('skipped')
            H.true('frames saved so far, numbered from zero', saves(H) == expected(k))
            H.true('frame counter', R.frame == k)
            H.le('no more frames than intervals', k * dt, t)
        H.cover('k%d' % k)
    return fn


class Draws:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def draw(self, screen, pixels_per_meter=1):
        self.log.append(('draw', self.name))
        return [self.name]


class Stepper:
    """a world whose steps take any positive time"""

    def __init__(self, H, t, dt):
        self.H, self.t, self.dt, self.n = H, t, dt, 0
        self.bodies = [Draws(H.log, 'b0'), Draws(H.log, 'b1')]
        self.joints = [(Draws(H.log, 'j0'), 0, None)]
        self.times = []

    def step(self, *a, **kw):
        self.t = self.t + self.H.pos('d%d' % self.n)
        self.n += 1
        self.times.append(self.t)
        self.H.log.append(('step', self.n))


def reach(H, t0, T, n):
    t = t0
    for i in range(n):
        t = t + H.pos('d%d' % i)
    H.assume(t >= T)


def run(n, screen, record, quits=False):
    def fn(H):
        t0, T, dt = H.real('t0', 0), H.real('T'), H.pos('dt')
        reach(H, t0, T, n)
        w = Stepper(H, t0, dt)
        kw = {}
        if screen:
            kw['screen'] = Screen()
        due, k = None, 0
        if record:
            interval = H.pos('interval')
            kw['recorder'] = H.R.utils.Recorder(interval, 'screen', PATH)
        q = None
        if quits:
            q = H.choose(n, 'closed')
            events = lambda: [Event(256)] if w.n == q + 1 else ([Event(1)] if w.n % 2 else [])
            old = H.R.utils.pygame.event.get
            H.R.utils.pygame.event.get = events
        if H.choose(2, 'animation dt given'):
            kw['animation_dt'] = .1
        try:
            H.R.world.run_world(w, run_time=T, print_time=False, **kw)
        finally:
            if quits:
                H.R.utils.pygame.event.get = old
        t, m = t0, 0
        while H.branch(t < T):
            t = t + H.pos('d%d' % m)
            m += 1
            if q is not None and q == m - 1:
                break
        H.true('steps until the time is reached, and no further', w.n == m)
        H.eq('clock', w.t, t)
        H.cover('m%d' % m)
        if record:
            # one chance to record after each step
            due = interval
            for i in range(m - (1 if q is not None and q == m - 1 else 0)):
                if H.branch(w.times[i] >= due):
                    due = due + interval
                    k += 1
                    H.cover('saved')
            H.true('frames', saves(H) == expected(k))
            shown = [e for e in H.log if e[0] in ('draw', 'save', 'step')]
            for i, e in enumerate(shown):
                if e[0] == 'save':
                    H.true('a frame shows everything', shown[i - 3:i] == [('draw', 'b0'), ('draw', 'b1'), ('draw', 'j0')])
    return fn


class Event:
    def __init__(self, type):
        self.type = type


class Screen:
    def get_size(self):
        return (9, 9)

    def blit(self, *a):
        pass


def real_world(H):
    """a real world: whatever subdivisions its steps take"""
    B = H.R.bodies
    bs = [B.Circle([0, 0], 1), B.Circle([H.reals('c', 2)[0], 9], 1)]
    n = 3
    S = Script(H, {1: [2.], 3: [H.real('pen')]})
    W = H.R.world.World(bs, dt=H.frac(1, 2), engine=S.engine(), contact_callback=S.handler())
    T = H.real('T', hi=H.frac(3, 4))
    H.R.world.run_world(W, run_time=T, print_time=False)
    # first step takes a quarter, the second half or a quarter, ...
    t, m = 0, 0
    times = [H.frac(1, 4)]
    times.append(H.frac(1, 4) if H.branch(H.real('pen') > W.tol) else H.frac(1, 2))
    times += [H.frac(1, 2)] * 4
    while H.branch(t < T):
        t = t + times[m]
        m += 1
    H.eq('clock', W.t, t)
    H.true('steps until the time is reached, and no further', len(S.solved) == m)
    H.cover('m%d' % m)


def cases(tier):
    kw = dict(fake_ode=True)
    n = 7 if tier == 'thorough' else 5
    m = 6 if tier == 'thorough' else 4
    cs = [Case('recorder', recorder(n), ['saved', 'skipped'] + ['k%d' % i for i in range(n + 1)], **kw),
          Case('run', run(m, False, False), ['m%d' % i for i in range(m + 1)], **kw),
          Case('run-screen', run(m, True, False), ['m%d' % i for i in range(m + 1)], **kw),
          Case('run-record', run(m - 1, True, True), ['saved'] + ['m%d' % i for i in range(m)], **kw),
          Case('run-closed', run(m - 1, True, True, True), ['saved', 'm%d' % (m - 1)], **kw),
          Case('world', real_world, ['m0', 'm1', 'm2'], **kw)]
    return cs
