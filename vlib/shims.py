"""Environment stand-ins.

* torch10: the parts of the PyTorch 1.0 API the repository was written for and that the installed
  PyTorch no longer has (legacy autograd Functions, btrifact/btrisolve, byte masks).  Used both in
  symbolic runs and in concrete replays.
* math / ode / pygame / random / gym / mpc stand-ins.
"""
import builtins
import math as _math
import os
import types

import torch
from torch.overrides import TorchFunctionMode

from . import terms as T
from . import symtensor as S
from .terms import Sym, SymBool


# ----------------------------------------------------------------------------------------------
# PyTorch 1.0 API
# ----------------------------------------------------------------------------------------------
class LegacyFunction:
    """torch.autograd.Function as in PyTorch 1.0: instances with non-static forward/backward, or
    new-style static methods through `apply`."""

    def __init__(self, *a, **k):
        self._saved = ()

    def save_for_backward(self, *ts):
        self._saved = ts

    @property
    def saved_tensors(self):
        return self._saved

    saved_variables = saved_tensors

    def mark_dirty(self, *a):
        pass

    def mark_non_differentiable(self, *a):
        pass

    def __call__(self, *inputs):
        return _run_function(self.forward, self.backward, self, inputs)

    @classmethod
    def apply(cls, *inputs):
        ctx = LegacyFunction()
        return _run_function(lambda *a: cls.forward(ctx, *a), lambda *g: cls.backward(ctx, *g), ctx, inputs)


def _run_function(fwd, bwd, ctx, inputs):
    class Bridge(torch.autograd.Function):
        @staticmethod
        def forward(c, *ins):
            ctx.needs_input_grad = c.needs_input_grad
            c.n = len(ins)
            return fwd(*ins)

        @staticmethod
        def backward(c, *gs):
            with torch.no_grad(), ByteMasks():
                r = bwd(*gs)
            r = tuple(r) if isinstance(r, (tuple, list)) else (r,)
            r = r + (None,) * (c.n - len(r))
            return tuple(None if not need else g for g, need in zip(r, c.needs_input_grad))
    return Bridge.apply(*inputs)


def _btrifact(x, info=None, pivot=True):
    with torch.no_grad() if not x.requires_grad else torch.enable_grad():
        r = torch.linalg.lu_factor(x)
    return r[0], r[1]


def _btrisolve(b, LU, piv):
    if b.dim() == 2 and LU.dim() == 3:
        return torch.linalg.lu_solve(LU, piv, b.unsqueeze(2)).squeeze(2)
    return torch.linalg.lu_solve(LU, piv, b)


def _byte(x):
    if isinstance(x, torch.Tensor) and x.dtype == torch.uint8:
        return x.bool()
    if isinstance(x, (list, tuple)) and any(isinstance(y, torch.Tensor) for y in x):
        return type(x)(_byte(y) for y in x)
    return x


class ByteMasks(TorchFunctionMode):
    """byte masks select like boolean ones (PyTorch < 2)"""
    MASK = {'masked_scatter_': (1,), 'masked_fill_': (1,), 'masked_select': (1,), 'masked_scatter': (1,),
            'masked_fill': (1,), '__getitem__': (1,), '__setitem__': (1,), 'where': (0,)}

    def __torch_function__(self, func, types_, args=(), kwargs=None):
        ix = self.MASK.get(getattr(func, '__name__', ''))
        if ix:
            args = tuple(_byte(a) if i in ix else a for i, a in enumerate(args))
        return func(*args, **(kwargs or {}))


def install_torch10():
    torch.Tensor.btrifact = _btrifact
    torch.Tensor.btrisolve = _btrisolve


class Proxy(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)


AUTOGRAD = Proxy(torch.autograd, Function=LegacyFunction)
FUNCTION_MOD = Proxy(torch.autograd.function, Function=LegacyFunction)
TORCH = Proxy(torch, autograd=AUTOGRAD, btrifact=_btrifact,
              btrisolve=_btrisolve)
AUTOGRAD.__dict__['function'] = FUNCTION_MOD


# ----------------------------------------------------------------------------------------------
# math
# ----------------------------------------------------------------------------------------------
def _sy(x):
    if isinstance(x, S.SymTensor):
        return x._sym_scalar()
    if isinstance(x, SymBool):
        return Sym.lift(x)
    return x if isinstance(x, Sym) else None


def _m1(name, f):
    real = getattr(_math, name)

    def g(x):
        s = _sy(x)
        if s is None:
            return real(x)
        return f(s)
    g.__name__ = name
    return g


def _m2(name, f):
    real = getattr(_math, name)

    def g(x, y):
        a, b = _sy(x), _sy(y)
        if a is None and b is None:
            return real(x, y)
        return f(Sym.lift(x) if a is None else a, Sym.lift(y) if b is None else b)
    g.__name__ = name
    return g


def _floor(s):
    c = s.const()
    if c is None:
        raise T.Unsupported('floor of a symbolic real')
    return _math.floor(c)


def _hypot(*xs):
    if all(_sy(x) is None for x in xs):
        return _math.hypot(*xs)
    acc = T.ZERO
    for x in xs:
        v = Sym.lift(x) if _sy(x) is None else _sy(x)
        acc = acc + v * v
    return T.s_sqrt(acc)


def make_math():
    m = types.ModuleType('math')
    for k in dir(_math):
        if not k.startswith('__'):
            setattr(m, k, getattr(_math, k))
    for n, f in (('sqrt', T.s_sqrt), ('sin', T.s_sin), ('cos', T.s_cos),
                 ('tan', lambda s: T.s_div(T.s_sin(s), T.s_cos(s))), ('fabs', T.s_abs),
                 ('isnan', lambda s: False), ('isinf', lambda s: False), ('isfinite', lambda s: True),
                 ('floor', _floor), ('ceil', lambda s: -_floor(-s)), ('trunc', lambda s: int(s)),
                 ('radians', lambda s: s * T.get_pi() / 180), ('degrees', lambda s: s * 180 / T.get_pi()),
                 ('exp', lambda s: _math.exp(float(s))), ('log', lambda s: _math.log(float(s)))):
        setattr(m, n, _m1(n, f))
    for n, f in (('atan2', T.s_atan2), ('pow', T.s_pow),
                 ('copysign', lambda a, b: T.s_abs(a) if b >= 0 else -T.s_abs(a))):
        setattr(m, n, _m2(n, f))
    m.hypot = _hypot

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if _sy(a) is None and _sy(b) is None:
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        a, b = Sym.lift(a), Sym.lift(b)
        d = T.s_abs(a - b)
        m1 = T.s_max(T.s_abs(a), T.s_abs(b))
        return bool(d <= T.s_max(m1 * rel_tol, Sym.lift(abs_tol)))
    m.isclose = isclose

    def fsum(xs):
        xs = list(xs)
        if any(_sy(x) is not None for x in xs):
            return sum(xs)
        return _math.fsum(xs)
    m.fsum = fsum
    return m


# ----------------------------------------------------------------------------------------------
# ode (broad phase).  Contract: HashSpace.collide calls back for every pair whose geoms may touch;
# the stand-in calls back for every pair (a superset), in index order.
# ----------------------------------------------------------------------------------------------
def _seq(x):
    if isinstance(x, torch.Tensor):
        return [_el(v) for v in S.get(x).reshape(-1)]
    return [_el(v) for v in x]


def _el(v):
    if isinstance(v, torch.Tensor):
        return S.get(v).reshape(-1)[0]
    return v


class Geom:
    def __init__(self, space=None):
        self.position = [0.0, 0.0, 0.0]
        self.quaternion = [1.0, 0.0, 0.0, 0.0]
        self.pos_sets = self.quat_sets = 0
        if space is not None:
            space.add(self)

    def setPosition(self, p):
        p = _seq(p)
        if len(p) != 3:
            raise TypeError('position needs 3 coordinates')
        self.position = p
        self.pos_sets += 1

    def getPosition(self):
        return tuple(self.position)

    def setQuaternion(self, q):
        q = _seq(q)
        if len(q) != 4:
            raise TypeError('quaternion needs 4 components')
        self.quaternion = q
        self.quat_sets += 1

    def getQuaternion(self):
        return tuple(self.quaternion)

    def getRotation(self):
        w, x, y, z = self.quaternion
        return [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w),
                2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
                2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]


class GeomSphere(Geom):
    def __init__(self, space=None, radius=1.0):
        super().__init__(space)
        self.radius = _el(radius)

    def getRadius(self):
        return self.radius

    def setRadius(self, r):
        self.radius = _el(r)


class GeomBox(Geom):
    def __init__(self, space=None, lengths=(1.0, 1.0, 1.0)):
        super().__init__(space)
        self.lengths = _seq(lengths)
        if len(self.lengths) != 3:
            raise TypeError('box needs 3 side lengths')

    def getLengths(self):
        return tuple(self.lengths)

    def setLengths(self, l):
        self.lengths = _seq(l)


class HashSpace:
    def __init__(self, *a):
        self.geoms = []
        self.calls = 0

    def add(self, g):
        if g not in self.geoms:
            self.geoms.append(g)

    def remove(self, g):
        self.geoms.remove(g)

    def query(self, g):
        return g in self.geoms

    def collide(self, arg, callback):
        self.calls += 1
        n = len(self.geoms)
        for i in range(n):
            for j in range(i + 1, n):
                callback(arg, self.geoms[i], self.geoms[j])

    def __len__(self):
        return len(self.geoms)

    def __iter__(self):
        return iter(self.geoms)

    getNumGeoms = __len__


def make_ode():
    m = types.ModuleType('ode')
    m.GeomSphere, m.GeomBox, m.HashSpace, m.SimpleSpace, m.Space = GeomSphere, GeomBox, HashSpace, HashSpace, HashSpace
    m.collide = lambda a, b: []
    m.GeomObject = Geom
    return m


# ----------------------------------------------------------------------------------------------
# pygame
# ----------------------------------------------------------------------------------------------
class Surface:
    def __init__(self, size=(100, 100)):
        self.size = size

    def get_size(self):
        return self.size

    def convert(self):
        return self

    def fill(self, *a):
        pass

    def blit(self, *a):
        pass

    def set_alpha(self, *a):
        pass


def make_pygame(log):
    m = types.ModuleType('pygame')
    m.Surface = Surface
    m.QUIT = 256
    m.KEYDOWN, m.K_ESCAPE = 2, 27
    m.DOUBLEBUF = 1
    m.draw = types.SimpleNamespace(
        line=lambda *a, **k: log.append(('line',) + a[1:]) or ('rect', len(log)),
        circle=lambda *a, **k: log.append(('circle',) + a[1:]) or ('rect', len(log)),
        polygon=lambda *a, **k: log.append(('polygon',) + a[1:]) or ('rect', len(log)))
    m.image = types.SimpleNamespace(save=lambda surf, path: log.append(('save', path)))
    m.event = types.SimpleNamespace(get=lambda: [])
    m.display = types.SimpleNamespace(update=lambda *a: log.append(('update',)), set_mode=lambda *a, **k: Surface(),
                                      flip=lambda: None, set_caption=lambda *a: None)
    m.init = lambda: None
    m.log = log
    return m


def make_stub(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


class Box:
    def __init__(self, low=None, high=None, shape=None, dtype=None):
        self.low, self.high, self.shape, self.dtype = low, high, shape, dtype


class Dict:
    def __init__(self, *a, **k):
        self.spaces = a[0] if a else k


class Discrete:
    def __init__(self, n=0):
        self.n = n


def make_gym():
    g = make_stub('gym')

    class Env:
        metadata = {}
    g.Env = Env
    g.Wrapper = Env
    g.ObservationWrapper = Env
    g.spaces = make_stub('gym.spaces', Box=Box, Dict=Dict, Discrete=Discrete)
    g.make = lambda *a, **k: Env()
    return g


# ----------------------------------------------------------------------------------------------
# time: arbitrary non-decreasing clock is not needed by the claims; sleeping is skipped
# ----------------------------------------------------------------------------------------------
def make_time():
    import time as _t
    m = types.ModuleType('time')
    for k in dir(_t):
        if not k.startswith('__'):
            setattr(m, k, getattr(_t, k))
    m.sleep = lambda s: None
    # wall clock: a fixed tick per look, so that runs can be repeated
    now = [1.0e9]

    def tick():
        now[0] += 0.0078125
        return now[0]
    m.time = tick
    return m


# ----------------------------------------------------------------------------------------------
# builtins
# ----------------------------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)


class SymFloat(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        s = _sy(x)
        if s is not None:
            c = s.const()
            return s if c is None else builtins.float(c)
        if isinstance(x, torch.Tensor):
            v = S._item(x)
            return SymFloat(v)
        return builtins.float(x)


MPC = make_stub('mpc.mpc', GradMethods=None, QuadCost=None, MPC=None)


def sym_repo(log, chooser):
    """(shims, builtins) of a symbolic run"""
    rnd = _random_shim(chooser)
    return ({'math': make_math(), 'ode': make_ode(), 'pygame': make_pygame(log), 'random': rnd,
             'gym': make_gym(), 'mpc': MPC, 'mpc.mpc': MPC, 'torch': TORCH, 'torch.autograd': AUTOGRAD,
             'torch.autograd.function': FUNCTION_MOD, 'time': make_time()},
            {'float': SymFloat, 'print': lambda *a, **k: None})


def _random_shim(chooser):
    import random as _r
    rnd = types.ModuleType('random')
    for k in dir(_r):
        if not k.startswith('__'):
            setattr(rnd, k, getattr(_r, k))
    rnd.choice = lambda seq: seq[chooser(len(seq), 'random')]
    rnd.randint = lambda a, b: a + chooser(b - a + 1, 'random')
    rnd.randrange = lambda a, b=None: (a + chooser(b - a, 'random')) if b is not None else chooser(a, 'random')

    def sample(seq, k):
        pool = list(seq)
        return [pool.pop(chooser(len(pool), 'random')) for _ in range(k)]
    rnd.sample = sample
    return rnd


def conc_repo(log, chooser, fake_ode=False):
    sh = {'random': _random_shim(chooser), 'torch': TORCH, 'torch.autograd': AUTOGRAD,
          'torch.autograd.function': FUNCTION_MOD, 'time': make_time(), 'pygame': make_pygame(log),
          'gym': make_gym(), 'mpc': MPC, 'mpc.mpc': MPC}
    if fake_ode:
        sh['ode'] = make_ode()
    return sh, {'print': lambda *a, **k: None}
