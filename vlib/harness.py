"""The harness API: one harness function, run symbolically (all inputs) or concretely (a replay)."""
import math
import random
from fractions import Fraction

import numpy as np
import torch

from . import lcp
from . import terms as T
from . import symtensor as S
from .terms import Sym, SymBool, to_b, b_and, b_or, b_not
from .explore import Stop

D = torch.double


class Input:
    __slots__ = ('name', 'gid', 'lo', 'hi', 'kind')

    def __init__(self, name, gid, lo, hi, kind):
        self.name, self.gid, self.lo, self.hi, self.kind = name, gid, lo, hi, kind


def _flat(x):
    """flatten tensors / nested lists / scalars into a list of scalars"""
    if isinstance(x, torch.Tensor):
        return list(S.get(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += _flat(y)
        return out
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    return [x]


class Base:
    """shared vocabulary"""
    torch = torch

    def pos(self, name, hi=None):
        return self.real(name, lo=0, hi=hi, strict=True)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def tensor(self, data, requires_grad=False):
        t = torch.tensor(data, dtype=D)
        if requires_grad:
            t = t.detach().clone().requires_grad_(True)
        return t

    def flat(self, x):
        return _flat(x)

    def eq(self, label, a, b, **kw):
        self._elementwise(label, a, b, '==', **kw)

    def le(self, label, a, b, **kw):
        self._elementwise(label, a, b, '<=', **kw)

    def ge(self, label, a, b, **kw):
        self._elementwise(label, b, a, '<=', **kw)

    def lt(self, label, a, b, **kw):
        self._elementwise(label, a, b, '<', **kw)

    def _elementwise(self, label, a, b, rel, **kw):
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb * len(fa)
            elif len(fa) == 1:
                fa = fa * len(fb)
            else:
                self.fail(label, 'lengths %d and %d differ' % (len(fa), len(fb)))
                return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self._rel(label if len(fa) == 1 else '%s[%d]' % (label, i), x, y, rel, **kw)


class SymH(Base):
    symbolic = True

    @property
    def angle_div(self):
        return T.universe().angle_div

    def __init__(self, ctx, R):
        self.ctx, self.R = ctx, R
        self.log = None

    # -- inputs
    def real(self, name, lo=None, hi=None, strict=False, kind='real'):
        c = self.ctx
        if name in c.input_ix:
            return c.input_ix[name]
        v = T.new_var(name)
        (m, _), = v.r.num.items()
        gid = m[0][0]
        T.universe().input_names.add(name)
        c.inputs.append(Input(name, gid, lo, hi, kind))
        c.input_ix[name] = v
        if kind == 'angle':
            c.angles.add(name)
        # witness values
        for w in c.wit:
            if name not in w.inputs:
                w.inputs[name] = sample(c.rng, lo, hi, strict, kind)
        if name not in c.base_inputs:
            c.base_inputs[name] = c.last_inputs.get(name)
            if c.base_inputs[name] is None:
                c.base_inputs[name] = sample(c.rng, lo, hi, strict, kind)
        if lo is not None:
            c.assume(to_b(v > lo if strict else v >= lo))
        if hi is not None:
            c.assume(to_b(v <= hi))
        return v

    def angle(self, name):
        return self.real(name, kind='angle')

    def pyth(self, name, c, s):
        """the angle whose angle_div-th part has the rational cosine c and sine s (Fractions)"""
        c, s = Fraction(c), Fraction(s)
        assert c * c + s * s == 1
        U = T.universe()
        val = math.atan2(s, c) * U.angle_div
        U.fixed[name] = val
        for w in self.ctx.wit:
            w.inputs[name] = val
        self.ctx.base_inputs[name] = val
        v = self.real(name, kind='fixed')
        (m, _), = v.r.num.items()
        U.trig_const[m] = (Sym(T.r_const(c)), Sym(T.r_const(s)))
        lo, hi = Fraction(repr(val - 1e-9)), Fraction(repr(val + 1e-9))
        U.gens[m[0][0]].axioms = [T.B('atom', '<', {m: Fraction(-1), T.ONE_M: lo}),
                                  T.B('atom', '<', {m: Fraction(1), T.ONE_M: -hi})]
        return v

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self.ctx.stop('infeasible', 'assumption')
            return
        self.ctx.assume(to_b(S._item(cond) if isinstance(cond, torch.Tensor) else cond))

    def choose(self, n, tag):
        return self.ctx.choose(n, 'h:' + tag)

    def pin(self, tag, val=0):
        """fix an environment choice"""
        self.ctx.pins[tag] = val

    def branch(self, cond):
        return bool(cond)

    def lcp(self, prob, free=False, must=False):
        return lcp.symbolic(self, prob, free)

    # -- scalars
    def sqrt(self, x):
        return T.s_sqrt(Sym.lift(x))

    def cos(self, x):
        return T.s_cos(x)

    def sin(self, x):
        return T.s_sin(x)

    def atan2(self, y, x):
        return T.s_atan2(y, x)

    @property
    def pi(self):
        return T.get_pi()

    def abs(self, x):
        return T.s_abs(Sym.lift(x))

    def frac(self, a, b=1):
        return Sym(T.r_const(Fraction(a, b)))

    def num(self, x):
        f = _flat(x)
        assert len(f) == 1
        return Sym.lift(f[0]) if not isinstance(f[0], float) else f[0]

    def both(self, *cs):
        return SymBool(b_and([to_b(c) for c in cs]))

    def either(self, *cs):
        return SymBool(b_or([to_b(c) for c in cs]))

    def neg(self, c):
        return SymBool(b_not(to_b(c)))

    def is_eq(self, a, b):
        return Sym.lift(a) == Sym.lift(b)

    def is_le(self, a, b):
        return Sym.lift(a) <= Sym.lift(b)

    def positive(self, x):
        """x > 0, when it is not a matter of rounding"""
        return self.branch(Sym.lift(x) > 0)

    # -- claims
    def _rel(self, label, x, y, rel, tol=0):
        for z in (x, y):
            if isinstance(z, float) and not math.isfinite(z):
                xs, ys = x, y
                ok = (xs == ys) if rel == '==' else (xs <= ys if rel == '<=' else xs < ys)
                if isinstance(ok, SymBool):
                    return self.true(label, ok)
                if not ok:
                    self.fail(label, 'non-finite value %r vs %r' % (x, y))
                return
        x, y = Sym.lift(x), Sym.lift(y)
        self.ctx.obs.append((label, x))
        tol = T.const_of(tol) if tol else 0
        if rel == '==':
            if not tol:
                phi = to_b(x == y)
                d = x - y
                def away(e):
                    return b_or([to_b(d >= e), to_b(d <= -e)])
            else:
                d = x - y
                phi = b_and([to_b(d <= tol), to_b(d >= -tol)])

                def away(e):
                    return b_or([to_b(d >= tol + e), to_b(d <= -tol - e)])
        else:
            d = x - y
            phi = to_b(d <= tol) if rel == '<=' else to_b(d < tol)

            def away(e):
                return to_b(d >= tol + e)
        if phi.op == 't':
            self.ctx.n_obl += 1
            self.ctx.n_norm += 1
            self.ctx.alive()
            return
        # progressively smaller violations, built only if needed
        rob = _Lazy(away, b_not(phi))
        self.ctx.prove(label, phi, rob, info='%s: %s %s %s' % (label, _short(x), rel, _short(y)))

    def le_via(self, label, a, b, lemma):
        """a <= b, shown through a condition that implies it"""
        d = Sym.lift(a) - Sym.lift(b)
        self.ctx.obs.append((label, Sym.lift(a)))
        phi = to_b(lemma)
        if phi.op == 't':
            self.ctx.n_obl += 1
            self.ctx.n_norm += 1
            return
        self.ctx.prove(label, phi, _Lazy(lambda e: to_b(d >= e), to_b(d > 0)), info=label)

    def true(self, label, cond):
        if isinstance(cond, torch.Tensor):
            cond = S._item(cond)
        self.ctx.obs.append((label, None))
        self.ctx.prove(label, to_b(cond))

    def fail(self, label, info=''):
        self.ctx.obs.append((label, None))
        self.ctx.prove(label, T.FALSE, info=label + ': ' + info)

    def observe(self, label, x):
        for i, v in enumerate(_flat(x)):
            self.ctx.obs.append(('obs:%s[%d]' % (label, i), Sym.lift(v) if not isinstance(v, float) else v))

    def cover(self, label):
        self.ctx.alive()
        self.ctx.covered.add(label)

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except exc as e:
            self.ctx.alive()
            return e
        self.ctx.alive()
        return None

    def gradcheck(self, label, fn, names_vals, ref=None):
        """fn: dict name -> 0-dim tensor  ->  list of scalar tensors.  Compares backpropagation into the leaves
        with the exact derivatives of the computed expressions, for every input variable of the leaves' values.
        ref: expressions that the outputs equal on a neighbourhood of every input; their derivatives are used instead."""
        S.KEEP = []
        try:
            self._gradcheck(label, fn, names_vals, ref)
        finally:
            S.KEEP = None

    def _gradcheck(self, label, fn, names_vals, ref):
        leaves = {k: self.tensor(v, requires_grad=True) for k, v in names_vals.items()}
        ys = fn(leaves)
        vals = {k: Sym.lift(v) for k, v in names_vals.items()}
        jac = {}
        for k, v in vals.items():
            for g in T.pgens(v.r.num):
                G = T.universe().gens[g]
                if G.kind == 'var' and G.name not in T.universe().fixed:
                    jac.setdefault(g, {})[k] = None
        for g, row in jac.items():
            for k in row:
                row[k] = T.diff(vals[k], Sym(T.Rat(T.pvar(g))))
        for oi, y in enumerate(ys):
            gr = [None] * len(leaves)
            if y.requires_grad:
                gr = torch.autograd.grad(y, list(leaves.values()), retain_graph=True, allow_unused=True)
            gr = {k: T.ZERO if x is None else self.num(x) for k, x in zip(leaves, gr)}
            ysym = self.num(y)
            if ref is not None:
                self.eq('%s: out%d' % (label, oi), ysym, ref[oi])
                ysym = Sym.lift(ref[oi])
            for k in leaves:
                self.ctx.obs.append(('obs:%s: d out%d / d %s' % (label, oi, k), gr[k]))
            for g, row in jac.items():
                exact = T.diff(ysym, Sym(T.Rat(T.pvar(g))))
                got = T.ZERO
                for k, d in row.items():
                    got = got + gr[k] * d
                self.eq('%s: d out%d / d %s' % (label, oi, T.universe().gens[g].name), got, exact)
                self.ctx.obs.pop()

    def grads(self, y, leaves):
        g = torch.autograd.grad(y, leaves, retain_graph=True, allow_unused=True)
        return [torch.zeros_like(l) if x is None else x for x, l in zip(g, leaves)]


class _Lazy:
    """robust[0], robust[1], robust[-1]"""

    def __init__(self, away, neg):
        self.away, self.neg_ = away, neg

    def __len__(self):
        return 3

    def __getitem__(self, i):
        if i == 0:
            return self.away(Fraction(1, 20))
        if i == 1:
            return self.away(Fraction(1, 5000))
        return self.neg_


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'


def sample(rng, lo, hi, strict=False, kind='real'):
    if kind == 'angle':
        return rng.uniform(-3, 3)
    a = -4.0 if lo is None else float(lo)
    b = 4.0 if hi is None else float(hi)
    if lo is not None and hi is None:
        b = a + 4.0
    if hi is not None and lo is None:
        a = b - 4.0
    v = a + (b - a) * rng.random()
    if strict and v <= a:
        v = (a + b) / 2
    return v


class Inadmissible(Exception):
    """the concrete inputs do not satisfy the harness' assumptions"""


class Violated(Exception):
    def __init__(self, label, detail):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class ConcH(Base):
    """the same harness on floats: decides whether a counterexample is real"""
    symbolic = False

    def __init__(self, R, inputs, choices, rtol=1e-6, atol=1e-7, collect=False):
        self.R, self.inputs = R, dict(inputs)
        self.queues, self.pins = {}, {}
        self.taken, self.asked = [], {}
        for tag, v in choices:
            self.queues.setdefault(tag, []).append(v)
        self.rtol, self.atol = rtol, atol
        self.obs = []
        self.violations = []
        self.collect = collect

    def real(self, name, lo=None, hi=None, strict=False, kind='real'):
        given = name in self.inputs
        v = float(self.inputs[name]) if given else sample(self.rng or random.Random(name), lo, hi, strict, kind)
        if self.rng:
            # what is searched for must be beyond rounding, so neither large nor tiny numbers
            if abs(v) > 8 and (hi is None or hi >= 0) and (lo is None or lo <= 0):
                v = math.fmod(v, 8)
            while 0 < abs(v) < 1e-2 and (hi is None or abs(v) * 10 <= hi) and (lo is None or lo <= 0):
                v *= 10
            self.inputs[name] = v
        if lo is not None and (v < lo or (strict and v <= lo)):
            raise Inadmissible(name)
        if hi is not None and v > hi:
            raise Inadmissible(name)
        return v

    def angle(self, name):
        return self.real(name, kind='angle')

    angle_div = 1
    hunting = False
    rng = None                     # environment choices that are not given

    def pyth(self, name, c, s):
        return math.atan2(Fraction(s), Fraction(c)) * self.angle_div

    def assume(self, cond):
        if isinstance(cond, torch.Tensor):
            cond = cond.item()
        if not cond:
            raise Inadmissible('assumption')

    def pin(self, tag, val=0):
        self.pins[tag] = val

    def take(self, n, tag):
        if tag in self.pins:
            return self.pins[tag]
        q = self.queues.get(tag)
        v = q.pop(0) if q else self.rng.randrange(n) if self.rng else 0
        v = min(v, n - 1)
        self.taken.append((tag, v))
        return v

    def choose(self, n, tag):
        return self.take(n, 'h:' + tag)

    def branch(self, cond):
        return bool(cond)

    def lcp(self, prob, free=False, must=False):
        return lcp.concrete(self, prob, must)

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def atan2(self, y, x):
        return math.atan2(y, x)

    pi = math.pi

    def abs(self, x):
        return abs(x)

    def frac(self, a, b=1):
        return a / b

    def num(self, x):
        f = self.flat(x)
        assert len(f) == 1
        return float(f[0])

    def flat(self, x):
        return _cflat(x)

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def neg(self, c):
        return not bool(c)

    def positive(self, x):
        return x > (1e-4 if self.hunting else 1e-9)

    def is_eq(self, a, b):
        return abs(a - b) <= self.atol + self.rtol * max(abs(a), abs(b), 1)

    def is_le(self, a, b):
        return a <= b + self.atol + self.rtol * max(abs(a), abs(b), 1)

    def _elementwise(self, label, a, b, rel, **kw):
        fa, fb = _cflat(a), _cflat(b)
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb * len(fa)
            elif len(fa) == 1:
                fa = fa * len(fb)
            else:
                self.fail(label, 'lengths %d and %d differ' % (len(fa), len(fb)))
                return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self._rel(label if len(fa) == 1 else '%s[%d]' % (label, i), x, y, rel, **kw)

    def _rel(self, label, x, y, rel, tol=0):
        x, y = float(x), float(y)
        self.obs.append((label, x))
        t = tol + self.atol + self.rtol * max(abs(x), abs(y)) if math.isfinite(x) and math.isfinite(y) else 0
        if rel == '==':
            ok = (x == y) or abs(x - y) <= t
        else:
            ok = x <= y + t
        if not ok:
            self._viol(label, '%r %s %r' % (x, rel, y))

    def le_via(self, label, a, b, lemma):
        self._rel(label, a, b, '<=')

    def _viol(self, label, detail):
        if not self.collect:
            raise Violated(label, detail)
        self.violations.append((label, detail))

    def true(self, label, cond):
        if isinstance(cond, torch.Tensor):
            cond = cond.item()
        self.obs.append((label, None))
        if not cond:
            self._viol(label, 'condition is false')

    def fail(self, label, info=''):
        self.obs.append((label, None))
        self._viol(label, info)

    def observe(self, label, x):
        for i, v in enumerate(_cflat(x)):
            self.obs.append(('obs:%s[%d]' % (label, i), float(v)))

    def cover(self, label):
        pass

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except (Violated, Inadmissible):
            raise
        except exc as e:
            return e
        return None

    def gradcheck(self, label, fn, names_vals, ref=None):
        names = list(names_vals)

        def run(vals):
            self.queues = {k: list(q) for k, q in queues.items()}
            L = {k: self.tensor(v, requires_grad=True) for k, v in vals.items()}
            return L, fn(L)
        queues = {k: list(q) for k, q in self.queues.items()}
        leaves, ys = run(names_vals)
        after, nobs = self.queues, len(self.obs)
        fds, kinks, y0 = {k: [] for k in names}, {k: [] for k in names}, [float(y) for y in ys]
        for k in names:
            for eps in (1e-3, 1e-4, 1e-5, 1e-6):
                o = []
                for sg in (2, 1, -1, -2):
                    o.append([float(y) for y in run(dict(names_vals, **{k: names_vals[k] + sg * eps}))[1]])
                if all(len(x) == len(ys) for x in o):
                    if eps < 1e-4:
                        kinks[k].append([(o[1][i] - 2 * y0[i] + o[2][i]) / eps for i in range(len(ys))])
                    fds[k].append([(-o[0][i] + 8 * o[1][i] - 8 * o[2][i] + o[3][i]) / (12 * eps) for i in range(len(ys))])
            if len(fds[k]) < 2:
                raise Inadmissible('at a switch')
        extra = []
        for oi, y in enumerate(ys):
            if ref is not None:
                self.eq('%s: out%d' % (label, oi), float(y), ref[oi])
                extra.append(self.obs.pop())
            g = [None] * len(leaves)
            if y.requires_grad:
                g = torch.autograd.grad(y, list(leaves.values()), retain_graph=True, allow_unused=True)
            for k, gi in zip(names, g):
                got = 0.0 if gi is None else float(gi)
                extra.append(('obs:%s: d out%d / d %s' % (label, oi, k), got))
                # the pair of steps that agree best
                f = [x[oi] for x in fds[k]]
                err, fd = min((abs(x - y), y) for x, y in zip(f, f[1:]))
                if not abs(fd - got) <= 1e-3 * (1 + max(abs(fd), abs(got))) + 10 * err:
                    if any(abs(x[oi]) > abs(fd - got) / 5 for x in kinks[k]):
                        raise Inadmissible('at a switch')
                    self._viol('%s: d out%d / d %s' % (label, oi, k), 'autograd %r, finite difference %r' % (got, fd))
        del self.obs[nobs:]
        self.obs += extra
        self.queues = after

    def grads(self, y, leaves):
        g = torch.autograd.grad(y, leaves, retain_graph=True, allow_unused=True)
        return [torch.zeros_like(l) if x is None else x for x, l in zip(g, leaves)]


def _cflat(x):
    if isinstance(x, torch.Tensor):
        return x.detach().reshape(-1).tolist()
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += _cflat(y)
        return out
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    return [x]
