"""SMT queries over the term universe (z3, nonlinear real arithmetic; cvc5 as a second opinion)."""
import sys
import threading
import time
from fractions import Fraction

_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _P not in sys.path:
    sys.path.append(_P)
import z3                                                                     # noqa: E402

from . import terms as T                                                      # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.max_time = 0.0
        self.terms_max = 0

    def add(self, o):
        for k in ('queries', 'cached', 'time', 'sat', 'unsat', 'unknown'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.max_time = max(self.max_time, o.max_time)
        self.terms_max = max(self.terms_max, o.terms_max)

    def as_dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in self.__dict__.items()}


class Solver:
    def __init__(self, stats):
        self.stats = stats
        self.cache = {}
        self.ctx = z3.main_ctx()

    # -- lowering --------------------------------------------------------------------------
    def fresh_path(self):
        self.zv = {}

    def var(self, g):
        v = self.zv.get(g)
        if v is None:
            v = self.zv[g] = z3.Real('g%d' % g)
        return v

    def poly(self, p):
        ts = []
        for m, c in p.items():
            f = None
            for g, e in m:
                x = self.var(g)
                for _ in range(e):
                    f = x if f is None else f * x
            k = z3.RealVal(str(c))
            ts.append(k if f is None else (f if c == 1 else k * f))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def formula(self, b):
        if b.op == 't':
            return z3.BoolVal(True)
        if b.op == 'f':
            return z3.BoolVal(False)
        if b.op == 'atom':
            # constant on the right-hand side
            p = dict(b.p)
            k = p.pop(T.ONE_M, None)
            lhs = self.poly(p)
            rhs = z3.RealVal(str(-k)) if k else z3.RealVal(0)
            return {'<': lhs < rhs, '<=': lhs <= rhs, '==': lhs == rhs, '!=': lhs != rhs}[b.rel]
        a = [self.formula(x) for x in b.args]
        return z3.And(a) if b.op == 'and' else z3.Or(a)

    def axioms(self, gens):
        """side axioms of every generator reachable from gens; returns (formulas, all gens)"""
        out = []
        seen = set()
        todo = list(gens)
        U = T.universe()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            gen = U.gens[g]
            if gen.kind == 'sqrt':
                x = self.var(g)
                out.append(x * x == self.poly(gen.sq))
            elif gen.kind in ('sin', 'csin'):
                c, s = self.var(gen.deps[0]), self.var(g)
                out.append(c * c + s * s == 1)
            for a in gen.axioms:
                out.append(self.formula(a))
                todo.extend(a.gens())
            todo.extend(gen.deps)
        return out, seen

    def closure(self, gens):
        seen = set()
        todo = list(gens)
        U = T.universe()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            gen = U.gens[g]
            todo.extend(gen.deps)
            for a in gen.axioms:
                todo.extend(a.gens())
        return seen

    def slice(self, pc, b):
        """members of pc sharing (transitively) a generator with b"""
        gens = self.closure(b.gens())
        rest = [(a, self.closure(a.gens())) for a in pc]
        keep = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for a, g in rest:
                if not g or g & gens:
                    keep.append(a)
                    gens |= g
                    changed = True
                else:
                    nxt.append((a, g))
            rest = nxt
        return keep

    # -- queries ---------------------------------------------------------------------------
    def check(self, bs, timeout=10.0, want_model=False, tactic=None):
        """('sat'|'unsat'|'unknown', model dict gen-> Fraction/float or None)"""
        bs = [b for b in bs if b.op != 't']
        for b in bs:
            if b.op == 'f':
                self.stats.queries += 1
                self.stats.unsat += 1
                return 'unsat', None
        key = None
        if not want_model:
            key = frozenset(b.key() for b in bs)
            key = (key, self.sig(bs))
            r = self.cache.get(key)
            if r is not None:
                self.stats.cached += 1
                return r, None
        t0 = time.time()
        fs = [self.formula(b) for b in bs]
        gens = set()
        nonlin = False
        for b in bs:
            gens |= b.gens()
            nonlin = nonlin or not _linear(b)
        ax, allg = self.axioms(gens)
        U = T.universe()
        nonlin = nonlin or any(U.gens[g].kind in ('sqrt', 'sin', 'cos', 'csin', 'ccos', 'atan2', 'angle') for g in allg)
        res, model = self._run(fs + ax, timeout, nonlin, want_model, allg)
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.time += dt
        st.max_time = max(st.max_time, dt)
        setattr(st, res, getattr(st, res) + 1)
        if key is not None and res != 'unknown':
            self.cache[key] = res
        return res, model

    def sig(self, bs):
        """what the generators used mean (so that a cache entry never crosses meanings)"""
        U = T.universe()
        gens = set()
        for b in bs:
            gens |= b.gens()
        out = []
        for g in sorted(self.closure(gens)):
            gen = U.gens[g]
            if gen.kind == 'sqrt':
                out.append((g, T.pkey(gen.sq)))
            else:
                out.append((g, gen.name, tuple(a.key() for a in gen.axioms)))
        return tuple(out)

    def _run(self, fs, timeout, nonlin, want_model, gens):
        plans = ['nlsat', 'smt'] if nonlin else ['smt']
        total = timeout
        for i, pl in enumerate(plans):
            budget = total * (0.6 if (i == 0 and len(plans) > 1) else 0.4 if i else 1.0)
            if pl == 'nlsat':
                s = z3.SolverFor('QF_NRA')
            else:
                s = z3.Solver()
            s.set('timeout', max(100, int(budget * 1000)))
            s.add(fs)
            wd = threading.Timer(budget * 1.5 + 1.0, self.ctx.interrupt)
            wd.daemon = True
            wd.start()
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            finally:
                wd.cancel()
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                if not want_model:
                    return 'sat', None
                return 'sat', self._model(s.model(), gens)
        return 'unknown', None

    def _model(self, m, gens):
        env = {}
        for g in gens:
            v = m.eval(self.var(g), model_completion=True)
            env[g] = _val(v)
        return env


def _val(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def _linear(b):
    if b.op == 'atom':
        return all(sum(e for _, e in m) <= 1 for m in b.p)
    return all(_linear(a) for a in b.args)
