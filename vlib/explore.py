"""Path exploration by re-execution: every branch of the real code on a symbolic value becomes a
decision, both sides of which are taken unless the SMT solver refutes one."""
import math
import random
import re
import time
from fractions import Fraction

from . import terms as T
from .terms import Sym, SymBool, B, b_not, b_and, b_or, to_b


class Stop(BaseException):
    """ends the current path (never an `Exception`: the code under test must not swallow it)"""

    def __init__(self, outcome, detail=''):
        super().__init__(outcome, detail)
        self.outcome, self.detail = outcome, detail


# ----------------------------------------------------------------------------------------------
# numeric witnesses
# ----------------------------------------------------------------------------------------------
class Witness:
    """a concrete input vector, evaluated lazily over the generators of the current path"""

    def __init__(self, inputs):
        self.inputs = dict(inputs)
        self.env = {}
        self.cont = {}            # values of contract objects

    def gen(self, g):
        v = self.env.get(g)
        if v is None:
            v = self.env[g] = self._gen(g)
        return v

    def _gen(self, g):
        U = T.universe()
        gen = U.gens[g]
        k = gen.kind
        if k == 'var':
            return self.inputs.get(gen.name, math.nan)
        if k == 'fresh':
            if gen.info is None:
                return math.nan
            obj, ix = gen.info
            return obj.value(self, ix)
        if k == 'sqrt':
            v = self.poly(gen.sq)
            return math.sqrt(v) if v > 0 else (math.nan if v != v else 0.0)
        if k == 'pi':
            return math.pi
        if k in ('cos', 'sin'):
            v = 1.0
            for x, e in gen.info:
                v *= self.gen(x) ** e
            return (math.cos if k == 'cos' else math.sin)(v / U.angle_div) if v == v else math.nan
        if k in ('ccos', 'csin'):
            v = float(gen.info) * (math.pi if gen.name.endswith('pi)') else 1.0)
            return (math.cos if k == 'ccos' else math.sin)(v)
        if k == 'atan2':
            return math.atan2(self.sym(gen.info[2]), self.sym(gen.info[3]))
        if k == 'angle':
            return self.sym(gen.info)
        return math.nan

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for g, e in m:
                v *= self.gen(g) ** e
            t += v
        return t

    def poly_scale(self, p):
        t = s = 0.0
        for m, c in p.items():
            v = float(c)
            for g, e in m:
                v *= self.gen(g) ** e
            t += v
            s += abs(v)
        return t, s

    def sym(self, s):
        if not isinstance(s, Sym):
            return float(s)
        d = 1.0
        for f, e in s.r.den:
            d *= self.poly(T.universe().factors[f]) ** e
        n = self.poly(s.r.num)
        return n / d if d else math.nan

    def truth(self, b):
        """True / False / None (not evaluable or too close to call)"""
        if b.op == 't':
            return True
        if b.op == 'f':
            return False
        if b.op == 'atom':
            try:
                v, s = self.poly_scale(b.p)
            except OverflowError:
                return None
            if v != v or math.isinf(v):
                return None
            if abs(v) <= 1e-9 * (s + 1e-9):
                return None
            return {'<': v < 0, '<=': v <= 0, '==': False, '!=': True}[b.rel]
        rs = [self.truth(a) for a in b.args]
        if b.op == 'and':
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)

    def agrees(self, b):
        """truth, counting exact zeros as satisfied equalities"""
        t = self.truth(b)
        if t is None:
            if b.op == 'atom' and b.rel in ('==', '<='):
                try:
                    v, s = self.poly_scale(b.p)
                except OverflowError:
                    return False
                return abs(v) <= 1e-9 * (s + 1e-9)
            if b.op == 'and':
                return all(self.agrees(a) for a in b.args)
            if b.op == 'or':
                return any(self.agrees(a) for a in b.args)
            return False
        return t


def model_inputs(env, base=None):
    """turn a solver model over generators into float inputs"""
    U = T.universe()
    inp = dict(base or {})
    for g, v in env.items():
        gen = U.gens[g]
        if gen.kind == 'var':
            inp[gen.name] = float(v)
    # angles: the inputs must reproduce the model's sines and cosines
    for key, pair in U.trig_ix.items():
        if not (isinstance(pair, tuple) and isinstance(key, tuple) and len(key) == 1
                and isinstance(key[0], tuple) and key[0][1] == 1):
            continue
        g = key[0][0]
        gen = U.gens[g]
        if gen.kind != 'var' or pair[0] not in env or pair[1] not in env:
            continue
        base_ang = math.atan2(float(env[pair[1]]), float(env[pair[0]]))
        th = base_ang * U.angle_div
        per = 2 * math.pi * U.angle_div
        cur = inp.get(gen.name, 0.0)
        th += round((cur - th) / per) * per
        inp[gen.name] = th
    inp.update(U.fixed)
    return inp


def variants(base, fixed=()):
    """the inputs with one group of them (same name up to digits), or all, scaled or set to zero"""
    groups = {}
    for n in base:
        if n not in fixed:
            groups.setdefault(re.sub(r'[0-9_]', '', n), []).append(n)
    sets = [sum(groups.values(), [])] + list(groups.values()) + [[n for k, g in groups.items() if k != h for n in g] for h in groups]
    for k in (0.0, 1e-2, 1e-4, 1e-7, 30.0, 1e3):
        for g in sets:
            yield dict(base, **{n: base[n] * k for n in g})


def robustify(b, eps):
    """strengthen a formula by a margin"""
    if b.op in ('t', 'f'):
        return b
    if b.op == 'atom':
        if b.rel in ('<', '<='):
            return T.atom('<=', T.padd(b.p, T.pconst(eps)))
        if b.rel == '!=':
            return b_or([T.atom('<=', T.padd(b.p, T.pconst(eps))),
                         T.atom('<=', T.padd(T.pneg(b.p), T.pconst(eps)))])
        return b
    return (b_and if b.op == 'and' else b_or)([robustify(a, eps) for a in b.args])


# ----------------------------------------------------------------------------------------------
class Cfg:
    def __init__(self, **kw):
        self.branch_timeout = 3.0
        self.prove_timeout = 20.0
        self.angle_div = 1
        self.zero_policy = 'assume'        # assume | violate
        self.ieee = False                  # divisions by a literal zero give infinities instead of an error
        self.inv_entries = False           # products with an inverse are written with its entries (for derivatives)
        self.opaque_angles = 0             # angles with more terms than this are not expanded
        self.max_paths = 4000
        self.time_limit = 600.0
        self.witnesses = 4
        self.box = 60                      # |input| bound preferred for counterexamples
        for k, v in kw.items():
            setattr(self, k, v)


class Ctx:
    def __init__(self, solver, cfg, prefix, witness_inputs, rng):
        self.solver, self.cfg, self.prefix = solver, cfg, prefix
        self.solver.fresh_path()
        self.pos = 0
        self.trace = []                    # decisions taken
        self.alts = []                     # (prefix, witness inputs) still to explore
        self.pc = []
        self.pckeys = set()
        self.defs = []                     # polynomials of defining equations
        self.known = {}                    # formula key -> bool on this path
        self.signs = {}
        self.nonzero = set()
        self.lazy = []
        self.notes = []
        self.choices = []                  # (tag, value)
        self.dead = None
        self.late = False
        self.inputs = []                   # Input records, in creation order
        self.input_ix = {}
        self.subst = {}                    # generator -> polynomial it equals on this path
        self.angles = set()                # names of angle inputs
        self.wit = [Witness(i) for i in witness_inputs]
        self.rng = rng
        self.decisions = 0
        self.new_decisions = 0
        self.failed = []                   # failing obligations on this path
        self.obs = []                      # (label, value) in order
        self.covered = set()
        self.n_obl = self.n_norm = 0
        self.last_inputs = dict(witness_inputs[0]) if witness_inputs else {}
        self.base_inputs = {}
        self.unknown = []
        self.mute = 0
        self.pins = {}                     # environment choices fixed by the harness

    # -- plumbing ------------------------------------------------------------------------------
    def stop(self, outcome, detail=''):
        self.dead = Stop(outcome, detail)
        raise self.dead

    def alive(self):
        if self.dead is not None:
            raise self.dead

    def note(self, kind, text):
        if (kind, text) not in self.notes:
            self.notes.append((kind, text))

    def add_pc(self, b):
        for x in (b.args if b.op == 'and' else (b,)):
            if x.op == 't':
                continue
            k = x.key()
            if k in self.pckeys:
                continue
            self.pckeys.add(k)
            self.pc.append(x)
            if x.op == 'atom' and x.rel == '==':
                self.equal_angles(x.p)

    def equal_angles(self, p):
        """an equation between angles is one between their sines and cosines"""
        U = T.universe()
        if not p or T.ONE_M in p or len(p) > 3:
            return

        def isang(m):
            if m in U.trig_const:
                return False
            return m in U.trig_ix or (len(m) == 1 and m[0][1] == 1 and U.gens[m[0][0]].name in self.angles)
        if not all(isang(m) for m in p):
            return
        ms = sorted(p.items())
        k = abs(ms[0][1])
        if any(abs(c) != k for _, c in ms):
            return
        if len(ms) == 1:
            return             # the generators carry this one as an axiom
        if len(ms) == 2 and ms[0][1] == -ms[1][1]:
            a, b = T.base_angle(ms[0][0]), T.base_angle(ms[1][0])
            eqs = [T.atom('==', T.psub(T.pvar(a[i]), T.pvar(b[i]))) for i in (0, 1)]
            hi, lo = (a, b) if a[0] > b[0] else (b, a)
            self.learn(hi, [T.pvar(lo[0]), T.pvar(lo[1])])
        else:
            d = U.angle_div
            m0, q0 = max(ms, key=lambda x: T.base_angle(x[0]))
            ms.remove((m0, q0))
            c0, s0 = T.trig(Sym(T.Rat({m0: T.Fraction(1, d)})))
            c, s = T.trig(Sym(T.Rat({m: -q / q0 / d for m, q in ms})))
            eqs = [to_b(c == c0), to_b(s == s0)]
            if not c.r.den and not s.r.den:
                self.learn(T.base_angle(m0), [c.r.num, s.r.num])
        for e in eqs:
            if e.op != 't':
                self.add_pc(e)

    def learn(self, gens, polys):
        polys = [T.psubst(p, self.subst) for p in polys]
        if any(g in gens for p in polys for m in p for g, _ in m) or any(g in self.subst for g in gens):
            return
        new = dict(zip(gens, polys))
        self.subst = {g: T.psubst(p, new) for g, p in self.subst.items()}
        self.subst.update(new)

    def filter_wit(self, b):
        keep = [w for w in self.wit if w.agrees(b)]
        self.wit = keep

    def query(self, b, timeout, model=False):
        pcs = self.solver.slice(self.pc, b)
        return self.solver.check(pcs + [b], timeout, model)

    def witness_from(self, env):
        base = self.wit[0].inputs if self.wit else self.last_inputs
        merged = dict(self.base_inputs)
        merged.update(base)
        w = Witness(model_inputs(env, merged))
        return w

    # -- decisions -----------------------------------------------------------------------------
    def decide(self, b):
        self.alive()
        if b.op == 't':
            return True
        if b.op == 'f':
            return False
        k = b.key()
        v = self.known.get(k)
        if v is not None:
            return v
        nb = b_not(b)
        v = self.known.get(nb.key())
        if v is not None:
            return not v
        self.decisions += 1
        if self.pos < len(self.prefix):
            val, both = self.prefix[self.pos]
        else:
            val, both = self._new(b, nb)
        self.pos += 1
        self.trace.append((val, both))
        taken = b if val else nb
        self.known[k] = val
        if both:
            self.add_pc(taken)
            self.filter_wit(taken)
        return val

    def _new(self, b, nb):
        self.new_decisions += 1
        tw = [w for w in self.wit if w.truth(b) is True]
        fw = [w for w in self.wit if w.truth(b) is False]
        st = {True: tw, False: fw}
        feas = {}
        for side, f in ((True, b), (False, nb)):
            if st[side]:
                feas[side] = True
                continue
            res, env = self.query(f, self.cfg.branch_timeout, True)
            if res == 'unsat':
                feas[side] = False
            else:
                feas[side] = True
                if res == 'sat':
                    w = self.witness_from(env)
                    if w.truth(f) and all(w.agrees(p) for p in self.pc):
                        st[side] = [w]
                else:
                    w = self.probe(f)
                    if w is not None:
                        st[side] = [w]
                        continue
                    self.note('unknown-branch', 'feasibility of a branch not decided (both sides taken)')
        if not feas[True] and not feas[False]:
            self.stop('infeasible', 'path condition unsatisfiable')
        if feas[True] and feas[False]:
            # follow the side with a witness first
            val = bool(st[True]) or not st[False]
            o = st[not val]
            self.alts.append((self.trace + [(not val, True)], [w.inputs for w in o[:2]],
                              list(self.choices)))
            self.wit = st[val]
            return val, True
        return feas[True], False

    def probe(self, f):
        """a witness for a side the solver does not settle, among scaled versions of the ones at hand"""
        self.probes = getattr(self, 'probes', 0) + 1
        if self.probes > 12:
            return None
        base = dict(self.base_inputs)
        base.update(self.wit[0].inputs if self.wit else self.last_inputs)
        for inp in variants(base, set(T.universe().fixed)):
            w = Witness(inp)
            if w.truth(f) and all(w.agrees(p) for p in self.pc):
                return w
        return None

    def choose(self, n, tag):
        self.alive()
        if tag in self.pins:
            return self.pins[tag]
        if n <= 1:
            self.choices.append((tag, 0))
            return 0
        if self.pos < len(self.prefix):
            val, _ = self.prefix[self.pos]
        else:
            val = 0
            for i in range(1, n):
                self.alts.append((self.trace + [(i, True)], [w.inputs for w in self.wit[:2]],
                                  list(self.choices)))
        self.pos += 1
        self.trace.append((val, True))
        self.choices.append((tag, val))
        return val

    def assume(self, b, why=None):
        self.alive()
        if b.op == 't':
            return
        if b.op == 'f':
            self.stop('infeasible', why or 'assumption false')
        self.add_pc(b)
        self.known[b.key()] = True
        had = bool(self.wit)
        self.filter_wit(b)
        if not self.wit:
            res, env = self.query(b_and([b]), self.cfg.branch_timeout, True)
            if res == 'unsat':
                self.stop('infeasible', why or 'assumption unsatisfiable')
            if res == 'sat':
                w = self.witness_from(env)
                if all(w.agrees(p) for p in self.pc):
                    self.wit = [w]

    def assume_def(self, sb):
        """constraint defining contract variables (never filters witnesses)"""
        b = to_b(sb)
        if b.op == 't':
            return
        if b.op == 'f':
            self.stop('infeasible', 'contradictory definition')
        self.add_pc(b)
        if b.op == 'atom' and b.rel == '==':
            self.eliminate(b)

    def eliminate(self, b):
        """solve a defining equation for a contract variable with a constant coefficient, so that claims
        that follow linearly close by normal form"""
        U = T.universe()
        p = T.psubst(b.p, self.subst)
        if len(p) > 400:
            return
        self.defs.append(p)
        occ = {}
        for m in p:
            for g, _ in m:
                occ[g] = occ.get(g, 0) + 1
        best = None
        for m in p:
            if len(m) == 1 and m[0][1] == 1 and occ[m[0][0]] == 1 and U.gens[m[0][0]].kind == 'fresh':
                best = max(best or m[0][0], m[0][0])
        if best is not None:
            k = p[((best, 1),)]
            self.learn((best,), [{m: -c / k for m, c in p.items() if m != ((best, 1),)}])
        for q in self.defs:
            r = T.psubst(q, self.subst)
            if r and len(r) <= 1500:
                self.add_pc(T.atom('==', r))

    def in_span(self, phi):
        """is the claimed equality a rational linear combination of the defining equations (monomials as unknowns)"""
        if phi.op != 'atom' or phi.rel not in ('==', '<=') or len(phi.p) > 3000:
            return False
        ver = (len(self.defs), len(self.subst))
        if getattr(self, 'span_ver', None) != ver:
            self.span_ver, self.span = ver, []
            for q in self.defs:
                r = self.reduce_span(T.psubst(q, self.subst))
                if r and len(r) <= 3000:
                    m = next(iter(r))
                    k = r[m]
                    self.span.append((m, {x: c / k for x, c in r.items()}))
        if not self.span:
            return False
        if not self.reduce_span(phi.p):
            return True
        if len(phi.p) > 200:
            return False
        # once more with multiples of the defining equations by one variable each
        gens = sorted({g for m in phi.p for g, _ in m})
        if len(gens) > 30:
            return False
        wide = list(self.span)
        for _, q in self.span:
            if len(q) <= 40:
                for g in gens:
                    r = self.reduce_span(T.pmul(q, {((g, 1),): Fraction(1)}), wide)
                    if r and len(r) <= 400:
                        m = next(iter(r))
                        k = r[m]
                        wide.append((m, {x: c / k for x, c in r.items()}))
        return not self.reduce_span(phi.p, wide)

    def reduce_span(self, p, span=None):
        p = dict(p)
        for m, q in self.span if span is None else span:
            c = p.get(m)
            if c:
                for x, k in q.items():
                    v = p.get(x, 0) - c * k
                    if v:
                        p[x] = v
                    else:
                        p.pop(x, None)
        return p

    # -- arithmetic side conditions ------------------------------------------------------------
    def sign(self, p):
        k = T.pkey(p)
        s = self.signs.get(k)
        if s is not None:
            return s
        s = 0
        if T.pis_const(p):
            c = T.pcval(p)
            s = (c > 0) - (c < 0)
        else:
            vals = [w.poly(p) for w in self.wit]
            vals = [v for v in vals if v == v]
            cands = [1, -1]
            if any(v > 0 for v in vals):
                cands.remove(-1)
            if any(v < 0 for v in vals):
                cands.remove(1)
            for c in cands:
                neg = T.atom('<=', p if c > 0 else T.pneg(p))
                if self._prove_quick(neg):
                    s = c
                    break
        self.signs[k] = s
        return s

    def _prove_quick(self, neg):
        res, _ = self.solver.check([neg], 1.0)
        if res == 'unsat':
            return True
        if not self.pc:
            return False
        res, _ = self.query(neg, self.cfg.branch_timeout)
        return res == 'unsat'

    def require_nonzero(self, s):
        self.alive()
        p = s.r.num
        if T.pis_const(p):
            return
        _, prim = T.pcontent(p)
        k = T.pkey(prim)
        if k in self.nonzero:
            return
        self.nonzero.add(k)
        eq = T.atom('==', prim)
        if self._prove_quick(eq):
            return
        if self.cfg.zero_policy == 'violate' and not self.mute:
            self.fail_candidate('finite', b_not(eq), robust=[eq])
        ne = b_not(eq)
        self.note('nonzero', 'a divisor is assumed nonzero where the solver does not exclude zero')
        self.add_pc(ne)
        self.known[ne.key()] = True
        self.known[eq.key()] = False
        self.filter_wit(ne)

    def require_nonneg(self, s):
        self.alive()
        p = s.r.num
        neg = T.atom('<', p)
        if neg.op == 'f' or self._prove_quick(neg):
            return
        self.note('nonneg', 'the argument of a square root is assumed nonnegative where the solver does not exclude the contrary')
        ge = b_not(neg)
        if ge.op == 'f':
            self.stop('nonfinite', 'square root of a negative number')
        self.add_pc(ge)

    # -- obligations ---------------------------------------------------------------------------
    def prove(self, label, phi, robust=None, info=None):
        """obligation pc => phi.  robust: list of progressively weaker negations."""
        self.alive()
        self.n_obl += 1
        if phi.op == 't':
            self.n_norm += 1
            return True
        if self.subst:
            psi = T.b_subst(phi, self.subst)
            if psi.op == 't' or psi.key() in self.pckeys:
                self.n_norm += 1
                return True
        if phi.key() in self.pckeys:
            self.n_norm += 1
            return True
        if self.defs and self.in_span(psi if self.subst else phi):
            self.n_norm += 1
            return True
        if self.defs and phi.op == 'atom' and phi.rel == '<=':
            # modulo the defining equations
            src = (psi if self.subst else phi).p
            r = self.reduce_span(src)
            if len(r) < len(src):
                res, _ = self.query(b_not(T.atom('<=', r)), min(self.cfg.prove_timeout, 3.0))
                if res == 'unsat':
                    return True
        neg = b_not(phi)
        if neg.op == 't':
            # fails outright on this path: is the path feasible?
            return self.fail_candidate(label, phi, robust or [neg], info)
        if self.hurry() and len(self.failed) >= 3 and neg.op != 't' and not any(w.truth(phi) is False for w in self.wit):
            self.failed.append({'label': label, 'cands': [], 'choices': list(self.choices), 'unknown': True, 'info': 'not tried: ' + repr(phi)[:300]})
            return False
        to = 2.0 if self.hurry() else self.cfg.prove_timeout
        if self.subst and psi is not phi and not any(w.truth(phi) is False for w in self.wit):
            res, _ = self.query(b_not(psi), min(to, 3.0))
            if res == 'unsat':
                return True
        g = self.solver.closure(neg.gens())
        bad = [w for w in self.wit if w.truth(phi) is False]
        if not bad:
            local = [a for a in self.pc if self.solver.closure(a.gens()) <= g]
            if len(local) < len(self.pc):
                lin = [a for a in local if len(a.p or ()) < 40]
                res, _ = self.solver.check(lin + [neg], min(to, 4.0))
                if res == 'unsat':
                    return True
            res, _ = self.query(neg, to)
            if res == 'unsat':
                return True
            if res == 'unknown':
                # drop the expensive members of the path condition
                small = [a for a in self.solver.slice(self.pc, neg) if _size(a) <= 12]
                res2, _ = self.solver.check(small + [neg], to)
                if res2 == 'unsat':
                    return True
                self.unknown.append(label)
                return self.fail_candidate(label, phi, robust or [neg], info, unknown=True)
        return self.fail_candidate(label, phi, robust or [neg], info)

    def hurry(self):
        """something is open already, the run cannot pass any more"""
        return self.late or any(f['unknown'] for f in self.failed)

    def fail_candidate(self, label, phi, robust, info=None, unknown=False):
        """collect concrete counterexample candidates for a failing obligation"""
        cands = []
        U = T.universe()
        neg = b_not(phi)
        for w in self.wit:
            if w.truth(neg) or neg.op == 't':
                cands.append(dict(w.inputs))
        box = []
        for rec in self.inputs:
            g = rec.gid
            if g is None:
                continue
            for sg in (1, -1):
                box.append(B('atom', '<=', {((g, 1),): Fraction(sg), T.ONE_M: Fraction(-self.cfg.box)}))
        proven = False
        if len(cands) < 3:
            plans = [(robust[0], Fraction(1, 50)), (robust[min(1, len(robust) - 1)], Fraction(1, 100000)),
                     (robust[-1], None)]
            for q, eps in plans:
                pcs = [robustify(a, eps) if eps else a for a in self.pc] + box
                res, env = self.solver.check(pcs + [q], 1.0 if self.hurry() else 8.0 if not unknown else 4.0, True)
                if res == 'sat':
                    cands.append(model_inputs(env, self.base_inputs))
                    if len(cands) >= 3:
                        break
            if not cands:
                res, env = self.solver.check(self.pc + [neg], 2.0 if self.hurry() else self.cfg.prove_timeout, True)
                if res == 'unsat':
                    return True
                if res == 'sat':
                    cands.append(model_inputs(env, self.base_inputs))
        self.failed.append({'label': label, 'cands': cands, 'choices': list(self.choices),
                            'unknown': unknown and not cands, 'info': info or repr(phi)[:400]})
        return False


def _size(b):
    if b.op == 'atom':
        return len(b.p)
    return sum(_size(a) for a in b.args)
