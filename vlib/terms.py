"""Exact real terms: rational functions over generators with algebraic side relations.

A scalar computed by the code under test is a `Sym`: a rational function N/D over generators.
Generators are input variables, square roots, sine/cosine pairs of angles, pi, and contract
("fresh") variables.  The normal form is kept eagerly, so that syntactic identities collapse;
everything that does not collapse goes to the SMT solver (solver.py).
"""
from fractions import Fraction
import math
import os

# ----------------------------------------------------------------------------------------------
# polynomials: dict {monomial: Fraction}, monomial = tuple of (gen, exp) sorted by gen
# ----------------------------------------------------------------------------------------------
F0, F1 = Fraction(0), Fraction(1)
ONE_M = ()


class Gen:
    __slots__ = ('id', 'name', 'kind', 'info', 'sq', 'axioms', 'deps')

    def __init__(self, id, name, kind, info=None):
        self.id, self.name, self.kind, self.info = id, name, kind, info
        self.sq = None          # polynomial this generator's square reduces to
        self.axioms = []        # list of B
        self.deps = ()          # generators the axioms mention


class Universe:
    """All generators, interned factors and caches of one explored path."""

    def __init__(self):
        self.gens = []
        self.factors = []           # den factors (polys)
        self.factor_ix = {}
        self.sqrt_ix = {}
        self.trig_ix = {}
        self.trig_const = {}        # mono -> constant (cos, sin) of mono / angle_div
        self.fixed = {}             # input name -> the only value it takes
        self.atan_ix = {}
        self.red = set()            # ids with .sq
        self.pi = None
        self.angle_div = 1
        self.names = {}
        self.input_names = set()

    def new_gen(self, name, kind, info=None):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        g = Gen(len(self.gens), name, kind, info)
        self.gens.append(g)
        return g


U = Universe()


def reset_universe():
    global U
    U = Universe()
    return U


def universe():
    return U


class Blowup(Exception):
    pass


MAX_TERMS = int(os.environ.get('VERIF_MAX_TERMS', '60000'))


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def psub(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(p, k):
    if k == 1:
        return p
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def _needs_reduce(m):
    red = U.red
    for g, e in m:
        if e >= 2 and g in red:
            return True
    return False


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and ONE_M in p:
        return pscale(q, p[ONE_M])
    if len(q) == 1 and ONE_M in q:
        return pscale(p, q[ONE_M])
    r = {}
    todo = {}
    red = U.red
    if len(p) * len(q) > 40 * MAX_TERMS:
        raise Blowup('polynomial product too large: %d x %d terms' % (len(p), len(q)))
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            c = c1 * c2
            d = todo if (red and _needs_reduce(m)) else r
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v:
                    d[m] = v
                else:
                    del d[m]
    for m, c in todo.items():
        r = padd(r, preduce_mono(m, c))
    if len(r) > MAX_TERMS:
        raise Blowup('polynomial with %d terms' % len(r))
    return r


def preduce_mono(m, c):
    """Reduce exponents >= 2 of generators with a square rule."""
    keep = []
    acc = None
    for g, e in m:
        if e >= 2 and g in U.red:
            k, e = divmod(e, 2)
            f = ppow(U.gens[g].sq, k)
            acc = f if acc is None else pmul(acc, f)
        if e:
            keep.append((g, e))
    base = {tuple(keep): c}
    return base if acc is None else pmul(base, acc)


def ppow(p, n):
    r = {ONE_M: F1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pconst(c):
    return {ONE_M: Fraction(c)} if c else {}


def pvar(g):
    return {((g, 1),): F1}


def pis_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def pcval(p):
    return p.get(ONE_M, F0)


def pkey(p):
    return tuple(sorted(p.items()))


def pgens(p):
    s = set()
    for m in p:
        for g, _ in m:
            s.add(g)
    return s


def pcontent(p):
    """(content, primitive part) with integer coprime coefficients, leading coeff positive."""
    if not p:
        return F1, p
    num = 0
    den = 1
    for c in p.values():
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    k = Fraction(num, den)
    lead = p[max(p)]
    if lead < 0:
        k = -k
    return k, {m: c / k for m, c in p.items()}


def _lead(p):
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def mdiv(a, b):
    """monomial a / b or None"""
    d = dict(a)
    for g, e in b:
        x = d.get(g, 0) - e
        if x < 0:
            return None
        if x:
            d[g] = x
        else:
            d.pop(g, None)
    return tuple(sorted(d.items()))


def _lexkey(m):
    # pure lex order on exponent vectors, lower gen id = more significant
    return tuple((-g, e) for g, e in m)


def pdivexact(p, f, limit=4000):
    """p / f if exact (as polynomials), else None."""
    if not p:
        return {}
    if pis_const(f):
        return pscale(p, 1 / pcval(f))
    if len(p) > limit or len(p) * len(f) > 400000:
        return None
    gf, gp = pgens(f), pgens(p)
    if not gf <= gp:
        return None
    # order: graded lex as dense comparision over the involved generators
    order = sorted(gp)
    pos = {g: i for i, g in enumerate(order)}
    n = len(order)

    def key(m):
        v = [0] * n
        t = 0
        for g, e in m:
            v[pos[g]] = e
            t += e
        return (t, tuple(v))
    lf = max(f, key=key)
    cf = f[lf]
    rest = dict(p)
    q = {}
    import heapq
    keys = {m: key(m) for m in rest}
    heap = [(-k[0], tuple(-x for x in k[1]), m) for m, k in keys.items()]
    heapq.heapify(heap)
    steps = 0
    while rest:
        while True:
            if not heap:
                return None
            m = heap[0][2]
            if m in rest:
                break
            heapq.heappop(heap)
        d = mdiv(m, lf)
        if d is None:
            return None
        steps += 1
        if steps > limit:
            return None
        c = rest[m] / cf
        q[d] = c
        for m2, c2 in f.items():
            mm = mmul(d, m2)
            v = rest.get(mm)
            if v is None:
                rest[mm] = -c * c2
                k = key(mm)
                heapq.heappush(heap, (-k[0], tuple(-x for x in k[1]), mm))
            else:
                v = v - c * c2
                if v:
                    rest[mm] = v
                else:
                    del rest[mm]
    # a quotient must itself be reduced
    if U.red:
        for m in q:
            if _needs_reduce(m):
                return None
    return q


def psqrt(p, limit=300):
    """polynomial square root if p is a perfect square (syntactically), else None"""
    if not p:
        return {}
    if len(p) > limit:
        return None
    gp = sorted(pgens(p))
    pos = {g: i for i, g in enumerate(gp)}
    n = len(gp)

    def key(m):
        v = [0] * n
        t = 0
        for g, e in m:
            v[pos[g]] = e
            t += e
        return (t, tuple(v))

    def msqrt(m):
        if any(e % 2 for _, e in m):
            return None
        return tuple((g, e // 2) for g, e in m)
    lm = max(p, key=key)
    r0 = msqrt(lm)
    c0 = fsqrt_exact(p[lm])
    if r0 is None or c0 is None:
        return None
    root = {r0: c0}
    rest = psub(p, {mmul(r0, r0): c0 * c0})
    steps = 0
    while rest:
        steps += 1
        if steps > 40:
            return None
        m = max(rest, key=key)
        d = mdiv(m, r0)
        if d is None:
            return None
        c = rest[m] / (2 * c0)
        if key(d) >= key(r0):
            return None
        t = {d: c}
        # rest -= 2*root*t + t^2   (plain products, no reduction)
        for mm, cc in root.items():
            k = mmul(mm, d)
            rest = psub(rest, {k: 2 * cc * c})
        rest = psub(rest, {mmul(d, d): c * c})
        root[d] = c
    return root


def fsqrt_exact(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


# ----------------------------------------------------------------------------------------------
# rational functions
# ----------------------------------------------------------------------------------------------
def intern_factor(p):
    """returns (factor id, scale) with p == scale * factor"""
    k, prim = pcontent(p)
    key = pkey(prim)
    ix = U.factor_ix.get(key)
    if ix is None:
        ix = len(U.factors)
        U.factors.append(prim)
        U.factor_ix[key] = ix
    return ix, k


class Rat:
    __slots__ = ('num', 'den', '_k')

    def __init__(self, num, den=()):
        self.num, self.den = num, den       # den: tuple of (factor, exp) sorted
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (pkey(self.num), self.den)
        return self._k


def r_simplify(num, den):
    if not num:
        return Rat({}, ())
    if den:
        out = []
        for f, e in den:
            fp = U.factors[f]
            while e > 0:
                q = pdivexact(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                out.append((f, e))
        den = tuple(out)
    return Rat(num, den)


def r_add(a, b, sub=False):
    if not b.num:
        return a
    if not a.num:
        return Rat(pneg(b.num), b.den) if sub else b
    if a.den == b.den:
        n = psub(a.num, b.num) if sub else padd(a.num, b.num)
        return r_simplify(n, a.den) if a.den else Rat(n)
    da, db = dict(a.den), dict(b.den)
    lcm = dict(da)
    for f, e in db.items():
        if lcm.get(f, 0) < e:
            lcm[f] = e
    na, nb = a.num, b.num
    for f, e in lcm.items():
        k = e - da.get(f, 0)
        if k:
            na = pmul(na, ppow(U.factors[f], k))
        k = e - db.get(f, 0)
        if k:
            nb = pmul(nb, ppow(U.factors[f], k))
    n = psub(na, nb) if sub else padd(na, nb)
    return r_simplify(n, tuple(sorted(lcm.items())))


def r_mul(a, b):
    if not a.num or not b.num:
        return Rat({}, ())
    if not a.den and not b.den:
        return Rat(pmul(a.num, b.num))
    # cross-cancel first: keeps numerators small
    x = r_simplify(a.num, b.den) if b.den else Rat(a.num)
    y = r_simplify(b.num, a.den) if a.den else Rat(b.num)
    d = dict(x.den)
    for f, e in y.den:
        d[f] = d.get(f, 0) + e
    den = tuple(sorted(d.items()))
    num = pmul(x.num, y.num)
    return r_simplify(num, den)


def r_inv(a):
    """1/a; a.num must be nonzero (checked by the caller)."""
    num = {ONE_M: F1}
    for f, e in a.den:
        num = pmul(num, ppow(U.factors[f], e))
    p = a.num
    if pis_const(p):
        return Rat(pscale(num, 1 / pcval(p)))
    # monomial content
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {g: min(e, d[g]) for g, e in common.items() if g in d}
        if not common:
            break
    den = {}
    if common:
        cm = tuple(sorted(common.items()))
        p = {mdiv(m, cm): c for m, c in p.items()}
        for g, e in cm:
            gen = U.gens[g]
            if g in U.red and gen.kind == 'sqrt':
                # 1/r = r / radicand
                num = pmul(num, ppow(pvar(g), e))
                ix, k = intern_factor(gen.sq)
                num = pscale(num, 1 / k ** e)
                den[ix] = den.get(ix, 0) + e
            else:
                ix, k = intern_factor(pvar(g))
                den[ix] = den.get(ix, 0) + e
    if pis_const(p):
        num = pscale(num, 1 / pcval(p))
    else:
        ix, k = intern_factor(p)
        num = pscale(num, 1 / k)
        den[ix] = den.get(ix, 0) + 1
    return r_simplify(num, tuple(sorted(den.items())))


def r_const(c):
    return Rat(pconst(c))


# ----------------------------------------------------------------------------------------------
# formulas
# ----------------------------------------------------------------------------------------------
class B:
    """Boolean formula: ('t',), ('f',), ('atom', rel, poly), ('and', [..]), ('or', [..]).
    rel in '<', '<=', '==', '!=' (against 0).  Polynomials are primitive."""
    __slots__ = ('op', 'rel', 'p', 'args', '_key', '_gens')

    def __init__(self, op, rel=None, p=None, args=()):
        self.op, self.rel, self.p, self.args = op, rel, p, args
        self._key = None
        self._gens = None

    def key(self):
        if self._key is None:
            if self.op == 'atom':
                self._key = ('a', self.rel, pkey(self.p))
            elif self.op in ('t', 'f'):
                self._key = (self.op,)
            else:
                self._key = (self.op,) + tuple(sorted((a.key() for a in self.args), key=repr))
        return self._key

    def gens(self):
        if self._gens is None:
            if self.op == 'atom':
                self._gens = frozenset(pgens(self.p))
            else:
                s = set()
                for a in self.args:
                    s |= a.gens()
                self._gens = frozenset(s)
        return self._gens

    def __repr__(self):
        if self.op == 'atom':
            return '(%s %s 0)' % (pstr(self.p), self.rel)
        if self.op in ('t', 'f'):
            return self.op
        return '(%s)' % ((' %s ' % self.op).join(map(repr, self.args)))


TRUE, FALSE = B('t'), B('f')


def pstr(p, limit=12):
    out = []
    for m, c in sorted(p.items())[:limit]:
        s = '*'.join(U.gens[g].name + ('^%d' % e if e > 1 else '') for g, e in m)
        out.append(('%s*%s' % (c, s)) if s else str(c))
    if len(p) > limit:
        out.append('... (%d terms)' % len(p))
    return ' + '.join(out) or '0'


def atom(rel, p):
    if pis_const(p):
        c = pcval(p)
        ok = {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[rel]
        return TRUE if ok else FALSE
    k, prim = pcontent(p)
    if rel in ('==', '!='):
        return B('atom', rel, prim)
    if k < 0:
        prim = pneg(prim)
    return B('atom', rel, prim)


def psubst(p, sub):
    """replace generators by polynomials"""
    if not any(g in sub for m in p for g, _ in m):
        return p
    out = {}
    for m, c in p.items():
        q = pconst(c)
        for g, e in m:
            q = pmul(q, ppow(sub[g] if g in sub else pvar(g), e))
        out = padd(out, q)
    return out


def b_subst(b, sub):
    if b.op in ('t', 'f'):
        return b
    if b.op == 'atom':
        q = psubst(b.p, sub)
        return b if q is b.p else atom(b.rel, q)
    return (b_and if b.op == 'and' else b_or)([b_subst(a, sub) for a in b.args])


def b_not(b):
    if b.op == 't':
        return FALSE
    if b.op == 'f':
        return TRUE
    if b.op == 'atom':
        if b.rel == '<':
            return B('atom', '<=', pneg(b.p))
        if b.rel == '<=':
            return B('atom', '<', pneg(b.p))
        if b.rel == '==':
            return B('atom', '!=', b.p)
        return B('atom', '==', b.p)
    return (b_or if b.op == 'and' else b_and)([b_not(a) for a in b.args])


def b_and(args):
    out = []
    seen = set()
    for a in args:
        if a.op == 'f':
            return FALSE
        if a.op == 't':
            continue
        for x in (a.args if a.op == 'and' else (a,)):
            if x.key() not in seen:
                seen.add(x.key())
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B('and', args=tuple(out))


def b_or(args):
    out = []
    seen = set()
    for a in args:
        if a.op == 't':
            return TRUE
        if a.op == 'f':
            continue
        for x in (a.args if a.op == 'or' else (a,)):
            if x.key() not in seen:
                seen.add(x.key())
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B('or', args=tuple(out))


# ----------------------------------------------------------------------------------------------
# python-level scalars
# ----------------------------------------------------------------------------------------------
_CTX = None         # the active explorer context (decide / require_nonzero / sign)


def set_ctx(c):
    global _CTX
    _CTX = c


def ctx():
    return _CTX


class Unsupported(Exception):
    """The code under test did something the encoding has no meaning for."""


class NonFinite(Exception):
    """A division by zero (or square root of a negative number) was reached on this path."""


_CC = {}


def const_of(x):
    """exact rational meant by a python number (float literals are read as short rationals)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    x = float(x)
    r = _CC.get(x)
    if r is not None:
        return r
    if x != x or x in (float('inf'), float('-inf')):
        raise NonFinite('non-finite constant %r' % x)
    r = Fraction(x).limit_denominator(20000)
    if float(r) != x:
        r = Fraction(repr(x))
    _CC[x] = r
    return r


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, bool, np.floating, np.integer, np.bool_))


class Sym:
    """symbolic real number"""
    __slots__ = ('r',)
    __array_priority__ = 1000

    def __init__(self, r):
        self.r = r

    # -- construction
    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Sym(r_const(1 if bool(x) else 0))
        if is_num(x):
            if isinstance(x, float):
                p = pi_multiple(x)
                if p is not None:
                    return p
            return Sym(r_const(const_of(x)))
        if hasattr(x, '_sym_scalar'):
            return x._sym_scalar()
        return None

    def const(self):
        """Fraction if constant else None"""
        if not self.r.den and pis_const(self.r.num):
            return pcval(self.r.num)
        return None

    # -- arithmetic
    def _bin(self, o, f, name, swap=False):
        y = _lift_operand(o)
        if y is None:
            return NotImplemented
        return f(y, self) if swap else f(self, y)

    def __add__(self, o):
        return self._bin(o, s_add, 'add')

    def __radd__(self, o):
        return self._bin(o, s_add, 'add', True)

    def __sub__(self, o):
        return self._bin(o, s_sub, 'sub')

    def __rsub__(self, o):
        return self._bin(o, s_sub, 'sub', True)

    def __mul__(self, o):
        return self._bin(o, s_mul, 'mul')

    def __rmul__(self, o):
        return self._bin(o, s_mul, 'mul', True)

    def __truediv__(self, o):
        return self._bin(o, s_div, 'div')

    def __rtruediv__(self, o):
        return self._bin(o, s_div, 'div', True)

    def __neg__(self):
        return Sym(Rat(pneg(self.r.num), self.r.den))

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __pow__(self, n):
        return s_pow(self, n)

    def __mod__(self, o):
        raise Unsupported('modulo on a symbolic real')

    # -- comparison
    def _cmp(self, o, rel):
        y = _lift_operand(o)
        if y is None:
            return NotImplemented
        return s_cmp(self, y, rel)

    def __lt__(self, o):
        if _is_inf(o):
            return o > 0
        return self._cmp(o, '<')

    def __le__(self, o):
        if _is_inf(o):
            return o > 0
        return self._cmp(o, '<=')

    def __gt__(self, o):
        if _is_inf(o):
            return o < 0
        return self._cmp(o, '>')

    def __ge__(self, o):
        if _is_inf(o):
            return o < 0
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(s_cmp(self, ZERO, '!='))

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        raise Unsupported('int() of a symbolic real')

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported('symbolic real as an index')

    def __repr__(self):
        c = self.const()
        if c is not None:
            return 'Sym(%s)' % c
        s = pstr(self.r.num, 6)
        if self.r.den:
            s = '(%s)/(%s)' % (s, '*'.join('(%s)^%d' % (pstr(U.factors[f], 4), e) for f, e in self.r.den))
        return 'Sym(%s)' % s

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # numpy object arrays call these
    def sqrt(self):
        return s_sqrt(self)

    def sin(self):
        return s_sin(self)

    def cos(self):
        return s_cos(self)

    # tensor-like conveniences used on scalars
    def item(self):
        return self

    def clone(self):
        return self

    def detach(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        c = self.const()
        if c is None:
            raise Unsupported('is_integer of a symbolic real')
        return c.denominator == 1

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from . import symtensor
        return symtensor.torch_function(func, types, args, kwargs or {})


def _is_inf(o):
    return isinstance(o, float) and o in (float('inf'), float('-inf'))


def _lift_operand(o):
    # tensors take precedence: let the tensor's reflected operator handle it
    if hasattr(o, '__torch_function__') and not isinstance(o, (Sym, SymBool)):
        return None
    return Sym.lift(o)


class SymBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        if self.b.op == 't':
            return True
        if self.b.op == 'f':
            return False
        return _CTX.decide(self.b)

    def __and__(self, o):
        return SymBool(b_and([self.b, to_b(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(b_or([self.b, to_b(o)]))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(b_not(self.b))

    def __xor__(self, o):
        q = to_b(o)
        return SymBool(b_or([b_and([self.b, b_not(q)]), b_and([b_not(self.b), q])]))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return ~(self ^ o)
        return Sym.lift(self) == o

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)):
            return self ^ o
        return Sym.lift(self) != o

    __hash__ = object.__hash__

    def __add__(self, o):
        return Sym.lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return Sym.lift(self) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return Sym.lift(self) < o

    def __gt__(self, o):
        return Sym.lift(self) > o

    def __le__(self, o):
        return Sym.lift(self) <= o

    def __ge__(self, o):
        return Sym.lift(self) >= o

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def __repr__(self):
        return 'SymBool(%r)' % self.b

    def __format__(self, spec):
        return repr(self)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from . import symtensor
        return symtensor.torch_function(func, types, args, kwargs or {})


def to_b(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, B):
        return x
    if isinstance(x, Sym):
        return s_cmp(x, ZERO, '!=').b
    return TRUE if x else FALSE


ZERO = Sym(r_const(0))
ONE = Sym(r_const(1))


def s_add(a, b):
    return Sym(r_add(a.r, b.r))


def s_sub(a, b):
    return Sym(r_add(a.r, b.r, sub=True))


def s_mul(a, b):
    return Sym(r_mul(a.r, b.r))


def s_div(a, b):
    if not b.r.num:
        raise NonFinite('division by zero')
    if b.const() is None:
        _CTX.require_nonzero(b)
    return Sym(r_mul(a.r, r_inv(b.r)))


def s_pow(a, n):
    if isinstance(n, Sym):
        n = n.const()
        if n is None:
            raise Unsupported('symbolic exponent')
    n = const_of(n)
    if n.denominator == 2:
        return s_mul(s_pow(a, n - Fraction(1, 2)), s_sqrt(a)) if n != Fraction(1, 2) else s_sqrt(a)
    if n.denominator != 1:
        raise Unsupported('fractional exponent %s' % n)
    n = int(n)
    if n < 0:
        return s_div(ONE, s_pow(a, -n))
    r = ONE
    for _ in range(n):
        r = s_mul(r, a)
    return r


def s_cmp(a, b, rel):
    d = r_add(a.r, b.r, sub=True)
    if rel in ('>', '>='):
        d = Rat(pneg(d.num), d.den)
        rel = {'>': '<', '>=': '<='}[rel]
    if rel in ('==', '!='):
        return SymBool(atom(rel, d.num))
    p = d.num
    if pis_const(p) and not p:
        return SymBool(atom(rel, p))
    for f, e in d.den:
        if e % 2:
            s = _CTX.sign(U.factors[f])
            if s > 0:
                continue
            if s < 0:
                p = pneg(p)
            else:
                p = pmul(p, U.factors[f])
    return SymBool(atom(rel, p))


def s_abs(a):
    c = a.const()
    if c is not None:
        return Sym(r_const(abs(c)))
    # a single square root times a constant is already nonnegative
    if len(a.r.num) == 1 and not a.r.den:
        (m, k), = a.r.num.items()
        if len(m) == 1 and m[0][1] == 1 and U.gens[m[0][0]].kind == 'sqrt':
            return a if k > 0 else -a
    if s_cmp(a, ZERO, '>='):
        return a
    return -a


def s_max(a, b):
    return a if (a >= b) else b


def s_min(a, b):
    return a if (a <= b) else b


def s_sqrt(a):
    c = a.const()
    if c is not None:
        if c < 0:
            raise NonFinite('square root of a negative constant')
        r = fsqrt_exact(c)
        if r is not None:
            return Sym(r_const(r))
    num = a.r.num
    outden = ONE
    for f, e in a.r.den:
        h = (e + 1) // 2
        if e % 2:
            num = pmul(num, U.factors[f])
        fs = Sym(Rat(U.factors[f]))
        ab = fs if h % 2 == 0 else s_abs(fs)     # |f|
        for i in range(h):
            outden = s_mul(outden, ab if h % 2 else fs)
    k, prim = pcontent(num)
    if k < 0:
        k, prim = -k, pneg(prim)
    # square content
    sq = fsqrt_exact(k)
    coef = F1
    if sq is not None:
        coef = sq
    else:
        # pull out square part of k: k = n/d ; sqrt(k)= sqrt(n*d)/d
        n = k.numerator * k.denominator
        s = 1
        i = 2
        while i * i <= n and i < 2000:
            while n % (i * i) == 0:
                n //= i * i
                s *= i
            i += 1
        coef = Fraction(s, k.denominator)
        prim = pscale(prim, Fraction(n))
    if pis_const(prim) and pcval(prim) == 1:
        res = Sym(r_const(coef))
        return res if outden is ONE else s_mul(res, Sym(r_inv(outden.r)))
    root = psqrt(prim)
    if root is not None:
        res = s_abs(Sym(Rat(root)))
        res = s_mul(res, Sym(r_const(coef)))
        return res if outden is ONE else s_mul(res, Sym(r_inv(outden.r)))
    key = pkey(prim)
    g = U.sqrt_ix.get(key)
    if g is None:
        if not pis_const(prim):
            _CTX.require_nonneg(Sym(Rat(prim)))
        gen = U.new_gen('sqrt%d' % len(U.sqrt_ix), 'sqrt', prim)
        gen.sq = prim
        gen.deps = tuple(pgens(prim))
        U.red.add(gen.id)
        # r >= 0 and r*r = prim  (axiom kept unreduced: built specially by the solver)
        gen.axioms = [B('atom', '<=', {((gen.id, 1),): Fraction(-1)})]
        U.sqrt_ix[key] = g = gen.id
    res = Sym(Rat(pscale(pvar(g), coef)))
    return res if outden is ONE else s_mul(res, Sym(r_inv(outden.r)))


# -- trigonometry -------------------------------------------------------------------------------
def get_pi():
    if U.pi is None:
        g = U.new_gen('pi', 'pi')
        g.axioms = [B('atom', '<', {((g.id, 1),): Fraction(-1), ONE_M: Fraction(3141592, 1000000)}),
                    B('atom', '<', {((g.id, 1),): F1, ONE_M: Fraction(-3141593, 1000000)})]
        U.pi = g.id
    return Sym(Rat(pvar(U.pi)))


_PIC = {}


def pi_multiple(x):
    """float -> rational multiple of the generator pi, when it clearly is one"""
    if x == 0 or x != x or abs(x) > 1e6:
        return None
    k = _PIC.get(x, 0)
    if k == 0:
        k = None
        q = Fraction(x / math.pi).limit_denominator(360)
        if q != 0 and abs(float(q) * math.pi - x) <= 4e-16 * max(1.0, abs(x)):
            short = Fraction(x).limit_denominator(20000)
            if float(short) != x:
                k = q
        _PIC[x] = k
    if k is None:
        return None
    return s_mul(get_pi(), Sym(r_const(k)))


def base_angle(mono):
    """(cos, sin) generators of the base angle  mono / angle_div"""
    g = U.trig_ix.get(mono)
    if g is None:
        nm = '*'.join(U.gens[x].name + ('^%d' % e if e > 1 else '') for x, e in mono)
        c = U.new_gen('cos(%s/%d)' % (nm, U.angle_div), 'cos', mono)
        s = U.new_gen('sin(%s/%d)' % (nm, U.angle_div), 'sin', mono)
        s.sq = {ONE_M: F1, ((c.id, 2),): Fraction(-1)}
        U.red.add(s.id)
        s.deps = (c.id,)
        c.deps = (s.id,)
        one = {ONE_M: F1}
        # mono == 0 -> cos = 1 and sin = 0
        mz = B('atom', '!=', {mono: F1})
        c.axioms = [b_or([mz, B('atom', '==', psub(pvar(c.id), one))])]
        s.axioms = [b_or([mz, B('atom', '==', pvar(s.id))]),
                    B('atom', '<=', psub(pvar(c.id), one)),
                    B('atom', '<=', psub(pneg(pvar(c.id)), one))]
        U.trig_ix[mono] = g = (c.id, s.id)
    return g


def trig(a):
    """(cos a, sin a)"""
    c, s = ONE, ZERO
    num, den = a.r.num, a.r.den
    if den or (_CTX is not None and _CTX.cfg.opaque_angles and len(num) > _CTX.cfg.opaque_angles):
        # whole argument is one opaque angle
        u = opaque_angle(a)
        return trig(u)
    for m, k in sorted(num.items()):
        if m == ONE_M:
            # constant angle in radians: opaque pair
            cc, ss = const_angle(k)
        elif U.pi is not None and m == ((U.pi, 1),):
            cc, ss = pi_angle(k)
        elif len(m) == 1 and m[0][1] == 1 and U.gens[m[0][0]].kind == 'atan2':
            gen = U.gens[m[0][0]]
            n = k
            if n.denominator != 1:
                raise Unsupported('fraction of an atan2 angle')
            cc, ss = mult_angle(gen.info[0], gen.info[1], int(n))
        else:
            n = k * U.angle_div
            if n.denominator != 1:
                u = opaque_angle(Sym(Rat({m: k})))
                cc, ss = trig(u)
            else:
                g = U.trig_const.get(m)
                if g is None:
                    g = base_angle(m)
                    g = Sym(Rat(pvar(g[0]))), Sym(Rat(pvar(g[1])))
                cc, ss = mult_angle(g[0], g[1], int(n))
        c, s = c * cc - s * ss, s * cc + c * ss
    return c, s


def opaque_angle(a):
    key = ('opaque', a.r.key())
    g = U.trig_ix.get(key)
    if g is None:
        gen = U.new_gen('angle%d' % len(U.trig_ix), 'angle', a)
        # angle generator equals its definition
        gen.axioms = [to_b(Sym(Rat(pvar(gen.id))) == a)]
        gen.deps = tuple(gen.axioms[0].gens())
        U.trig_ix[key] = g = gen.id
    return s_mul(Sym(Rat(pvar(g))), Sym(r_const(1)))


def const_angle(k):
    key = ('const', abs(k))
    g = U.trig_ix.get(key)
    if g is None:
        c = U.new_gen('cos(%s)' % abs(k), 'ccos', abs(k))
        s = U.new_gen('sin(%s)' % abs(k), 'csin', abs(k))
        s.sq = {ONE_M: F1, ((c.id, 2),): Fraction(-1)}
        U.red.add(s.id)
        s.deps, c.deps = (c.id,), (s.id,)
        for gen, f in ((c, math.cos), (s, math.sin)):
            v = f(float(abs(k)))
            lo, hi = Fraction(repr(v - 1e-9)), Fraction(repr(v + 1e-9))
            gen.axioms = [B('atom', '<', {((gen.id, 1),): Fraction(-1), ONE_M: lo}),
                          B('atom', '<', {((gen.id, 1),): F1, ONE_M: -hi})]
        U.trig_ix[key] = g = (c.id, s.id)
    c, s = Sym(Rat(pvar(g[0]))), Sym(Rat(pvar(g[1])))
    return c, (s if k >= 0 else -s)


def pi_angle(k):
    k = k % 2
    t = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}.get(k)
    if t is not None:
        return Sym(r_const(t[0])), Sym(r_const(t[1]))
    key = ('piangle', k)
    g = U.trig_ix.get(key)
    if g is None:
        c = U.new_gen('cos(%s pi)' % k, 'ccos', k)
        s = U.new_gen('sin(%s pi)' % k, 'csin', k)
        s.sq = {ONE_M: F1, ((c.id, 2),): Fraction(-1)}
        U.red.add(s.id)
        s.deps, c.deps = (c.id,), (s.id,)
        for gen, f in ((c, math.cos), (s, math.sin)):
            v = f(float(k) * math.pi)
            lo, hi = Fraction(repr(v - 1e-9)), Fraction(repr(v + 1e-9))
            gen.axioms = [B('atom', '<', {((gen.id, 1),): Fraction(-1), ONE_M: lo}),
                          B('atom', '<', {((gen.id, 1),): F1, ONE_M: -hi})]
        U.trig_ix[key] = g = (c.id, s.id)
    return Sym(Rat(pvar(g[0]))), Sym(Rat(pvar(g[1])))


def mult_angle(c, s, n):
    if n < 0:
        cc, ss = mult_angle(c, s, -n)
        return cc, -ss
    rc, rs = ONE, ZERO
    for _ in range(n):
        rc, rs = rc * c - rs * s, rs * c + rc * s
    return rc, rs


def s_cos(a):
    return trig(Sym.lift(a))[0]


def s_sin(a):
    return trig(Sym.lift(a))[1]


def s_atan2(y, x):
    y, x = Sym.lift(y), Sym.lift(x)
    cy, cx = y.const(), x.const()
    if cy is not None and cx is not None and cy == 0:
        return ZERO if cx >= 0 else get_pi()
    key = (y.r.key(), x.r.key())
    g = U.atan_ix.get(key)
    if g is None:
        r = s_sqrt(x * x + y * y)
        if s_cmp(r, ZERO, '=='):
            return ZERO
        gen = U.new_gen('atan2_%d' % len(U.atan_ix), 'atan2')
        pi = get_pi()
        th = Sym(Rat(pvar(gen.id)))
        gen.info = (x / r, y / r, y, x)
        ax = [th <= pi, th > -pi,
              SymBool(b_or([to_b(y >= 0), b_and([to_b(th < 0)])])),
              SymBool(b_or([to_b(y <= 0), b_and([to_b(th > 0), to_b(th < pi)])])),
              SymBool(b_or([to_b(y != 0), to_b(x <= 0), to_b(th == 0)])),
              SymBool(b_or([to_b(y != 0), to_b(x >= 0), to_b(th == pi)]))]
        gen.axioms = [to_b(a) for a in ax]
        gen.deps = tuple(set().union(*[a.gens() for a in gen.axioms]) - {gen.id})
        U.atan_ix[key] = g = gen.id
    return Sym(Rat(pvar(g)))


# -- variables ----------------------------------------------------------------------------------
def new_var(name, kind='var'):
    g = U.new_gen(name, kind)
    return Sym(Rat(pvar(g.id)))


# -- numeric evaluation (for validating the encoding) -------------------------------------------
def peval(p, env):
    t = 0.0
    for m, c in p.items():
        v = float(c)
        for g, e in m:
            v *= env[g] ** e
        t += v
    return t


def gen_values(inputs):
    """numeric value of every generator given {input name: float}; None where a contract
    variable has no value."""
    env = {}
    for g in U.gens:
        if g.kind == 'var' or g.kind == 'fresh':
            env[g.id] = inputs.get(g.name, float('nan'))
        elif g.kind == 'sqrt':
            v = peval(g.sq, env)
            env[g.id] = math.sqrt(v) if v > 0 else 0.0
        elif g.kind == 'pi':
            env[g.id] = math.pi
        elif g.kind in ('cos', 'sin'):
            v = 1.0
            for x, e in g.info:
                v *= env[x] ** e
            env[g.id] = (math.cos if g.kind == 'cos' else math.sin)(v / U.angle_div) if v == v else v
        elif g.kind in ('ccos', 'csin'):
            k = float(g.info) * (math.pi if g.name.endswith('pi)') else 1.0)
            env[g.id] = (math.cos if g.kind == 'ccos' else math.sin)(k)
        elif g.kind == 'atan2':
            env[g.id] = math.atan2(seval(g.info[2], env), seval(g.info[3], env))
        elif g.kind == 'angle':
            env[g.id] = seval(g.info, env)
        else:
            env[g.id] = float('nan')
    return env


def seval(s, env):
    if isinstance(s, (int, float, Fraction)):
        return float(s)
    d = 1.0
    for f, e in s.r.den:
        d *= peval(U.factors[f], env) ** e
    n = peval(s.r.num, env)
    if d == 0:
        return float('nan')
    return n / d


# -- differentiation ----------------------------------------------------------------------------
def diff(s, var, memo=None):
    """exact derivative of the Sym s with respect to the input generator of the Sym var."""
    memo = {} if memo is None else memo
    (m, k), = var.r.num.items()
    gid = m[0][0]
    s = Sym.lift(s)

    def dgen(g):
        if g in memo:
            return memo[g]
        gen = U.gens[g]
        if g == gid:
            r = ONE
        elif gen.kind in ('var', 'pi', 'ccos', 'csin'):
            r = ZERO
        elif gen.kind == 'fresh':
            obj, ix = gen.info or (None, None)
            X = getattr(obj, 'X', None)
            if X is None:
                raise Unsupported('derivative of a contract variable')
            # an entry of X = inv(A): dX = -X dA X
            r = ZERO
            n = X.shape[0]
            for k in range(n):
                for l in range(n):
                    da = diff(obj.A[k, l], var, memo)
                    if da.const() != 0:
                        r = r - X[ix[0], k] * da * X[l, ix[1]]
        elif gen.kind == 'sqrt':
            dp = dpoly(gen.sq)
            r = ZERO if dp.const() == 0 else s_div(dp, s_mul(Sym(r_const(2)), Sym(Rat(pvar(g)))))
        elif gen.kind in ('cos', 'sin'):
            da = s_div(dpoly({gen.info: F1}), Sym(r_const(U.angle_div)))
            c, t = U.trig_ix[gen.info]
            other = Sym(Rat(pvar(t if gen.kind == 'cos' else c)))
            r = s_mul(da, -other if gen.kind == 'cos' else other)
        elif gen.kind == 'atan2':
            y, x = gen.info[2], gen.info[3]
            q = x * x + y * y
            r = s_div(x * diff(y, var, memo) - y * diff(x, var, memo), q)
        elif gen.kind == 'angle':
            r = diff(gen.info, var, memo)
        else:
            raise Unsupported('derivative of %s' % gen.kind)
        memo[g] = r
        return r

    def dpoly(p):
        acc = ZERO
        bygen = {}
        for mm, c in p.items():
            for i, (g, e) in enumerate(mm):
                q = list(mm)
                if e == 1:
                    del q[i]
                else:
                    q[i] = (g, e - 1)
                d = bygen.setdefault(g, {})
                t = tuple(q)
                d[t] = d.get(t, F0) + c * e
        for g, d in bygen.items():
            dg = dgen(g)
            if dg.const() == 0:
                continue
            acc = acc + Sym(Rat({t: c for t, c in d.items() if c})) * dg
        return acc
    num, den = s.r.num, s.r.den
    dn = dpoly(num)
    dd = ONE
    res = dn
    denv = Sym(r_const(1))
    for f, e in den:
        fp = Sym(Rat(U.factors[f]))
        for _ in range(e):
            denv = s_mul(denv, fp)
    if den:
        # (n/d)' = n'/d - n/d * sum e f'/f
        inv = Sym(r_inv(denv.r))
        res = s_mul(dn, inv)
        val = s
        for f, e in den:
            df = dpoly(U.factors[f])
            if df.const() == 0:
                continue
            res = res - val * Sym(r_const(e)) * df * Sym(r_inv(Rat(U.factors[f])))
    return res
