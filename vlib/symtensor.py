"""Tensors of exact real terms under the real PyTorch front end.

`SymTensor` is a wrapper subclass: PyTorch's own Python/C++ front end and autograd run unchanged
and reach us through __torch_dispatch__ (one ATen operator at a time); shapes, strides, aliasing
and result dtypes are obtained by running the same operator on `meta` tensors, and only the
elementwise meaning of the primitive operators is re-implemented here, over terms.py.
"""
import itertools
import math
import numbers

import numpy as np
import torch
from torch.overrides import TorchFunctionMode, BaseTorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes

from . import terms as T
from .terms import Sym, SymBool, Unsupported, NonFinite

aten = torch.ops.aten
_uninit = itertools.count()
OPS_USED = {}


class Storage:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


# while gradients are taken, Python objects of saved tensors are kept from the garbage collector
KEEP = None


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, st, size, stride, offset, dtype, requires_grad=False):
        t = torch.Tensor._make_wrapper_subclass(
            cls, tuple(size), strides=tuple(stride), storage_offset=offset, dtype=dtype,
            device='cpu', requires_grad=requires_grad)
        t._st = st
        t._meta = (tuple(size), tuple(stride), offset)
        t._tag = None
        if KEEP is not None:
            KEEP.append(t)
        return t

    @property
    def arr(self):
        size, stride, off = self._meta
        d = self._st.d
        if 0 in size:
            return np.empty(size, dtype=object)
        return np.lib.stride_tricks.as_strided(d[off:], size, [x * d.itemsize for x in stride])

    def __repr__(self, *a, **k):
        return 'SymTensor(%s)' % (self.arr.tolist(),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _sym_scalar(self):
        if self.numel() != 1:
            raise Unsupported('tensor of %d elements as a scalar' % self.numel())
        return Sym.lift(get(self).reshape(-1)[0])

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def get(t):
    """object ndarray (a view) of any tensor"""
    if isinstance(t, SymTensor):
        return t.arr
    if isinstance(t, torch.Tensor):
        with _disable_current_modes(), torch._C.DisableTorchFunction():
            a = t.detach().cpu()
            out = np.empty(tuple(a.shape), dtype=object)
            flat = out.reshape(-1) if out.size else out
            for i, v in enumerate(a.reshape(-1).tolist()):
                flat[i] = lift_el(v)
            return out
    if isinstance(t, (Sym, SymBool)) or T.is_num(t):
        out = np.empty((), dtype=object)
        out[()] = lift_el(t)
        return out
    raise Unsupported('operand of type %s' % type(t).__name__)


def lift_el(v):
    if isinstance(v, (bool, SymBool)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (Sym,)):
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, float) and not math.isfinite(v):
        return v                       # kept as a float: only comparisons are meaningful
    s = Sym.lift(v)
    if s is None:
        raise Unsupported('element of type %s' % type(v).__name__)
    return s


def contiguous_strides(size):
    st = []
    acc = 1
    for s in reversed(size):
        st.append(acc)
        acc *= max(s, 1)
    return tuple(reversed(st))


def coerce(v, dtype):
    """element conversion to a dtype"""
    if dtype == torch.bool:
        if isinstance(v, (bool, SymBool)):
            return v
        if isinstance(v, Sym):
            r = (v != 0)
            return bool(r) if r.b.op in 'tf' else r
        return bool(v)
    if dtype.is_floating_point:
        if isinstance(v, SymBool):
            return Sym.lift(v)
        if isinstance(v, (bool, int)):
            return Sym.lift(int(v))
        return v
    # integers
    if isinstance(v, SymBool):
        return 1 if v else 0
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Sym):
        c = v.const()
        if c is None:
            raise Unsupported('symbolic real cast to an integer dtype')
        return int(c)
    return int(v)


def make(arr, dtype, stride=None):
    arr = np.asarray(arr, dtype=object)
    size = arr.shape
    n = int(np.prod(size)) if size else 1
    if stride is not None and tuple(stride) != contiguous_strides(size) and 0 not in size:
        need = 1 + sum((s - 1) * st for s, st in zip(size, stride))
        d = np.empty(need, dtype=object)
        v = np.lib.stride_tricks.as_strided(d, size, [x * d.itemsize for x in stride])
        it = np.nditer(arr, flags=['multi_index', 'refs_ok'], op_flags=['readonly'])
        for x in it:
            v[it.multi_index] = coerce(x.item(), dtype)
        return SymTensor(Storage(d), size, stride, 0, dtype)
    d = np.empty(max(n, 1), dtype=object)
    if n:
        flat = arr.reshape(-1)
        for i in range(n):
            d[i] = coerce(flat[i], dtype)
    return SymTensor(Storage(d), size, contiguous_strides(size), 0, dtype)


def sym_tensor(data, dtype=torch.double, requires_grad=False):
    """build a symbolic tensor from nested lists of Sym / numbers / 0-dim tensors"""
    arr = to_obj(data)
    with _disable_current_modes():
        t = make(arr, dtype)
        if requires_grad:
            t = SymTensor(t._st, *t._meta, dtype, requires_grad=True)
    return t


def to_obj(data):
    if isinstance(data, torch.Tensor):
        return get(data)
    if isinstance(data, np.ndarray):
        out = np.empty(data.shape, dtype=object)
        for ix in np.ndindex(*data.shape):
            out[ix] = lift_el(data[ix] if data.dtype == object else data[ix].item())
        return out
    if isinstance(data, (list, tuple, range)):
        items = [to_obj(x) for x in data]
        if not items:
            return np.empty((0,), dtype=object)
        sh = items[0].shape
        if any(i.shape != sh for i in items):
            raise ValueError('expected sequence of equal length')
        out = np.empty((len(items),) + sh, dtype=object)
        for i, x in enumerate(items):
            if sh == ():
                out[i] = x[()]
            else:
                out[i, ...] = x
        return out
    out = np.empty((), dtype=object)
    out[()] = lift_el(data)
    return out


def has_sym(data):
    if isinstance(data, (Sym, SymBool, SymTensor)):
        return True
    if isinstance(data, (list, tuple)):
        return any(has_sym(x) for x in data)
    if isinstance(data, np.ndarray) and data.dtype == object:
        return True
    return False


def infer_dtype(data):
    a = to_obj(data)
    kinds = set()
    for v in a.reshape(-1) if a.size else ():
        if isinstance(v, (bool, SymBool)):
            kinds.add('b')
        elif isinstance(v, int):
            kinds.add('i')
        else:
            kinds.add('f')
    if 'f' in kinds or not kinds:
        return torch.get_default_dtype()
    return torch.int64 if 'i' in kinds else torch.bool


# ----------------------------------------------------------------------------------------------
# python-level interception (things that must not reach C++ with symbolic values)
# ----------------------------------------------------------------------------------------------
def _item(t):
    if t.numel() != 1:
        raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % t.numel())
    v = get(t).reshape(-1)[0]
    if isinstance(v, float):
        return v
    return v


def _nested(a):
    if not isinstance(a, np.ndarray):
        return a
    if a.ndim == 0:
        return a[()]
    return [_nested(x) for x in a]


_TENSOR = torch.Tensor


def torch_function(func, types, args=(), kwargs=None):
    kwargs = kwargs or {}
    name = getattr(func, '__name__', '')
    if args and isinstance(args[0], torch.Tensor):
        t = args[0]
        if name == 'item':
            return _item(t)
        if name == '__bool__' or name == 'is_nonzero':
            return bool(_item(t))
        if name in ('__float__', '__int__', '__index__'):
            v = _item(t)
            return {'__float__': float, '__int__': int, '__index__': int}[name](v)
        if name == 'tolist':
            return _nested(get(t))
        if name == 'numpy':
            return get(t)
        if name == '__array__':
            return get(t)
        if name == '__format__':
            return repr(t)
        if name in ('__repr__', '__str__'):
            return SymTensor.__repr__(t) if isinstance(t, SymTensor) else '<tensor>'
        if name == 'new_tensor':
            data = args[1] if len(args) > 1 else kwargs.get('data')
            dt = kwargs.get('dtype') or t.dtype
            return sym_tensor(data, dt, kwargs.get('requires_grad', False))
        if name == 'type' and len(args) > 1 and isinstance(args[1], torch.dtype):
            return t.to(args[1])
        if name == '__contains__':
            return any(bool(x) for x in (t == args[1]).reshape(-1).tolist())
    if func in (torch.tensor, torch.as_tensor, torch.asarray):
        data = args[0] if args else kwargs.get('data')
        if func is not torch.tensor and isinstance(data, torch.Tensor) and kwargs.get('dtype') in (None, data.dtype):
            return data
        dt = kwargs.get('dtype') or (data.dtype if isinstance(data, torch.Tensor) else infer_dtype(data))
        return sym_tensor(data, dt, kwargs.get('requires_grad', False))
    if func is torch.set_printoptions or func is torch.is_tensor:
        return func(*args, **kwargs)
    # symbolic python scalars as operands
    if name in ('__setitem__',) and len(args) == 3 and isinstance(args[2], (Sym, SymBool)):
        args = (args[0], args[1], sym_tensor(args[2], args[0].dtype))
    else:
        args = tuple(_conv(a) for a in args)
        if kwargs:
            kwargs = {k: _conv(v) for k, v in kwargs.items()}
    return _call(func, args, kwargs)


def _conv(a):
    if isinstance(a, Sym):
        c = a.const()
        if c is not None:
            return float(c)
        return sym_tensor(a)
    if isinstance(a, SymBool):
        if a.b.op in 'tf':
            return bool(a)
        return sym_tensor(a, torch.bool)
    if isinstance(a, (list, tuple)) and any(isinstance(x, (Sym, SymBool)) for x in a):
        return type(a)(_conv(x) for x in a)
    return a


def _call(func, args, kwargs):
    with torch._C.DisableTorchFunctionSubclass():
        return func(*args, **kwargs)


class FnMode(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        return torch_function(func, types, args, kwargs or {})


class DispMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


class symbolic_torch:
    """context manager: everything torch does inside is symbolic"""

    def __enter__(self):
        self.old = torch.get_default_dtype()
        self.f, self.d = FnMode(), DispMode()
        self.f.__enter__()
        self.d.__enter__()
        return self

    def __exit__(self, *exc):
        self.d.__exit__(*exc)
        self.f.__exit__(*exc)
        torch.set_default_dtype(self.old)


# ----------------------------------------------------------------------------------------------
# dispatch
# ----------------------------------------------------------------------------------------------
def tree_map(f, x):
    if isinstance(x, (list, tuple)):
        return type(x)(tree_map(f, y) for y in x)
    if isinstance(x, dict):
        return {k: tree_map(f, v) for k, v in x.items()}
    return f(x)


def to_meta(x):
    if isinstance(x, SymTensor):
        size, stride, off = x._meta
        n = len(x._st.d)
        return torch.empty(n, dtype=x.dtype, device='meta').as_strided(size, stride, off)
    if isinstance(x, torch.Tensor):
        if x.device.type == 'meta':
            return x
        return torch.empty_strided(x.size(), x.stride(), dtype=x.dtype, device='meta')
    if isinstance(x, torch.device):
        return torch.device('meta')
    if isinstance(x, (Sym, SymBool)):
        return 1.5
    return x


_META = {}


def _sig(x):
    if isinstance(x, SymTensor):
        return ('S',) + x._meta + (x.dtype,)
    if isinstance(x, torch.Tensor):
        return ('T', tuple(x.size()), tuple(x.stride()), x.storage_offset(), x.dtype, x.device.type)
    if isinstance(x, (list, tuple)):
        return ('L',) + tuple(_sig(y) for y in x)
    if isinstance(x, dict):
        return ('D',) + tuple((k, _sig(v)) for k, v in sorted(x.items()))
    if isinstance(x, (Sym, SymBool)):
        return 'sym'
    if isinstance(x, bool) or x is None:
        return x, 0
    if isinstance(x, float):
        return 'float'
    return type(x), x


def run_meta(func, args, kwargs):
    try:
        key = (func, _sig(args), _sig(kwargs), torch.get_default_dtype())
        r = _META.get(key)
    except TypeError:
        return _run_meta(func, args, kwargs)
    if r is None:
        r = _run_meta(func, args, kwargs)
        if len(_META) < 20000:
            _META[key] = r
    return r


def _run_meta(func, args, kwargs):
    kw = dict(kwargs)
    names = {a.name for a in func._schema.arguments}
    m_args = tree_map(to_meta, list(args))
    m_kw = tree_map(to_meta, kw)
    if 'device' in names and 'device' in m_kw:
        m_kw['device'] = torch.device('meta')
    elif 'device' in names and not any(isinstance(a, torch.Tensor) for a in flat(args)):
        m_kw['device'] = torch.device('meta')
    m_kw.pop('pin_memory', None)
    return func(*m_args, **m_kw)


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flat(y)
    else:
        yield x


HANDLERS = {}


def reg(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def opname(func):
    return func._schema.name.split('::')[1]


def dispatch(func, args, kwargs):
    with _disable_current_modes():
        return _dispatch(func, args, kwargs)


def _dispatch(func, args, kwargs):
    name = opname(func)
    OPS_USED[name] = OPS_USED.get(name, 0) + 1
    schema = func._schema
    # views
    r0 = schema.returns[0] if schema.returns else None
    if (r0 is not None and r0.alias_info is not None and not r0.alias_info.is_write
            and args and isinstance(args[0], torch.Tensor) and name not in ('lift_fresh', '_reshape_alias_copy')):
        base = args[0]
        if not isinstance(base, SymTensor):
            base = make(get(base), base.dtype)
            args = (base,) + tuple(args[1:])
        m = run_meta(func, args, kwargs)

        def wrap(v):
            return SymTensor(base._st, v.size(), v.stride(), v.storage_offset(), base.dtype)
        if isinstance(m, (list, tuple)):
            out = type(m)(wrap(v) for v in m)
        else:
            out = wrap(m)
            if base._tag is not None:
                if name in ('t', 'transpose', 'numpy_T', 'mT', 'permute', 'unsqueeze', 'squeeze', 'detach', 'alias'):
                    out._tag = (base._tag[0], base._tag[1] + ((name,) + tuple(args[1:]),))
        return out
    h = HANDLERS.get(name + '.' + schema.overload_name) if schema.overload_name else None
    if h is None:
        h = HANDLERS.get(name)
    if h is not None:
        return h(func, args, kwargs)
    # in-place form of a functional operator
    if name.endswith('_') and not name.endswith('__'):
        fn = getattr(aten, name[:-1], None)
        base_name = name[:-1]
        if fn is not None and (base_name in HANDLERS or base_name + '.' + schema.overload_name in HANDLERS):
            f2 = getattr(fn, schema.overload_name or 'default')
            res = _dispatch(f2, args, kwargs)
            write(args[0], get(res))
            return args[0]
    if 'out' in kwargs:
        out = kwargs.pop('out')
        fn = getattr(aten, name)
        for ov in fn.overloads():
            if 'out' not in ov:
                try:
                    f2 = getattr(fn, ov)
                    res = _dispatch(f2, args, kwargs)
                except (RuntimeError, TypeError):
                    continue
                write(out, get(res))
                return out
    # composite operators
    try:
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    except (AttributeError, NotImplementedError):
        pass
    from torch._decomp import get_decompositions, decomposition_table
    d = decomposition_table.get(func)
    if d is not None:
        return d(*args, **kwargs)
    raise Unsupported('operator %s' % func)


def write(t, arr):
    if not isinstance(t, SymTensor):
        raise Unsupported('in-place write into a tensor created outside the symbolic run')
    if t.numel() == 0:
        return
    a = t.arr
    b = np.broadcast_to(np.asarray(arr, dtype=object), a.shape)
    vals = [coerce(v, t.dtype) for v in b.reshape(-1)]
    t._tag = None
    for ix, v in zip(np.ndindex(*a.shape), vals):
        a[ix] = v


def result_meta(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    return m


# -- elementwise --------------------------------------------------------------------------------
def elementwise(f):
    def h(func, args, kwargs):
        ops = [a for a in args if isinstance(a, (torch.Tensor, Sym, SymBool)) or T.is_num(a)]
        m = run_meta(func, args, kwargs)
        arrs = np.broadcast_arrays(*[get(o) for o in ops]) if len(ops) > 1 else [get(ops[0])]
        out = np.empty(tuple(m.size()), dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = f(*[a[ix] for a in arrs])
        return make(out, m.dtype, m.stride())
    return h


def num(v):
    if isinstance(v, SymBool):
        return Sym.lift(v)
    if isinstance(v, bool):
        return int(v)
    return v


def _sgn(v):
    """sign of a finite value, branching where it is symbolic"""
    if isinstance(v, float):
        return (v > 0) - (v < 0)
    if v > 0:
        return 1
    return -1 if v < 0 else 0


def _float_arith(op, a, b):
    """IEEE arithmetic with an infinite or undefined operand, or a division by exactly (positive) zero"""
    if not T.ctx().cfg.ieee:
        raise NonFinite('arithmetic on a non-finite constant')
    for v in (a, b):
        if isinstance(v, float) and math.isnan(v):
            return math.nan
    fa, fb = isinstance(a, float), isinstance(b, float)
    if op == '+':
        return a + b if fa and fb else (a if fa else b)
    if op == '*':
        s = _sgn(a) * _sgn(b)
        return s * math.inf if s else math.nan
    if fb:
        return math.nan if fa else Sym.lift(0)
    if fa:
        return a if _sgn(b) >= 0 else -a
    s = _sgn(a)
    return s * math.inf if s else math.nan


def e_add(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return _float_arith('+', a, b)
    return a + b


def e_sub(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return _float_arith('+', a, -b)
    return a - b


def e_mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return _float_arith('*', a, b)
    return a * b


def e_div(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return _float_arith('/', a, b)
    b = Sym.lift(b)
    c = T.ctx()
    if c is not None and c.cfg.ieee and (not b.r.num or (not T.pis_const(b.r.num) and c.decide(T.atom('==', b.r.num)))):
        return _float_arith('/', a, Sym.lift(0))
    return T.s_div(Sym.lift(a), b)


def _scaled(fn):
    def h(func, args, kwargs):
        alpha = kwargs.get('alpha', 1)
        m = run_meta(func, args, kwargs)
        x, y = np.broadcast_arrays(get(args[0]), get(args[1]))
        al = alpha
        if isinstance(al, float):
            al = Sym.lift(al)
        out = np.empty(tuple(m.size()), dtype=object)
        for ix in np.ndindex(*out.shape):
            b = y[ix] if alpha == 1 else e_mul(y[ix], al)
            out[ix] = fn(x[ix], b)
        return make(out, m.dtype, m.stride())
    return h


HANDLERS['add'] = _scaled(e_add)
HANDLERS['sub'] = _scaled(e_sub)
HANDLERS['rsub'] = _scaled(lambda a, b: e_sub(b, a))
HANDLERS['mul'] = elementwise(e_mul)


@reg('div', 'true_divide')
def _div(func, args, kwargs):
    rm = kwargs.get('rounding_mode')
    if rm is not None:
        m = run_meta(func, args, kwargs)
        x, y = np.broadcast_arrays(get(args[0]), get(args[1]))
        out = np.empty(tuple(m.size()), dtype=object)
        for ix in np.ndindex(*out.shape):
            a, b = num(x[ix]), num(y[ix])
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Unsupported('rounding division on symbolic reals')
            out[ix] = a // b if rm == 'floor' else int(a / b)
        return make(out, m.dtype, m.stride())
    return elementwise(e_div)(func, args, kwargs)


HANDLERS['neg'] = elementwise(lambda a: -num(a))
HANDLERS['reciprocal'] = elementwise(lambda a: e_div(1, a))
HANDLERS['sqrt'] = elementwise(lambda a: T.s_sqrt(Sym.lift(a)))
HANDLERS['rsqrt'] = elementwise(lambda a: e_div(1, T.s_sqrt(Sym.lift(a))))
HANDLERS['sin'] = elementwise(lambda a: T.s_sin(a))
HANDLERS['cos'] = elementwise(lambda a: T.s_cos(a))
HANDLERS['tan'] = elementwise(lambda a: T.s_div(T.s_sin(a), T.s_cos(a)))
HANDLERS['atan2'] = elementwise(lambda a, b: T.s_atan2(a, b))
HANDLERS['square'] = elementwise(lambda a: e_mul(a, a))
HANDLERS['positive'] = elementwise(lambda a: a)
HANDLERS['deg2rad'] = elementwise(lambda a: Sym.lift(a) * T.get_pi() / 180)
HANDLERS['hypot'] = elementwise(lambda a, b: T.s_sqrt(e_add(e_mul(a, a), e_mul(b, b))))


def e_abs(a):
    a = num(a)
    if isinstance(a, (int, float)):
        return abs(a)
    return T.s_abs(a)


HANDLERS['abs'] = elementwise(e_abs)


def e_sign(a):
    a = num(a)
    if isinstance(a, int):
        return (a > 0) - (a < 0)
    if a > 0:
        return Sym.lift(1)
    if a < 0:
        return Sym.lift(-1)
    return Sym.lift(0)


HANDLERS['sgn'] = HANDLERS['sign'] = elementwise(e_sign)


def e_max(a, b):
    a, b = num(a), num(b)
    return a if bool(_cmp(a, b, '>=')) else b


def e_min(a, b):
    a, b = num(a), num(b)
    return a if bool(_cmp(a, b, '<=')) else b


HANDLERS['maximum'] = HANDLERS['fmax'] = HANDLERS['max.other'] = elementwise(e_max)
HANDLERS['minimum'] = HANDLERS['fmin'] = HANDLERS['min.other'] = elementwise(e_min)


def _cmp(a, b, rel):
    a, b = num(a), num(b)
    import operator as op
    f = {'<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge, '==': op.eq, '!=': op.ne}[rel]
    if isinstance(a, float) and not isinstance(b, Sym):
        return f(a, b)
    if isinstance(a, float):
        if not math.isinf(a):
            return rel == '!='
        big = a > 0
        return {'<': not big, '<=': not big, '>': big, '>=': big, '==': False, '!=': True}[rel]
    if isinstance(b, float):
        if not math.isinf(b):
            return rel == '!='
        big = b > 0
        return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[rel]
    r = f(a, b)
    if isinstance(r, SymBool) and r.b.op in 'tf':
        return bool(r)
    return r


for _n, _r in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    HANDLERS[_n] = elementwise(lambda a, b, _r=_r: _cmp(a, b, _r))


def bb(v):
    return coerce(v, torch.bool)


HANDLERS['logical_and'] = elementwise(lambda a, b: bb(a) & bb(b))
HANDLERS['logical_or'] = elementwise(lambda a, b: bb(a) | bb(b))


def e_not(a):
    a = bb(a)
    return (not a) if isinstance(a, bool) else ~a


HANDLERS['logical_not'] = elementwise(e_not)


def _bit(fn):
    def f(a, b):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return fn(a, b)
        return fn(int(num(a)), int(num(b)))
    return elementwise(f)


HANDLERS['bitwise_and'] = HANDLERS['__and__'] = _bit(lambda a, b: a & b)
HANDLERS['bitwise_or'] = HANDLERS['__or__'] = _bit(lambda a, b: a | b)
HANDLERS['bitwise_xor'] = HANDLERS['logical_xor'] = _bit(lambda a, b: a ^ b)
HANDLERS['bitwise_not'] = elementwise(lambda a: e_not(a) if isinstance(a, (bool, SymBool)) else ~a)
HANDLERS['isnan'] = elementwise(lambda a: isinstance(a, float) and a != a)
HANDLERS['isinf'] = elementwise(lambda a: isinstance(a, float) and math.isinf(a))
HANDLERS['isfinite'] = elementwise(lambda a: not isinstance(a, float))


@reg('pow')
def _pow(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    x, y = np.broadcast_arrays(get(args[0]), get(args[1]))
    out = np.empty(tuple(m.size()), dtype=object)
    for ix in np.ndindex(*out.shape):
        e = y[ix]
        out[ix] = T.s_pow(Sym.lift(x[ix]), Sym.lift(e))
    return make(out, m.dtype, m.stride())


@reg('clamp', 'clamp_min', 'clamp_max', 'clip')
def _clamp(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    x = get(args[0])
    nm = opname(func)
    lo = kwargs.get('min', args[1] if len(args) > 1 and nm != 'clamp_max' else None)
    hi = kwargs.get('max', (args[2] if len(args) > 2 else None) if nm in ('clamp', 'clip') else
                    (args[1] if nm == 'clamp_max' else None))
    lo_a = np.broadcast_to(get(lo), x.shape) if lo is not None else None
    hi_a = np.broadcast_to(get(hi), x.shape) if hi is not None else None
    out = np.empty(tuple(m.size()), dtype=object)
    for ix in np.ndindex(*out.shape):
        v = x[ix]
        if lo_a is not None:
            v = e_max(v, lo_a[ix])
        if hi_a is not None:
            v = e_min(v, hi_a[ix])
        out[ix] = v
    return make(out, m.dtype)


@reg('where')
def _where(func, args, kwargs):
    if len(args) == 1:
        return aten.nonzero(args[0]).unbind(1)
    m = run_meta(func, (_byte2bool(args[0]),) + tuple(args[1:]), kwargs)
    c, x, y = np.broadcast_arrays(*[get(a) for a in args])
    out = np.empty(tuple(m.size()), dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = x[ix] if bool(bb(c[ix])) else y[ix]
    return make(out, m.dtype)


def _byte2bool(t):
    if isinstance(t, torch.Tensor) and t.dtype == torch.uint8:
        return make(get(t), torch.bool)
    return t


@reg('addcmul')
def _addcmul(func, args, kwargs):
    v = kwargs.get('value', 1)
    return _dispatch(aten.add.Tensor, (args[0], _dispatch(aten.mul.Tensor, (_dispatch(
        aten.mul.Tensor, (args[1], args[2]), {}), get0(v)), {})), {})


@reg('addcdiv')
def _addcdiv(func, args, kwargs):
    v = kwargs.get('value', 1)
    return _dispatch(aten.add.Tensor, (args[0], _dispatch(aten.mul.Tensor, (_dispatch(
        aten.div.Tensor, (args[1], args[2]), {}), get0(v)), {})), {})


def get0(v):
    return v if isinstance(v, torch.Tensor) else make(get(v), torch.double)


# -- creation -----------------------------------------------------------------------------------
def uninit():
    return T.new_var('uninitialised_%d' % next(_uninit), 'fresh')


def filled(fn):
    def h(func, args, kwargs):
        m = run_meta(func, args, kwargs)
        out = np.empty(tuple(m.size()), dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = fn()
        return make(out, m.dtype)
    return h


def _empty(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    out = np.empty(tuple(m.size()), dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = uninit() if m.dtype.is_floating_point else 0
    return make(out, m.dtype, m.stride() if m.dim() else None)


for _n in ('empty', 'empty_like', 'new_empty', 'empty_strided', 'new_empty_strided', 'empty_permuted'):
    HANDLERS[_n] = _empty
for _n in ('zeros', 'zeros_like', 'new_zeros', '_efficientzerotensor'):
    HANDLERS[_n] = filled(lambda: 0)
for _n in ('ones', 'ones_like', 'new_ones'):
    HANDLERS[_n] = filled(lambda: 1)


@reg('full', 'new_full', 'full_like')
def _full(func, args, kwargs):
    v = args[2] if opname(func) == 'new_full' else args[1]
    if isinstance(v, (Sym, SymBool)):
        pass
    m = run_meta(func, args, kwargs)
    return make(np.broadcast_to(get(v), tuple(m.size())), m.dtype)


@reg('scalar_tensor')
def _scalar_tensor(func, args, kwargs):
    return make(get(args[0]), kwargs.get('dtype') or torch.get_default_dtype())


@reg('eye')
def _eye(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    out = np.empty(tuple(m.size()), dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = int(ix[0] == ix[1])
    return make(out, m.dtype)


def _on_cpu(func, args, kwargs):
    """creation of concrete data: run for real"""
    kw = dict(kwargs)
    t = func(*args, **kw)
    return make(get(t), t.dtype)


for _n in ('arange', 'linspace', 'tril_indices', 'triu_indices'):
    HANDLERS[_n] = _on_cpu


@reg('lift_fresh', 'lift_fresh_copy', 'lift')
def _lift(func, args, kwargs):
    t = args[0]
    return t if isinstance(t, SymTensor) else make(get(t), t.dtype)


@reg('_to_copy', 'clone', 'contiguous', '_copy_from', 'detach_copy', 'alias_copy', 'lift_copy')
def _copy(func, args, kwargs):
    dt = kwargs.get('dtype') or args[0].dtype
    r = make(get(args[0]), dt)
    if isinstance(args[0], SymTensor):
        r._tag = args[0]._tag
    return r


@reg('copy_')
def _copy_(func, args, kwargs):
    write(args[0], get(args[1]))
    return args[0]


@reg('copy')
def _copy_f(func, args, kwargs):
    return make(np.broadcast_to(get(args[1]), tuple(args[0].size())), args[0].dtype)


@reg('fill_')
def _fill_(func, args, kwargs):
    write(args[0], get(args[1]))
    return args[0]


@reg('zero_')
def _zero_(func, args, kwargs):
    write(args[0], get(0))
    return args[0]


@reg('zero')
def _zero(func, args, kwargs):
    return make(np.broadcast_to(get(0), tuple(args[0].size())), args[0].dtype)


@reg('fill')
def _fill(func, args, kwargs):
    return make(np.broadcast_to(get(args[1]), tuple(args[0].size())), args[0].dtype)


@reg('resize_', 'set_')
def _nores(func, args, kwargs):
    raise Unsupported('storage resize')


# -- reductions ---------------------------------------------------------------------------------
def _dims(args, kwargs, i=1, key='dim', nd=0):
    d = kwargs.get(key, args[i] if len(args) > i else None)
    if d is None or (isinstance(d, (list, tuple)) and len(d) == 0):
        return tuple(range(nd))
    if isinstance(d, int):
        d = (d,)
    return tuple(x % nd if nd else 0 for x in d)


def reduce_with(t, dims, keepdim, f):
    a = get(t)
    nd = a.ndim
    if nd == 0:
        r = np.empty((), dtype=object)
        r[()] = f([a[()]])
        return r
    rest = [d for d in range(nd) if d not in dims]
    b = np.transpose(a, rest + list(dims))
    sh = tuple(a.shape[d] for d in rest)
    n = int(np.prod([a.shape[d] for d in dims])) if dims else 1
    b = b.reshape(sh + (n,))
    out = np.empty(sh, dtype=object)
    for ix in np.ndindex(*sh):
        out[ix] = f(list(b[ix]))
    if keepdim:
        full = [1 if d in dims else a.shape[d] for d in range(nd)]
        out = out.reshape(full)
    return out


def fsum(vs):
    acc = 0
    for v in vs:
        acc = e_add(acc, v)
    return acc


def fprod(vs):
    acc = 1
    for v in vs:
        acc = e_mul(acc, v)
    return acc


@reg('sum')
def _sum(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    nd = args[0].dim()
    if m.dim() == 0 and len(args) == 1 and 'dim' not in kwargs:
        return make(reduce_with(args[0], tuple(range(nd)), False, fsum), m.dtype)
    keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)
    return make(reduce_with(args[0], _dims(args, kwargs, nd=nd), keep, fsum), m.dtype)


@reg('nansum')
def _nansum(func, args, kwargs):
    return _sum(func, args, kwargs)


@reg('mean')
def _mean(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    nd = args[0].dim()
    keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)
    dims = _dims(args, kwargs, nd=nd)
    return make(reduce_with(args[0], dims, keep, lambda v: e_div(fsum(v), len(v))), m.dtype)


@reg('prod')
def _prod(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    nd = args[0].dim()
    d = args[1] if len(args) > 1 else None
    keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)
    dims = tuple(range(nd)) if d is None else (d % nd,)
    return make(reduce_with(args[0], dims, keep, fprod), m.dtype)


def argbest(vs, rel):
    best = 0
    for i in range(1, len(vs)):
        if bool(_cmp(vs[i], vs[best], rel)):
            best = i
    return best


def _minmax(rel):
    def h(func, args, kwargs):
        ov = func._schema.overload_name
        nd = args[0].dim()
        if ov == '':
            if args[0].numel() == 0:
                raise RuntimeError('operation does not have an identity')
            r = reduce_with(args[0], tuple(range(nd)), False, lambda v: v[argbest(v, rel)])
            return make(r, args[0].dtype)
        d = kwargs.get('dim', args[1] if len(args) > 1 else 0)
        keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)
        dims = (d % nd,) if nd else ()
        ixs = reduce_with(args[0], dims, keep, lambda v: argbest(v, rel))
        memo = {}
        # second reduction re-uses the decided indices in order
        it = iter(ixs.reshape(-1).tolist())
        vals = reduce_with(args[0], dims, keep, lambda v: v[next(it)])
        return make(vals, args[0].dtype), make(ixs, torch.int64)
    return h


HANDLERS['min'] = _minmax('<')
HANDLERS['max'] = _minmax('>')


def _aminmax(rel):
    def h(func, args, kwargs):
        nd = args[0].dim()
        keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)
        r = reduce_with(args[0], _dims(args, kwargs, nd=nd), keep, lambda v: v[argbest(v, rel)])
        return make(r, args[0].dtype)
    return h


HANDLERS['amin'] = _aminmax('<')
HANDLERS['amax'] = _aminmax('>')


def _argminmax(rel):
    def h(func, args, kwargs):
        d = kwargs.get('dim', args[1] if len(args) > 1 else None)
        keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)
        nd = args[0].dim()
        dims = tuple(range(nd)) if d is None else (d % nd,)
        return make(reduce_with(args[0], dims, keep, lambda v: argbest(v, rel)), torch.int64)
    return h


HANDLERS['argmin'] = _argminmax('<')
HANDLERS['argmax'] = _argminmax('>')


@reg('any')
def _any(func, args, kwargs):
    nd = args[0].dim()
    keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)

    def f(v):
        acc = False
        for x in v:
            acc = acc | bb(x)
        return acc
    return make(reduce_with(args[0], _dims(args, kwargs, nd=nd), keep, f), torch.bool)


@reg('all')
def _all(func, args, kwargs):
    nd = args[0].dim()
    keep = kwargs.get('keepdim', args[2] if len(args) > 2 else False)

    def f(v):
        acc = True
        for x in v:
            acc = acc & bb(x)
        return acc
    return make(reduce_with(args[0], _dims(args, kwargs, nd=nd), keep, f), torch.bool)


@reg('cumsum')
def _cumsum(func, args, kwargs):
    a = get(args[0])
    d = args[1]
    out = np.array(a, dtype=object, copy=True)
    o = np.moveaxis(out, d, 0)
    for i in range(1, o.shape[0]):
        for ix in np.ndindex(*o.shape[1:]):
            o[(i,) + ix] = e_add(o[(i - 1,) + ix], o[(i,) + ix])
    return make(out, kwargs.get('dtype') or args[0].dtype)


def vnorm(vs, p=2):
    p = 2 if p is None else T.const_of(p) if not (isinstance(p, float) and math.isinf(p)) else p
    if p == 2:
        if len(vs) == 1:
            return e_abs(vs[0])
        return T.s_sqrt(Sym.lift(fsum([e_mul(v, v) for v in vs])))
    if p == 1:
        return fsum([e_abs(v) for v in vs])
    if isinstance(p, float):
        ab = [e_abs(v) for v in vs]
        return ab[argbest(ab, '>' if p > 0 else '<')]
    raise Unsupported('norm of order %s' % p)


@reg('linalg_vector_norm')
def _lvnorm(func, args, kwargs):
    p = args[1] if len(args) > 1 else kwargs.get('ord', 2)
    nd = args[0].dim()
    dims = _dims(args, kwargs, 2, nd=nd)
    keep = args[3] if len(args) > 3 else kwargs.get('keepdim', False)
    return make(reduce_with(args[0], dims, keep, lambda v: vnorm(v, p)), args[0].dtype)


@reg('norm')
def _norm(func, args, kwargs):
    p = args[1] if len(args) > 1 else kwargs.get('p', 2)
    nd = args[0].dim()
    dims = _dims(args, kwargs, 2, nd=nd)
    keep = args[3] if len(args) > 3 else kwargs.get('keepdim', False)
    return make(reduce_with(args[0], dims, keep, lambda v: vnorm(v, p)), args[0].dtype)


@reg('frobenius_norm')
def _fro(func, args, kwargs):
    nd = args[0].dim()
    dims = _dims(args, kwargs, 1, nd=nd)
    return make(reduce_with(args[0], dims, False, vnorm), args[0].dtype)


# -- linear algebra -----------------------------------------------------------------------------
def dot_(u, v):
    acc = 0
    for a, b in zip(u, v):
        if _is0(a) or _is0(b):
            continue
        acc = e_add(acc, e_mul(a, b))
    return acc


def _is0(a):
    if isinstance(a, Sym):
        return not a.r.num
    return isinstance(a, (int, bool)) and a == 0


def mat(a, b):
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = dot_(a[i], b[:, j])
    return out


def _chk(a, b, func):
    if a.dtype != b.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype, but got: %s != %s' % (a.dtype, b.dtype))


@reg('dot', 'vdot')
def _dot(func, args, kwargs):
    run_meta(func, args, kwargs)
    _chk(args[0], args[1], func)
    a, b = get(args[0]), get(args[1])
    if a.shape != b.shape:
        raise RuntimeError('inconsistent tensor size in dot')
    o = np.empty((), dtype=object)
    o[()] = dot_(a, b)
    return make(o, args[0].dtype)


@reg('mm')
def _mm(func, args, kwargs):
    _chk(args[0], args[1], func)
    m = run_meta(func, args, kwargs)
    r = tagged_mm(args[0], args[1])
    return make(mat(get(args[0]), get(args[1])) if r is None else r, m.dtype)


@reg('mv')
def _mv(func, args, kwargs):
    _chk(args[0], args[1], func)
    m = run_meta(func, args, kwargs)
    b = get(args[1]).reshape(-1, 1)
    r = tagged_mm(args[0], make(b, args[1].dtype))
    return make((mat(get(args[0]), b) if r is None else r).reshape(-1), m.dtype)


@reg('bmm')
def _bmm(func, args, kwargs):
    _chk(args[0], args[1], func)
    m = run_meta(func, args, kwargs)
    a, b = get(args[0]), get(args[1])
    out = np.empty(tuple(m.size()), dtype=object)
    for i in range(a.shape[0]):
        out[i] = mat(a[i], b[i])
    return make(out, m.dtype)


@reg('addmm', 'addmv', 'baddbmm')
def _addmm(func, args, kwargs):
    nm = opname(func)
    f = {'addmm': aten.mm.default, 'addmv': aten.mv.default, 'baddbmm': aten.bmm.default}[nm]
    al, be = kwargs.get('alpha', 1), kwargs.get('beta', 1)
    p = _dispatch(f, (args[1], args[2]), {})
    return _dispatch(aten.add.Tensor, (_dispatch(aten.mul.Tensor, (args[0], get0(be)), {}),
                                       _dispatch(aten.mul.Tensor, (p, get0(al)), {})), {})


@reg('addr')
def _addr(func, args, kwargs):
    o = np.empty((args[1].size(0), args[2].size(0)), dtype=object)
    a, b = get(args[1]), get(args[2])
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = e_mul(a[i], b[j])
    return _dispatch(aten.add.Tensor, (args[0], make(o, args[0].dtype)), {})


@reg('trace')
def _trace(func, args, kwargs):
    a = get(args[0])
    o = np.empty((), dtype=object)
    o[()] = fsum([a[i, i] for i in range(min(a.shape))])
    return make(o, args[0].dtype)


@reg('linalg_cross')
def _cross(func, args, kwargs):
    a, b = np.broadcast_arrays(get(args[0]), get(args[1]))
    d = kwargs.get('dim', args[2] if len(args) > 2 else -1)
    a, b = np.moveaxis(a, d, -1), np.moveaxis(b, d, -1)
    o = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape[:-1]):
        x, y = a[ix], b[ix]
        o[ix + (0,)] = e_sub(e_mul(x[1], y[2]), e_mul(x[2], y[1]))
        o[ix + (1,)] = e_sub(e_mul(x[2], y[0]), e_mul(x[0], y[2]))
        o[ix + (2,)] = e_sub(e_mul(x[0], y[1]), e_mul(x[1], y[0]))
    return make(np.moveaxis(o, -1, d), args[0].dtype)


def det_exact(a):
    n = a.shape[0]
    if n == 0:
        return Sym.lift(1)
    if n == 1:
        return Sym.lift(a[0, 0])
    if n == 2:
        return Sym.lift(e_sub(e_mul(a[0, 0], a[1, 1]), e_mul(a[0, 1], a[1, 0])))
    # expand along the sparsest row
    i = max(range(n), key=lambda r: sum(_is0(x) for x in a[r]))
    acc = Sym.lift(0)
    rows = [r for r in range(n) if r != i]
    for j in range(n):
        if _is0(a[i, j]):
            continue
        cols = [c for c in range(n) if c != j]
        mnr = det_exact(a[np.ix_(rows, cols)])
        t = e_mul(a[i, j], mnr)
        acc = e_add(acc, t) if (i + j) % 2 == 0 else e_sub(acc, t)
    return acc


def blocks(a):
    """connected components of rows/cols by nonzero pattern; [(rows, cols)] or None"""
    n = a.shape[0]
    parent = list(range(2 * n))

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for i in range(n):
        for j in range(n):
            if not _is0(a[i, j]):
                parent[find(i)] = find(n + j)
    comp = {}
    for x in range(2 * n):
        comp.setdefault(find(x), []).append(x)
    out = []
    for c in comp.values():
        rows = [x for x in c if x < n]
        cols = [x - n for x in c if x >= n]
        if len(rows) != len(cols):
            return None
        out.append((rows, cols))
    return out


EXACT_INV = 3


class LinSol:
    """gives a witness the numeric value of a contract variable: entry of inv(A) or of inv(A) b"""

    def __init__(self, A, b):
        self.A, self.b = np.array(A, copy=True), None if b is None else np.array(b, copy=True)

    def bind(self, sym, ix):
        (m, _), = sym.r.num.items()
        T.universe().gens[m[0][0]].info = (self, ix)

    def value(self, wit, ix):
        v = wit.cont.get(id(self))
        if v is None:
            def ev(a):
                o = np.empty(a.shape)
                for i in np.ndindex(*a.shape):
                    o[i] = wit.sym(Sym.lift(a[i]))
                return o
            A = ev(self.A)
            try:
                if not np.isfinite(A).all() or np.linalg.cond(A) > 1e9:
                    raise np.linalg.LinAlgError
                v = np.linalg.inv(A) if self.b is None else np.linalg.solve(A, ev(self.b))
            except np.linalg.LinAlgError:
                v = np.full(self.A.shape if self.b is None else self.b.shape, np.nan)
            wit.cont[id(self)] = v
        return float(v[ix])


def inv_exact(a):
    """exact inverse block by block; None when a block is too large"""
    n = a.shape[0]
    bl = blocks(a)
    if bl is None:
        raise torch._C._LinAlgError('linalg.inv: the matrix is singular')
    if any(len(r) > EXACT_INV for r, _ in bl):
        return None
    out = np.empty((n, n), dtype=object)
    out[...] = 0
    for rows, cols in bl:
        sub = a[np.ix_(rows, cols)]
        k = len(rows)
        d = det_exact(sub)
        if not d.r.num:
            raise torch._C._LinAlgError('linalg.inv: the matrix is singular')
        for i in range(k):
            for j in range(k):
                r = [x for x in range(k) if x != j]
                c = [x for x in range(k) if x != i]
                co = det_exact(sub[np.ix_(r, c)]) if k > 1 else Sym.lift(1)
                if (i + j) % 2:
                    co = -co
                out[cols[i], rows[j]] = T.s_div(Sym.lift(co), d)
    return out


def inverse_of(a):
    """(array, tag) of inv(a)"""
    r = inv_exact(a)
    if r is not None:
        return r, None
    n = a.shape[0]
    c = T.ctx()
    memo = c.__dict__.setdefault('linmemo', {})
    key = arrkey(a)
    if key in memo:
        return memo[key][0].copy(), memo[key][1]
    entries = c.cfg.inv_entries
    if entries and arrkey(a.T) in memo:
        return memo[arrkey(a.T)][0].T.copy(), None
    c.note('assume', 'torch.inverse contract: the %dx%d matrix is invertible and X = inv(P) satisfies P X = I = X P' % (n, n))
    out = np.empty((n, n), dtype=object)
    obj = LinSol(a, None)
    for ix in np.ndindex(n, n):
        out[ix] = T.new_var('inv%d%d' % ix, 'fresh')
        obj.bind(out[ix], ix)
    obj.X = out.copy()
    if entries:
        memo[key] = out, None
        return out.copy(), None
    c.lazy.append(('inv', np.array(a, copy=True), out))
    memo[key] = out, ('inv', np.array(a, copy=True), out)
    return memo[key]


def arrkey(a):
    return (a.shape,) + tuple(Sym.lift(x).r.key() for x in a.reshape(-1))


def tagged_mm(x, y):
    """X @ Y where X is an opaque inverse: introduce R with P @ R = Y"""
    tag = getattr(x, '_tag', None)
    if tag is None:
        return None
    (kind, P, X), ops = tag
    ops = [o for o in ops if o[0] not in ('detach', 'alias')]
    tr = False
    for o in ops:
        if o[0] in ('t', 'transpose', 'numpy_T', 'mT'):
            tr = not tr
        elif o[0] in ('unsqueeze', 'squeeze'):
            continue
        else:
            return None
    A = P.T if tr else P
    b = get(y)
    n, k = b.shape
    res = np.empty((n, k), dtype=object)
    c = T.ctx()
    memo = c.__dict__.setdefault('linmemo', {})
    key = ('sol', arrkey(A), arrkey(b))
    if key in memo:
        return memo[key].copy()
    memo[key] = res
    obj = LinSol(A, b)
    for i in range(n):
        for j in range(k):
            res[i, j] = T.new_var('sol%d_%d' % (i, j), 'fresh')
            obj.bind(res[i, j], (i, j))
    for j in range(k):
        for i in range(n):
            c.assume_def(T.Sym.lift(dot_(A[i], res[:, j])) == T.Sym.lift(b[i, j]))
    return res


@reg('linalg_inv_ex', 'inverse', 'linalg_inv')
def _inv_ex(func, args, kwargs):
    a = get(args[0])
    if a.ndim == 2:
        r, tag = inverse_of(a)
    else:
        r = np.empty(a.shape, dtype=object)
        tag = None
        for ix in np.ndindex(*a.shape[:-2]):
            r[ix], _ = inverse_of(a[ix])
    t = make(r, args[0].dtype)
    if tag is not None:
        t._tag = (tag, ())
    if opname(func) != 'linalg_inv_ex':
        return t
    return t, make(np.zeros(a.shape[:-2], dtype=object), torch.int32)


@reg('_linalg_det')
def _det(func, args, kwargs):
    a = get(args[0])
    sh = a.shape[:-2]
    r = np.empty(sh, dtype=object)
    for ix in np.ndindex(*sh):
        r[ix] = det_exact(a[ix])
    # LU data are only used by autograd
    lu = np.empty(a.shape, dtype=object)
    lu[...] = 0
    for ix in np.ndindex(*a.shape):
        lu[ix] = uninit()
    return make(r, args[0].dtype), make(lu, args[0].dtype), make(np.zeros(a.shape[:-1], dtype=object), torch.int32)


def solve_arr(a, b):
    inv = inv_exact(a)
    if inv is None and T.ctx().cfg.inv_entries:
        inv = inverse_of(a)[0]
    if inv is not None:
        return mat(inv, b)
    t = make(np.zeros(a.shape, dtype=object), torch.double)
    t._tag = (('inv', a, None), ())
    return tagged_mm(t, make(b, torch.double))


@reg('_linalg_solve_ex')
def _solve_ex(func, args, kwargs):
    a, b = get(args[0]), get(args[1])
    left = kwargs.get('left', args[2] if len(args) > 2 else True)
    if not left:
        raise Unsupported('right-hand linear solve')
    vec = b.ndim == a.ndim - 1
    if vec:
        b = b[..., None]
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*a.shape[:-2]):
        out[ix] = solve_arr(a[ix], b[ix])
    if vec:
        out = out[..., 0]
    lu = np.zeros(a.shape, dtype=object)
    return (make(out, args[1].dtype), make(lu, args[0].dtype),
            make(np.zeros(a.shape[:-1], dtype=object), torch.int32),
            make(np.zeros(a.shape[:-2], dtype=object), torch.int32))


# LU: any nonzero pivot may be chosen (superset of partial pivoting by magnitude)
@reg('linalg_lu_factor_ex')
def _lu_factor(func, args, kwargs):
    a = get(args[0])
    lu = np.array(a, dtype=object, copy=True)
    n = a.shape[-1]
    piv = np.empty(a.shape[:-1], dtype=object)
    c = T.ctx()
    for ix in np.ndindex(*a.shape[:-2]):
        m = lu[ix]
        for k in range(n):
            cand = [i for i in range(k, n) if not _is0(m[i, k])]
            if not cand:
                raise RuntimeError('LU: singular matrix')
            p = cand[c.choose(len(cand), 'pivot')]
            piv[ix + (k,)] = p + 1
            if p != k:
                m[[k, p]] = m[[p, k]]
            for i in range(k + 1, n):
                if _is0(m[i, k]):
                    m[i, k] = Sym.lift(0)
                    continue
                f = e_div(m[i, k], m[k, k])
                m[i, k] = f
                for j in range(k + 1, n):
                    if not _is0(m[k, j]):
                        m[i, j] = e_sub(m[i, j], e_mul(f, m[k, j]))
            if n == 1 or k == n - 1:
                c.require_nonzero(Sym.lift(m[k, k]))
    return (make(lu, args[0].dtype), make(piv, torch.int32),
            make(np.zeros(a.shape[:-2], dtype=object), torch.int32))


@reg('linalg_lu_solve')
def _lu_solve(func, args, kwargs):
    LU, P, Bm = get(args[0]), get(args[1]), get(args[2])
    if not kwargs.get('left', True) or kwargs.get('adjoint', False):
        raise Unsupported('lu_solve variant')
    out = np.empty(Bm.shape, dtype=object)
    for ix in np.ndindex(*Bm.shape[:-2]):
        m, p, b = LU[ix], P[ix], np.array(Bm[ix], dtype=object, copy=True)
        n = m.shape[0]
        for k in range(n):
            q = int(p[k]) - 1
            if q != k:
                b[[k, q]] = b[[q, k]]
        for j in range(b.shape[1]):
            for i in range(n):
                for k in range(i):
                    if not _is0(m[i, k]) and not _is0(b[k, j]):
                        b[i, j] = e_sub(b[i, j], e_mul(m[i, k], b[k, j]))
            for i in reversed(range(n)):
                for k in range(i + 1, n):
                    if not _is0(m[i, k]) and not _is0(b[k, j]):
                        b[i, j] = e_sub(b[i, j], e_mul(m[i, k], b[k, j]))
                b[i, j] = e_div(b[i, j], m[i, i])
        out[ix] = b
    return make(out, args[2].dtype)


# -- shape --------------------------------------------------------------------------------------
@reg('cat', 'concat', 'concatenate')
def _cat(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    d = kwargs.get('dim', args[1] if len(args) > 1 else 0)
    arrs = [get(t) for t in args[0]]
    nd = m.dim()
    arrs = [a for a in arrs if not (a.ndim == 1 and a.shape[0] == 0 and nd != 1)]
    return make(np.concatenate(arrs, axis=d) if arrs else np.empty(tuple(m.size()), dtype=object), m.dtype)


@reg('stack')
def _stack(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    d = kwargs.get('dim', args[1] if len(args) > 1 else 0)
    return make(np.stack([get(t) for t in args[0]], axis=d), m.dtype)


@reg('repeat')
def _repeat(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    a = get(args[0])
    reps = list(args[1])
    a = a.reshape((1,) * (len(reps) - a.ndim) + a.shape)
    return make(np.tile(a, reps).reshape(tuple(m.size())), m.dtype)


@reg('_reshape_copy', '_unsafe_view', 'view_copy', 'reshape')
def _unsafe_view(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    return make(get(args[0]).reshape(tuple(m.size())), m.dtype)


@reg('flip')
def _flip(func, args, kwargs):
    return make(np.flip(get(args[0]), axis=tuple(args[1])), args[0].dtype)


@reg('roll')
def _roll(func, args, kwargs):
    sh = args[1]
    dm = args[2] if len(args) > 2 and len(args[2]) else None
    return make(np.roll(get(args[0]), tuple(sh) if dm is not None else sh[0], axis=tuple(dm) if dm is not None else None), args[0].dtype)


@reg('triu')
def _triu(func, args, kwargs):
    k = args[1] if len(args) > 1 else kwargs.get('diagonal', 0)
    a = np.array(get(args[0]), copy=True)
    for ix in np.ndindex(*a.shape):
        if ix[-1] - ix[-2] < k:
            a[ix] = 0
    return make(a, args[0].dtype)


@reg('tril')
def _tril(func, args, kwargs):
    k = args[1] if len(args) > 1 else kwargs.get('diagonal', 0)
    a = np.array(get(args[0]), copy=True)
    for ix in np.ndindex(*a.shape):
        if ix[-1] - ix[-2] > k:
            a[ix] = 0
    return make(a, args[0].dtype)


@reg('diag_embed')
def _diag_embed(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    if len(args) > 1 or any(kwargs.values()):
        raise Unsupported('diag_embed variant')
    a = get(args[0])
    o = np.empty(tuple(m.size()), dtype=object)
    o[...] = 0
    for ix in np.ndindex(*a.shape):
        o[ix + (ix[-1],)] = a[ix]
    return make(o, m.dtype)


@reg('diagonal_copy')
def _diag_copy(func, args, kwargs):
    return make(np.diagonal(get(args[0])), args[0].dtype)


@reg('constant_pad_nd')
def _pad(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    a = get(args[0])
    pad = args[1]
    v = args[2] if len(args) > 2 else 0
    o = np.empty(tuple(m.size()), dtype=object)
    o[...] = lift_el(v)
    sl = []
    nd = a.ndim
    for d in range(nd):
        i = nd - 1 - d
        lo = pad[2 * i] if 2 * i < len(pad) else 0
        sl.append(slice(lo, lo + a.shape[d]))
    o[tuple(sl)] = a
    return make(o, m.dtype)


# -- indexing -----------------------------------------------------------------------------------
def conc_index(ix, a_shape):
    """list of optional index tensors -> numpy advanced index (boolean masks are decided)"""
    out = []
    for t in ix:
        if t is None:
            out.append(slice(None))
            continue
        v = get(t)
        if t.dtype in (torch.bool, torch.uint8):
            b = np.empty(v.shape, dtype=bool)
            for k in np.ndindex(*v.shape):
                b[k] = bool(bb(v[k]))
            out.extend(np.nonzero(b))
        else:
            b = np.empty(v.shape, dtype=np.int64)
            for k in np.ndindex(*v.shape):
                b[k] = int(v[k])
            out.append(b)
    return tuple(out)


@reg('index', '_unsafe_index')
def _index(func, args, kwargs):
    a = get(args[0])
    return make(a[conc_index(args[1], a.shape)], args[0].dtype)


def _put(t, ix, vals, acc):
    a = t.arr
    idx = conc_index(ix, a.shape)
    pos = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape):
        pos[k] = k
    # tuples are stored as objects
    sel = pos[idx]
    v = get(vals)
    v = np.broadcast_to(v, sel.shape if isinstance(sel, np.ndarray) else ())
    if isinstance(sel, np.ndarray):
        for k in np.ndindex(*sel.shape):
            q = sel[k]
            a[q] = e_add(a[q], v[k]) if acc else coerce(v[k], t.dtype)
    else:
        a[sel] = e_add(a[sel], v[()]) if acc else coerce(v[()], t.dtype)


@reg('index_put_', '_index_put_impl_')
def _index_put_(func, args, kwargs):
    acc = args[3] if len(args) > 3 else kwargs.get('accumulate', False)
    _put(args[0], args[1], args[2], acc)
    return args[0]


@reg('index_put', '_unsafe_index_put')
def _index_put(func, args, kwargs):
    acc = args[3] if len(args) > 3 else kwargs.get('accumulate', False)
    t = make(get(args[0]), args[0].dtype)
    _put(t, args[1], args[2], acc)
    return t


@reg('index_select')
def _index_select(func, args, kwargs):
    i = [int(x) for x in get(args[2]).reshape(-1)]
    return make(np.take(get(args[0]), i, axis=args[1]), args[0].dtype)


@reg('gather')
def _gather(func, args, kwargs):
    a, d, i = get(args[0]), args[1], get(args[2])
    o = np.empty(i.shape, dtype=object)
    for k in np.ndindex(*i.shape):
        q = list(k)
        if q:
            q[d] = int(i[k])
        o[k] = a[tuple(q)]
    return make(o, args[0].dtype)


@reg('scatter', 'scatter_add')
def _scatter(func, args, kwargs):
    a = np.array(get(args[0]), copy=True)
    d, i = args[1], get(args[2])
    src = np.broadcast_to(get(args[3]), i.shape) if not isinstance(args[3], torch.Tensor) else get(args[3])
    add = opname(func) == 'scatter_add'
    for k in np.ndindex(*i.shape):
        q = list(k)
        if q:
            q[d] = int(i[k])
        a[tuple(q)] = e_add(a[tuple(q)], src[k]) if add else src[k]
    return make(a, args[0].dtype)


def _slice_scatter(view):
    def h(func, args, kwargs):
        t = make(get(args[0]), args[0].dtype)
        v = _dispatch(view, (t,) + tuple(args[2:]), kwargs)
        write(v, get(args[1]))
        return t
    return h


HANDLERS['slice_scatter'] = _slice_scatter(aten.slice.Tensor)
HANDLERS['select_scatter'] = _slice_scatter(aten.select.int)
HANDLERS['diagonal_scatter'] = _slice_scatter(aten.diagonal.default)
HANDLERS['as_strided_scatter'] = _slice_scatter(aten.as_strided.default)


def _backward_view(fn):
    return fn


@reg('select_backward')
def _select_backward(func, args, kwargs):
    g, sizes, d, i = args
    o = np.empty(tuple(sizes), dtype=object)
    o[...] = 0
    ga = get(g)
    np.moveaxis(o, d, 0)[i] = ga if ga.ndim else ga[()]
    return make(o, g.dtype)


@reg('slice_backward')
def _slice_backward(func, args, kwargs):
    g, sizes, d, s, e, st = args
    o = np.empty(tuple(sizes), dtype=object)
    o[...] = 0
    np.moveaxis(o, d, 0)[s:e:st] = np.moveaxis(get(g), d, 0)
    return make(o, g.dtype)


@reg('diagonal_backward')
def _diagonal_backward(func, args, kwargs):
    g, sizes, off, d1, d2 = args
    t = make(np.zeros(tuple(sizes), dtype=object), g.dtype)
    v = _dispatch(aten.diagonal.default, (t, off, d1, d2), {})
    write(v, get(g))
    return t


@reg('index_select_backward', 'value_selecting_reduction_backward')
def _vsrb(func, args, kwargs):
    g, d, idx, sizes, keep = args
    t = np.zeros(tuple(sizes), dtype=object)
    ga, ia = get(g), get(idx)
    if not keep and len(sizes):
        ga, ia = np.expand_dims(ga, d), np.expand_dims(ia, d)
    if not len(sizes):
        return make(ga, g.dtype)
    for k in np.ndindex(*ia.shape):
        q = list(k)
        q[d] = int(ia[k])
        t[tuple(q)] = ga[k]
    return make(t, g.dtype)


@reg('masked_fill')
def _masked_fill(func, args, kwargs):
    a, m = get(args[0]), get(args[1])
    v = get(args[2])
    sh = np.broadcast_shapes(a.shape, m.shape)
    a, m, v = (np.broadcast_to(x, sh) for x in (a, m, v))
    o = np.empty(sh, dtype=object)
    for k in np.ndindex(*sh):
        o[k] = v[k] if bool(bb(m[k])) else a[k]
    return make(o, args[0].dtype)


@reg('masked_scatter')
def _masked_scatter(func, args, kwargs):
    if args[1].dtype != torch.bool:
        raise RuntimeError('masked_scatter_ only supports boolean masks, but got mask with dtype %s' % args[1].dtype)
    a, m, s = get(args[0]), get(args[1]), get(args[2]).reshape(-1)
    m = np.broadcast_to(m, a.shape)
    o = np.array(a, dtype=object, copy=True)
    i = 0
    for k in np.ndindex(*a.shape):
        if bool(bb(m[k])):
            o[k] = s[i]
            i += 1
    return make(o, args[0].dtype)


@reg('masked_select')
def _masked_select(func, args, kwargs):
    a, m = np.broadcast_arrays(get(args[0]), get(args[1]))
    o = [a[k] for k in np.ndindex(*a.shape) if bool(bb(m[k]))]
    r = np.empty(len(o), dtype=object)
    for i, v in enumerate(o):
        r[i] = v
    return make(r, args[0].dtype)


@reg('nonzero')
def _nonzero(func, args, kwargs):
    a = get(args[0])
    rows = [k for k in np.ndindex(*a.shape) if bool(bb(a[k]))]
    r = np.empty((len(rows), a.ndim), dtype=object)
    for i, k in enumerate(rows):
        for j, v in enumerate(k):
            r[i, j] = v
    return make(r, torch.int64)


@reg('sort', 'argsort')
def _sort(func, args, kwargs):
    d = kwargs.get('dim', args[1] if len(args) > 1 and isinstance(args[1], int) and not isinstance(args[1], bool) else -1)
    desc = kwargs.get('descending', False)
    if len(args) > 2:
        desc = args[2]
    a = get(args[0])
    mv = np.moveaxis(np.array(a, dtype=object, copy=True), d, -1)
    ixs = np.empty(mv.shape, dtype=object)
    vals = np.empty(mv.shape, dtype=object)
    import functools
    for k in np.ndindex(*mv.shape[:-1]):
        row = list(mv[k])

        def less(i, j):
            return -1 if bool(_cmp(row[i], row[j], '>' if desc else '<')) else 1
        order = sorted(range(len(row)), key=functools.cmp_to_key(less))
        for p, i in enumerate(order):
            ixs[k + (p,)] = i
            vals[k + (p,)] = row[i]
    vals, ixs = np.moveaxis(vals, -1, d), np.moveaxis(ixs, -1, d)
    if opname(func) == 'argsort':
        return make(ixs, torch.int64)
    return make(vals, args[0].dtype), make(ixs, torch.int64)


@reg('_local_scalar_dense')
def _lsd(func, args, kwargs):
    v = get(args[0]).reshape(-1)[0]
    if isinstance(v, Sym):
        c = v.const()
        if c is None:
            raise Unsupported('symbolic value read from C++')
        return float(c)
    if isinstance(v, SymBool):
        return bool(v)
    return v


@reg('equal')
def _equal(func, args, kwargs):
    a, b = get(args[0]), get(args[1])
    if a.shape != b.shape:
        return False
    acc = True
    for k in np.ndindex(*a.shape):
        acc = acc & _cmp(a[k], b[k], '==')
    return bool(acc)


@reg('is_same_size')
def _iss(func, args, kwargs):
    return tuple(args[0].size()) == tuple(args[1].size())


@reg('record_stream', 'is_pinned')
def _noop(func, args, kwargs):
    return None if opname(func) == 'record_stream' else False


@reg('random', 'uniform', 'normal', 'rand', 'randn', 'rand_like', 'randn_like', 'bernoulli')
def _rand(func, args, kwargs):
    m = run_meta(func, args, kwargs)
    o = np.empty(tuple(m.size()), dtype=object)
    for k in np.ndindex(*o.shape):
        o[k] = uninit()
    return make(o, m.dtype)


@reg('tanh', 'exp', 'log', 'sigmoid', 'floor', 'ceil', 'round', 'trunc', 'remainder', 'fmod')
def _transc(func, args, kwargs):
    """only on constants"""
    xs = [float(Sym.lift(v)) for v in get(args[0]).reshape(-1)]
    with _disable_current_modes():
        t = torch.tensor(xs, dtype=torch.double).reshape(tuple(args[0].size()))
        rest = [float(Sym.lift(get(a).reshape(-1)[0])) if isinstance(a, torch.Tensor) else a for a in args[1:]]
        r = getattr(torch, opname(func))(t, *rest)
    return make(get(r), args[0].dtype)


@reg('_linalg_check_errors')
def _lce(func, args, kwargs):
    return None
