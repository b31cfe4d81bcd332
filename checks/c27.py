"""C27 planar vector utilities"""
from vlib.engine import Case
from .common import *

BOUNDS = 'all real 2-vectors (non-zero for the polar form), all angles, radius >= 0; no loops'
OUTSIDE = 'float rounding; the polar form of the zero vector (angle undefined) beyond its radius'


def polar(H):
    u = H.R.utils
    x, y = H.real('x'), H.real('y')
    v = H.tensor([x, y])
    H.assume(H.either(x != 0, y != 0))
    pos = H.choose(2, 'positive') == 0
    r, th = u.cart_to_polar(v) if pos else u.cart_to_polar(v, positive=False)
    H.eq('r is the length', num(H, r) * num(H, r), x * x + y * y)
    H.ge('r >= 0', r, 0)
    t = num(H, th)
    if pos:
        H.true('angle >= 0', t >= 0)
        H.lt('angle < 2 pi', t, 2 * H.pi)
        if H.branch(H.both(H.is_eq(y, 0), x > 0)):
            H.eq('no angle on the axis', t, 0)
            H.cover('axis')
        H.cover('positive')
    else:
        H.ge('angle > -pi', t, -H.pi)
        H.le('angle <= pi', t, H.pi)
        H.cover('signed')
    H.eq('direction', [num(H, r) * H.cos(t), num(H, r) * H.sin(t)], [x, y])
    H.eq('round trip', u.polar_to_cart(r, th), [x, y])


def polar_back(H):
    u = H.R.utils
    r, t = H.real('r', 0), H.angle('t')
    c = u.polar_to_cart(H.tensor(r), H.tensor(t))
    H.true('a plane vector', tuple(c.shape) == (2,))
    H.eq('components', c, [r * H.cos(t), r * H.sin(t)])
    r2, t2 = u.cart_to_polar(c)
    H.eq('length kept', r2, r)
    if H.branch(r > 0):
        H.cover('nonzero')
        H.eq('same direction', [H.cos(num(H, t2)), H.sin(num(H, t2))], [H.cos(t), H.sin(t)])


def zero(H):
    u = H.R.utils
    r, th = u.cart_to_polar(H.tensor([0.0, 0.0]))
    a = H.angle('a')
    H.eq('zero length', r, 0)
    H.eq('any turn of the zero vector is zero', u.polar_to_cart(r, th + H.tensor(a)), [0, 0])


def ortho(H):
    u = H.R.utils
    a, b = H.reals('a', 2), H.reals('b', 2)
    ta, tb = H.tensor(a), H.tensor(b)
    H.eq('cross', u.cross_2d(ta, tb), cross(a, b))
    l = vec(H, u.left_orthogonal(ta))
    H.eq('perpendicular', dot(l, a), 0)
    H.eq('same length', dot(l, l), dot(a, a))
    H.eq('fixed turn direction', cross(l, a), dot(a, a))
    H.eq('operands untouched', vec(H, ta) + vec(H, tb), a + b)


def rotm(H):
    u = H.R.utils
    t, q = H.angle('t'), H.angle('q')
    x = H.reals('x', 2)
    M = u.rotation_matrix(H.tensor(t))
    H.true('2x2', tuple(M.shape) == (2, 2))
    H.eq('rotates counter-clockwise by its angle', M.matmul(H.tensor(x)), rot(H, t, x))
    N = u.rotation_matrix(H.tensor(q))
    H.eq('angles add', M.matmul(N), u.rotation_matrix(H.tensor(t + q)))
    m = vec(H, M)
    H.eq('determinant', m[0] * m[3] - m[1] * m[2], 1)


def wrap(H):
    u = H.R.utils
    x = H.reals('x', 3)
    t = u.get_tensor(x)
    H.true('default type', t.dtype == H.torch.double)
    H.eq('values kept', t, x)
    H.true('tensors pass through', u.get_tensor(t) is t and u.get_tensor(t, t) is t)
    b = H.torch.zeros(1, dtype=H.torch.double)
    s = H.real('s')
    H.eq('scalar kept', u.get_tensor(s, base_tensor=b), s)
    H.true('base type', u.get_tensor(s, base_tensor=b).dtype == b.dtype)


def cases(tier):
    return [Case('cartesian-polar-cartesian', polar, ['positive', 'signed', 'axis']),
            Case('polar-cartesian-polar', polar_back, ['nonzero']),
            Case('zero-vector', zero), Case('cross-orthogonal', ortho), Case('rotation', rotm),
            Case('wrap', wrap)]
