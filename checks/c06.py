"""C06 external forces"""
from vlib.engine import Case
from .common import *
from .c03 import quiet

BOUNDS = ('all masses, gravities, multipliers and times; bodies with 0 to 3 attached forces in any order; every sequence of three '
          'evaluations at arbitrary times; worlds of 2 bodies')
OUTSIDE = 'one force object attached to several bodies; more than 3 forces on one body; user-defined force functions'


def unit(H, name, t):
    if name == 'down_force':
        return [0, 0, 1]
    if H.branch(t < F(1, 10) if H.symbolic else t < 0.1):
        return {'vert_impulse': [0, 0, 1], 'hor_impulse': [0, 1, 0], 'rot_impulse': [1, 0, 0]}[name]
    return [0, 0, 0]


NAMES = ['down_force', 'vert_impulse', 'hor_impulse', 'rot_impulse']


def profile(H):
    Fo, B = H.R.forces, H.R.bodies
    name = NAMES[H.choose(4, 'force')]
    mult = H.real('mult')
    asten = H.choose(2, 'tensor')
    b = B.Circle(H.reals('c', 2), H.pos('r'), mass=H.pos('m'))
    H.eq('no force yet', b.apply_forces(H.real('t')), [0, 0, 0])
    b.add_force(Fo.ExternalForce(getattr(Fo, name), H.tensor(mult) if asten else mult))
    ts = [H.real('t'), H.real('t2'), H.real('t')]
    for k, t in enumerate(ts):
        f = b.apply_forces(t)
        H.eq('%s evaluation %d' % (name, k), f, scale(unit(H, name, t), mult))
    H.true('attached to its body', b.forces[0].body is b)
    H.cover(name)


def default_mult(H):
    Fo, B = H.R.forces, H.R.bodies
    b = B.Circle([0, 0], 1)
    b.add_force(Fo.ExternalForce())
    H.eq('defaults', b.apply_forces(H.real('t')), [0, 0, 100])


def gravity(H):
    Fo, B = H.R.forces, H.R.bodies
    g, m = H.real('g'), H.pos('m')
    form = H.choose(3, 'form')
    if form == 0:
        b = B.Circle([0, 0], H.pos('r'), mass=m)
    elif form == 1:
        b = B.Rect(H.tensor([1., 2.]), [1, 2], mass=H.tensor(m))
    else:
        b = B.Hull([0, 0], [[1, 0], [0, 1], [-1, -1]], mass=m)
    gr = Fo.Gravity(g)
    b.add_force(gr)
    for t in (H.real('t'), H.real('u'), H.real('t')):
        H.eq('weight', b.apply_forces(t), [0, 0, m * g])
    b2 = B.Circle([5, 5], 1, mass=m)
    b2.add_force(Fo.Gravity())
    H.eq('default gravity', b2.apply_forces(H.real('t')), [0, 0, 10 * m])
    H.eq('first body unaffected', b.apply_forces(H.real('u')), [0, 0, m * g])


def twice(H):
    """a force attached twice acts twice"""
    Fo, B = H.R.forces, H.R.bodies
    m, g, k = H.pos('m'), H.real('g'), H.real('k')
    b = B.Circle([0, 0], 1, mass=m)
    if H.choose(2, 'kind'):
        f, v = Fo.Gravity(g), m * g
    else:
        f, v = Fo.ExternalForce(Fo.down_force, k), k
    b.add_force(f)
    b.add_force(f)
    H.eq('twice', b.apply_forces(H.real('t')), [0, 0, 2 * v])
    H.cover('twice')


def total(H):
    Fo, B = H.R.forces, H.R.bodies
    m, g, k1, k2 = H.pos('m'), H.real('g'), H.real('k1'), H.real('k2')
    n = H.choose(3, 'count') + 1
    b = B.Circle([0, 0], 1, mass=m)
    mk = [lambda: Fo.Gravity(g), lambda: Fo.ExternalForce(Fo.hor_impulse, k1), lambda: Fo.ExternalForce(Fo.rot_impulse, k2)]
    val = [lambda t: [0, 0, m * g], lambda t: scale(unit(H, 'hor_impulse', t), k1), lambda t: scale(unit(H, 'rot_impulse', t), k2)]
    order = list(range(3))
    first = H.choose(3, 'first')
    order = order[first:] + order[:first]
    if H.choose(2, 'flip'):
        order.reverse()
    use = order[:n]
    for i in use:
        b.add_force(mk[i]())
    for t in (H.real('t'), H.real('u'), H.real('t')):
        want = [0, 0, 0]
        for i in use:
            want = add(want, val[i](t))
        H.eq('sum of forces', b.apply_forces(t), want)
    H.cover('n%d' % n)


def world_forces(H):
    Fo, B = H.R.forces, H.R.bodies
    m, g, k = H.pos('m'), H.real('g'), H.real('k')
    b1, b2, b3 = B.Circle([0, 0], 1, mass=m), B.Rect([10, 0], [1, 2], mass=2), B.Circle([20, 0], 1)
    b1.add_force(Fo.Gravity(g))
    b2.add_force(Fo.ExternalForce(Fo.vert_impulse, k))
    b2.add_force(Fo.Gravity(g))
    w = world(H, [b1, b2, b3], contact_callback=quiet(H))
    for t in (H.real('t'), H.real('u')):
        H.eq('stacked in body order', w.apply_forces(t),
             [0, 0, m * g] + add(scale(unit(H, 'vert_impulse', t), k), [0, 0, 2 * g]) + [0, 0, 0])
    b3.add_force(Fo.ExternalForce(Fo.rot_impulse, k))
    t = H.real('t')
    H.eq('late attachment', w.apply_forces(t)[6:], scale(unit(H, 'rot_impulse', t), k))
    H.eq('others the same', w.apply_forces(t)[:3], [0, 0, m * g])


def cases(tier):
    return [Case('profile', profile, NAMES), Case('default', default_mult), Case('gravity', gravity),
            Case('twice', twice, ['twice']), Case('total', total, ['n1', 'n2', 'n3']), Case('world', world_forces, fake_ode=True)]
