from sv.prop import Prop
from .lib import *

P = Prop('P03', bounds='all real camera positions, angles, focal lengths > 0 and world points (not in the lens plane); metre/feet/km and rad/deg and mm/cm/m units; scalar and 1-D/2-D arrays of points; a second pose after the first',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'unit factors are the ones pint reports'],
         outside='points exactly in the lens plane, rounding error')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera'
LEN = {'meters': 1.0, 'feet': 0.3048, 'km': 1000.0, 'mm': 0.001, 'cm': 0.01}
D2R = 0.017453292519943295


def camera(cx, lu='meters', au='radians', fu='mm', default=False):
    c = cx.mod(MOD).PinholeCamera()
    unit = 'rad' if au == 'radians' else 'deg'
    X = [cx.real(n, nice=(-8, 8)) for n in 'XYZ']
    a = [cx.angle(n, unit) for n in ('omega', 'phi', 'kappa')]
    f = cx.real('f', 0.001, nice=(1, 50))
    if default:
        c.init_pinhole_from_coeffs(*X, *a, f)
    else:
        c.init_pinhole_from_coeffs(*X, *a, f, x_units=lu, y_units=lu, z_units=lu, omega_units=au, phi_units=au, kappa_units=au, focal_length_units=fu)
    Xm = [LEN[lu] * x for x in X]
    ar = [x if unit == 'rad' else x * D2R for x in a]
    return c, Xm, rotation(cx, 'rpy', *ar), LEN[fu] * f


@P.case(quick=[('meters', 'radians', 'mm', True), ('feet', 'degrees', 'cm', False), ('km', 'degrees', 'meters', False)])
def collinear(cx):
    """a world point on the ray through image point (u, v) images to (u, v), at any distance along the ray"""
    lu, au, fu, default = cx.p
    c, X, m, f = camera(cx, lu, au, fu, default)
    u, v = cx.real('u', nice=(-1, 1)), cx.real('v', nice=(-1, 1))
    t = cx.real('t', nice=(-400, 400))
    cx.assume(cx.Or(t >= 0.5, t <= -0.5))
    d = vec(tr(m), [u * t, v * t, -1 * f * t])
    x, y = c.world_to_image_plane(X[0] + d[0], X[1] + d[1], X[2] + d[2])
    cx.eq([x, y], [u, v], 'ray point images to its image point')


@P.case()
def again(cx):
    """a camera set up a second time has its new pose only"""
    c, X0, m0, f0 = camera(cx)
    X = [cx.real('new' + n, nice=(-8, 8)) for n in 'XYZ']
    a = [cx.angle('new' + n, 'rad') for n in ('omega', 'phi', 'kappa')]
    f = cx.real('newf', 0.001, nice=(1, 50))
    c.init_pinhole_from_coeffs(*X, *a, f, x_units='feet')
    m = rotation(cx, 'rpy', *a)
    u, v, t = cx.real('u', nice=(-1, 1)), cx.real('v', nice=(-1, 1)), cx.real('t', 0.5, nice=(1, 400))
    d = vec(tr(m), [u * t, v * t, -1 * f * 0.001 * t])
    x, y = c.world_to_image_plane(X[0] * 0.3048 + d[0], X[1] + d[1], X[2] + d[2])
    cx.eq([x, y], [u, v], 'ray point images to its image point')


@P.case(quick=[(2,), (1, 2)], thorough=[(3,), (2, 2), (1, 3)])
def elementwise(cx):
    c, X, m, f = camera(cx, default=True)
    shape = cx.p
    w = [cx.array('w' + n, shape, nice=(-8, 8)) for n in 'xyz']
    import numpy as np
    exp_x, exp_y = [], []
    for i in np.ndindex(*shape):
        d = vec(m, [w[k][i] - X[k] for k in range(3)])
        cx.assume(cx.Or(d[2] >= 0.0625, d[2] <= -0.0625))
        exp_x.append(-1 * f * d[0] / d[2])
        exp_y.append(-1 * f * d[1] / d[2])
    x, y = c.world_to_image_plane(*w)
    cx.true(tuple(x.shape) == shape and tuple(y.shape) == shape, 'shape kept')
    cx.eq(x.reshape(-1), exp_x, 'x follows the collinearity equation')
    cx.eq(y.reshape(-1), exp_y, 'y follows the collinearity equation')


@P.case()
def mixed_units(cx):
    c = cx.mod(MOD).PinholeCamera()
    X = [cx.real(n, nice=(-8, 8)) for n in 'XYZ']
    a = [cx.angle('omega', 'deg'), cx.angle('phi', 'rad'), cx.angle('kappa', 'deg')]
    f = cx.real('f', 0.001, nice=(1, 50))
    c.init_pinhole_from_coeffs(*X, *a, f, x_units='feet', y_units='km', z_units='meters', omega_units='degrees',
                               phi_units='radians', kappa_units='degrees', focal_length_units='cm')
    m = rotation(cx, 'rpy', a[0] * D2R, a[1], a[2] * D2R)
    u, v = cx.real('u', nice=(-1, 1)), cx.real('v', nice=(-1, 1))
    t = cx.real('t', nice=(-400, 400))
    cx.assume(cx.Or(t >= 0.5, t <= -0.5))
    d = vec(tr(m), [u * t, v * t, -0.01 * f * t])
    x, y = c.world_to_image_plane(X[0] * 0.3048 + d[0], X[1] * 1000.0 + d[1], X[2] + d[2])
    cx.eq([x, y], [u, v], 'ray point images to its image point')
