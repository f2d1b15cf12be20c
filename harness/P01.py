from sv.prop import Prop
from .lib import *

PI = 3.14159265358980

P = Prop('P01', bounds='all real angles (cos/sin pairs on the unit circle), all six rotation orders; angle recovery for |phi| < pi/2',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'cos/sin of an angle are any pair on the unit circle'],
         outside='gimbal lock (|phi| = pi/2), rounding error')


@P.case(quick=ORDERS)
def product(cx):
    pu = cx.mod('resippy.utils.photogrammetry_utils')
    r, p, y = cx.angle('omega'), cx.angle('phi'), cx.angle('kappa')
    m = pu.create_M_matrix(r, p, y, order=cx.p) if cx.p != 'rpy' else pu.create_M_matrix(r, p, y)
    cx.eq(m, rotation(cx, cx.p, r, p, y), 'product of axis rotations')
    cx.eq(m @ m.T, ID3, 'orthonormal')
    cx.eq(det3(rows(m)), 1.0, 'right handed')


def recover_on(cx, r, p, y):
    pu = cx.mod('resippy.utils.photogrammetry_utils')
    m = pu.create_M_matrix(r, p, y)
    r2, p2, y2 = pu.solve_for_omega_phi_kappa(m)
    cx.angle_eq(r2, r, 'omega recovered')
    cx.angle_eq(p2, p, 'phi recovered')
    cx.angle_eq(y2, y, 'kappa recovered')
    for v in (r2, p2, y2):
        cx.true(cx.And(v >= -PI, v <= PI), 'within half a turn, as the angles given')


@P.case()
def recover(cx):
    p = cx.angle('phi', within=1.5)
    recover_on(cx, cx.angle('omega'), p, cx.angle('kappa'))


@P.case(quick=[(0, 0), (1, 0), (0, 1)], strict=True)
def recover_axis(cx):
    """rotations with one or two angles exactly zero (attitudes such as level flight)"""
    a, b = cx.p
    p = cx.angle('phi', within=1.5)
    recover_on(cx, cx.angle('omega') if a else 0.0, p, cx.angle('kappa') if b else 0.0)


@P.case()
def boresight(cx):
    pu = cx.mod('resippy.utils.photogrammetry_utils')
    rough = cx.array('rough', (3, 3), nice=(-4, 4))
    cx.assume(det3(rows(rough)) != 0)
    ideal = cx.array('ideal', (3, 3), nice=(-4, 4))
    off = pu.solve_for_boresight_angle_offsets(rough, ideal)
    cx.eq(mul(rows(rough), rows(off)), ideal, 'rough orientation times offset gives the ideal orientation')
