import itertools
from sv.prop import Prop
from .lib import *

P = Prop('P02', bounds='all real positions, offsets and angles; six rotation orders; metre/millimetre/centimetre/kilometre/foot offsets, the same or different per axis, radian/degree angles; settings changed after earlier questions; arbitrary given matrices',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'unit factors are the ones pint reports'],
         outside='rounding error')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera'
LEN = {'meters': 1.0, 'cm': 0.01, 'km': 1000.0, 'feet': 0.3048, 'mm': 0.001}


@P.case(quick=[('rpy', 'radians', 'meters'), ('ypr', 'degrees', 'cm'), ('pry', 'degrees', 'feet')],
        thorough=[(o, u, l) for o in ORDERS for u in ('radians', 'degrees') for l in LEN])
def position(cx):
    order, au, lu = cx.p
    F = cx.mod(MOD).FixturedCamera()
    unit = 'rad' if au == 'radians' else 'deg'
    r, p, y = [cx.angle(n, unit) for n in ('roll', 'pitch', 'yaw')]
    fx = [cx.real(n, nice=(-8, 8)) for n in 'XYZ']
    rel = [cx.real('r' + n, nice=(-8, 8)) for n in 'xyz']
    F.set_fixture_xyz(*fx)
    F.set_fixture_orientation_by_roll_pitch_yaw(r, p, y, roll_units=au, pitch_units=au, yaw_units=au, order=order)
    F.set_relative_camera_xyz(*rel, x_units=lu, y_units=lu, z_units=lu)
    k = LEN[lu]
    m = rotation(cx, order, r if unit == 'rad' else Deg(cx, r), p if unit == 'rad' else Deg(cx, p), y if unit == 'rad' else Deg(cx, y))
    cx.eq(F.fixture_M, m, 'fixture orientation')
    absx = F.get_camera_absolute_xyz()
    d = [a - b for a, b in zip(absx, fx)]
    cx.eq(vec(m, d), [k * x for x in rel], 'offset seen from the fixture frame is the mounting offset')
    cx.eq(F.get_fixture_xyz(), fx, 'fixture position')
    cx.eq(sum0([x * x for x in d]), sum0([k * k * x * x for x in rel]), 'lever arm length preserved')


def Deg(cx, a):
    return a * 0.017453292519943295


@P.case(quick=[(o, u) for o, u in zip(ORDERS, ('radians', 'degrees') * 3)], thorough=[(o, u) for o in ORDERS for u in ('radians', 'degrees')])
def boresight(cx):
    order, au = cx.p
    F = cx.mod(MOD).FixturedCamera()
    unit = 'rad' if au == 'radians' else 'deg'
    f = (lambda a: a) if unit == 'rad' else (lambda a: Deg(cx, a))
    a = [cx.angle(n, unit) for n in ('roll', 'pitch', 'yaw')]
    b = [cx.angle(n, unit) for n in ('rel_roll', 'rel_pitch', 'rel_yaw')]
    F.set_fixture_orientation_by_roll_pitch_yaw(*a, roll_units=au, pitch_units=au, yaw_units=au, order=order)
    F.set_boresight_matrix_from_camera_relative_rpy_params(*b, roll_units=au, pitch_units=au, yaw_units=au, order=order)
    ma = rotation(cx, order, *[f(x) for x in a])
    mb = rotation(cx, order, *[f(x) for x in b])
    cx.eq(F.boresight_matrix, mb, 'boresight rotation')
    M = F.get_camera_absolute_M_matrix()
    cx.eq(M, mul(mb, ma), 'camera orientation composes boresight after fixture')


@P.case(quick=[('cm', 'meters', 'feet'), ('feet', 'mm', 'cm'), ('meters', 'km', 'mm'), ('km', 'feet', 'meters')],
        thorough=[t for t in itertools.product(LEN, repeat=3)])
def mixed_units(cx):
    """each axis has its own unit"""
    u = cx.p
    F = cx.mod(MOD).FixturedCamera()
    r, p, y = cx.angle('roll', 'deg'), cx.angle('pitch', 'rad'), cx.angle('yaw', 'deg')
    F.set_fixture_orientation_by_roll_pitch_yaw(r, p, y, roll_units='degrees', pitch_units='radians', yaw_units='degrees')
    cx.eq(F.fixture_M, rotation(cx, 'rpy', Deg(cx, r), p, Deg(cx, y)), 'fixture orientation')
    F.set_boresight_matrix_from_camera_relative_rpy_params(p, y, r, roll_units='radians', pitch_units='degrees', yaw_units='degrees')
    cx.eq(F.boresight_matrix, rotation(cx, 'rpy', p, Deg(cx, y), Deg(cx, r)), 'boresight rotation')
    a = [cx.real('r' + n, nice=(-8, 8)) for n in 'xyz']
    F.set_relative_camera_xyz(*a, x_units=u[0], y_units=u[1], z_units=u[2])
    F.set_fixture_xyz(0.0, 0.0, 0.0)
    F.set_fixture_orientation(cx.arr(ID3, dtype='float64'))
    cx.eq(F.get_camera_absolute_xyz(), [v * LEN[k] for v, k in zip(a, u)], 'offset in metres per axis')


@P.case()
def defaults(cx):
    """radians, metres and the standard order unless told otherwise; stored positions read back"""
    F = cx.mod(MOD).FixturedCamera()
    a = [cx.angle(n) for n in ('roll', 'pitch', 'yaw')]
    b = [cx.angle(n) for n in ('rel_roll', 'rel_pitch', 'rel_yaw')]
    X = [cx.real(n, nice=(-8, 8)) for n in 'XYZ']
    rel = [cx.real('r' + n, nice=(-8, 8)) for n in 'xyz']
    F.set_relative_camera_xyz(*rel)
    F.set_boresight_matrix_from_camera_relative_rpy_params(*b)
    F.set_fixture_xyz(*X)
    F.set_fixture_orientation_by_roll_pitch_yaw(*a)
    ma, mb = rotation(cx, 'rpy', *a), rotation(cx, 'rpy', *b)
    cx.eq(F.fixture_M, ma, 'fixture orientation in radians')
    cx.eq(F.boresight_matrix, mb, 'boresight rotation in radians')
    cx.eq(F.get_fixture_xyz(), X, 'fixture position')
    cx.eq(vec(ma, [p - q for p, q in zip(F.get_camera_absolute_xyz(), X)]), rel, 'offset in metres')
    m2 = [cx.array(n, (3, 3), nice=(-2, 2)) for n in ('m1_', 'm2_')]
    F.set_boresight_matrix(m2[0])
    F.set_fixture_orientation(m2[1])
    cx.eq(F.get_camera_absolute_M_matrix(), mul(rows(m2[0]), rows(m2[1])), 'given matrices composed')


@P.case(quick=[('query', 'rpy', 'ypr'), ('keep', 'rpy', 'rpy')])
def again(cx):
    """every setting counts from the moment it is given, whatever was set or asked before; given matrices stay as given"""
    how, o1, o2 = cx.p
    F = cx.mod(MOD).FixturedCamera()
    X, rel = [cx.real(n, nice=(-8, 8)) for n in 'XYZ'], [cx.real('r' + n, nice=(-8, 8)) for n in 'xyz']
    m = [cx.array('m%d_' % i, (3, 3), nice=(-2, 2)) for i in range(3)]
    b = [cx.array('b%d_' % i, (3, 3), nice=(-2, 2)) for i in range(2)]
    F.set_fixture_xyz(*X)
    F.set_relative_camera_xyz(*rel)
    F.set_fixture_orientation(m[0])
    F.set_boresight_matrix(b[0])
    if how == 'query':
        cx.eq(F.get_camera_absolute_M_matrix(), mul(rows(b[0]), rows(m[0])), 'first orientation')
        F.get_camera_absolute_xyz()
    F.set_fixture_orientation(m[1])
    cx.eq(F.get_camera_absolute_M_matrix(), mul(rows(b[0]), rows(m[1])), 'the fixture turned')
    F.set_boresight_matrix(b[1])
    cx.eq(F.get_camera_absolute_M_matrix(), mul(rows(b[1]), rows(m[1])), 'the camera turned')
    a = [cx.angle(n) for n in ('roll', 'pitch', 'yaw')]
    F.set_fixture_orientation_by_roll_pitch_yaw(*a, order=o2)
    R = rotation(cx, o2, *a)
    cx.eq(F.get_camera_absolute_M_matrix(), mul(rows(b[1]), R), 'the fixture turned by angles')
    cx.eq(vec(R, [p - q for p, q in zip(F.get_camera_absolute_xyz(), X)]), rel, 'offset after the turn')
    Y, rel2 = [cx.real('second' + n, nice=(-8, 8)) for n in 'XYZ'], [cx.real('second' + n, nice=(-8, 8)) for n in 'xyz']
    F.set_fixture_xyz(*Y)
    cx.eq(F.get_fixture_xyz(), Y, 'the fixture moved')
    cx.eq(vec(R, [p - q for p, q in zip(F.get_camera_absolute_xyz(), Y)]), rel, 'offset after the move')
    F.set_relative_camera_xyz(*rel2)
    cx.eq(vec(R, [p - q for p, q in zip(F.get_camera_absolute_xyz(), Y)]), rel2, 'the camera mounted elsewhere')
