from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P07', bounds='all real intrinsics, distortion coefficients, poses, mounting offsets and angles and ground points (scalar, 1-D of 2, 2-D 1x2) with depth at least 1/16 in magnitude; pose/offsets/intrinsics supplied in every order; a second pose, mount or lens after a first one was used; two cameras side by side',
         assumptions=['float64 rounding is modelled as exact real arithmetic', 'sine and cosine are an arbitrary point of the unit circle'],
         outside='points in the lens plane, rounding error')
MOD = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc'
INT = ['fx_pixels', 'fy_pixels', 'cx_pixels', 'cy_pixels', 'k1', 'k2', 'k3', 'p1', 'p2', 'pixel_pitch_microns']
OFF = ['x_offset_meters', 'y_offset_meters', 'z_offset_meters', 'omega_offset_radians', 'phi_offset_radians', 'kappa_offset_radians']


def brown(cx, i, c):
    cx.assume(cx.Or(c[2] >= 0.0625, c[2] <= -0.0625))
    x, y = c[0] / c[2], c[1] / c[2]
    r2 = x * x + y * y
    rad = 1 + i['k1'] * r2 + i['k2'] * r2 * r2 + i['k3'] * r2 * r2 * r2
    xd = x * rad + 2 * i['p1'] * x * y + i['p2'] * (r2 + 2 * x * x)
    yd = y * rad + i['p1'] * (r2 + 2 * y * y) + 2 * i['p2'] * x * y
    return i['fx_pixels'] * xd + i['cx_pixels'], i['cy_pixels'] - i['fy_pixels'] * yd


def inputs(cx):
    i = {n: cx.real(n, nice=(-0.5, 0.5) if n[0] in 'kp' else (1, 64)) for n in INT}
    o = {n: (cx.real(n, nice=(-1, 1)) if 'meters' in n else cx.angle(n, 'rad')) for n in OFF}
    pose = [cx.real(n, nice=(-8, 8)) for n in ('px', 'py', 'pz')] + [cx.angle(n, 'rad') for n in ('omega', 'phi', 'kappa')]
    return i, o, pose


@P.case(quick=[('params', 1), ('params', 2), ('direct', 1), ('direct', 2), ('moved', 1)])
def mount(cx):
    """the camera sits at the mounted position with the mounted orientation, whatever the order of the calls"""
    how, order = cx.p
    fakes.use_pyproj(cx)
    i, o, pose = inputs(cx)
    cls = cx.mod(MOD).OpenCVPointCalc
    offs = [o[n] for n in OFF]
    if how == 'params':
        calc = cls.init_from_params({**i, **o})
        if order == 2:
            calc.init_offsets(*[v * 2 for v in offs[:3]], *offs[3:][::-1])
            calc.init_offsets(*offs)
        calc.init_extrinsic(*pose)
    else:
        calc = cls()
        if order == 1:
            calc.init_extrinsic(*pose)
            calc.init_offsets(*offs)
        else:
            calc.init_offsets(*offs)
            calc.init_extrinsic(*pose)
        if how == 'moved':
            pose = [cx.real('second_' + n, nice=(-8, 8)) for n in 'xyz'] + pose[3:][::-1]
            calc.init_extrinsic(*pose)
        calc.init_intrinsic(*[i[n] for n in INT])
    if getattr(calc, '_fixture', None) is None:
        cx.true(True, 'mount not visible')     # the mapping itself is judged by the other cases
        return
    M = rotation(cx, 'rpy', *pose[3:])
    B = rotation(cx, 'rpy', *offs[3:])
    cx.eq(calc._fixture.get_camera_absolute_M_matrix(), mul(B, M), 'orientation')
    cx.eq(calc._fixture.get_camera_absolute_xyz(), [pose[k] + vec(tr(M), offs[:3])[k] for k in range(3)], 'position')


@P.case(quick=['s', (2,), (1, 2)])
def model(cx):
    """Brown model in the frame of an arbitrary mounted camera"""
    import numpy as np
    fakes.use_pyproj(cx)
    i = {n: cx.real(n, nice=(-0.5, 0.5) if n[0] in 'kp' else (1, 64)) for n in INT}
    cls = cx.mod(MOD).OpenCVPointCalc
    R = cx.array('R', (3, 3), nice=(-1, 1))
    T = [cx.real('T%d' % k, nice=(-4, 4)) for k in range(3)]
    calc = cls.init_from_params({**i, **{n: 0.0 for n in OFF}})
    if getattr(calc, '_fixture', None) is None:
        a = [cx.angle(n, 'rad') for n in ('omega', 'phi', 'kappa')]
        calc.init_extrinsic(*T, *a)
        R = cx.arr(rotation(cx, 'rpy', *a), dtype='float64')
    else:
        calc._fixture.set_fixture_xyz(*T)
        calc._fixture.set_fixture_orientation(R)
    if cx.p == 's':
        w = [cx.real(n, nice=(-8, 8)) for n in ('lon', 'lat', 'alt')]
        exp = [brown(cx, i, vec(rows(R), [w[k] - T[k] for k in range(3)]))]
        x, y = calc.lon_lat_alt_to_pixel_x_y(*w)
        cx.eq([x], [exp[0][0]], 'x pixel')
        cx.eq([y], [exp[0][1]], 'y pixel')
        return
    w = [cx.array(n, cx.p, nice=(-8, 8)) for n in ('lon', 'lat', 'alt')]
    exp = [brown(cx, i, vec(rows(R), [w[k][j] - T[k] for k in range(3)])) for j in np.ndindex(*cx.p)]
    x, y = calc.lon_lat_alt_to_pixel_x_y(*w)
    cx.true(tuple(x.shape) == cx.p and tuple(y.shape) == cx.p, 'shape kept')
    cx.eq(x.reshape(-1), [e[0] for e in exp], 'x pixels')
    cx.eq(y.reshape(-1), [e[1] for e in exp], 'y pixels')


@P.case(quick=[False, True])
def several(cx):
    """each camera keeps the pose and the mount it was given, however many others there are"""
    fakes.use_pyproj(cx)
    cls = cx.mod(MOD).OpenCVPointCalc
    ks = ('a', 'b')
    i = {k: {n: cx.real(n + k, nice=(-0.5, 0.5) if n[0] in 'kp' else (1, 64)) for n in INT} for k in ks}
    o = {k: {n: (cx.real(n + k, nice=(-1, 1)) if 'meters' in n else 0.0) for n in OFF} for k in ks}
    pose = {k: [cx.real(n + k, nice=(-8, 8)) for n in ('px', 'py', 'pz')] for k in ks}
    calc = {}
    for k in ks:
        calc[k] = cls.init_from_params({**i[k], **o[k]})
        if cx.p:
            calc[k].init_extrinsic(*pose[k], 0.0, 0.0, 0.0)
    if not cx.p:
        for k in ks:
            calc[k].init_extrinsic(*pose[k], 0.0, 0.0, 0.0)
    w = [cx.real(n, nice=(-8, 8)) for n in ('lon', 'lat', 'alt')]
    for k in ks:
        c = [w[j] - pose[k][j] - o[k][OFF[j]] for j in range(3)]
        e = brown(cx, i[k], c)
        cx.eq(list(calc[k].lon_lat_alt_to_pixel_x_y(*w)), list(e), 'pixel in the camera\'s own pose')


@P.case(quick=['query', 'offsets', 'intrinsic'])
def again(cx):
    """a later pose, mount or lens counts from the moment it is given, whatever was mapped before"""
    fakes.use_pyproj(cx)
    cls = cx.mod(MOD).OpenCVPointCalc
    i = {n: cx.real(n, nice=(-0.5, 0.5) if n[0] in 'kp' else (1, 64)) for n in INT}
    if cx.p != 'intrinsic':
        i = dict(i, k2=0.0, k3=0.0, p1=0.0)
    o = [cx.real(n, nice=(-1, 1)) for n in OFF[:3]] + [0.0, 0.0, cx.angle('mount', 'rad')]
    A = [cx.real('a' + n, nice=(-8, 8)) for n in 'xyz'] + [0.0, 0.0, cx.angle('kappa', 'rad')]
    B = [cx.real('b' + n, nice=(-8, 8)) for n in 'xyz'] + [cx.angle('second_omega', 'rad'), 0.0, 0.0]
    w = [cx.real(n, nice=(-8, 8)) for n in ('lon', 'lat', 'alt')]
    calc = cls.init_from_params({**i, **dict(zip(OFF, o))})

    def expect(pose, off, label):
        M, Bm = rotation(cx, 'rpy', *pose[3:]), rotation(cx, 'rpy', *off[3:])
        # seen from the fixture, the camera is displaced by the mounting offsets
        f = vec(M, [w[k] - pose[k] for k in range(3)])
        c = vec(Bm, [f[k] - off[k] for k in range(3)])
        cx.eq(list(calc.lon_lat_alt_to_pixel_x_y(*w)), list(brown(cx, i, c)), label)
    calc.init_extrinsic(*A)
    if cx.p == 'query':
        expect(A, o, 'first pose')
        calc.init_extrinsic(*B)
        expect(B, o, 'second pose')
    elif cx.p == 'offsets':
        o2 = [cx.real('second_' + n, nice=(-1, 1)) for n in OFF[:3]] + [0.0, cx.angle('second_mount', 'rad'), 0.0]
        calc.init_offsets(*o2)
        expect(A, o2, 'mounted otherwise')
        calc.init_extrinsic(*A[:3], *B[3:])
        expect(A[:3] + B[3:], o2, 'turned')
    else:
        expect(A, o, 'first lens')
        i = {n: cx.real('second_' + n, nice=(-0.5, 0.5) if n[0] in 'kp' else (1, 64)) for n in INT}
        calc.init_intrinsic(*[i[n] for n in INT])
        expect(A, o, 'second lens')
