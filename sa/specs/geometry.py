"""frames, projections and inverse pairs (C09 C19 C22 C27 C28 C30)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import translate
from raytools.mapper import Mapper, ViewMapper
from raytools.mapper.solidviewmapper import SolidViewMapper
from raytools.mapper.perspectiveviewmapper import PerspectiveViewMapper
from raytools.evaluate import PositionIndex
from raytools.evaluate import retina

N = 5
SINGLE = "N"
SEVERAL = ("C09_stack", "C09_rmtx",)
ANGLES = (35., 90., 150., 180.)


def basis(d):
    """rows: left, up, forward of a view with z-up"""
    l = np.cross(np.array((0., 0., 1.)), d)
    l = l / np.sqrt(np.sum(l * l))
    return l, np.cross(d, l)


def local(v, d):
    l, u = basis(d)
    return np.stack((v @ l, v @ u, v @ d)).T


# ------------------------------------------------------------------- C09 --
def C09_rotation(v=arr(N, 3), dxyz=unit(3), va=each(90., 180., 360.)):
    vm = ViewMapper(dxyz, va)
    EQ("world to view", vm.world2view(v), local(v, dxyz))
    EQ("view to world inverts", vm.view2world(vm.world2view(v)), v)
    EQ("world to view inverts", vm.world2view(vm.view2world(v)), v)


def C09_rotation_scaled(v=arr(N, 3), dxyz=unit(3), k=posnum(lo=.2, hi=5)):
    vm = ViewMapper(dxyz * k, 180)
    EQ("direction length is irrelevant", vm.world2view(v), local(v, dxyz))
    EQ("direction is normalised", vm.dxyz, dxyz)


def C09_degenerate(v=arr(N, 3)):
    up = ViewMapper((0, 0, 1), 180)
    dn = ViewMapper((0, 0, -1), 180)
    EQ("up", up.world2view(v), v)
    EQ("up back", up.view2world(v), v)
    EQ("down keeps z up front", dn.world2view(v)[:, 2], -v[:, 2])
    EQ("down back", dn.view2world(dn.world2view(v)), v)
    a, b = translate.rmtx_yp((0, 0, -1))
    EQ("half a turn about z", a, np.diag((-1., -1., 1.)))
    EQ("half a turn about x", b, np.diag((1., -1., -1.)))


def C09_opposite(v=arr(N, 3), dxyz=unit(3)):
    vm = ViewMapper(dxyz, 360)
    EQ("opposite view", vm.ivm.dxyz, -dxyz)
    EQ("opposite view rotation", vm.ivm.world2view(v), local(v, -dxyz))


def C09_theta(v=unit(N, 3), dxyz=unit(3), va=each(90., 180., 360.)):
    vm = ViewMapper(dxyz, va)
    EQ("ctheta", vm.ctheta(v), np.clip(v @ dxyz, -1, 1))
    EQ("radians", vm.radians(v), np.arccos(np.clip(v @ dxyz, -1, 1)))
    EQ("degrees", vm.degrees(v), np.arccos(np.clip(v @ dxyz, -1, 1)) * 180 / np.pi)
    EQ("in view", vm.in_view(v, indices=False),
       np.arccos(np.clip(v @ dxyz, -1, 1)) < 180 / 360 * np.pi * np.minimum(va, 180) / 180 * vm._chordfactor)


def C09_fisheye(v=unit(N, 3), dxyz=unit(3)):
    vm = ViewMapper(dxyz, 180)
    p = local(v, dxyz)
    th = np.arccos(np.clip(p[:, 2], -1, 1)) / np.pi
    s = np.sqrt(p[:, 0] ** 2 + p[:, 1] ** 2)
    EQ("image coordinates of a direction", vm.xyz2vxy(v),
       np.stack((.5 - p[:, 0] / s * th, .5 + p[:, 1] / s * th)).T)


def C09_fisheye_rays(xy=arr(N, 2, lo=.05, hi=.95), dxyz=unit(3)):
    vm = ViewMapper(dxyz, 180)
    l, u = basis(dxyz)
    q = xy - .5
    d = np.sqrt(np.sum(q * q, -1))
    s = np.sin(np.pi * d) / d
    ref = (np.stack((-q[:, 0] * s, q[:, 1] * s, np.cos(np.pi * d))).T) @ np.stack((l, u, dxyz))
    EQ("direction of image coordinates", vm.vxy2xyz(xy), ref)
    EQ("direction of a pixel", vm.pixel2ray(xy * 100, 100), ref)


def C09_centre(dxyz=unit(3), va=each(90., 180.), kind=each(0, 1)):
    if kind == 0:
        vm = ViewMapper(dxyz, va)
    else:
        vm = SolidViewMapper(dxyz, va)
    EQ("view direction at the centre", vm.xyz2vxy(np.stack((dxyz, dxyz))), np.full((2, 2), .5), atol=1e-7)
    EQ("centre looks along the view", vm.vxy2xyz(np.array(((.5, .5),))), dxyz[None], atol=1e-7)


def C09_frames(v=cone(N, 40), xy=arr(N, 2, lo=.3, hi=.7), dxyz=unit(3), va=each(*ANGLES), kind=each(0, 1)):
    """every conversion equals its z-view conversion plus exactly one rotation"""
    if kind == 0:
        vm = ViewMapper(dxyz, va)
        vz = ViewMapper((0, 0, 1), va)
    else:
        vm = SolidViewMapper(dxyz, va)
        vz = SolidViewMapper((0, 0, 1), va)
    w = vm.view2world(v)
    EQ("vxy2xyz", vm.vxy2xyz(xy), vm.view2world(vz.vxy2xyz(xy)))
    EQ("xyz2vxy", vm.xyz2vxy(w), vz.xyz2vxy(v))
    EQ("uv2xyz", vm.uv2xyz(xy), vm.view2world(vz.uv2xyz(xy)))
    EQ("xyz2uv", vm.xyz2uv(w), vz.xyz2uv(v))
    EQ("pixel2ray", vm.pixel2ray(xy * 64, 64), vm.view2world(vz.pixel2ray(xy * 64, 64)))
    EQ("ray2pixel", vm.ray2pixel(w, 64, integer=False), vz.ray2pixel(v, 64, integer=False))
    EQ("ray2pixel cells", vm.ray2pixel(w, 64), np.floor(vz.ray2pixel(v, 64, integer=False)))
    EQ("solid_vxy2xyz", vm.solid_vxy2xyz(xy), vm.view2world(vz.solid_vxy2xyz(xy)))
    EQ("solid_xyz2vxy", vm.solid_xyz2vxy(w), vz.solid_xyz2vxy(v))
    EQ("pixel2omega", vm.pixel2omega(xy * 64, 64), vz.pixel2omega(xy * 64, 64), rtol=1e-6)


def C09_frames360(v=unit(N, 3), xy=arr(N, 2, lo=.3, hi=.7), dxyz=unit(3)):
    vm = ViewMapper(dxyz, 360)
    EQ("uv2xyz", vm.uv2xyz(xy * np.array((2., 1.))),
       vm.view2world(translate.uv2xyz(xy * np.array((2., 1.)), xsign=-1)))
    EQ("xyz2uv", vm.xyz2uv(v), translate.xyz2uv(local(v, dxyz), flipu=True))
    p = local(v, dxyz)
    b = local(v, -dxyz)
    f = p[:, 2] > 0
    th = np.arccos(np.clip(p[:, 2], -1, 1)) / np.pi
    tb = np.arccos(np.clip(b[:, 2], -1, 1)) / np.pi
    s = np.sqrt(p[:, 0] ** 2 + p[:, 1] ** 2)
    t = np.sqrt(b[:, 0] ** 2 + b[:, 1] ** 2)
    EQ("front half keeps its place, back half is drawn right of it", vm.xyz2vxy(v),
       np.stack((np.where(f, .5 - p[:, 0] / s * th, 1.5 - b[:, 0] / t * tb),
                 np.where(f, .5 + p[:, 1] / s * th, .5 + b[:, 1] / t * tb))).T)


def C09_stack(xy=arr(N, 2, lo=.3, hi=.7), dxyz=unit(3), o=arr(3), va=each(90., 360.)):
    vm = ViewMapper(dxyz, va, origin=o)
    for f in (vm.vxy2xyz, vm.uv2xyz, vm.solid_vxy2xyz):
        a = f(xy, stackorigin=True)
        EQ("origin first", a[:, 0:3], np.stack((o, o, o, o, o)))
        EQ("direction second", a[:, 3:], f(xy))


def C09_positions(v=unit(N, 3), dxyz=unit(3), guth=each(True, False)):
    vm = ViewMapper(dxyz, 180)
    vz = ViewMapper((0, 1, 0), 180)
    w = vz.view2world(vm.world2view(v))
    EQ("position index is relative to the view", PositionIndex(guth).positions(vm, v),
       PositionIndex(guth).positions(vz, w))
    EQ("position index of vectors", PositionIndex(guth).positions_vec(dxyz, v),
       PositionIndex(guth).positions(vm, v))


def C09_positions_length(v=unit(N, 3), dxyz=unit(3), k=pos(N, lo=.5, hi=3), guth=each(True, False)):
    vm = ViewMapper(dxyz, 180)
    EQ("position index of a direction of any length",
       PositionIndex(guth).positions(vm, v * k[:, None]), PositionIndex(guth).positions(vm, v), rtol=1e-6)


def C09_rmtx(v=unit(N, 3), p=arr(3)):
    y, q = translate.rmtx_yp(v)
    for i in range(N):
        EQ("rotation of each direction", q[i] @ (y[i] @ p), local(p[None], v[i])[0])


# ------------------------------------------------------------------- C27 --
def C27_solid(v=cone(N, 60), xy=arr(N, 2, lo=.3, hi=.7), dxyz=unit(3), va=each(*ANGLES)):
    a = ViewMapper(dxyz, va)
    b = SolidViewMapper(dxyz, va)
    w = a.view2world(v)
    EQ("directions", a.solid_vxy2xyz(xy), b.vxy2xyz(xy))
    EQ("coordinates", a.solid_xyz2vxy(w), b.xyz2vxy(w))
    EQ("pixel rays", a.solid_pixel2ray(xy * 50, 50), b.pixel2ray(xy * 50, 50))
    EQ("ray pixels", a.solid_ray2pixel(w, 50), b.ray2pixel(w, 50))
    EQ("ray coordinates", a.solid_ray2pixel(w, 50, integer=False), b.ray2pixel(w, 50, integer=False))


def C27_solid_pixels(dxyz=unit(3), va=each(60., 180.), jitter=each(0)):
    a = ViewMapper(dxyz, va)
    b = SolidViewMapper(dxyz, va)
    EQ("all pixel rays", a.solid_pixelrays(4), b.pixelrays(4))


def C27_angles(v=unit(N, 3), dxyz=unit(3), va=each(90., 180., 360.)):
    m = ViewMapper(dxyz, va)
    EQ("cosine", m.ctheta(v), translate.ctheta(dxyz, v))
    EQ("radians", m.radians(v), translate.radians(dxyz, v))
    EQ("degrees", m.degrees(v), translate.degrees(dxyz, v))
    EQ("cosine definition", translate.ctheta(dxyz, v), np.clip(np.sum(v * dxyz, -1), -1, 1))


def C27_fisheye(v=unit(N, 3), xsign=each(1, -1), k=posnum(lo=.2, hi=5)):
    """the angular fisheye of free directions is equidistant in their angle"""
    xy = translate.xyz2xy(v, flip=xsign < 0)
    EQ("radius is the angle", np.sqrt(np.sum(xy * xy, -1)) * 90, translate.degrees((0, 0, 1), v))
    EQ("length of the direction", translate.xyz2xy(v * k, flip=xsign < 0), xy)
    EQ("azimuth", xy[:, 0] * v[:, 1], xy[:, 1] * v[:, 0] * xsign)


def C27_views(v=cone(N, 85), d=unit(3), va=each(180, 360)):
    """a view's own projection and that of free directions"""
    m = ViewMapper(d, va)
    w = m.view2world(v)
    EQ("fisheye", m.xyz2vxy(w), (translate.xyz2xy(v, flip=True) + 1) / 2)


def C27_disk(uv=arr(N, 2, lo=0, hi=1), far=each(0, 1)):
    q = uv + np.array((float(far), 0.))
    d = translate.uv2xy(q)
    s = translate.uv2xyz(q)
    r2 = np.sum(d * d, -1)
    sign = 1. - 2. * far
    EQ("sphere over disk", s[:, 0:2], d * np.sqrt(2 - r2)[:, None])
    EQ("sphere height", s[:, 2], sign * (1 - r2))
    EQ("unit length", np.sum(s * s, -1), np.ones(N))


def C27_rotate(v=arr(N, 3), t=num(lo=-400, hi=400), axis=each(0, 1, 2)):
    EQ("degrees and radians", translate.rotate_elem(v, t, axis),
       translate.rotate_elem(v, t * np.pi / 180, axis, degrees=False))
    c = np.cos(t * np.pi / 180)
    s = np.sin(t * np.pi / 180)
    i = (axis + 1) % 3
    j = (axis + 2) % 3
    r = translate.rotate_elem(v, t, axis)
    EQ("rotation about the axis", r[:, axis], v[:, axis])
    EQ("rotation first", r[:, i], c * v[:, i] - s * v[:, j])
    EQ("rotation second", r[:, j], s * v[:, i] + c * v[:, j])


# ------------------------------------------------------------------- C28 --
def C28_chord(t=arr(N, lo=.01, hi=3.1), c=arr(N, lo=.01, hi=1.99)):
    EQ("chord of angle", translate.theta2chord(t), np.sqrt(2 - 2 * np.cos(t)))
    EQ("angle of chord of angle", translate.chord2theta(translate.theta2chord(t)), t)
    EQ("chord of angle of chord", translate.theta2chord(translate.chord2theta(c)), c)


def C28_tp(v=unit(N, 3)):
    tp = translate.xyz2tp(v)
    EQ("theta", tp[:, 0], np.arccos(v[:, 2]))
    EQ("directions", translate.tp2xyz(tp), v)
    EQ("directions without normalisation", translate.tp2xyz(tp, normalize=False), v)


def C28_tp_poles(p=arr(N, lo=-3, hi=3), r=each(1e-5, 1e-4, 1e-2), up=each(1., -1.)):
    """directions close to a pole"""
    v = np.stack((r * np.cos(p), r * np.sin(p), up * np.ones(len(p)) * np.sqrt(1 - r * r))).T
    EQ("directions", translate.tp2xyz(translate.xyz2tp(v)), v, atol=5e-7)


def C28_tp_angles(t=arr(N, lo=.05, hi=3.1), p=arr(N, lo=.05, hi=6.2)):
    a = np.stack((t, p)).T
    EQ("angles", translate.xyz2tp(translate.tp2xyz(a)), a)
    EQ("direction of angles", translate.tp2xyz(a),
       np.stack((np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t))).T)


def C28_aa(v=unit(N, 3)):
    aa = translate.xyz2aa(v)
    EQ("altitude", aa[:, 0], np.arcsin(v[:, 2]) * 180 / np.pi)
    EQ("direction of altitude azimuth", translate.aa2xyz(aa), v)


def C28_aa_angles(alt=arr(N, lo=-88, hi=88), az=arr(N, lo=-178, hi=178)):
    aa = np.stack((alt, az)).T
    a = alt * np.pi / 180
    z = az * np.pi / 180
    EQ("direction of altitude azimuth", translate.aa2xyz(aa),
       np.stack((-np.cos(a) * np.sin(z), -np.cos(a) * np.cos(z), np.sin(a))).T)
    EQ("altitude azimuth", translate.xyz2aa(translate.aa2xyz(aa)), aa)


def C28_solid(v=cone(N, 80), xy=arr(N, 2, lo=.3, hi=.7), dxyz=unit(3), va=each(*ANGLES), kind=each(0, 1)):
    """closed forms carry a 1e-9 radius guard"""
    if kind == 0:
        m = ViewMapper(dxyz, va)
        EQ("equisolid coordinates", m.solid_xyz2vxy(m.solid_vxy2xyz(xy)), xy, rtol=1e-6)
    else:
        m = SolidViewMapper(dxyz, va)
        EQ("equisolid coordinates", m.xyz2vxy(m.vxy2xyz(xy)), xy, rtol=1e-6)
        EQ("pixels", m.ray2pixel(m.pixel2ray(xy * 32, 32), 32, integer=False), xy * 32, rtol=1e-6)


def C28_solid_dirs(v=cone(N, 80), dxyz=unit(3), kind=each(0, 1)):
    if kind == 0:
        m = ViewMapper(dxyz, 180)
        w = m.view2world(v)
        EQ("equisolid directions", m.solid_vxy2xyz(m.solid_xyz2vxy(w)), w, rtol=1e-6, atol=1e-6)
    else:
        m = SolidViewMapper(dxyz, 180)
        w = m.view2world(v)
        EQ("equisolid directions", m.vxy2xyz(m.xyz2vxy(w)), w, rtol=1e-6, atol=1e-6)


def C28_angular(v=cone(N, 80), xy=arr(N, 2, lo=.05, hi=.95), dxyz=unit(3), va=each(*ANGLES)):
    m = ViewMapper(dxyz, va)
    EQ("coordinates", m.xyz2vxy(m.vxy2xyz(xy)), xy)
    EQ("square coordinates", m.xyz2uv(m.uv2xyz(xy)), xy, atol=1e-7)
    EQ("pixels", m.ray2pixel(m.pixel2ray(xy * 32, 32), 32, integer=False), xy * 32)
    w = m.view2world(v)
    EQ("directions", m.vxy2xyz(m.xyz2vxy(w)), w)
    EQ("square directions", m.uv2xyz(m.xyz2uv(w)), w)


def C28_angular360(v=unit(N, 3), xy=arr(N, 2, lo=.05, hi=.95), dxyz=unit(3)):
    m = ViewMapper(dxyz, 360)
    f = m.xyz2uv(v)
    EQ("square directions", m.uv2xyz(f), v)
    EQ("square coordinates", m.xyz2uv(m.uv2xyz(xy * np.array((2., 1.)))), xy * np.array((2., 1.)), atol=1e-7)


def C28_border360(v=unit(N, 3), dxyz=unit(3), h=each(-1e-4, 1e-4, -3e-4, 3e-4)):
    """rays on either side of the border of the two halves of a 360 degree view"""
    m = ViewMapper(dxyz, 360)
    side = np.cross(v, dxyz[None])
    ASSUME(np.all(np.sum(side * side, axis=1) > .01))
    r = translate.norm(translate.norm(side) + h * dxyz[None])
    front = ViewMapper(dxyz, 180)
    back = ViewMapper(-dxyz, 180)
    want = front.xyz2vxy(r) if h > 0 else back.xyz2vxy(r) + np.array(((1., 0.),))
    EQ("place in its own half", m.xyz2vxy(r), want)


def C28_plane(xy=arr(N, 2, lo=.05, hi=.95), v=arr(N, 2, lo=.1, hi=3.5), b=arr(2, lo=-2, hi=2), s=pos(2, lo=1, hi=4)):
    m = Mapper(sf=s, bbox=np.stack((b, b + s)))
    EQ("plane coordinates", m.xyz2uv(m.uv2xyz(xy)), xy)
    EQ("plane position", m.uv2xyz(xy)[:, 0:2], b + xy * s)
    EQ("plane area", m.area, s[0] * s[1])
    EQ("plane aspect", m.aspect, s[0] / s[1])


def C28_bins(b=ints(N, lo=0, hi=7), side=each(8, 65536)):
    b = b * (side * side // 4) + np.array((0, 1, 3, 2, 5))
    uv = translate.bin2uv(b, side)
    EQ("bin of its centre", translate.uv2bin(uv, side), b)
    EQ("centre u", uv[:, 0], (np.floor(b / side) + .5) / side)
    EQ("centre v", uv[:, 1], (np.mod(b, side) + .5) / side)


def C28_cells_edges(b=ints(N, lo=0, hi=8), k=each(0, 1, 2, 3), off=each(0., .25, .5)):
    """cells own their lower edges"""
    uv = translate.bin2uv(b, 4, offset=off)
    EQ("cell row", uv[:, 0], (np.floor(b / 4) + off) / 4)
    EQ("cell column", uv[:, 1], (b - np.floor(b / 4) * 4 + off) / 4)
    EQ("bin", translate.uv2bin(uv, 4), b)
    q = np.array(((1., k / 4),))
    EQ("first row of the other half", translate.uv2ij(q, 4), np.array(((4, k),)))
    EQ("its bin", translate.uv2bin(q, 4), np.array((16 + k,)))


def C28_skybin_near(b=ints(1, lo=0, hi=24), tol=each(.1, .45)):
    EQ("only the patch of its centre is within less than half a patch",
       translate.xyz2skybin(translate.skybin2xyz(b, 5), 5, tol=tol), b)


def C28_skybin_horizon(az=num(lo=100, hi=260)):
    """the horizon belongs to the sky; patches near it are sky patches"""
    a = az * np.pi / 180
    v = np.array(((np.cos(a), np.sin(a), 0.),))
    HOLDS("horizon is in the sky", np.all(translate.xyz2skybin(v, 5) < 25))
    w = translate.uv2xyz(np.array(((.99, .05), (.99, .5))))
    HOLDS("patches", np.all(translate.xyz2skybin(w[:1], 5, tol=.3) < 25))
    HOLDS("patches of the next", np.all(translate.xyz2skybin(w[1:], 5, tol=.3) < 25))


def C28_cells(uv=arr(N, 2, lo=.01, hi=.99), far=each(0, 1), side=each(3, 16)):
    q = uv + np.array((float(far), 0.))
    ij = translate.uv2ij(q, side)
    EQ("cell row", ij[:, 0], np.floor(q[:, 0] * side))
    EQ("cell column", ij[:, 1], np.floor(q[:, 1] * side))
    EQ("bin of cell", translate.uv2bin(q, side), ij[:, 0] * side + ij[:, 1])
    c = translate.bin2uv(translate.uv2bin(q, side), side)
    HOLDS("centre of the bin lies in the cell", np.all(np.abs(c - q) <= .5 / side + 1e-12))


def C28_skybin(b=ints(N, lo=0, hi=63), side=each(8)):
    EQ("sky patch of its centre", translate.xyz2skybin(translate.skybin2xyz(b, side), side), b)


def C28_idx(i=ints(N, lo=0, hi=31), dxyz=unit(3)):
    m = Mapper()
    uv = m.idx2uv(i, (8, 4), jitter=False)
    EQ("index", m.uv2idx(uv, (8, 4)), i)
    EQ("cell centre", uv, np.stack(((np.floor(i / 4) + .5) / 8, (np.mod(i, 4) + .5) / 4)).T)
    v = ViewMapper(dxyz, 360)
    EQ("view cell centre", v.idx2uv(i, (8, 4), jitter=False),
       np.stack(((np.floor(i / 4) + .5) / 4, (np.mod(i, 4) + .5) / 4)).T)


# ------------------------------------------------------------------- C30 --
# views use the mirrored handedness over both hemispheres, sky patches the plain
# one over the upper hemisphere
def C30_square(v=unit(N, 3)):
    EQ("direction", translate.uv2xyz(translate.xyz2uv(v, flipu=True), xsign=-1), v)
    up = v * np.where(v[:, 2:] < 0, -1., 1.)
    EQ("upper direction", translate.uv2xyz(translate.xyz2uv(up)), up)


def C30_poles(t=pos(N, lo=1e-8, hi=1), p=arr(N, lo=0, hi=6.28), pole=each(0, 1, 2), up=each(1., -1.)):
    """no digits are lost around the poles of the mapping"""
    z = np.cos(t) * up
    x = np.sin(t) * np.cos(p)
    y = np.sin(t) * np.sin(p)
    if pole == 0:
        v = np.stack((z, x, y), -1)
    elif pole == 1:
        v = np.stack((x, z, y), -1)
    else:
        v = np.stack((x, y, z), -1)
    EQ("direction", translate.uv2xyz(translate.xyz2uv(v, flipu=True), xsign=-1), v, rtol=0, atol=1e-10)
    if up > 0 and pole == 2:
        EQ("upper direction", translate.uv2xyz(translate.xyz2uv(v)), v, rtol=0, atol=1e-10)
    d = np.array((0., up, 0.)) if pole == 1 else np.array((up, 0., 0.))
    if pole != 2:
        m = ViewMapper(d, 360)
        EQ("view direction", m.uv2xyz(m.xyz2uv(v)), v, rtol=0, atol=1e-10)


GRID = ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1))


def C30_types(t=each("int64", "int32", "float64"), k=each(1, 2, 7), rows=each((0, 6), (0, 3), (1, 2))):
    """axis directions, and directions given as integers"""
    g = np.array(GRID)[rows[0]:rows[1]]
    v = g.astype(t)
    EQ("direction", translate.uv2xyz(translate.xyz2uv(v, flipu=True), xsign=-1), g.astype("float64"))
    EQ("coordinates", translate.xyz2uv(v), translate.xyz2uv(g.astype("float64")))
    EQ("normalised", translate.xyz2uv(v * k, normalize=True), translate.xyz2uv(g.astype("float64")))
    EQ("corners", translate.uv2xyz(np.array(((0, 0), (0, 1), (1, 0), (1, 1))).astype(t)),
       translate.uv2xyz(np.array(((0., 0.), (0., 1.), (1., 0.), (1., 1.)))))


def C30_normalize(v=unit(N, 3), k=pos(N, lo=.2, hi=6)):
    EQ("direction of any length",
       translate.uv2xyz(translate.xyz2uv(v * k[:, None], normalize=True, flipu=True), xsign=-1), v)


def C30_coords(uv=arr(N, 2, lo=.02, hi=.98), far=each(0, 1)):
    q = uv + np.array((float(far), 0.))
    EQ("coordinates", translate.xyz2uv(translate.uv2xyz(q, xsign=-1), flipu=True), q)
    if far == 0:
        EQ("upper coordinates", translate.xyz2uv(translate.uv2xyz(q)), q)


def C30_disk(uv=arr(N, 2, lo=.02, hi=.98)):
    d = translate.uv2xy(uv)
    r2 = np.sum(d * d, -1)
    h = np.concatenate((d * np.sqrt(2 - r2)[:, None], (1 - r2)[:, None]), 1)
    EQ("disk coordinates", translate.xyz2uv(h), uv)


def C30_axes(v=unit(N, 3), axes=each((0, 1, 2), (1, 2, 0), (2, 1, 0))):
    EQ("axis order", translate.uv2xyz(translate.xyz2uv(v, axes=axes, flipu=True), axes=axes, xsign=-1), v)


def C30_views(v=unit(N, 3), xy=arr(N, 2, lo=.02, hi=.98), dxyz=unit(3)):
    m = ViewMapper(dxyz, 360)
    EQ("view direction", m.uv2xyz(m.xyz2uv(v)), v)
    q = xy * np.array((2., 1.))
    EQ("view coordinates", m.xyz2uv(m.uv2xyz(q)), q)


# ------------------------------------------------------------ C19 histories --
def new_view(kind, d, va):
    return SolidViewMapper(d, va) if kind else ViewMapper(d, va)


def as_fresh(m, f, v, xy, label):
    """every query on m answers what f answers"""
    EQ("direction " + label, m.dxyz, f.dxyz)
    EQ("view angle " + label, m.viewangle, f.viewangle)
    EQ("aspect " + label, m.aspect, f.aspect)
    EQ("to view " + label, m.world2view(v), f.world2view(v))
    EQ("to world " + label, m.view2world(v), f.view2world(v))
    EQ("cosine " + label, m.ctheta(v), f.ctheta(v))
    EQ("angle " + label, m.degrees(v), f.degrees(v))
    EQ("in view " + label, m.in_view(v, indices=False), f.in_view(v, indices=False))
    EQ("image coordinates " + label, m.xyz2vxy(v), f.xyz2vxy(v))
    EQ("image directions " + label, m.vxy2xyz(xy), f.vxy2xyz(xy))
    EQ("square coordinates " + label, m.xyz2uv(v), f.xyz2uv(v))
    EQ("square directions " + label, m.uv2xyz(xy), f.uv2xyz(xy))
    EQ("pixel directions " + label, m.pixelrays(3), f.pixelrays(3))
    EQ("solid angles " + label, m.pixel2omega(xy * 3, 3), f.pixel2omega(xy * 3, 3))
    EQ("header " + label, m.header(), f.header())


def C19_direction(v=cone(N, 60), xy=arr(N, 2, lo=.2, hi=.8), d=unit(3), e1=unit(3), e2=unit(3),
                  va=each(360, 180, 70), kind=each(0, 1), used=each(True, False)):
    """a view direction assigned to a mapper, used before or not"""
    if kind and va == 360:
        return
    m = new_view(kind, d, va)
    if used:
        m.xyz2vxy(v)
        m.pixelrays(3)
        m.in_view(v)
        m.header()
        if va == 360:
            m.ivm.pixelrays(3)
    m.dxyz = e1
    HOLDS("opposite view of a 360 degree view only", (m.ivm is None) == (va != 360))
    if va == 360 and m.ivm is None:
        return
    as_fresh(m, new_view(kind, e1, va), v, xy, "after one assignment")
    m.dxyz = e2 * 3
    f = new_view(kind, e2 * 3, va)
    as_fresh(m, f, v, xy, "after two assignments")
    if va == 360:
        EQ("opposite view", m.ivm.dxyz, f.ivm.dxyz)
        EQ("opposite pixel directions", m.ivm.pixelrays(3), f.ivm.pixelrays(3))
        EQ("opposite in view", m.ivm.in_view(v, indices=False), f.ivm.in_view(v, indices=False))
    else:
        HOLDS("no opposite view", m.ivm is None)
    m.dxyz = d
    as_fresh(m, new_view(kind, d, va), v, xy, "after returning")


def C19_others(v=cone(N, 60), xy=arr(N, 2, lo=.2, hi=.8), d=unit(3), e1=unit(3), va=each(360, 180, 70)):
    """a direction assigned to one mapper leaves the others alone"""
    m = ViewMapper(d, va)
    o = ViewMapper(d, va)
    i = m.ivm
    m.dxyz = e1
    as_fresh(o, ViewMapper(d, va), v, xy, "of another mapper")
    if va == 360:
        EQ("opposite view taken before", i.world2view(v), ViewMapper(-d, 180).world2view(v))


def C19_aspect(p=arr(N, 3), xy=arr(N, 2, lo=.1, hi=.9), b=pos(2, lo=.5, hi=4), a0=each(None, 2), a=each(None, .5, 1, 3)):
    """an aspect assigned to a plain mapper"""
    box = np.stack((np.zeros(2), b))
    m = Mapper(sf=b, bbox=box, aspect=a0)
    m.aspect = a
    f = Mapper(sf=b, bbox=box, aspect=a)
    EQ("aspect", m.aspect, f.aspect)
    if a is not None:
        EQ("frame", list(m.framesize(12)), list(f.framesize(12)))
        EQ("pixels", m.pixels(12), f.pixels(12))
        EQ("solid angle", m.pixel2omega(xy, 12), f.pixel2omega(xy, 12))
        EQ("pixel positions", m.pixel2ray(xy * 12, 12), f.pixel2ray(xy * 12, 12))
        EQ("pixel of a position", m.ray2pixel(p, 12, False), f.ray2pixel(p, 12, False))


def C28_pixels(b=arr(2, lo=-2, hi=2), size=posnum(lo=.5, hi=4), wide=each(True, False)):
    """the pixels of a plain mapper: rays and back"""
    side = np.array((2., 1.)) if wide else np.array((1., 2.))
    m = Mapper(sf=side * size, bbox=np.stack((b, b + side * size)))
    last = 7 if wide else 3
    p = np.reshape(m.pixels(8), (-1, 2))
    q = m.ray2pixel(np.reshape(m.pixelrays(8), (-1, 3)), 8) + .5
    EQ("row of its ray", q[:, 1], p[:, 1])
    EQ("column of its ray", q[:, 0], p[:, 0])
    HOLDS("column of its ray or of its mirror image", np.all((q[:, 0] == p[:, 0]) | (q[:, 0] == last + 1 - p[:, 0])))


def C28_perspective(v=cone(N, 30), d=unit(3), va=each(60., 100.)):
    m = PerspectiveViewMapper(d, va, va)
    w = m.view2world(v)
    EQ("directions", m.vxy2xyz(m.xyz2vxy(w)), w, rtol=1e-6, atol=1e-6)
    EQ("image coordinates of the view direction", m.xyz2vxy(d[None]), np.full((1, 2), .5), atol=1e-7)
    p = np.reshape(m.pixels(7), (-1, 2))
    ASSUME(np.all(np.abs(p - 3.5) < 3.2))
    EQ("pixels", m.ray2pixel(np.reshape(m.pixelrays(7), (-1, 3)), 7, integer=False), p, atol=1e-6)


def C08_same_ray(v=unit(40, 3)):
    """the angle of a ray with itself is a number, whatever the rounding of its length"""
    for i in range(8):
        r = translate.degrees(v[i], v)
        HOLDS("angles are defined", np.all(r >= 0))
        EQ("no angle to itself", r[i], 0., atol=1e-5)
        vm = ViewMapper(v[i], 90)
        HOLDS("angles to a view are defined", np.all(vm.degrees(v) >= 0))
        HOLDS("the view direction is in view", vm.in_view(v, indices=False)[i])
