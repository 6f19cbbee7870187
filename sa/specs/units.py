"""angles are in the documented unit everywhere (C08), pixel solid angles (C31)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import translate, imagetools
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper
from raytools.evaluate import MetricSet, ColorMetricSet, BaseMetricSet, PositionIndex, retina, hvsgsm
from raytools.evaluate.hvsgsm import GSS

N = 6
SINGLE = "N"
SEVERAL = ("C08_task",)
NR = 130
DEG = 0.017453292519943295


def readimage(imgf, stdin=None, header=False, vlambda=None):
    return imgf


def readcolor(imgf, stdin=None, header=False):
    return imgf


def noview(imgf, vpt=False):
    return None


MODELS = {"raytools.io.hdr2array": readimage, "raytools.io.hdr2carray": readcolor, "raytools.imagetools.hdr2vm": noview}


def off_axis(d, deg, turn):
    """unit vectors deg degrees off d"""
    r = np.cross(d, np.array((0., 0., 1.)))
    r = r / np.sqrt(np.sum(r * r))
    u = np.cross(r, d)
    w = np.cos(turn)[:, None] * r + np.sin(turn)[:, None] * u
    return np.cos(deg * DEG)[:, None] * d + np.sin(deg * DEG)[:, None] * w


def chord(va):
    """share of the view angle the pixel plane of a view spans"""
    h = va * DEG / 2
    return np.sqrt(2) / (np.pi / 2) / (2 * np.sin(h / 2) / h)


# ---------------------------------------------------------- plain functions --
def C08_between(d=unit(3), deg=arr(N, lo=0, hi=180), turn=arr(N, lo=0, hi=6)):
    v = off_axis(d, deg, turn)
    EQ("degrees", translate.degrees(d, v), deg, atol=1e-6)
    EQ("radians", translate.radians(d, v), deg * DEG, atol=1e-6)
    for va in (60., 180., 360.):
        m = ViewMapper(d, va)
        EQ("degrees from a view", m.degrees(v), deg, atol=1e-6)
        EQ("radians from a view", m.radians(v), deg * DEG, atol=1e-6)


def C08_rotation(v=arr(N, 3), deg=num(lo=-400, hi=400), axis=each(0, 1, 2)):
    c = np.cos(deg * DEG)
    s = np.sin(deg * DEG)
    a = np.array([1, 0, 0])
    if axis == 0:
        m = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    elif axis == 1:
        m = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    else:
        m = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    EQ("matrix for degrees", translate.rmtx_elem(deg, axis), m)
    EQ("matrix for degrees, as said", translate.rmtx_elem(deg, axis, degrees=True), m)
    EQ("matrix for radians", translate.rmtx_elem(deg * DEG, axis, degrees=False), m)
    EQ("rotation by degrees", translate.rotate_elem(v, deg, axis), v @ m.T)
    EQ("rotation by radians", translate.rotate_elem(v, deg * DEG, axis, degrees=False), v @ m.T)


def C08_altitude(alt=arr(N, lo=-89, hi=89), az=arr(N, lo=-179, hi=179)):
    xyz = np.stack((-np.cos(alt * DEG) * np.sin(az * DEG), -np.cos(alt * DEG) * np.cos(az * DEG), np.sin(alt * DEG)), -1)
    EQ("direction of altitude and azimuth", translate.aa2xyz(np.stack((alt, az), -1)), xyz)
    EQ("altitude and azimuth of a direction", translate.xyz2aa(xyz), np.stack((alt, az), -1), atol=1e-6)


def C08_polar(t=arr(N, lo=.02, hi=3.1), p=arr(N, lo=.02, hi=6.2)):
    xyz = np.stack((np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)), -1)
    EQ("direction of polar angles", translate.tp2xyz(np.stack((t, p), -1)), xyz)
    EQ("polar angles of a direction", translate.xyz2tp(xyz), np.stack((t, p), -1))


def C08_chord(deg=arr(N, lo=.1, hi=179)):
    EQ("chord of an angle", translate.theta2chord(deg * DEG), 2 * np.sin(deg * DEG / 2))
    EQ("angle of a chord", translate.chord2theta(2 * np.sin(deg * DEG / 2)), deg * DEG)


def C08_fisheye(deg=arr(N, lo=0, hi=179), turn=arr(N, lo=0, hi=6)):
    """radius 1 is 90 degrees"""
    v = off_axis(np.array((0., 1., 0.)), deg, turn)
    xy = translate.xyz2xy(v, axes=(0, 2, 1))
    EQ("radius of a fisheye", np.sqrt(np.sum(xy * xy, -1)), deg / 90, atol=1e-6)


# --------------------------------------------------------------------- views --
def C08_pixels(d=unit(3), va=posnum(lo=1, hi=180), f=arr(N, lo=.01, hi=.5), turn=arr(N, lo=0, hi=6)):
    """the distance from the image centre is proportional to the angle from the view direction"""
    m = ViewMapper(d, va)
    xy = .5 + f[:, None] * np.stack((np.cos(turn), np.sin(turn)), -1)
    full = np.where(va == 180, 180., va * chord(va))
    EQ("angle of an image point", m.degrees(m.vxy2xyz(xy)), f * full, atol=1e-6)
    v = off_axis(d, f * full, turn)
    EQ("radius of a direction", np.sqrt(np.sum((m.xyz2vxy(v) - .5) ** 2, -1)), f, atol=1e-6)


def C08_hemisphere(d=unit(3), va=each(180, 360), f=arr(N, lo=.01, hi=.5), turn=arr(N, lo=0, hi=6)):
    m = ViewMapper(d, va)
    xy = .5 + f[:, None] * np.stack((np.cos(turn), np.sin(turn)), -1)
    EQ("angle of an image point", m.degrees(m.vxy2xyz(xy)), f * 180, atol=1e-6)
    v = off_axis(d, f * 180, turn)
    EQ("radius of a direction", np.sqrt(np.sum((m.xyz2vxy(v) - .5) ** 2, -1)), f, atol=1e-6)


def C08_solid(d=unit(3), va=posnum(lo=1, hi=180), f=arr(N, lo=.01, hi=.5), turn=arr(N, lo=0, hi=6), route=each(0, 1)):
    """the edge of an equisolid image lies half the view angle off the view direction"""
    xy = .5 + f[:, None] * np.stack((np.cos(turn), np.sin(turn)), -1)
    ref = va / 2 * np.sin(f * va * DEG / 2) / np.sin(va * DEG / 4)
    if route == 0:
        m = SolidViewMapper(d, va)
        EQ("angle of an image point", m.degrees(m.vxy2xyz(xy)), ref, atol=1e-5)
    else:
        m = ViewMapper(d, va)
        EQ("angle of an image point", m.degrees(m.solid_vxy2xyz(xy)), ref, atol=1e-5)


def C08_in_view(d=unit(3), va=posnum(lo=1, hi=180), f=arr(N, lo=.02, hi=1.9), turn=arr(N, lo=0, hi=6), tol=num(lo=-.02, hi=.02), kind=each(0, 1)):
    if kind == 0:
        m = ViewMapper(d, va)
    else:
        m = SolidViewMapper(d, va)
    half = va * chord(va) / 2
    deg = np.minimum(f * half, 179)
    v = off_axis(d, deg, turn)
    EQ("inside the view", m.in_view(v, indices=False), deg < half)
    EQ("inside the view by a tolerance", m.in_view(v, indices=False, tol=tol), deg * DEG < half * DEG + tol)
    EQ("indices of directions inside the view", m.in_view(v)[0], np.nonzero(deg < half)[0])


def C08_area(d=unit(3), va=posnum(lo=1, hi=180)):
    EQ("solid angle of a view", ViewMapper(d, va).area, 2 * np.pi * (1 - np.cos(va * DEG / 2)))
    EQ("solid angle of an equisolid view", SolidViewMapper(d, va).area, 2 * np.pi * (1 - np.cos(va * DEG / 2)))
    EQ("solid angle of both hemispheres", ViewMapper(d, 360).area, 4 * np.pi)
    EQ("view angle", ViewMapper(d, va).viewangle, va)


# ------------------------------------------------------------------- metrics --
def C08_task(d=unit(3), deg=arr(N, lo=0, hi=60), turn=arr(N, lo=0, hi=6), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
             radius=num(lo=1, hi=60), color=each(True, False), factor=posnum(lo=.5, hi=9)):
    v = off_axis(d, deg, turn)
    vm = ViewMapper(d, 180)
    if color:
        m = ColorMetricSet(v, omega, np.stack((lum, lum, lum), -1), vm, ["tasklum"], threshold=factor, tradius=radius)
    else:
        m = MetricSet(v, omega, lum, vm, ["tasklum"], threshold=factor, tradius=radius)
    inside = deg < radius
    ASSUME(np.any(inside))
    ref = np.sum(np.where(inside, omega * lum, 0)) * 179 / np.sum(np.where(inside, omega, 0))
    EQ("task area in degrees", m.task_mask, inside)
    EQ("task luminance", m.tasklum, ref)
    EQ("threshold relative to the task", m.threshold, ref * factor)


def C08_ray_angles(d=unit(3), deg=arr(N, lo=1, hi=89), turn=arr(N, lo=0, hi=6), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60)):
    v = off_axis(d, deg, turn)
    m = BaseMetricSet(v, omega, lum, ViewMapper(d, 180), None)
    EQ("angle to the view", m.radians, deg * DEG, atol=1e-6)
    EQ("cosine to the view", m.ctheta, np.cos(deg * DEG))


def C08_position(d=unit(3), deg=arr(N, lo=1, hi=80), up=arr(N, lo=1, hi=89), kim=each(True, False)):
    """a source deg degrees off the view, up degrees off its vertical"""
    v = off_axis(d, deg, (90 - up) * DEG)
    p = PositionIndex(guth=not kim).positions(ViewMapper(d, 180), v)
    if kim:
        ref = np.exp((deg - (-.000009 * up ** 3 + .0014 * up ** 2 + .0866 * up + 21.633)) /
                     (-.000009 * up ** 3 + .0013 * up ** 2 + .0853 * up + 8.772))
    else:
        ref = np.exp((35.2 - .31889 * up - 1.22 * np.exp(-2 * up / 9)) * 1e-3 * deg + (21 + .26667 * up - .002963 * up ** 2) * 1e-5 * deg ** 2)
        ref = np.minimum(ref, 16)
    EQ("position index", p, ref)


# -------------------------------------------------------------------- images --
def C08_rotate_image(a=arr(2), c=num(), deg=num(lo=-170, hi=170), first=each(True, False), color=each(True, False)):
    """an image that is linear in the pixel coordinates turns without error"""
    n = 7
    x = (np.arange(n) + .5 - n / 2)[:, None] * np.ones((n, n))
    y = (np.arange(n) + .5 - n / 2)[None] * np.ones((n, n))
    img = a[0] * x + a[1] * y + c
    t = deg * DEG
    ref = a[0] * (np.cos(t) * x + np.sin(t) * y) + a[1] * (np.cos(t) * y - np.sin(t) * x) + c
    inside = x * x + y * y < (n / 2 - .6) ** 2
    if color:
        got = imagetools.array_rotate(np.stack((img, 2 * img, 3 * img)), deg, rotate_first=first)
        EQ("rotated image", np.where(inside, got[1], 0), np.where(inside, 2 * ref, 0), atol=1e-6)
    else:
        got = imagetools.array_rotate(img, deg, rotate_first=first)
        EQ("rotated image", np.where(inside, got, 0), np.where(inside, ref, 0), atol=1e-6)


def C08_peak(sun=unit(3), deg=arr(8, lo=.02, hi=3), turn=arr(8, lo=0, hi=6), os=pos(8, lo=1e-6, hi=2e-6), ls=pos(8, lo=2e3, hi=4e3),
             peaka=posnum(lo=2e-5, hi=2e-4), peakrad=num(lo=.5, hi=6)):
    """pixels are grouped up to peakrad radii of a disk of solid angle peaka"""
    v = np.concatenate((sun[None], off_axis(sun, deg, turn)))
    o = np.concatenate((np.array((1e-6,)), os))
    l = np.concatenate((np.array((5e3,)), ls))
    p, s, pc = imagetools.find_peak(v, o, l, peaka=peaka, peakrad=peakrad, peakr=1e9)
    near = np.concatenate((np.zeros(1), deg)) < np.sqrt(peaka / np.pi) / DEG * peakrad
    ASSUME(np.sum(np.where(near, o * l, 0)) < 1.9e3 * peaka)
    EQ("pixels of the peak", np.sort(pc), np.nonzero(near)[0])


# ------------------------------------------------------------ eye and retina --
def C08_blur(omega=pos(N, lo=1e-7, hi=1e-3), lmax=pos(N, lo=300, hi=8000), w=posnum(lo=.05, hi=.4)):
    """source radius and spread are both in degrees"""
    r0 = np.sqrt(omega / np.pi) / DEG
    hm = (w / 2) ** 2
    spread = np.sqrt(np.maximum(hm * np.minimum(lmax, 279.33 * (1 + (.183333 / 2) ** 2) / (.183333 / 2) ** 2) / 279.33 - hm, 0))
    EQ("sun blur", retina.blur_sun(omega, lmax, fwhm=w), ((r0 + spread) / r0) ** 2, rtol=1e-5)


def C08_field(m=arr(3, 2, lo=.05, hi=.7), sx=each(1, -1), sy=each(1, -1), dens=arr(4, lo=5, hi=90)):
    """the unit disk is 90 degrees of the visual field"""
    def f(r, mi):
        return np.take(dens, mi) + r
    xy = m * np.array((sx, sy))
    a = retina.rgcf_density_xy(90 * xy, f)
    b = retina.rgcf_density_xy(90 * xy * np.array((-1, 1)), f)
    EQ("density", retina.binocular_density(xy, f), (a + b) / 2)


def C08_glare_resolution(a=pos(8, 8, lo=.5, hi=60), va=each(60., 120., 180.)):
    g = GSS(ViewMapper((0, 1, 0), va))
    g.lum = a
    EQ("pixels per arc minute", g._pparcmin, 8 / (60 * va))


# ------------------------------------------------------- C31 pixel solid angle --
def C31_element(d=unit(3), va=each(60., 120., 180., 360.), res=each(6, 9), kind=each(0, 1)):
    """a pixel's solid angle is the area spanned by its edge rays"""
    if kind == 0:
        m = ViewMapper(d, va)
    else:
        m = SolidViewMapper(d, min(va, 180.))
    p = np.stack((np.arange(res)[:, None] * np.ones((res, res)), np.arange(res)[None] * np.ones((res, res))), -1) + .5
    ex = m.vxy2xyz((p + np.array((.5, 0))) / res) - m.vxy2xyz((p - np.array((.5, 0))) / res)
    ey = m.vxy2xyz((p + np.array((0, .5))) / res) - m.vxy2xyz((p - np.array((0, .5))) / res)
    c = np.cross(ex, ey)
    EQ("solid angle of a pixel", m.pixel2omega(p, res), np.sqrt(np.sum(c * c, -1)))


def total(m, res):
    o = m.pixel2omega(m.pixels(res), res)
    i = m.in_view(m.pixelrays(res), indices=False).reshape(o.shape)
    return np.sum(np.where(i, o, 0))


def C31_total(d=unit(3), va=each(180., 60., 120.), res=each(48, 75)):
    m = ViewMapper(d, va)
    HOLDS("sum of the pixels in view", np.abs(total(m, res) / (2 * np.pi * (1 - np.cos(va * DEG / 2))) - 1) < .02)


def C31_total_as_listed(d=unit(3), va=posnum(lo=2, hi=180), res=each(48, 75), kind=each(0, 1)):
    """narrow views add up to the cone of the known finding, or to the right one"""
    if kind == 0:
        m = ViewMapper(d, va)
    else:
        m = SolidViewMapper(d, va)
    s = total(m, res)
    a = 2 * np.pi * (1 - np.cos(va * DEG / 2))
    b = 2 * np.pi * (1 - np.cos(va * chord(va) * DEG / 2))
    HOLDS("sum of the pixels in view", np.abs(s / a - 1) < .02 or np.abs(s / b - 1) < .02)


def C31_solid_total(d=unit(3), va=each(180., 60., 120.), res=each(48, 75)):
    m = SolidViewMapper(d, va)
    HOLDS("sum of the pixels in view", np.abs(total(m, res) / (2 * np.pi * (1 - np.cos(va * DEG / 2))) - 1) < .02)


def C31_both(d=unit(3), res=each(48, 75)):
    """the two hemispheres of a full view"""
    m = ViewMapper(d, 360)
    s = 0
    for v in (m, m.ivm):
        o = v.pixel2omega(v.ivm_pixels(res), res) if False else v.pixel2omega(ViewMapper(d, 180).pixels(res), res)
        r = v.vxy2xyz(ViewMapper(d, 180).pixels(res) / res)
        s = s + np.sum(np.where(v.degrees(r).reshape(res, res) < 90, o, 0))
    HOLDS("sum of both hemispheres", np.abs(s / m.area - 1) < .02)


def C31_rays(im=pos(40, 40, lo=.5, hi=60), col=pos(3, 40, 40, lo=.5, hi=60), color=each(True, False), d=unit(3)):
    """rays of an image"""
    if color:
        v, o, l = imagetools.hdr2vol(col, color=True)
    else:
        v, o, l = imagetools.hdr2vol(im, vm=ViewMapper(d, 180))
        inside = v @ d > 0
    if color:
        inside = v @ np.array((0, 1, 0)) > 0
    HOLDS("sum of the rays in view", np.abs(np.sum(np.where(inside, o, 0)) / (2 * np.pi) - 1) < .03)


def C31_glare(a=pos(48, 48, lo=.5, hi=60), d=unit(3)):
    g = GSS(ViewMapper(d, 180))
    g.lum = a
    HOLDS("sum of the pixels in view", np.abs(np.sum(g.omega) / (2 * np.pi) - 1) < .02)


def C31_plane(b=arr(2, lo=-2, hi=2), s=pos(2, lo=1, hi=4), res=each(4, 7)):
    m = Mapper(sf=s, bbox=np.stack((b, b + s)))
    f = m.framesize(res)
    EQ("area of all pixels of a plane", np.sum(m.pixel2omega(m.pixels(res).reshape(-1, 2), res)) * 1., s[0] * s[1])


def C31_corrected(vec=cone(NR, 89.5), omega=pos(NR, lo=.5, hi=2), share=num(lo=.93, hi=1.08), lum=pos(NR, lo=1, hi=3), color=each(False, True), d=unit(3)):
    """rays corrected to the area of the view: only the ones that overlap its edge change, by one factor"""
    o = omega / np.sum(omega) * 2 * np.pi * share
    r = np.cross(d, np.array((0., 0., 1.)))
    r = r / np.sqrt(np.sum(r * r))
    v = vec[:, 0:1] * r + vec[:, 1:2] * np.cross(r, d) + vec[:, 2:3] * d
    if color:
        m = ColorMetricSet(v, o, np.stack((lum, lum, lum), -1), ViewMapper(d, 180), None, omega_as_view_area=False)
    else:
        m = MetricSet(v, o, lum, ViewMapper(d, 180), None, omega_as_view_area=False)
    edge = np.pi / 2 - np.arccos(np.clip(v @ d, -1, 1))
    side = np.sqrt(o)
    total = np.sum(np.where(edge < side, o, 0))
    ASSUME(total > 0)
    EQ("sum of the corrected rays", np.sum(m.omega), 2 * np.pi)
    EQ("area of the view", m.view_area, 2 * np.pi)
    factor = 1 - (np.sum(o) - 2 * np.pi) / total
    ASSUME(factor > 0)
    EQ("corrected rays", m.omega, np.where(edge < side, o * factor, o))


def C31_few(vec=cone(80, 85), omega=pos(80, lo=.5, hi=2), lum=pos(80, lo=1, hi=3), d=unit(3), asarea=each(False, True)):
    """few rays are not corrected: their sum is the area of the view"""
    m = BaseMetricSet(vec, omega, lum, ViewMapper((0, 0, 1), 180), None, omega_as_view_area=asarea)
    EQ("solid angles", m.omega, omega)
    EQ("area of the view", m.view_area, np.sum(omega))


def C31_enlarged(vec=cone(NR, 89.5), omega=pos(NR, lo=.5, hi=2), share=num(lo=1.3, hi=1.7), lum=pos(NR, lo=1, hi=3)):
    """the edge grows until its rays can take up the whole excess"""
    o = omega / np.sum(omega) * 2 * np.pi * share
    m = BaseMetricSet(vec, o, lum, ViewMapper((0, 0, 1), 180), None, omega_as_view_area=False)
    f = m.omega / o
    EQ("sum of the corrected rays", np.sum(m.omega), 2 * np.pi)
    HOLDS("solid angles are not negative", np.min(f) >= 0)
    HOLDS("one factor for all of the edge", np.all((np.abs(f - 1) < 1e-9) | (np.abs(f - np.min(f)) < 1e-9)))
    deg = np.arccos(np.clip(vec[:, 2], -1, 1))
    cut = np.where(np.abs(f - 1) < 1e-9, 0, 1)
    EQ("rays at the edge", cut[deg > np.pi / 2 - np.sqrt(o)], np.ones(NR)[deg > np.pi / 2 - np.sqrt(o)])
    ASSUME(np.sum(o * (deg > np.pi / 2 - np.sqrt(o))) < np.sum(o) - 2 * np.pi)
    HOLDS("the edge is not much larger than needed", np.sum(o * cut) < 1.5 * (np.sum(o) - 2 * np.pi))


def C31_narrow(vec=cone(NR, 1.75), omega=pos(NR, lo=.5, hi=2), share=num(lo=.95, hi=1.01), lum=pos(NR, lo=1, hi=3)):
    """a view of few degrees is corrected as well"""
    area = 2 * np.pi * (1 - np.cos(np.pi / 90))
    o = omega / np.sum(omega) * area * share
    m = BaseMetricSet(vec, o, lum, ViewMapper((0, 0, 1), 4), None, omega_as_view_area=False)
    edge = np.pi / 90 - np.arccos(np.clip(vec[:, 2], -1, 1))
    side = np.sqrt(o)
    total = np.sum(np.where(edge < side, o, 0))
    ASSUME(total > 0)
    factor = 1 - (np.sum(o) - area) / total
    ASSUME(factor > 0)
    EQ("area of the view", m.view_area, area)
    EQ("corrected rays", m.omega / area, np.where(edge < side, o * factor, o) / area)
