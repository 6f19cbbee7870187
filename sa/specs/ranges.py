"""results stay inside their defined ranges (C07)

exact=True obligations are about rounding excursions: they are decided on the
floating point value itself, not up to a tolerance."""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import translate
from raytools.mapper import ViewMapper, SolidViewMapper
from raytools.evaluate import MetricSet, ColorMetricSet, BaseMetricSet, PositionIndex, retina, hvsgsm
from raytools.evaluate.hvsgsm import GSS

N = 6
M = 40
RES = 6
TINY = 1e-9


def readimage(imgf, stdin=None, header=False, vlambda=None):
    return imgf


MODELS = {"raytools.io.hdr2array": readimage}


def within(x, lo, hi):
    return np.logical_and(np.all(x >= lo), np.all(x <= hi))


# ------------------------------------------------------------ glare metrics --
def C07_glare(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1e-3, hi=1e7), dxyz=unit(3), guth=each(True, False),
              lowlight=each(True, False), threshold=each(2000., 5., .5), scale=posnum(lo=1, hi=300), cut=num(lo=.2, hi=1.5)):
    vm = ViewMapper(dxyz, 180)
    # bright, dim and partly black views
    lum = lum ** cut * (lum > 1e-2)
    m = MetricSet(vec, omega, lum, vm, None, scale=scale, guth=guth, lowlight=lowlight, threshold=threshold)
    HOLDS("dgp does not exceed 1", not m.dgp > 1)
    HOLDS("dgp is not negative", not (m.illum >= 0 and m.dgp < 0))
    HOLDS("ugr is not negative", not m.ugr < 0)
    HOLDS("ugp within [0, 1]", not (m.ugp < 0 or m.ugp > 1))


def C07_glare_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1e-3, hi=1e6), dxyz=unit(3), guth=each(True, False),
                    lowlight=each(True, False), threshold=each(2000., 5.), scale=posnum(lo=1, hi=300)):
    vm = ViewMapper(dxyz, 180)
    m = ColorMetricSet(vec, omega, rgb, vm, ["dgp", "ugr", "ugp"], scale=scale, guth=guth, lowlight=lowlight, threshold=threshold)
    HOLDS("dgp does not exceed 1", not m.dgp > 1)
    HOLDS("ugr is not negative", not m.ugr < 0)
    HOLDS("ugp within [0, 1]", not (m.ugp < 0 or m.ugp > 1))


def C07_dim_sources(vec=cone(N, 80), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1e-6, hi=10), dz=num(lo=-.9, hi=.9)):
    """weak sources on a background that outshines them"""
    vm = ViewMapper((0, dz, 1), 180)
    m = MetricSet(vec, omega, lum, vm, None, threshold=1.2, tradius=180)
    ASSUME(m.backlum > 0)
    HOLDS("ugr is not negative", m.ugr >= 0)
    HOLDS("ugp within [0, 1]", m.ugp >= 0 and m.ugp <= 1)


def C07_no_source(vec=cone(N, 80), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=.1, hi=5), dz=num(lo=-.9, hi=.9), low=each(True, False)):
    vm = ViewMapper((0, dz, 1), 180)
    m = MetricSet(vec, omega, lum, vm, None, lowlight=low)
    HOLDS("ugr of a view without sources", m.ugr == 0)
    HOLDS("ugp within [0, 1]", m.ugp >= 0 and m.ugp <= 1)
    HOLDS("dgp within [0, 1]", m.dgp >= 0 and m.dgp <= 1)


def C07_saturated(vec=cone(N, 60), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1e4, hi=1e8), dz=num(lo=-.9, hi=.9), low=each(True, False)):
    vm = ViewMapper((0, dz, 1), 180)
    m = MetricSet(vec, omega, lum, vm, None, lowlight=low)
    HOLDS("dgp of an overwhelming view", m.dgp == 1)


def C07_lowlight(vec=cone(N, 80), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1e-5, hi=1e5), k=posnum(lo=1e-4, hi=1), dz=num(lo=-.9, hi=.9),
                 threshold=each(2000., 5.)):
    vm = ViewMapper((0, dz, 1), 180)
    a = MetricSet(vec, omega, lum * k, vm, None, threshold=threshold, lowlight=True)
    b = MetricSet(vec, omega, lum * k, vm, None, threshold=threshold, lowlight=False)
    HOLDS("low-light correction never raises dgp", a.dgp <= b.dgp * (1 + TINY))


# --------------------------------------------------------- position indices --
def C07_guth(v=unit(M, 3), d=unit(3), flat=each(1., .01, 0.)):
    """any direction, also in the horizontal and in the vertical plane of the view"""
    vm = ViewMapper(d, 180)
    r = np.cross(d, np.array((0, 0, 1.)))
    u = np.cross(r, d)
    w = v - (1 - flat) * (v @ u)[:, None] * u / np.sum(u * u)
    p = PositionIndex(guth=True).positions(vm, w)
    HOLDS("Guth index is positive", np.all(p > 0))
    HOLDS("Guth index does not exceed 16", np.all(p <= 16))


def C07_guth_axes(d=unit(3)):
    r = np.cross(d, np.array((0, 0, 1.)))
    u = np.cross(r, d)
    p = PositionIndex(guth=True).positions(ViewMapper(d, 180), np.stack((d, -d, r, -r, u, -u)))
    HOLDS("Guth index within (0, 16]", np.all(p > 0) and np.all(p <= 16))


def C07_guth_ahead(k=each(0, 1, 2, 3), s=each(1., -1.), va=each(180., 360.)):
    """straight ahead: the projection on the view plane has no direction"""
    d = np.array(((1., 0, 0), (0, 1., 0), (0, 0, 1.), (.6, -.8, 0)))[k] * s
    p = PositionIndex(guth=True).positions(ViewMapper(d, va), np.stack((d, d * 3)))
    HOLDS("index of the view direction is 1", np.all(np.abs(p - 1) < 1e-5))


def C07_guth_behind(v=unit(M, 3), d=unit(3)):
    p = PositionIndex(guth=True).positions(ViewMapper(d, 180), v)
    HOLDS("directions behind the view have the largest index", np.all(np.where(v @ d < -1e-6, p, 16.) == 16))


def C07_guth_metric(v=unit(M, 3), o=pos(M, lo=.01, hi=.1), l=pos(M), d=unit(3), va=each(180., 360.)):
    m = BaseMetricSet(v, o, l, ViewMapper(d, va), None, guth=True)
    HOLDS("Guth index within (0, 16]", np.all(m.pos_idx > 0) and np.all(m.pos_idx <= 16))


# ------------------------------------------------------- cosines and angles --
def C07_cosine(v=unit(M, 3), d=unit(M, 3), va=each(90., 180., 360.), solid=each(True, False)):
    """including directions equal and opposite to the view, whose dot product
    may leave [-1, 1] by rounding"""
    for i in range(6):
        a = d[i]
        w = np.concatenate((v, np.stack((a, -a))))
        if solid:
            vm = SolidViewMapper(a, min(va, 180.))
        else:
            vm = ViewMapper(a, va)
        c = vm.ctheta(w)
        HOLDS("view cosine within [-1, 1]", np.all(c >= -1) and np.all(c <= 1), exact=True)
        r = vm.radians(w)
        HOLDS("view angle within [0, pi]", np.all(r >= 0) and np.all(r <= np.pi), exact=True)
        g = vm.degrees(w)
        HOLDS("view angle within [0, 180]", np.all(g >= 0) and np.all(g <= 180), exact=True)
        c = translate.ctheta(a, w)
        HOLDS("cosine within [-1, 1]", np.all(c >= -1) and np.all(c <= 1), exact=True)
        r = translate.radians(a, w)
        HOLDS("angle within [0, pi]", np.all(r >= 0) and np.all(r <= np.pi), exact=True)
        g = translate.degrees(a, w)
        HOLDS("angle within [0, 180]", np.all(g >= 0) and np.all(g <= 180), exact=True)


def C07_metric_angles(v=unit(M, 3), o=pos(M, lo=.01, hi=.1), l=pos(M), d=unit(M, 3)):
    for i in range(6):
        m = BaseMetricSet(np.concatenate((v[0:M - 2], np.stack((d[i], -d[i])))), o, l, ViewMapper(d[i], 360), None)
        HOLDS("cosine within [-1, 1]", np.all(m.ctheta >= -1) and np.all(m.ctheta <= 1), exact=True)
        HOLDS("angle within [0, pi]", np.all(m.radians >= 0) and np.all(m.radians <= np.pi), exact=True)


def C07_spherical(t=arr(M, lo=-3.1, hi=6.2), p=arr(M, lo=-6.2, hi=12.5)):
    n = translate.tpnorm(np.stack((t, p), -1))
    HOLDS("polar angle within [0, pi)", np.all(n[:, 0] >= 0) and np.all(n[:, 0] < np.pi), exact=True)
    HOLDS("azimuth within [0, 2 pi)", np.all(n[:, 1] >= 0) and np.all(n[:, 1] < 2 * np.pi), exact=True)


def C07_spherical_edges(a=each(0, 1, -1, 2, -2), b=each(0, 1, -1, 2, -2, 4)):
    n = translate.tpnorm(np.array(((a * np.pi / 2, b * np.pi / 2),)))
    HOLDS("polar angle within [0, pi)", np.all(n[:, 0] >= 0) and np.all(n[:, 0] < np.pi))
    HOLDS("azimuth within [0, 2 pi)", np.all(n[:, 1] >= 0) and np.all(n[:, 1] < 2 * np.pi))


def C07_direction_angles(v=unit(M, 3)):
    tp = translate.xyz2tp(v)
    HOLDS("polar angle within [0, pi)", np.all(tp[:, 0] >= 0) and np.all(tp[:, 0] < np.pi))
    HOLDS("azimuth within [0, 2 pi)", np.all(tp[:, 1] >= 0) and np.all(tp[:, 1] < 2 * np.pi))
    aa = translate.xyz2aa(v)
    HOLDS("altitude within [-90, 90]", np.all(aa[:, 0] >= -90) and np.all(aa[:, 0] <= 90))
    HOLDS("azimuth within [-180, 180]", np.all(aa[:, 1] >= -180) and np.all(aa[:, 1] <= 180))


# ------------------------------------------------------------ square indices --
def C07_square(uv=arr(M, 2, lo=0, hi=1), far=each(0, 1), side=each(1, 2, 3, 7, 64, 1000)):
    """up to the very edges of the square"""
    uv = np.concatenate((uv, np.array(((0, 0), (0, 1), (1, 0), (1, 1), (.5, 1), (1, .5), (.9999999999999999, .9999999999999999)))))
    uv = np.where(np.logical_and(uv == 1, np.array((far, 0)) == 1), .5, uv) + np.array((far, 0))
    uv = np.where(uv < 2, uv, .25)
    ij = translate.uv2ij(uv, side)
    HOLDS("row inside the grid", np.all(ij[:, 0] >= 0) and np.all(ij[:, 0] < 2 * side), exact=True)
    HOLDS("column inside the grid", np.all(ij[:, 1] >= 0) and np.all(ij[:, 1] < side), exact=True)
    b = translate.uv2bin(uv, side)
    HOLDS("bin inside the grid", np.all(b >= 0) and np.all(b < 2 * side * side), exact=True)
    one = translate.uv2ij(uv - np.array((1, 0)) * (uv[:, 0:1] >= 1), side, aspect=1)
    HOLDS("row inside a single square", np.all(one >= 0) and np.all(one < side), exact=True)


# ------------------------------------------------------- retina, glare model --
def C07_sun(omega=pos(M, lo=1e-12, hi=1e-1), lmax=pos(M, lo=1e-3, hi=1e12), lmin=posnum(lo=1, hi=1e4), w=posnum(lo=.02, hi=2), own=each(True, False)):
    if own:
        b = retina.blur_sun(omega, lmax, lmin, w)
    else:
        b = retina.blur_sun(omega, lmax)
    HOLDS("blur factor is at least 1", np.all(b >= 1), exact=True)


def C07_eyespread(x=arr(M, lo=-90, hi=90), w=posnum(lo=.02, hi=2)):
    h = retina.hpsf(np.concatenate((x, np.zeros(1))), w)
    HOLDS("spread within (0, 1]", np.all(h > 0) and np.all(h <= 1))


def C07_density(m=each(0, 1, 2, 3), deg=pos(M, lo=1e-3, hi=180)):
    HOLDS("cell density is at least 1", np.all(retina.rgc_density_on_meridian(deg, np.full(M, m)) >= 1))
    HOLDS("field density is positive", np.all(retina.rgcf_density_on_meridian(deg, np.full(M, m)) > 0))


def C07_eccentricity(img=pos(RES, RES, lo=1e-6, hi=1e8), d=unit(3), va=each(60., 120., 180.)):
    g = GSS(ViewMapper(d, va))
    g.lum = img
    HOLDS("eccentricity within the model", np.all(g.sigma_c >= .009 - TINY) and np.all(g.sigma_c <= .12 + TINY))
    HOLDS("glare eccentricity within the model", g.ecc >= .009 - TINY and g.ecc <= .12 + TINY)
    HOLDS("cosine within [0, 1]", np.all(g.ctheta >= 0) and np.all(g.ctheta <= 1))
    HOLDS("solid angle is not negative", np.all(g.omega >= 0))


def C07_response(er=pos(M, lo=1e-9, hi=1e9), ea=pos(M, lo=1e-9, hi=1e9)):
    r = GSS.cone_response(np.concatenate((er, np.zeros(1))), np.concatenate((ea, np.ones(1))))
    HOLDS("receptor response within [0, 1]", np.all(r >= 0) and np.all(r <= 1))


def C07_field_response(r=arr(RES, RES, lo=-3, hi=3), img=pos(RES, RES, lo=.5, hi=60), far=each(1, 30)):
    g = GSS(ViewMapper((0, 1, 0), 180))
    g.lum = img
    n = g.normalized_field_response(r * far)
    HOLDS("normalised response within [0, 1]", np.all(n >= 0) and np.all(n <= 1))


def C07_pupil(ev=pos(M, lo=1e-6, hi=1e9), age=posnum(lo=10, hi=90)):
    a, p = GSS(age=age).pupil(ev)
    HOLDS("pupil diameter within 2 to 8 mm of the model", np.all(p <= 8 + TINY) and np.all(p >= 2 - .043 * 80 * np.exp(-ev / 174) - TINY))
