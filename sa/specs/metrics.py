"""metric formulas and relations between metric calls (C02 C03 C04 C05 C22 C25 C26)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME, FRESH
from raytools.mapper import ViewMapper
from raytools.evaluate import MetricSet, BaseMetricSet, ColorMetricSet, PositionIndex

N = 6
NS = 40
SUMS = ["illum", "avglum", "gcr", "pwgcr", "pwavglum", "loggcr", "logpwgcr",
        "view_area", "srcillum", "srcarea", "pwsl2", "backlum", "backlum_true",
        "tasklum", "threshold", "dgp_t1", "dgp_t2", "log_gc", "dgp", "ugr", "ugp",
        "maxlum"]
ALL = SUMS + ["density", "avgraylum"]
BASE = ["illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "density",
        "avgraylum", "pwavglum", "maxlum"]


def frame(d):
    """right, up, forward of a view with z-up"""
    r = np.cross(d, np.array((0., 0., 1.)))
    r = r / np.sqrt(np.sum(r * r))
    return r, np.cross(r, d)


def guth(vec, d):
    r, u = frame(d)
    x = vec @ r
    y = vec @ u
    z = vec @ d
    tau = np.arccos(y / np.sqrt(x * x + y * y)) * 180 / np.pi
    sigma = np.arccos(np.clip(z, -1, 1)) * 180 / np.pi
    low = np.arctan(np.sqrt(x * x + 1.15 ** 2 * y * y) / z) * 180 / np.pi
    t = np.where(y < 0, 90., tau)
    s = np.where(y < 0, low, sigma)
    p = np.exp((35.2 - .31889 * t - 1.22 * np.exp(-2 * t / 9)) * 1e-3 * s +
               (21 + .26667 * t - .002963 * t ** 2) * 1e-5 * s ** 2)
    return np.where(z < 0, 16., np.minimum(p, 16.))


def kim(vec, d):
    r, u = frame(d)
    x = vec @ r
    y = vec @ u
    t = np.arccos(y / np.sqrt(x * x + y * y)) * 180 / np.pi
    s = np.arccos(np.clip(vec @ d, -1, 1)) * 180 / np.pi
    return np.exp((s - (-.000009 * t ** 3 + .0014 * t ** 2 + .0866 * t + 21.633)) /
                  (-.000009 * t ** 3 + .0013 * t ** 2 + .0853 * t + 8.772))


def C22_sums(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=200),
             dxyz=unit(3), scale=posnum(lo=50, hi=250), useguth=each(True, False),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1), dim=posnum(lo=1e-10, hi=1),
             black=ints(N, lo=0, hi=4)):
    # some of the rays are black
    lum = lum ** spread * amp * np.where(black > 0, 1., 0.)
    ASSUME(np.any(black > 0))
    scale = scale / amp * dim
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    m = MetricSet(vec, omega, lum, vm, None, scale=scale, guth=useguth)
    ct = np.clip(vec @ dxyz, -1, 1)
    area = np.sum(omega)
    EQ("illum", m.illum, np.sum(ct * lum * omega) * scale)
    EQ("avglum", m.avglum, np.sum(lum * omega) * scale / area)
    EQ("view_area", m.view_area, area)
    EQ("maxlum", m.maxlum, np.max(lum) * scale)
    EQ("avgraylum", m.avgraylum, np.mean(lum) * scale)
    EQ("density", m.density, N / area)
    a = np.sum(lum * omega) * scale / area
    g = np.sum(lum ** 2 * omega) * scale ** 2 / area / a ** 2
    EQ("gcr", m.gcr, g)
    EQ("loggcr", m.loggcr, np.log10(g))
    if useguth:
        p = guth(vec, dxyz)
    else:
        p = kim(vec, dxyz)
    EQ("pos_idx", PositionIndex(useguth).positions(vm, vec), p)
    w = omega / p ** 2
    pa = np.sum(lum * w) * scale / np.sum(w)
    pg = np.sum(lum ** 2 * w) * scale ** 2 / np.sum(w) / pa ** 2
    EQ("pwavglum", m.pwavglum, pa)
    EQ("pwgcr", m.pwgcr, pg)
    EQ("logpwgcr", m.logpwgcr, np.log10(pg))


def C22_dark(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), dxyz=unit(3)):
    vm = ViewMapper(dxyz, 360)
    m = BaseMetricSet(vec, omega, np.zeros(N), vm, None)
    EQ("gcr", m.gcr, 1.0)
    EQ("pwgcr", m.pwgcr, 1.0)


def C22_at_threshold(vec=cone(N, 60), omega=pos(N, lo=.01, hi=.3), lum=ints(N, lo=1, hi=12), t=each(200., 101., 100., .5)):
    """sources are the rays above the threshold: a luminance equal to it is background"""
    m = MetricSet(vec, omega, lum * 50., ViewMapper((0, 0, 1), 180), None, scale=1., threshold=t, tradius=90.)
    cut = t
    if t <= 100:
        cut = t * np.sum(lum * 50. * omega) / np.sum(omega)
    EQ("threshold", m.threshold, cut)
    EQ("srcarea", m.srcarea, np.sum(omega * (lum * 50. > cut)))


def C22_glare(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
              dxyz=unit(3), scale=posnum(lo=100, hi=200), thresh=posnum(lo=1000, hi=9000),
              tradius=posnum(lo=20, hi=120), factor=posnum(lo=.3, hi=5),
              relative=each(True, False), lowlight=each(True, False), useguth=each(True, False),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1), dim=posnum(lo=1e-3, hi=1)):
    lum = lum ** spread * amp
    scale = scale / amp * dim
    # factors of up to 100 are relative
    thresh = np.maximum(thresh * dim, 101)
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    ct = np.clip(vec @ dxyz, -1, 1)
    if useguth:
        p = guth(vec, dxyz)
    else:
        p = kim(vec, dxyz)
    task = np.arccos(ct) * 180 / np.pi < tradius
    tl = np.sum(lum * omega * task) * scale / np.sum(omega * task)
    if relative:
        t0 = factor
        t = factor * tl
        ASSUME(np.any(task))
    else:
        t0 = thresh
        t = thresh
    m = MetricSet(vec, omega, lum, vm, None, scale=scale, threshold=t0, guth=useguth,
                  tradius=tradius, lowlight=lowlight)
    src = lum * scale > t
    bg = np.logical_not(src)
    ev = np.sum(ct * lum * omega) * scale
    sev = np.sum(ct * lum * omega * src) * scale
    pw = np.sum((lum * scale) ** 2 * omega / p ** 2 * src)
    bl = (ev - sev) / np.pi
    EQ("tasklum", m.tasklum, tl)
    EQ("threshold", m.threshold, t)
    EQ("srcillum", m.srcillum, sev)
    EQ("srcarea", m.srcarea, np.sum(omega * src))
    EQ("pwsl2", m.pwsl2, pw)
    EQ("backlum", m.backlum, bl)
    EQ("backlum_true", m.backlum_true, np.sum(lum * omega * bg) * scale / np.sum(omega * bg))
    EQ("dgp_t1", m.dgp_t1, 5.87e-5 * ev)
    gc = np.log10(1 + pw / ev ** 1.87)
    EQ("log_gc", m.log_gc, gc)
    EQ("dgp_t2", m.dgp_t2, 9.18e-2 * gc)
    ll = 1.
    if lowlight:
        ll = np.where(ev < 500, np.exp(.024 * ev - 4) / (1 + np.exp(.024 * ev - 4)), 1.)
    EQ("dgp", m.dgp, np.minimum(1., ll * (5.87e-5 * ev + 9.18e-2 * gc + .16)))
    ugr = np.maximum(0, 8 * np.log10(.25 * pw / bl))
    EQ("ugr", m.ugr, ugr)
    EQ("ugp", m.ugp, (1 + 2 / 7 * 10 ** (-(ugr + 5) / 40)) ** -10)


def C22_lowlight(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=.1, hi=15),
                 dxyz=unit(3), scale=posnum(lo=50, hi=200), lowlight=each(True, False)):
    m = MetricSet(vec, omega, lum, ViewMapper(dxyz, 360), None, scale=scale,
                  threshold=500., lowlight=lowlight)
    ev = np.sum(np.clip(vec @ dxyz, -1, 1) * lum * omega) * scale
    ASSUME(ev > 0)
    pw = np.sum((lum * scale) ** 2 * omega / guth(vec, dxyz) ** 2 * (lum * scale > 500.))
    d = 5.87e-5 * ev + 9.18e-2 * np.log10(1 + pw / ev ** 1.87) + .16
    ll = 1.
    if lowlight:
        ll = np.where(ev < 500, np.exp(.024 * ev - 4) / (1 + np.exp(.024 * ev - 4)), 1.)
    EQ("dgp", m.dgp, np.minimum(1., ll * d))


def C22_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
              dxyz=unit(3), scale=posnum(lo=100, hi=200), vl=pos(3, lo=.1, hi=.8),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    rgb = rgb ** spread * amp
    scale = scale / amp
    omega = omega * size
    m = ColorMetricSet(vec, omega, rgb, ViewMapper(dxyz, 360), None, scale=scale, vlambda=vl)
    ct = np.clip(vec @ dxyz, -1, 1)
    EQ("irradiance", m.irradiance, (ct * omega) @ rgb * scale)
    EQ("illum", m.illum, np.sum(ct * omega * (rgb @ vl)) * scale)
    r = m(["irradiance", "illum"])
    EQ("layout", r, np.concatenate(((ct * omega) @ rgb * scale,
                                    [np.sum(ct * omega * (rgb @ vl)) * scale])))


def C22_hemisphere(vec=cone(N, 85), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
                   scale=posnum(lo=100, hi=200), dz=num(lo=-.9, hi=.9), asarea=each(True, False),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    """a 180 degree view (all rays well inside of it)"""
    lum = lum ** spread * amp
    scale = scale / amp
    omega = omega * size
    d = np.array((np.sqrt(1 - dz * dz), 0., dz))
    r, u = frame(d)
    v = vec[:, 0:1] * r + vec[:, 1:2] * u + vec[:, 2:3] * d
    m = MetricSet(v, omega, lum, ViewMapper(d, 180), None, scale=scale, threshold=4000.,
                  omega_as_view_area=asarea)
    ct = v @ d
    EQ("illum", m.illum, np.sum(ct * lum * omega) * scale)
    EQ("avglum", m.avglum, np.sum(lum * omega) * scale / np.sum(omega))
    EQ("pwsl2", m.pwsl2, np.sum((lum * scale) ** 2 * omega / guth(v, d) ** 2 * (lum * scale > 4000)))


# ------------------------------------------------------------------ C03 ----

def C03_scale(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
              dxyz=unit(3), scale=posnum(lo=100, hi=200), k=posnum(lo=1e-9, hi=1e9),
              thresh=each(2000., 4500., .7, 3.), lowlight=each(True, False),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    lum = lum ** spread * amp
    scale = scale / amp
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    a = MetricSet(vec, omega, lum, vm, ALL, scale=scale, threshold=thresh, lowlight=lowlight)()
    b = MetricSet(vec, omega, lum * k, vm, ALL, scale=scale / k, threshold=thresh,
                  lowlight=lowlight)()
    for i, n in enumerate(ALL):
        EQ(n, b[i], a[i])


def C03_stray(deg=arr(NS, lo=0, hi=180), turn=arr(NS, lo=0, hi=6), omega=pos(NS, lo=1e-5, hi=1e-3), lum=pos(NS, lo=1, hi=9),
              off=arr(3, lo=-.5, hi=1.4), bright=pos(3, lo=30, hi=5000), dxyz=unit(3), color=each(False, True),
              k=posnum(lo=1e-9, hi=1e9), scale=posnum(lo=100, hi=200), angle=each(180, 120)):
    """with bright rays just outside of the view"""
    h = angle / 2
    deg = np.concatenate((off[0:1] + h, deg[1:3], off[1:2] + h, deg[4:NS - 1], off[2:] + h))
    lum = np.concatenate((bright[0:1], lum[1:3], bright[1:2], lum[4:NS - 1], bright[2:]))
    d = deg * np.pi / 180
    r, u = frame(dxyz)
    side = np.cos(turn)[:, None] * r + np.sin(turn)[:, None] * u
    vec = np.cos(d)[:, None] * dxyz + np.sin(d)[:, None] * side
    vm = ViewMapper(dxyz, angle)
    ms = ["illum", "avglum", "maxlum", "avgraylum", "density", "gcr"]
    if color:
        rgb = lum[:, None] * np.array((.9, 1.1, 1.2))
        a = ColorMetricSet(vec, omega, rgb, vm, ms, scale=scale)()
        b = ColorMetricSet(vec, omega, rgb * k, vm, ms, scale=scale / k)()
    else:
        a = MetricSet(vec, omega, lum, vm, ms, scale=scale)()
        b = MetricSet(vec, omega, lum * k, vm, ms, scale=scale / k)()
    for i, n in enumerate(ms):
        EQ(n, b[i], a[i])


def C03_base(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
             dxyz=unit(3), scale=posnum(lo=100, hi=200), k=posnum(lo=1e-9, hi=1e9),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    lum = lum ** spread * amp
    scale = scale / amp
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    a = BaseMetricSet(vec, omega, lum, vm, BASE, scale=scale)()
    b = BaseMetricSet(vec, omega, lum * k, vm, BASE, scale=scale / k)()
    for i, n in enumerate(BASE):
        EQ(n, b[i], a[i])


def C03_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
              dxyz=unit(3), scale=posnum(lo=100, hi=200), k=posnum(lo=1e-9, hi=1e9),
              thresh=each(3000., 2.),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    rgb = rgb ** spread * amp
    scale = scale / amp
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    ms = ALL + ["irradiance"]
    a = ColorMetricSet(vec, omega, rgb, vm, ms, scale=scale, threshold=thresh)()
    b = ColorMetricSet(vec, omega, rgb * k, vm, ms, scale=scale / k, threshold=thresh)()
    for i, n in enumerate(ms):
        EQ(n, b[i], a[i])


# ------------------------------------------------------------------ C04 ----

def C04_split(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
              dxyz=unit(3), f=num(lo=.1, hi=.9), thresh=each(2000., .8),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    lum = lum ** spread * amp
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    a = MetricSet(vec, omega, lum, vm, SUMS, threshold=thresh)()
    v2 = np.concatenate((vec, vec[0:3]))
    o2 = np.concatenate((omega[0:3] * f, omega[3:], omega[0:3] * (1 - f)))
    l2 = np.concatenate((lum, lum[0:3]))
    b = MetricSet(v2, o2, l2, vm, SUMS, threshold=thresh)()
    for i, n in enumerate(SUMS):
        EQ(n, b[i], a[i])


def C04_task(vec=cone(N, 40), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dz=num(lo=-.9, hi=.9),
             f=num(lo=.1, hi=.9), size=posnum(lo=1e-12, hi=1), tradius=posnum(lo=25, hi=50), thresh=each(2000., .8),
             angle=each(360, 180), which=each(0, 2, 5)):
    """rays around the line of sight, of any size"""
    omega = omega * size
    d = np.array((np.sqrt(1 - dz * dz), 0., dz))
    r, u = frame(d)
    v = vec[:, 0:1] * r + vec[:, 1:2] * u + vec[:, 2:3] * d
    vm = ViewMapper(d, angle)
    a = MetricSet(v, omega, lum, vm, SUMS, threshold=thresh, tradius=tradius)()
    b = MetricSet(np.concatenate((v, v[which:which + 1])),
                  np.concatenate((omega[:which], omega[which:which + 1] * f, omega[which + 1:], omega[which:which + 1] * (1 - f))),
                  np.concatenate((lum, lum[which:which + 1])), vm, SUMS, threshold=thresh, tradius=tradius)()
    for i, n in enumerate(SUMS):
        EQ(n, b[i], a[i])


def C04_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
              dxyz=unit(3), f=num(lo=.1, hi=.9),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    rgb = rgb ** spread * amp
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    ms = SUMS + ["irradiance"]
    a = ColorMetricSet(vec, omega, rgb, vm, ms)()
    v2 = np.concatenate((vec, vec[0:3]))
    o2 = np.concatenate((omega[0:3] * f, omega[3:], omega[0:3] * (1 - f)))
    l2 = np.concatenate((rgb, rgb[0:3]))
    b = ColorMetricSet(v2, o2, l2, vm, ms)()
    for i, n in enumerate(ms):
        EQ(n, b[i], a[i])


def C04_base(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
             dxyz=unit(3), f=num(lo=.1, hi=.9),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    lum = lum ** spread * amp
    omega = omega * size
    vm = ViewMapper(dxyz, 360)
    ms = ["illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "pwavglum", "maxlum"]
    a = BaseMetricSet(vec, omega, lum, vm, ms)()
    b = BaseMetricSet(np.concatenate((vec, vec[0:2])),
                      np.concatenate((omega[0:2] * f, omega[2:], omega[0:2] * (1 - f))),
                      np.concatenate((lum, lum[0:2])), vm, ms)()
    for i, n in enumerate(ms):
        EQ(n, b[i], a[i])


# ------------------------------------------------------------------ C05 ----

def C05_sum(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
            vec2=unit(4, 3), omega2=pos(4, lo=.01, hi=.3), lum2=pos(4, lo=1, hi=60),
            dxyz=unit(3), scale=posnum(lo=100, hi=200), thresh=each(2000., 5000.),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    lum = lum ** spread * amp
    lum2 = lum2 ** spread * amp
    scale = scale / amp
    omega = omega * size
    omega2 = omega2 * size
    vm = ViewMapper(dxyz, 360)
    ms = sorted(MetricSet.safe2sum)
    EQ("declared", MetricSet.check_safe2sum(ms), True)
    area = np.sum(omega) + np.sum(omega2)
    a = MetricSet(vec, omega, lum, vm, ms, scale=scale, threshold=thresh)
    b = MetricSet(vec2, omega2, lum2, vm, ms, scale=scale, threshold=thresh)
    c = MetricSet(np.concatenate((vec, vec2)), np.concatenate((omega, omega2)),
                  np.concatenate((lum, lum2)), vm, ms, scale=scale, threshold=thresh)
    a.view_area = area
    b.view_area = area
    x = a()
    y = b()
    z = c()
    for i, n in enumerate(ms):
        EQ(n, z[i], x[i] + y[i])


def C05_base(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
             vec2=unit(4, 3), omega2=pos(4, lo=.01, hi=.3), lum2=pos(4, lo=1, hi=60),
             dxyz=unit(3),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    lum = lum ** spread * amp
    lum2 = lum2 ** spread * amp
    omega = omega * size
    omega2 = omega2 * size
    vm = ViewMapper(dxyz, 360)
    ms = sorted(BaseMetricSet.safe2sum)
    area = np.sum(omega) + np.sum(omega2)
    a = BaseMetricSet(vec, omega, lum, vm, ms)
    b = BaseMetricSet(vec2, omega2, lum2, vm, ms)
    c = BaseMetricSet(np.concatenate((vec, vec2)), np.concatenate((omega, omega2)),
                      np.concatenate((lum, lum2)), vm, ms)
    a.view_area = area
    b.view_area = area
    x = a()
    y = b()
    z = c()
    for i, n in enumerate(ms):
        EQ(n, z[i], x[i] + y[i])


def C05_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
              vec2=unit(4, 3), omega2=pos(4, lo=.01, hi=.3), rgb2=pos(4, 3, lo=1, hi=60),
              dxyz=unit(3),
             amp=posnum(lo=1e-6, hi=1e6), spread=num(lo=.3, hi=4), size=posnum(lo=1e-9, hi=1)):
    rgb = rgb ** spread * amp
    rgb2 = rgb2 ** spread * amp
    omega = omega * size
    omega2 = omega2 * size
    vm = ViewMapper(dxyz, 360)
    ms = sorted(ColorMetricSet.safe2sum)
    area = np.sum(omega) + np.sum(omega2)
    a = ColorMetricSet(vec, omega, rgb, vm, ms)
    b = ColorMetricSet(vec2, omega2, rgb2, vm, ms)
    c = ColorMetricSet(np.concatenate((vec, vec2)), np.concatenate((omega, omega2)),
                       np.concatenate((rgb, rgb2)), vm, ms)
    a.view_area = area
    b.view_area = area
    EQ("all", c(), a() + b())


# ------------------------------------------------------------------ C25 ----

def C25_perm(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
             dxyz=unit(3), shift=each(1, 2, 5), angle=each(360, 180, 90),
             amp=posnum(lo=1e-6, hi=1e2), spread=num(lo=.3, hi=2), size=posnum(lo=1e-9, hi=1)):
    """metrics do not depend on the order of the rays"""
    lum = lum ** spread * amp
    omega = omega * size
    vm = ViewMapper(dxyz, angle)
    a = MetricSet(vec, omega, lum, vm, ALL, threshold=3000.)()
    b = MetricSet(np.roll(vec, shift, 0), np.roll(omega, shift), np.roll(lum, shift),
                  vm, ALL, threshold=3000.)()
    for i, n in enumerate(ALL):
        EQ(n, b[i], a[i])


def C25_rev(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
            dxyz=unit(3), angle=each(360, 180),
             size=posnum(lo=1e-9, hi=1)):
    omega = omega * size
    vm = ViewMapper(dxyz, angle)
    ms = ALL + ["irradiance"]
    a = ColorMetricSet(vec, omega, rgb, vm, ms, threshold=3000.)()
    b = ColorMetricSet(vec[::-1], omega[::-1], rgb[::-1], vm, ms, threshold=3000.)()
    for i, n in enumerate(ms):
        EQ(n, b[i], a[i])


def C25_position(vec=unit(N, 3), dxyz=unit(3), guth=each(True, False)):
    """the position index of a ray does not depend on the other rays"""
    vm = ViewMapper(dxyz, 360)
    p = PositionIndex(guth)
    EQ("subset", p.positions(vm, vec)[2:5], p.positions(vm, vec[2:5]))


def C25_rays(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
             dxyz=unit(3), angle=each(180, 100)):
    """the rays a metric set keeps are exactly those in view, still paired"""
    vm = ViewMapper(dxyz, angle)
    m = MetricSet(vec, omega, lum, vm, None, threshold=3000.)
    keep = vm.in_view(vec, indices=False)
    ASSUME(np.any(keep))
    EQ("lum", m.lum, lum[keep])
    EQ("omega", m.omega, omega[keep])
    EQ("vec", m.vec, vec[keep])
    src = lum[keep] * 179. > 3000.
    s = m.sources
    EQ("source vec", s[0], vec[keep][src])
    EQ("source omega", s[1], omega[keep][src])
    EQ("source lum", s[2], lum[keep][src])
    b = m.background
    EQ("background vec", b[0], vec[keep][np.logical_not(src)])
    EQ("background omega", b[1], omega[keep][np.logical_not(src)])
    EQ("background lum", b[2], lum[keep][np.logical_not(src)])


def C25_stray(deg=arr(NS, lo=0, hi=180), turn=arr(NS, lo=0, hi=6), omega=pos(NS, lo=1e-5, hi=1e-3), lum=pos(NS, lo=1, hi=9),
              off=arr(3, lo=-.5, hi=1.4), bright=pos(3, lo=100, hi=5000), dxyz=unit(3), color=each(False, True)):
    """bright rays just outside of the view keep the part of their own disk that is inside"""
    deg = np.concatenate((off[0:1] + 90, deg[1:3], off[1:2] + 90, deg[4:NS - 1], off[2:] + 90))
    lum = np.concatenate((bright[0:1], lum[1:3], bright[1:2], lum[4:NS - 1], bright[2:]))
    ASSUME(np.all(np.abs(deg - 90) > 1e-4) and np.all(np.abs(deg[4:NS - 1] - 90) > .5))
    d = deg * np.pi / 180
    r = np.cross(dxyz, np.array((0., 0., 1.)))
    r = r / np.sqrt(np.sum(r * r))
    side = np.cos(turn)[:, None] * r + np.sin(turn)[:, None] * np.cross(r, dxyz)
    vec = np.cos(d)[:, None] * dxyz + np.sin(d)[:, None] * side
    if color:
        m = ColorMetricSet(vec, omega, np.stack((lum, lum, lum), -1), ViewMapper(dxyz, 180), None)
    else:
        m = MetricSet(vec, omega, lum, ViewMapper(dxyz, 180), None)
    a = np.pi / 2
    b = np.sqrt(omega / np.pi)
    # rtol of the edge zone
    cut = (deg > 90) & (deg < 91.001) & (lum > 10 * np.mean(lum)) & (d < a + b)
    ASSUME(np.all(np.abs(deg - 91.001) > .003))
    x = (a ** 2 - b ** 2 + d ** 2) / (2 * d)
    lens = a ** 2 * np.arccos(np.clip(x / a, -1, 1)) + b ** 2 * np.arccos(np.clip((d - x) / b, -1, 1)) - d * np.sqrt(np.maximum(a ** 2 - x ** 2, 0))
    keep = (deg < 90) | cut
    EQ("luminance", m.lum, lum[keep])
    EQ("solid angle", m.omega, np.where(cut, lens, omega)[keep])
    t = np.where(cut, x, d)
    EQ("direction", m.vec, (np.cos(t)[:, None] * dxyz + np.sin(t)[:, None] * side)[keep])


# ------------------------------------------------------------------ C26 ----

def C26_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
              dxyz=unit(3), scale=posnum(lo=100, hi=200), vl=pos(3, lo=.1, hi=.6),
              thresh=each(2000., 4000., 1.5), angle=each(360, 180), lowlight=each(True, False),
              guth=each(True, False), tradius=posnum(lo=20, hi=80), asarea=each(True, False),
             amp=posnum(lo=1e-6, hi=1e2), spread=num(lo=.3, hi=2), size=posnum(lo=1e-9, hi=1)):
    rgb = rgb ** spread * amp
    scale = scale / amp
    omega = omega * size
    vm = ViewMapper(dxyz, angle)
    a = MetricSet(vec, omega, rgb @ vl, vm, ALL, scale=scale, threshold=thresh,
                  lowlight=lowlight, guth=guth, tradius=tradius, omega_as_view_area=asarea)()
    b = ColorMetricSet(vec, omega, rgb, vm, ALL, scale=scale, threshold=thresh,
                       lowlight=lowlight, guth=guth, tradius=tradius,
                       omega_as_view_area=asarea, vlambda=vl)()
    for i, n in enumerate(ALL):
        EQ(n, b[i], a[i])


def C26_gamut(vec=cone(N, 80), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=9), dz=num(lo=-.9, hi=.9),
              channel=each(0, 2), vl=each((0.265, 0.670, 0.065), (.2, .7, .1)), angle=each(360, 180)):
    """colours with a negative channel"""
    sign = np.ones(3)
    sign[channel] = -.3
    rgb = rgb * np.where(rgb > 4, sign, np.ones(3))
    d = np.array((np.sqrt(1 - dz * dz), 0., dz))
    r, u = frame(d)
    v = vec[:, 0:1] * r + vec[:, 1:2] * u + vec[:, 2:3] * d
    vm = ViewMapper(d, angle)
    ASSUME(np.all(rgb @ np.array(vl) > 0))
    a = MetricSet(v, omega, rgb @ np.array(vl), vm, ALL)()
    b = ColorMetricSet(v, omega, rgb, vm, ALL, vlambda=vl)()
    for i, n in enumerate(ALL):
        EQ(n, b[i], a[i])
    EQ("irradiance", ColorMetricSet(v, omega, rgb, vm, ["irradiance"], vlambda=vl)(),
       np.einsum("i,i,ij->j", np.clip(v @ d, -1, 1), omega, rgb) * 179)


def C26_default(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
                dxyz=unit(3)):
    vm = ViewMapper(dxyz, 360)
    a = MetricSet(vec, omega, rgb @ np.array((0.265, 0.670, 0.065)), vm, ALL)()
    b = ColorMetricSet(vec, omega, rgb, vm, ALL)()
    for i, n in enumerate(ALL):
        EQ(n, b[i], a[i])


# ------------------------------------------------------------------ C02 ----

def C02_first(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
              dxyz=unit(3), first=each(*ALL), thresh=each(3000., 2.), scale=each(179., .02)):
    """requesting any metric before does not change the values"""
    vm = ViewMapper(dxyz, 360)
    a = MetricSet(vec, omega, lum, vm, ALL, scale=scale, threshold=thresh)()
    m = MetricSet(vec, omega, lum, vm, None, scale=scale, threshold=thresh, lowlight=False)
    o = BaseMetricSet(vec, omega, lum * 2, ViewMapper(-dxyz, 360), None)
    m([first])
    o()
    m([first, first])
    z = MetricSet(vec, omega * .5, lum * 3, vm, None, scale=scale * .3, threshold=.5 if first == 'dgp' else 700.)
    z([first])
    w = z()
    x = m(ALL)
    y = m(ALL[::-1])[::-1]
    for i, n in enumerate(ALL):
        EQ(n, x[i], a[i])
        EQ(n + " reversed", y[i], a[i])




def C02_between(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3),
                first=each(*ALL), thresh=each(3000., 2., .3), scale=posnum(lo=1e-3, hi=1e3)):
    """two metric sets computed in turns give what each gives alone"""
    vm = ViewMapper(dxyz, 360)
    wm = ViewMapper(-dxyz, 360)
    a = MetricSet(vec, omega, lum, vm, ALL, scale=scale, threshold=thresh)()
    b = MetricSet(vec[1:], omega[1:], lum[1:] * 2, wm, ALL, scale=scale, threshold=.9)()
    m = MetricSet(vec, omega, lum, vm, ALL, scale=scale, threshold=thresh)
    o = MetricSet(vec[1:], omega[1:], lum[1:] * 2, wm, ALL, scale=scale, threshold=.9)
    m([first])
    o([first])
    m([first])
    x = o()
    y = m()
    o(ALL[::-1])
    z = m()
    for i, n in enumerate(ALL):
        EQ(n, y[i], a[i])
        EQ(n + " other", x[i], b[i])
        EQ(n + " again", z[i], a[i])


def evaluated(vec, omega, lum, vm, names, scale, threshold, guth, tradius):
    return MetricSet(vec, omega, lum, vm, names, scale=scale, threshold=threshold, guth=guth, tradius=tradius)()


def C02_shares(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3),
               vec2=unit(N, 3), omega2=pos(N, lo=.01, hi=.3), lum2=pos(N, lo=1, hi=60), dxyz2=unit(3), a=integer(0, N - 1),
               share=each("all but one ray", "first ray", "last ray", "rays", "sizes", "luminances", "rays and sizes",
                          "rays and luminances", "sizes and luminances", "view", "nothing", "options", "values and view"),
               thresh=each(3000., 2.), scale=posnum(lo=1e-2, hi=1e2)):
    """a metric set gives what it gives in a fresh program, whichever sets
    were computed before; `share` says what those have in common with it"""
    v, o, l, d = vec2, omega2, lum2, dxyz2
    if share == "all but one ray":
        v = np.where(np.arange(N)[:, None] == a, vec2, vec)
    elif share == "first ray":
        v = np.concatenate((vec[:1], vec2[1:]))
    elif share == "last ray":
        v = np.concatenate((vec2[:-1], vec[-1:]))
    if share in ("rays", "rays and sizes", "rays and luminances", "values and view"):
        v = vec
    if share in ("sizes", "rays and sizes", "sizes and luminances", "all but one ray", "options"):
        o = omega
    if share in ("luminances", "rays and luminances", "sizes and luminances", "all but one ray", "values and view"):
        l = lum
    if share in ("view", "all but one ray", "first ray", "last ray", "rays and luminances", "values and view"):
        d = dxyz
    vm = ViewMapper(dxyz, 360)
    wm = ViewMapper(d, 360)
    names = ALL[::-1]
    x = FRESH(evaluated, vec, omega, lum, vm, ALL, scale, thresh, True, 30.)
    y = FRESH(evaluated, v, o, l, wm, names, scale, thresh, True, 30.)
    EQ("values", evaluated(vec, omega, lum, vm, ALL, scale, thresh, True, 30.), x)
    EQ("next", evaluated(v, o, l, wm, names, scale, thresh, True, 30.), y)
    EQ("first again", evaluated(vec, omega, lum, vm, ALL, scale, thresh, True, 30.), x)


def C02_options(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3), scale=posnum(lo=1e-2, hi=1e2),
                thresh=posnum(lo=.5, hi=5000), which=each("scale", "threshold", "index", "task"), t=posnum(lo=.1, hi=10)):
    """a metric set gives what it gives in a fresh program after sets of the
    same rays with other options"""
    vm = ViewMapper(dxyz, 360)
    s2, t2, g2, r2 = scale, thresh, True, 30.
    if which == "scale":
        s2 = scale * t
    elif which == "threshold":
        t2 = thresh * t
    elif which == "index":
        g2 = False
    else:
        r2 = 90.
    x = FRESH(evaluated, vec, omega, lum, vm, ALL, scale, thresh, True, 30.)
    y = FRESH(evaluated, vec, omega, lum, vm, ALL, s2, t2, g2, r2)
    EQ("other", evaluated(vec, omega, lum, vm, ALL, s2, t2, g2, r2), y)
    EQ("values", evaluated(vec, omega, lum, vm, ALL, scale, thresh, True, 30.), x)
    EQ("other again", evaluated(vec, omega, lum, vm, ALL, s2, t2, g2, r2), y)


def C02_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60),
              dxyz=unit(3), first=each("illum", "irradiance", "dgp", "ugr", "srcarea", "backlum_true", "gcr", "threshold"),
              thresh=each(1500., 1.5), scale=each(179., .02)):
    vm = ViewMapper(dxyz, 360)
    ms = ALL + ["irradiance"]
    a = ColorMetricSet(vec, omega, rgb, vm, ms, scale=scale, threshold=thresh)()
    m = ColorMetricSet(vec, omega, rgb, vm, None, scale=scale, threshold=thresh)
    m([first])
    m()
    ColorMetricSet(vec, omega * .5, rgb * 3, vm, ["irradiance"], threshold=700.)()
    MetricSet(vec, omega * .5, rgb[:, 0], vm, [first if first != "irradiance" else "dgp"])()
    x = m(ms)
    y = m(ms[::-1])
    for i, n in enumerate(ms):
        EQ(n, x[i], a[i])
    EQ("reversed", y[3:], x[:-3][::-1])


def C02_base(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60),
             dxyz=unit(3), first=each(*BASE)):
    vm = ViewMapper(dxyz, 180)
    a = BaseMetricSet(vec, omega, lum, vm, BASE)()
    m = BaseMetricSet(vec, omega, lum, vm, [first])
    m()
    MetricSet(vec, omega, lum, vm, None)()
    x = m(BASE)
    y = m()
    for i, n in enumerate(BASE):
        EQ(n, x[i], a[i])
    EQ("default", y, m([first]))


def C02_defaults(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3)):
    """a metric set created with its own list does not change the default list"""
    vm = ViewMapper(dxyz, 360)
    a = MetricSet(vec, omega, lum, vm)
    n = len(a())
    MetricSet(vec, omega, lum, vm, ["ugr", "gcr"])()
    a(["density"])
    EQ("same object", a(), MetricSet(vec, omega, lum, vm)())
    EQ("count", len(a()), n)
