"""glare sensation model, retina and sensor formulas (C22, parts of C03 C15 C19 C25)"""
import numpy as np
from scipy.ndimage import gaussian_filter, convolve
from spec import EQ, HOLDS, ASSUME
from raytools import io
from raytools.mapper import ViewMapper
from raytools.evaluate import retina, hvsgsm
from raytools.evaluate.hvsgsm import GSS

N = 5
SINGLE = "N"
RES = 6


def readimage(imgf, stdin=None, header=False, vlambda=None):
    """an image file stands for its pixel values"""
    return imgf


MODELS = {"raytools.io.hdr2array": readimage}


# ----------------------------------------------------- point formulas -----
def C22_pupil(ev=pos(N, lo=1, hi=20000), age=posnum(lo=15, hi=80)):
    g = GSS(age=age)
    a, d = g.pupil(ev)
    ref = 5 - 3 * np.tanh(.4 * np.log10(ev / 1600)) - .043 * (age - 10) * np.exp(-ev / 174)
    EQ("pupil diameter", d, ref)
    EQ("pupil area", a, np.pi * ref ** 2 / 4)


def C22_retinal(lum=pos(N, lo=1, hi=1e5), pupa=posnum(lo=3, hi=40), f=posnum(lo=10, hi=25)):
    g = GSS(f=f)
    EQ("retinal irradiance", g.retinal_irradiance(lum, pupa), pupa * lum / f ** 2)


def C22_psf(pupd=posnum(lo=2, hi=8), age=posnum(lo=15, hi=80), p=posnum(lo=.05, hi=.17),
            phi=arr(N, lo=-.1, hi=.1)):
    g = GSS(age=age, pigmentation=p)
    b, c = g.psf_coef(pupd)
    af = 1 + (age / 70) ** 4
    bb = 9000 - 936 * np.sqrt(af)
    e = np.sqrt(af) / 2000
    csa = 1 / (1 + af / (1 / p - 1))
    cla = 1 / (1 + (1 / p - 1) / af)
    c3 = cla / (1 + 25 * p) / (1 + 1 / af)
    q = (pupd / 3.2) ** 2
    EQ("c1", c[0], csa / (1 + q))
    EQ("c2", c[1], csa / (1 + 1 / q))
    EQ("c3", c[2], c3)
    EQ("c4", c[3], cla - c3)
    EQ("coefficients sum to one", c[0] + c[1] + c[2] + c[3], 1.)
    EQ("b1", b[0], (1 + q) / (bb * pupd))
    EQ("b2", b[1], (1 + 1 / q) * (e - 1 / (bb * pupd)))
    EQ("b3", b[2], 1 / (10 + 60 * p - 5 / af))
    EQ("b4", b[3], 1)
    EQ("point spread term", hvsgsm.f_b(b[2], c[2], phi),
       c[2] * b[2] / (2 * np.pi * (np.sin(phi) ** 2 + b[2] ** 2 * np.cos(phi) ** 2) ** 1.5))
    EQ("line spread term", hvsgsm.l_b(b[2], c[2], phi),
       c[2] * b[2] / (np.pi * (np.sin(phi) ** 2 + b[2] ** 2 * np.cos(phi) ** 2)))


def C22_adaptation(er=pos(N, lo=.1, hi=1000), eg=posnum(lo=.1, hi=100), contrast=posnum(lo=.5, hi=.95)):
    g = GSS()
    EQ("local adaptation", g.local_eye_adaptation(er, eg),
       10 ** (.8 * np.log10(er) + .2 * np.log10(eg)))
    g.contrast = contrast
    EQ("local adaptation for a contrast", g.local_eye_adaptation(er, eg),
       10 ** (contrast * np.log10(er) + (1 - contrast) * np.log10(eg)))


def C22_cone(er=pos(N, lo=.1, hi=1000), ea=pos(N, lo=.1, hi=1000)):
    s = (5.701055 ** (1 / 2.55) + ea ** (1 / 2.55)) ** 2.55
    EQ("cone response", GSS().cone_response(er, ea), er ** .74 / (er ** .74 + s ** .74))


def meridian(deg, m, outer):
    """Watson (2014): both terms are fractions of the foveal density"""
    f = 33162.4
    a = np.array((.9851255243509307, .9934935604656688, .9729319961934142, .9960391452747578))[m]
    r2 = np.array((1.057910790284875, 1.0354962329628912, 1.0841663616483523, .993222146189384))[m]
    re = np.array((22.139309670912258, 16.346430181031927, 7.632575316432455, 12.131840717293096))[m]
    return f * a * (1 + deg / r2) ** -2. + outer * (1 - a) * np.exp(-deg / re)


def C22_density(deg=pos(N, lo=.1, hi=60), m=each(0, 1, 2, 3)):
    EQ("field density on a meridian", retina.rgcf_density_on_meridian(deg, np.full(N, m)), meridian(deg, m, 33162.4))


def C22_density_as_listed(deg=pos(N, lo=.1, hi=60), m=ints(N, lo=0, hi=3)):
    """right, or wrong exactly as listed in the known findings; each position on
    its own meridian"""
    d = retina.rgcf_density_on_meridian(deg, m)
    a = meridian(deg, m, 33162.4)
    b = meridian(deg, m, 1.)
    HOLDS("density", np.all(np.abs(d - a) <= 1e-9 * a) or np.all(np.abs(d - b) <= 1e-9 * b))


def C22_eyespread(x=arr(N, lo=-3, hi=3), y=pos(N, lo=.01, hi=.99), w=posnum(lo=.05, hi=.5)):
    EQ("eye spread", retina.hpsf(x, w), 1 / (1 + (2 * x / w) ** 2))
    EQ("eye spread default width", retina.hpsf(x), 1 / (1 + (2 * x / .183333) ** 2))
    EQ("inverse eye spread", retina.inv_hpsf(y, w), w / 2 * np.sqrt(1 / y - 1))


def C28_eyespread(x=pos(N, lo=.01, hi=3), y=pos(N, lo=.01, hi=.99), w=posnum(lo=.05, hi=.5)):
    EQ("radius", retina.inv_hpsf(retina.hpsf(x, w), w), x)
    EQ("spread", retina.hpsf(retina.inv_hpsf(y, w), w), y)
    EQ("radius, default width", retina.inv_hpsf(retina.hpsf(x)), x)


def C22_blursun(omega=pos(N, lo=1e-6, hi=1e-3), lmax=pos(N, lo=100, hi=1e7), lmin=posnum(lo=200, hi=400)):
    w = .183333
    top = lmin * (1 + (2 / w) ** 2)
    l = np.clip(lmax, lmin, top)
    r0 = np.sqrt(omega / np.pi) * 180 / np.pi
    EQ("sun blur", retina.blur_sun(omega, lmax, lmin), ((r0 + w / 2 * np.sqrt(l / lmin - 1)) / r0) ** 2)


def C22_rgbe(m=ints(N, 3, lo=0, hi=255), dark=ints(N, 3, lo=0, hi=1), ex=ints(N, lo=120, hi=140)):
    m = m * dark
    rgb = np.where(m == 0, 0., m + .5) / 256 * (2. ** (ex - 128))[:, None]
    EQ("rgbe luminance", io.rgbe2lum(np.concatenate((m, ex[:, None]), 1)),
       179 * (.265 * rgb[:, 0] + .67 * rgb[:, 1] + .065 * rgb[:, 2]))


def C22_luminance(rgb=pos(N, 3, lo=.01, hi=100), vl=pos(3, lo=.1, hi=.8), img=pos(3, 4, 3)):
    EQ("radiance", io.rgb2rad(rgb), .265 * rgb[:, 0] + .67 * rgb[:, 1] + .065 * rgb[:, 2])
    EQ("radiance weights", io.rgb2rad(rgb, vl), rgb @ vl)
    EQ("luminance", io.rgb2lum(rgb), 179 * (.265 * rgb[:, 0] + .67 * rgb[:, 1] + .065 * rgb[:, 2]))
    EQ("luminance weights", io.rgb2lum(rgb, vl), 179 * (rgb @ vl))
    EQ("luminance of an image", io.rgb2lum(img, vl), 179 * (img @ vl))


# --------------------------------------------------------- whole images ---
def C22_image(img=pos(RES, RES, lo=.002, hi=60), dim=each(1., 3e-4), age=each(40, 18), dxyz=unit(3), scale=posnum(lo=50, hi=250),
              ev=posnum(lo=.5, hi=4000)):
    vm = ViewMapper(dxyz, 180)
    g = GSS(vm, scale=scale, age=age)
    img = img * dim
    g.lum = img
    v = vm.pixelrays(RES).reshape(-1, 3)
    ct = np.clip(v @ dxyz, -1, 1)
    inside = np.arccos(ct) < np.pi / 2
    om = vm.pixel2omega(vm.pixels(RES), RES).ravel() * inside
    EQ("luminance", g.lum, img * scale)
    EQ("solid angle", g.omega.ravel(), om)
    EQ("cosine", g.ctheta.ravel(), np.maximum(0, ct))
    q = vm.xyz2vxy(v) * 2 - 1
    e = np.sqrt((q[:, 0] / 1.05556) ** 2 + np.where(q[:, 1] >= 0, q[:, 1] / .61111, q[:, 1] / .94444) ** 2)
    ecc = np.minimum(e, 1) * (.12 - .009) + .009
    EQ("eccentricity", g.sigma_c.ravel(), ecc)
    w = (img * scale).ravel() ** 4 * om
    EQ("glare eccentricity", g.ecc, np.sum(w * ecc) / np.sum(w))
    illum = np.sum(np.maximum(0, ct) * (img * scale).ravel() * om)
    eg, pa, pd = g.adapt()
    ra, rd = g.pupil(illum)
    EQ("pupil of the image illuminance", pd, rd)
    EQ("global retinal irradiance", eg, ra * illum / np.pi / 16.67 ** 2)
    eg2, pa2, pd2 = g.adapt(ev)
    ra2, rd2 = g.pupil(ev)
    EQ("pupil of a given illuminance", pd2, rd2)
    EQ("global irradiance of a given illuminance", eg2, ra2 * ev / np.pi / 16.67 ** 2)


def score(r, om, ecc, raw):
    s = np.sum(r ** 4 * om) ** .25
    if raw:
        return s
    x = (ecc - .009) / (.12 - .009)
    p = (33.12797281708 + x * (2.28728777265947 + x * (-104.614198351476 + x * (-275.450102180091 + x * (
        1587.82553529394 + x * (-2570.6813747583033 + x * (1837.1741161137818 + x * -499.849190278)))))))
    return s * p


def C22_normalize(r=arr(RES, RES, lo=-1, hi=1), img=pos(RES, RES, lo=.5, hi=60), raw=each(True, False)):
    g = GSS(ViewMapper((0, 1, 0), 180), raw=raw)
    g.lum = img
    n = g.normalized_field_response(r)
    EQ("on response", n[0], np.where(g.mask.reshape(RES, RES), 1 / (1 + np.exp(-22 * (r - .25))), 0))
    EQ("off response", n[1], np.where(g.mask.reshape(RES, RES), 1 / (1 + np.exp(22 * (r + .25))), 0))
    EQ("score of a response", g.gss(n), score(n, g.omega, g.ecc, raw))


def C22_movement(er=pos(RES, RES, lo=.5, hi=60), img=pos(RES, RES), eg=posnum(lo=.1, hi=50), va=each(180., 1., .3)):
    """a narrow view resolves the movements at this size of the image"""
    g = GSS(ViewMapper((0, 1, 0), va))
    g.lum = img
    k = RES / (60 * va)
    EQ("adaptation movement", g.apply_eye_movement_1(er),
       .62 * gaussian_filter(er, k / (np.sqrt(2) * .167)) +
       .38 * gaussian_filter(er, k / (np.sqrt(2) * .05), truncate=30 * np.sqrt(2) * .05), rtol=1e-6)
    t = .1 / (eg * 16.67 ** 2) ** .12
    EQ("direct movement", g.apply_eye_movement_2(er, eg),
       gaussian_filter(gaussian_filter(er, 2 * np.sqrt(30 * t) * k), 2 * np.sqrt(250 * t) * k))


def C22_compute(img=pos(RES, RES, lo=.5, hi=60), ev=posnum(lo=100, hi=4000), psf=each(True, False),
                am=each(True, False), dm=each(True, False), raw=each(False), given=each(True, False), va=each(180., 1.)):
    """the steps of the model in their published order"""
    g = GSS(ViewMapper((0, 1, 0), va), psf=psf, adaptmove=am, directmove=dm, raw=raw, fwidth=va / 2)
    g.lum = img
    if given:
        eg, pa, pd = g.adapt(ev)
        got = g.compute(ev_eye=ev)
    else:
        eg, pa, pd = g.adapt()
        got = g.compute()
    e = g.retinal_irradiance(g.lum, pa)
    if psf:
        e = g.apply_psf(e, pd)
    a = e
    if am:
        a = g.apply_eye_movement_1(e)
    c = e
    if dm:
        c = g.apply_eye_movement_2(e, eg)
    ea = g.local_eye_adaptation(a, eg)
    v = g.cone_response(c, ea)
    f = g.field_response(v)
    r = g.normalized_field_response(f)
    EQ("score", got, score(r, g.omega, g.ecc, raw))
    rg, p = g.glare_response(g.lum, eg, pa, pd, return_arrays=True)
    EQ("response", rg, r)
    EQ("retinal irradiance", p["01_retinal_irrad"], g.retinal_irradiance(g.lum, pa))
    EQ("spread is reported", "02_psf" in p, psf)
    EQ("adaptation movement is reported", "03_adapt_eye_movement" in p, am)
    EQ("direct movement is reported", "04_direct_eye_movement" in p, dm)
    if psf:
        EQ("spread", p["02_psf"], e)
    if am:
        EQ("adaptation movement", p["03_adapt_eye_movement"], a)
    if dm:
        EQ("direct movement", p["04_direct_eye_movement"], c)
    EQ("local adaptation", p["05_local_adaptation"], ea)
    EQ("response ratio", p["06_response_ratio"], v)
    EQ("linear response", p["07_response_lin"], f)
    EQ("logistic response", p["08_response_log"], np.stack((r[0], r[1], np.zeros((RES, RES)))))


def C22_spread(er=pos(RES, RES, lo=.5, hi=60), img=pos(RES, RES), pupd=posnum(lo=2, hi=8), age=posnum(lo=15, hi=80), p=posnum(lo=.05, hi=.17),
               width=num(lo=62, hi=88)):
    """the retinal image convolved with the point spread function within
    the frame, what is spread farther evenly added"""
    g = GSS(ViewMapper((0, 1, 0), 180), age=age, pigmentation=p, fwidth=width)
    g.lum = img
    b, c = g.psf_coef(pupd)
    n = 3
    frame = ViewMapper((0, 1, 0), width)
    v = frame.pixelrays(n)
    phi = np.arccos(np.clip(v[..., 1], -1, 1))
    k = np.zeros((n, n))
    cap = 0.
    for i in range(4):
        k = k + c[i] * b[i] / (2 * np.pi * (np.sin(phi) ** 2 + b[i] ** 2 * np.cos(phi) ** 2) ** 1.5)
        cap = cap + c[i] * 2 / np.pi * np.arctan(np.tan(width * np.pi / 360) / b[i])
    k = np.where(phi <= width * np.pi / 360, k, 0) * frame.pixel2omega(frame.pixels(n), n)
    rim = np.array(((1., 1, 1), (1, 0, 1), (1, 1, 1)))
    k = k * rim
    k = k + (1 - rim) * (cap - np.sum(k))
    om = g.omega
    rest = np.sum(er * om) / np.sum(om) * (1 - cap)
    EQ("spread image", g.apply_psf(er, pupd), convolve(er, k) + rest, rtol=1e-4)


def C22_field(vvm=pos(RES, RES, lo=.1, hi=.9), img=pos(RES, RES), va=each(180., 1., .3)):
    g = GSS(ViewMapper((0, 1, 0), va))
    g.lum = img
    steps = np.exp(np.linspace(np.log(.009), np.log(.12), 31))
    s = g.sigma_c
    ref = np.zeros((RES, RES))
    for i in range(31):
        lo = 0.
        hi = 1.
        if i > 0:
            lo = (steps[i - 1] + steps[i]) / 2
        if i < 30:
            hi = (steps[i + 1] + steps[i]) / 2
        w = steps[i] * RES / va
        d = gaussian_filter(vvm, w) - .67 * gaussian_filter(vvm, 3.5 * w)
        ref = np.where(np.logical_and(lo <= s, s < hi), d, ref)
    EQ("field response", g.field_response(vvm), ref, atol=1e-9)


# ----------------------------------------------------- history of a model --
def C15_batch(a=pos(RES, RES, lo=.5, hi=60), b=pos(RES, RES, lo=.5, hi=60), big=pos(8, 8, lo=.5, hi=60),
              ev=posnum(lo=100, hi=4000), bright=each(1., 1e-4, 1e4), peak=each(1., 500.)):
    """`bright` is the brightness of the images before, `peak` of one pixel in them"""
    spot = np.zeros((RES, RES))
    spot[3, 4] = 1.
    a = a * bright * (1 + spot * (peak - 1))
    big = big * bright
    g = GSS(ViewMapper((0, 1, 0), 180))
    g.lum = a
    fresh = GSS(ViewMapper((0, 1, 0), 180))
    fresh.lum = b
    ref = fresh.compute()
    g.compute()
    EQ("image after another", hvsgsm.process_gss(b, None, g), ref)
    hvsgsm.process_gss(big, None, g)
    EQ("image after one of another size", hvsgsm.process_gss(b, None, g), ref)
    hvsgsm.process_gss(a, ev, g)
    EQ("image after one with given illuminance", hvsgsm.process_gss(b, None, g), ref)
    f2 = GSS(ViewMapper((0, 1, 0), 180))
    f2.lum = b
    EQ("image with given illuminance", hvsgsm.process_gss(b, ev, g), f2.compute(ev_eye=ev))


def C19_image(a=pos(RES, RES, lo=.5, hi=60), b=pos(8, 8, lo=.5, hi=60), c=pos(RES, RES, lo=.5, hi=60)):
    g = GSS(ViewMapper((0, 1, 0), 180))
    g.lum = a
    g.compute()
    g.lum = b
    f = GSS(ViewMapper((0, 1, 0), 180))
    f.lum = b
    EQ("solid angle of a new size", g.omega, f.omega)
    EQ("mask of a new size", g.mask, f.mask)
    EQ("cosine of a new size", g.ctheta, f.ctheta)
    EQ("directions of a new size", g.vecs, f.vecs)
    EQ("eccentricity of a new size", g.sigma_c, f.sigma_c)
    EQ("resolution", g.res, f.res)
    EQ("score of a new size", g.compute(), f.compute())
    g.lum = c
    f2 = GSS(ViewMapper((0, 1, 0), 180))
    f2.lum = c
    EQ("glare eccentricity of a new image", g.ecc, f2.ecc)
    EQ("score of a new image", g.compute(), f2.compute())


def C19_glareview(a=pos(RES, RES, lo=.5, hi=60), dxyz=unit(3)):
    g = GSS(ViewMapper((0, 1, 0), 180))
    g.lum = a
    g.vm = ViewMapper(dxyz, 120)
    g.lum = a
    f = GSS(ViewMapper(dxyz, 120))
    f.lum = a
    EQ("directions of a new view", g.vecs, f.vecs)
    EQ("solid angle of a new view", g.omega, f.omega)
    EQ("mask of a new view", g.mask, f.mask)
    EQ("cosine of a new view", g.ctheta, f.ctheta)
    EQ("eccentricity of a new view", g.sigma_c, f.sigma_c)
    EQ("glare eccentricity of a new view", g.ecc, f.ecc)
    EQ("score of a new view", g.compute(), f.compute())


def C03_glare_scale(a=pos(RES, RES, lo=.5, hi=60), k=posnum(lo=.1, hi=10)):
    g = GSS(ViewMapper((0, 1, 0), 180), scale=179)
    g.lum = a
    h = GSS(ViewMapper((0, 1, 0), 180), scale=179 / k)
    h.lum = a * k
    EQ("luminance", h.lum, g.lum)
    EQ("glare eccentricity", h.ecc, g.ecc)
    EQ("score", h.compute(), g.compute(), rtol=1e-6)


# ------------------------------------------------------------ C29 meridians --
def field(xy, dens, horizontal, vertical):
    """density at xy with the meridians chosen by the given coordinates"""
    r = np.sqrt(np.sum(xy * xy, -1))
    h = np.where(horizontal > 0, dens[0], dens[2]) * (1 + r)
    v = np.where(vertical > 0, dens[1], dens[3]) * (1 + r)
    return r ** 2 / (xy[:, 0] ** 2 / h + xy[:, 1] ** 2 / v)


def C29_quadrant(m=arr(3, 2, lo=1, hi=80), dens=arr(4, lo=5, hi=90), sx=each(1, -1), sy=each(1, -1)):
    xy = m * np.array((sx, sy))
    f = retina.rgcf_density_xy(xy, lambda r, mi: np.take(dens, mi) * (1 + r))
    EQ("density", f, field(xy, dens, xy[:, 0], xy[:, 1]))


def C29_horizontal(m=arr(3, 2, lo=1, hi=80), dens=arr(3, lo=5, hi=90), sx=each(1, -1), sy=each(1, -1)):
    """with equal vertical meridians only the horizontal choice counts"""
    xy = m * np.array((sx, sy))
    d = np.stack((dens[0], dens[1], dens[2], dens[1]))
    f = retina.rgcf_density_xy(xy, lambda r, mi: np.take(d, mi) * (1 + r))
    EQ("density", f, field(xy, d, xy[:, 0], xy[:, 1]))


def C29_vertical_as_listed(m=arr(3, 2, lo=1, hi=80), dens=arr(4, lo=5, hi=90), sx=each(1, -1), sy=each(1, -1)):
    """the vertical meridian is right, or wrong exactly as listed in the known
    findings"""
    xy = m * np.array((sx, sy))
    f = retina.rgcf_density_xy(xy, lambda r, mi: np.take(dens, mi) * (1 + r))
    a = field(xy, dens, xy[:, 0], xy[:, 1])
    b = field(xy, dens, xy[:, 0], xy[:, 0])
    HOLDS("density", np.all(np.abs(f - a) <= 1e-9 * a) or np.all(np.abs(f - b) <= 1e-9 * b))


def C29_fovea(dens=pos(4)):
    f = retina.rgcf_density_xy(np.zeros((2, 2)), lambda r, mi: np.take(dens, mi))
    HOLDS("density of a vertical meridian", np.all(f == dens[1]) or np.all(f == dens[3]))


def C29_binocular(m=arr(3, 2, lo=.05, hi=.7), dens=arr(4, lo=5, hi=90), sx=each(1, -1), sy=each(1, -1)):
    """the mean of both eyes, which see each other's temporal side as nasal"""
    xy = m * np.array((sx, sy))
    def f(r, mi):
        return np.take(dens, mi) * (1 + r)
    a = retina.rgcf_density_xy(90 * xy, f)
    b = retina.rgcf_density_xy(90 * xy * np.array((-1, 1)), f)
    EQ("density", retina.binocular_density(xy, f), (a + b) / 2)


def C29_models(m=arr(3, 2, lo=.05, hi=.7), sx=each(1, -1), sy=each(1, -1)):
    xy = m * np.array((sx, sy))
    EQ("field density", retina.rgcf_density(xy), retina.binocular_density(xy, retina.rgcf_density_on_meridian))
    EQ("cell density", retina.rgc_density(xy), retina.binocular_density(xy, retina.rgc_density_on_meridian))
