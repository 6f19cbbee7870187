"""peak consolidation and per-sample pairing (C03 C25 C32)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import imagetools, translate, io
from raytools.mapper import ViewMapper

M = 4
SINGLE = "M"
SEVERAL = ("C25_peak",)
K = 5
SUN = 6.7967e-05


def rays(sun, near, far):
    """M rays within a few sun radii of the sun, K elsewhere"""
    n = translate.norm(sun[None] + near * .002)
    return np.concatenate((n, far))


def total(o, l):
    return np.sum(o * l)


def C32_energy(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=2e-5, hi=8e-5),
               ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e5), lb=pos(K, lo=1, hi=400),
               blursun=each(True, False), keepzeros=each(True, False), peakc=each(1., 1.5)):
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    v2, o2, l2 = imagetools.normalize_peak(v, o, l, blursun=blursun, keepzeros=keepzeros, peakc=peakc)
    EQ("energy", total(o2, l2), total(o, l))
    EQ("peak is one source", l2[-1] * o2[-1], total(o, l) - total(o2[:-1], l2[:-1]))


def C32_energy_partial(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=1e-6, hi=2e-6),
                       ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e4), lb=pos(K, lo=1, hi=400),
                       blursun=each(True, False), peakr=posnum(lo=1.5, hi=8)):
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    v2, o2, l2 = imagetools.normalize_peak(v, o, l, blursun=blursun, peakr=peakr)
    EQ("energy", total(o2, l2), total(o, l))
    if not blursun:
        EQ("partial sun keeps the peak luminance", l2[-1], np.max(l))


def C32_energy_color(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=1e-6, hi=8e-5),
                     ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, 3, lo=2e3, hi=2e5), lb=pos(K, 3, lo=1, hi=400),
                     blursun=each(True, False), vl=pos(3, lo=.2, hi=.5)):
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    v2, o2, l2 = imagetools.normalize_peak(v, o, l, blursun=blursun, vlambda=vl)
    EQ("luminous energy", total(o2, l2 @ vl), total(o, l @ vl))


def C32_energy_each(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=2e-5, hi=4e-4),
                    ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e5), lb=pos(K, lo=1, hi=400),
                    blurtol=each(1., .9, .75), keepzeros=each(True, False), blursun=each(True, False)):
    """one ray may hold all of the energy; a tolerance of 1 leaves the peak alone"""
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    v2, o2, l2 = imagetools.normalize_peak(v, o, l, blursun=blursun, keepzeros=keepzeros, blurtol=blurtol)
    EQ("energy", total(o2, l2), total(o, l))
    HOLDS("solid angles", np.all(o2 >= 0))


def C32_full(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=8e-5, hi=4e-4),
             ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e5), lb=pos(K, lo=1, hi=400)):
    """rays brighter and wider than the sun"""
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    p, v2, o2, l2 = imagetools.normalize_peak(v, o, l, returnparts=True)
    EQ("size of the sun", p[1], SUN)
    EQ("energy of the parts", p[1] * p[2][0] + total(o2, l2), total(o, l))


def C32_parts(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=1e-6, hi=8e-5),
              ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e5), lb=pos(K, lo=1, hi=400),
              blursun=each(True, False)):
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    p, v2, o2, l2 = imagetools.normalize_peak(v, o, l, blursun=blursun, returnparts=True)
    EQ("energy of the parts", p[1] * p[2][0] + total(o2, l2), total(o, l))
    q = imagetools.normalize_peak(v, o, l, blursun=blursun, returnall=False)
    EQ("peak alone", q[1] * q[2][0] + total(o2, l2), total(o, l))


def C32_nothing(v=unit(K, 3), o=pos(K, lo=1e-3, hi=1e-1), l=pos(K, lo=1, hi=500)):
    v2, o2, l2 = imagetools.normalize_peak(v, o, l)
    EQ("rays without a peak", l2, l)
    EQ("solid angles without a peak", o2, o)


# --------------------------------------------------------------- pairing --
def C25_peak(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=2e-5, hi=8e-5),
             ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e5), lb=pos(K, lo=1, hi=400),
             w=arr(9, 3), blursun=each(True, False)):
    """permuting the input rays permutes nothing but the order of the output"""
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    i = np.array((3, 7, 0, 8, 5, 1, 4, 2, 6))
    a = imagetools.normalize_peak(v, o, l, blursun=blursun)
    b = imagetools.normalize_peak(v[i], o[i], l[i], blursun=blursun)
    EQ("first moment", np.sum(a[0] * (a[1] * a[2])[:, None], 0), np.sum(b[0] * (b[1] * b[2])[:, None], 0), rtol=1e-5)
    EQ("area moment", np.sum(a[0] * a[1][:, None], 0), np.sum(b[0] * b[1][:, None], 0), rtol=1e-5)
    EQ("peak direction", a[0][-1], b[0][-1])
    EQ("peak size", a[1][-1], b[1][-1])


def C25_peak_rest(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=2e-5, hi=8e-5),
                  ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e5), lb=pos(K, lo=1, hi=400),
                  keepzeros=each(True, False)):
    """rays below the threshold come out untouched, in order, with their own size and direction"""
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    v2, o2, l2 = imagetools.normalize_peak(v, o, l, keepzeros=keepzeros)
    EQ("directions", v2[-K - 1:-1], far)
    EQ("solid angles", o2[-K - 1:-1], ob)
    EQ("luminance", l2[-K - 1:-1], lb)
    if keepzeros:
        EQ("all directions", v2[:-1], v)
        HOLDS("source rays are zeroed together", np.all((o2[:M] == 0) == (l2[:M] == 0)))


def C25_peak_weight(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), os=pos(M, lo=1e-6, hi=2e-6),
                    ls=pos(M, lo=2e4, hi=4e4)):
    """a partial sun within the ratio takes all rays, weighted by energy"""
    n = translate.norm(sun[None] + near * .002)
    v2, o2, l2 = imagetools.normalize_peak(n, os, ls, peakr=1000.)
    d = np.sum(n * (os * ls)[:, None], 0)
    EQ("source direction", v2[-1], d / np.sqrt(np.sum(d * d)))
    EQ("source size", o2[-1], np.sum(os * ls) / np.max(ls))
    EQ("source luminance", np.ravel(l2)[-1], np.max(ls))


def C25_quantile(d=arr(6), w=pos(6, lo=.2, hi=3), q=num(lo=.05, hi=.9)):
    i = np.array((3, 0, 5, 1, 4, 2))
    EQ("order of samples is irrelevant", translate.weighted_quantile(d[i], w[i], q),
       translate.weighted_quantile(d, w, q))
    EQ("weights scale", translate.weighted_quantile(d, w * 3, q), translate.weighted_quantile(d, w, q))
    EQ("values map", translate.weighted_quantile(d * 2 + 1, w, q), translate.weighted_quantile(d, w, q) * 2 + 1)
    EQ("median", translate.weighted_median(d, w), translate.weighted_quantile(d, w, .5))
    EQ("no weights", translate.weighted_quantile(d, None, q), np.quantile(d, q))


def C25_median_threshold(d=arr(6), w=pos(6, lo=.2, hi=3), t=posnum(lo=.3, hi=1.5)):
    EQ("threshold of the median", translate.weighted_median(d, w, t), translate.weighted_quantile(d, w, .5, t))


def C25_smooth_sparse(y=arr(2, 5), xr=arr(4, lo=.1, hi=.9), bw=each(None, 500), own=each(True, False)):
    """samples out of reach of the kernel: linear between neighbours, the ends continue"""
    x = np.arange(5.)
    at = xr + np.array((0., 1., 2., 3.))
    r = translate.non_uniform_gaussian_filter(x, y, xr=at, sigma=1e-4, bw=bw)
    EQ("between samples", r, np.stack((np.interp(at, x, y[0]), np.interp(at, x, y[1]))))
    r = translate.non_uniform_gaussian_filter(x, y, xr=np.array((-2., 7.)), sigma=1e-4, bw=bw)
    EQ("beyond the samples", r, y[:, (0, 4)])


def C25_smooth_scale(x=arr(6), y=arr(2, 6), k=posnum(lo=.3, hi=3), s=posnum(lo=.2, hi=2)):
    """the factor applies to any width"""
    a = translate.non_uniform_gaussian_filter(x, y, sigma=s, sscale=k)
    EQ("given width", a, translate.non_uniform_gaussian_filter(x, y, sigma=s * k))
    d = np.sqrt(np.sum((x - np.mean(x)) ** 2) / 5 * 6 ** -.4)
    EQ("width by rule", translate.non_uniform_gaussian_filter(x, y, sscale=k),
       translate.non_uniform_gaussian_filter(x, y, sigma=d * k))


def C25_quantile_threshold(d=arr(6), w=pos(6, lo=.2, hi=3), q=num(lo=.05, hi=.9)):
    z = w * np.array((1., 0., 1., 1., 0., 1.))
    k = np.array((0, 2, 3, 5))
    EQ("samples at the threshold are left out with their weight", translate.weighted_quantile(d, z, q),
       translate.weighted_quantile(d[k], w[k], q))


def C25_smooth(x=grid(6, lo=0, hi=10), y=arr(2, 6), sigma=posnum(lo=.5, hi=3), bw=each(None, 500)):
    i = np.array((3, 0, 5, 1, 4, 2))
    r = translate.non_uniform_gaussian_filter(x, y, sigma=sigma, bw=bw)
    s = translate.non_uniform_gaussian_filter(x[i], y[:, i], sigma=sigma, bw=bw)
    EQ("result belongs to the sample it is listed for", s, r[:, i])
    w = np.exp(-.5 * ((x[:, None] - x[None]) / sigma) ** 2)
    EQ("gaussian mean", r, (y @ w) / np.sum(w, 0))


def C25_smooth_at(x=grid(6, lo=0, hi=10), y=arr(2, 6), at=arr(4, lo=1, hi=9), sigma=posnum(lo=.8, hi=3),
                  bw=each(None, 500)):
    i = np.array((3, 0, 5, 1, 4, 2))
    r = translate.non_uniform_gaussian_filter(x[i], y[:, i], xr=at, sigma=sigma, bw=bw)
    w = np.exp(-.5 * ((x[:, None] - at[None]) / sigma) ** 2)
    EQ("resampled gaussian mean", r, (y @ w) / np.sum(w, 0))


def C25_smooth_quantile(x=grid(6, lo=0, hi=10), y=arr(2, 6), at=arr(4, lo=1, hi=9), sigma=posnum(lo=.8, hi=3),
                        bw=each(None, 500), method=each("median", .5, .25), own=each(True, False)):
    i = np.array((3, 0, 5, 1, 4, 2))
    xr = None if own else at
    q = .5 if method == "median" else method
    r = translate.non_uniform_gaussian_filter(x, y, xr=xr, sigma=sigma, bw=bw, amethod=method)
    a = translate.non_uniform_gaussian_filter(x, y[0], xr=xr, sigma=sigma, bw=bw, amethod=method)
    b = translate.non_uniform_gaussian_filter(x, y[1], xr=xr, sigma=sigma, bw=bw, amethod=method)
    EQ("each feature keeps its samples", r, np.stack((np.ravel(a), np.ravel(b))))
    c = x if own else at
    w = np.exp(-.5 * ((x[None] - c[:, None]) / sigma) ** 2) / (sigma * np.sqrt(2 * np.pi))
    m = [translate.weighted_quantile(y[0], weights=k, q=q) for k in w]
    EQ("quantile of the samples weighted by distance", np.ravel(a), np.ravel(np.array(m)))
    s = translate.non_uniform_gaussian_filter(x[i], y[:, i], xr=xr, sigma=sigma, bw=bw, amethod=method)
    EQ("result belongs to the sample it is listed for", s, r[:, i] if own else r)


# ----------------------------------------------------------------- scale --
def C03_peak(sun=unit(3), near=arr(M, 3, lo=-1, hi=1), far=unit(K, 3), os=pos(M, lo=2e-5, hi=8e-5),
             ob=pos(K, lo=1e-3, hi=1e-1), ls=pos(M, lo=2e3, hi=4e5), lb=pos(K, lo=1, hi=1e3),
             k=posnum(lo=.1, hi=10), peakt=posnum(lo=4e3, hi=2e5), peakc=each(1., 1.5), color=each(0, 1)):
    v = rays(sun, near, far)
    o = np.concatenate((os, ob))
    l = np.concatenate((ls, lb))
    m = np.max(l) * os / 8e-5
    if color:
        m = np.stack((m, m * .5, m * .8)).T
        l = np.stack((l, l * .5, l * .8)).T
    a = imagetools.normalize_peak(v, o, l, scale=179, peakt=peakt, peakc=peakc)
    b = imagetools.normalize_peak(v, o, l * k, scale=179 / k, peakt=peakt, peakc=peakc)
    EQ("directions", b[0], a[0])
    EQ("solid angles", b[1], a[1])
    EQ("luminance", b[2], a[2] * k)
    p = imagetools.find_peak(v, o, l, scale=179, peakt=peakt, peakc=peakc)
    q = imagetools.find_peak(v, o, l * k, scale=179 / k, peakt=peakt, peakc=peakc)
    EQ("peak pixels", q[2], p[2])
    c = np.concatenate((cluster(far[0], near, .01), v))
    oc = np.concatenate((os, o))
    lc = np.concatenate((m, l))
    ASSUME(far[0] @ sun < .9)
    p = imagetools.normalize_peak(c, oc, lc, scale=179, peakt=peakt, peakc=peakc, findsecondary=True)
    q = imagetools.normalize_peak(c, oc, lc * k, scale=179 / k, peakt=peakt, peakc=peakc, findsecondary=True)
    EQ("secondary sources", len(q[1]), len(p[1]))
    for i in range(len(p[1])):
        EQ("secondary direction", q[1][i][0], p[1][i][0])
        EQ("secondary solid angle", q[1][i][1], p[1][i][1])
        EQ("secondary luminance", q[1][i][2], p[1][i][2] * k)


# ------------------------------------------------- secondary bright sources --
def cluster(c, near, size):
    return translate.norm(c[None] + near * size)


def C25_secondary(sun=unit(3), side=unit(3), near=arr(M, 3, lo=-1, hi=1), near2=arr(6, 3, lo=-1, hi=1), far=unit(K, 3),
                  os=pos(M, lo=2e-5, hi=8e-5), o2=pos(6, lo=2e-5, hi=8e-5), ob=pos(K, lo=1e-3, hi=1e-1),
                  ls=pos(M, lo=2e5, hi=4e5), l2=pos(6, lo=3e3, hi=1e5), lb=pos(K, lo=1, hi=400), color=each(True, False)):
    """one group of bright rays away from the sun: one source with its own direction, size and luminance"""
    ASSUME(sun @ side < .9)
    w = cluster(side, near2, .01)
    v = np.concatenate((cluster(sun, near, .002), w, far))[::-1]
    o = np.concatenate((os, o2, ob))[::-1]
    l = np.concatenate((ls, l2, lb))[::-1]
    ch = np.array((.5, 1., 2.))
    if color:
        c = l[:, None] * ch
        p, s, pc = imagetools.find_peak(v, o, c, findsecondary=True, vlambda=np.array((.4, .4, .2)))
    else:
        p, s, pc = imagetools.find_peak(v, o, l, findsecondary=True)
    EQ("number", len(s), 1)
    EQ("direction", s[0][0], np.mean(w, 0))
    EQ("size", s[0][1], np.sum(o2))
    if color:
        EQ("colour", s[0][2], np.sum(o2 * l2) / np.sum(o2) * ch)
    else:
        EQ("luminance", s[0][2], np.sum(o2 * l2) / np.sum(o2))
    q, _, pd = imagetools.find_peak(v, o, l, findsecondary=False)
    EQ("the peak is found without them", pc, pd)


def C25_secondary_groups(sun=unit(3), side=unit(3), near=arr(M, 3, lo=-1, hi=1), n2=arr(5, 3, lo=-1, hi=1), n3=arr(4, 3, lo=-1, hi=1),
                         os=pos(M, lo=2e-5, hi=8e-5), o2=pos(5, lo=2e-5, hi=8e-5), o3=pos(4, lo=2e-5, hi=8e-5),
                         ls=pos(M, lo=2e5, hi=4e5), l2=pos(5, lo=3e4, hi=1e5), l3=pos(4, lo=3e3, hi=2e4)):
    """two groups: brightest first, each from its own rays"""
    third = np.cross(sun, side)
    r = np.sqrt(np.sum(third * third))
    ASSUME(r > .5)
    a, b = cluster(side, n2, .01), cluster(third / r, n3, .01)
    v = np.concatenate((b, cluster(sun, near, .002), a))
    o = np.concatenate((o3, os, o2))
    l = np.concatenate((l3, ls, l2))
    p, s, pc = imagetools.find_peak(v, o, l, findsecondary=True)
    EQ("number", len(s), 2)
    EQ("direction", s[0][0], np.mean(a, 0))
    EQ("size", s[0][1], np.sum(o2))
    EQ("luminance", s[0][2], np.sum(o2 * l2) / np.sum(o2))
    EQ("second direction", s[1][0], np.mean(b, 0))
    EQ("second size", s[1][1], np.sum(o3))
    EQ("second luminance", s[1][2], np.sum(o3 * l3) / np.sum(o3))


def C25_secondary_none(sun=unit(3), side=unit(3), near=arr(M, 3, lo=-1, hi=1), n2=arr(3, 3, lo=-1, hi=1), os=pos(M, lo=2e-5, hi=8e-5),
                       o2=pos(3, lo=2e-5, hi=8e-5), ls=pos(M, lo=2e5, hi=4e5), l2=pos(3, lo=3e3, hi=1e5)):
    """three rays are too few for a source of their own"""
    ASSUME(sun @ side < .9)
    v = np.concatenate((cluster(sun, near, .002), cluster(side, n2, .01)))
    p, s, pc = imagetools.find_peak(v, np.concatenate((os, o2)), np.concatenate((ls, l2)), findsecondary=True)
    EQ("number", len(s), 0)


def C25_secondary_limits(sun=unit(3), side=unit(3), near=arr(M, 3, lo=-1, hi=1), turn=arr(5, lo=0, hi=6.2), off=arr(5, lo=.03, hi=.13),
                         n3=arr(5, 3, lo=-1, hi=1), os=pos(M, lo=2e-5, hi=8e-5), o2=pos(5, lo=2e-5, hi=8e-5),
                         ls=pos(M, lo=3e5, hi=4e5), l2=pos(5, lo=3e3, hi=1e5), l3=pos(5, lo=600, hi=2000)):
    """neither rays around the sun nor rays below four times the threshold make a source"""
    r = np.cross(sun, side)
    ASSUME(np.sum(r * r) > .3)
    r = r / np.sqrt(np.sum(r * r))
    u = np.cross(r, sun)
    a = np.cos(off)[:, None] * sun + np.sin(off)[:, None] * (np.cos(turn)[:, None] * r + np.sin(turn)[:, None] * u)
    v = np.concatenate((cluster(sun, near, .002), a, cluster(side, n3, .01)))
    p, s, pc = imagetools.find_peak(v, np.concatenate((os, o2, o2)), np.concatenate((ls, l2, l3)), findsecondary=True)
    EQ("number", len(s), 0)
