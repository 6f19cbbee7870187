"""options of the image functions behind the commands (C16)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import imagetools
from raytools.mapper import ViewMapper
from raytools.evaluate import MetricSet, ColorMetricSet

MODELS = {"raytools.imagetools.hdr2vol": volume, "raytools.imagetools.hdr2vm": view, "raytools.io.hdr_header": header,
          "raytools.imagetools.normalize_peak": peak, "raytools.io.hdr2carray": read, "raytools.io.carray2hdr": write,
          "raytools.imagetools.array_rotate": rotated, "raytools.imagetools.array_solid2ang": solid,
          "raytools.imagetools.array_ang2uv": squared}

RAYS = []
VIEW = []
CALLS = []


def volume(imgf, vm=None, color=False, vlambda=None):
    v, o, l = RAYS
    if color:
        return v, o, l
    return v, o, l @ np.array((.265, .67, .065) if vlambda is None else vlambda)


def view(imgf, vpt=False):
    vm = VIEW[0] if VIEW else None
    return (vm, (0., 0., 0.)) if vpt else vm


def header(imgf, items=None, getstr=False):
    return [""]


def peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4, blursun=False, blurtol=.75, vlambda=None):
    """depends on all of its arguments"""
    k = scale / 179 + peaka * 1e4 + peakt / 1e5 + peakr + (9. if blursun else 0.)
    if vlambda is not None:
        k = k + vlambda[0] * 7
    return v, o * k, l * k


def read(imgf, header=False):
    return (RAYS[0], ["x= y"]) if header else RAYS[0]


def write(ar, imgf, header=None, clean=False):
    CALLS.append((ar, imgf))


def rotated(imarray, ang, center=None, rotate_first=True, fill_value=None, nearest=False):
    return ("rotated", imarray, ang, center, rotate_first, nearest)


def solid(imarray, nearest=False, reverse=False, viewangle=180, returnvm=True):
    r = ("solid", imarray, nearest, reverse, viewangle)
    return (r, ViewMapper(viewangle=viewangle, name="vts" if reverse else "vta")) if returnvm else r


def squared(imarray, vm=None):
    return ("squared", imarray, ViewMapper(viewangle=180) if vm is None else vm)


def C16_imgmetric(v=cone(6, 60), o=pos(6, lo=.01, hi=.3), l=pos(6, 3, lo=.5, hi=60), d=cone(1, 40), angle=posnum(lo=30, hi=180), peakn=each(True, False),
                  scale=posnum(lo=50, hi=300), lumrgb=each(None, (.3, .6, .1)), threshold=posnum(lo=500, hi=3000), lowlight=each(True, False),
                  peaka=posnum(lo=1e-5, hi=1e-3), peakt=posnum(lo=1e4, hi=1e6), peakr=posnum(lo=1, hi=8), blursun=each(True, False),
                  names=each(("illum", "dgp", "ugp", "backlum", "pwsl2", "srcarea"), ("irradiance",), ("irradiance", "dgp", "ugr"))):
    """each option acts on the metric as the metric sets define it"""
    vm = ViewMapper(d[0], angle)
    VIEW.append(vm)
    for a in (v, o, l):
        RAYS.append(a)
    color = "irradiance" in names
    r = imagetools.imgmetric("a.hdr", list(names), peakn=peakn, scale=scale, lumrgb=lumrgb, threshold=threshold, lowlight=lowlight,
                             peaka=peaka, peakt=peakt, peakr=peakr, blursun=blursun)
    c = (.265, .67, .065) if lumrgb is None else lumrgb
    k = 1.
    if peakn:
        k = scale / 179 + peaka * 1e4 + peakt / 1e5 + peakr + (9. if blursun else 0.)
        if color:
            k = k + c[0] * 7
    if color:
        m = ColorMetricSet(v, o * k, l * k, vm, list(names), scale=scale, threshold=threshold, lowlight=lowlight, vlambda=c)
    else:
        m = MetricSet(v, o * k, l @ np.array(c) * k, vm, list(names), scale=scale, threshold=threshold, lowlight=lowlight)
    EQ("metrics", r, m(), rtol=1e-6)


def C16_imgmetric_factor(v=cone(6, 40), o=pos(6, lo=.01, hi=.3), l=pos(6, 3, lo=.5, hi=60), threshold=posnum(lo=.5, hi=3),
                         names=each(("threshold", "srcarea", "dgp_t1"), ("irradiance", "threshold", "srcarea"))):
    """thresholds below 100 are factors"""
    vm = ViewMapper((0., 0., 1.), 180)
    VIEW.append(vm)
    for a in (v, o, l):
        RAYS.append(a)
    c = (.265, .67, .065)
    r = imagetools.imgmetric("a.hdr", list(names), threshold=threshold)
    if "irradiance" in names:
        m = ColorMetricSet(v, o, l, vm, list(names), threshold=threshold, vlambda=c)
    else:
        m = MetricSet(v, o, l @ np.array(c), vm, list(names), threshold=threshold)
    EQ("metrics", r, m(), rtol=1e-6)


def C16_hdr_rotate(im=arr(3, 4, 4), rot=num(lo=-90, hi=90), center=each(None, (1, 2), (1, 2, 3, 3)), first=each(True, False),
                   nearest=each(True, False)):
    RAYS.append(im)
    imagetools.hdr_rotate("a.hdr", rotate=rot, center=center, rotate_first=first, nearest=nearest)
    r = CALLS[0][0]
    EQ("image", r[1], im)
    EQ("angle", r[2], rot)
    if center is None:
        HOLDS("no center", r[3] is None)
    else:
        EQ("center", list(r[3]), list(center))
    EQ("order", r[4], first)
    EQ("interpolation", r[5], nearest)


def C16_hdr_solid2ang(im=arr(3, 4, 4), nearest=each(True, False), reverse=each(True, False), va=posnum(lo=10, hi=180),
                      vh=posnum(lo=10, hi=180), given=each(True, False), has=each(True, False)):
    RAYS.append(im)
    if has:
        VIEW.append(ViewMapper((0., 1., 0.), vh))
    imagetools.hdr_solid2ang("a.hdr", nearest=nearest, reverse=reverse, viewangle=va if given else None)
    r = CALLS[0][0]
    EQ("image", r[1], im)
    EQ("interpolation", r[2], nearest)
    EQ("direction", r[3], reverse)
    EQ("view angle", r[4], va if given else vh if has else 180.)


def C16_hdr_ang2uv(im=arr(3, 4, 4), useview=each(True, False), d=unit(3), vh=posnum(lo=10, hi=180), has=each(True, False)):
    RAYS.append(im)
    if has:
        VIEW.append(ViewMapper(d, vh))
    imagetools.hdr_ang2uv("a.hdr", useview=useview)
    r = CALLS[0][0]
    EQ("image", r[1], im)
    vm = ViewMapper(d, vh) if has and useview else ViewMapper(viewangle=180)
    EQ("direction", r[2].dxyz, vm.dxyz)
    EQ("angle", r[2].viewangle, vm.viewangle)
