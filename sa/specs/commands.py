"""the commands hand every option on (C16)

The library functions are replaced by recorders with the library's own
signatures, so only what reaches them counts, not how it is passed."""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools.cli import main, metric, project, align, solid2ang, cleanheader, smooth

MODELS = {"raytools.utility.pool_call": loop, "raytools.imagetools.imgmetric": imgmetric,
          "raytools.imagetools.hdr_uv2ang": uv2ang, "raytools.imagetools.hdr_ang2uv": ang2uv,
          "raytools.imagetools.hdr_rotate": rotate, "raytools.imagetools.hdr_solid2ang": solid,
          "raytools.evaluate.hvsgsm.gss_compute": gss, "raytools.io.hdr2carray": read, "raytools.io.carray2hdr": write,
          "raytools.io.set_nproc": nproc, "clasp.click_ext.tmp_clean": clean, "clasp.click_ext.get_config": config,
          "numpy.loadtxt": load, "scipy.stats.gaussian_kde": Kde,
          "raytools.translate.non_uniform_gaussian_filter": filtered, "builtins.print": say}

CALLS = []       # what reached the library
CAPS = []
SAID = []
DATA = []
PROC = []


def loop(func, args, *fixed, cap=None, expandarg=True, desc="processing", workers=True, pbar=True, context="fork", **kw):
    """C14: equal to the sequential loop"""
    CAPS.append(cap)
    if expandarg:
        return [func(*a, *fixed, **kw) for a in args]
    return [func(a, *fixed, **kw) for a in args]


def say(*words, sep=" ", end="\n", file=None, flush=False):
    SAID.append((words, file))


def clean(ctx):
    pass


def config(ctx, *files):
    PROC.append((ctx.info_name,) + files)


def nproc(n=None):
    PROC.append(n)


def code(img):
    return len(img) * 1.


def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000., lowlight=False, peaka=6.7967e-05,
              peakt=1e5, peakr=4, blursun=False, blurtol=.75):
    CALLS.append(("imgmetric", imgf, list(metrics), peakn, scale, lumrgb, threshold, lowlight, peaka, peakt, peakr, blursun))
    return [code(imgf) * 10 + i for i in range(len(metrics))]


def gss(imgs, illums=None, save=False, suffix="_rg.hdr", outdir=None, view=None, age=40, f=16.67, scale=179, psf=True,
        adaptmove=True, directmove=True, raw=False, **kw):
    CALLS.append(("gss", list(imgs), illums, save, psf, adaptmove, directmove))
    k = 100. if psf else 200.
    return [code(i) + k for i in imgs]


def uv2ang(imgf, outf=None, stdout=False, **kw):
    CALLS.append(("uv2ang", imgf, outf, stdout))
    return None if stdout else "out " + imgf


def ang2uv(imgf, useview=True, outf=None, stdout=False, **kw):
    CALLS.append(("ang2uv", imgf, outf, stdout, useview))
    return None if stdout else "out " + imgf


def rotate(imgf, outf=None, rotate=0.0, center=None, rotate_first=True, nearest=False, stdout=False, **kw):
    CALLS.append(("rotate", imgf, outf, stdout, rotate, center, rotate_first, nearest))
    return None if stdout else "out " + imgf


def solid(imgf, outf=None, nearest=False, stdout=False, reverse=False, viewangle=None, **kw):
    CALLS.append(("solid", imgf, outf, stdout, nearest, reverse, viewangle))
    return None if stdout else "out " + imgf


def read(imgf, header=False):
    return ("pixels of " + imgf, ["header of " + imgf]) if header else "pixels of " + imgf


def write(ar, imgf, header=None, clean=False):
    CALLS.append((ar, imgf, header, clean))


def load(f, **kw):
    if kw.get("ndmin", 0) == 2 and np.ndim(DATA[0]) == 1:
        return DATA[0][:, None]
    return DATA[0]


class Kde:
    """a density: the width of its kernel and its samples are what counts"""

    def __init__(self, data, bw_method=None, weights=None):
        n = np.size(data)
        f = n ** -.2 if bw_method is None else bw_method
        CALLS.append(("kde", data, f * np.std(data, ddof=1)))

    def __call__(self, x):
        CALLS.append(("at", x))
        return x * 2.


def filtered(x, y, xr=None, sigma=None, sscale=1.0, bw=500, amethod="mean"):
    CALLS.append(("filter", x, y, xr, sigma * sscale, bw, amethod))
    return y[:, 0:1] + xr[None]


ONE = ("a.hdr",)
MANY = ("a.hdr", "bb.hdr", "ccc.hdr")


def C16_metric(imgs=each(ONE, MANY), parallel=each(True, False), peakn=each(True, False), peaka=posnum(), peakt=posnum(lo=10, hi=1e6),
               peakr=posnum(lo=1, hi=9), threshold=posnum(lo=1, hi=5000), scale=posnum(lo=50, hi=300),
               lumrgb=each(None, (.2, .7, .1)), blursun=each(True, False), lowlight=each(True, False)):
    """every option reaches the metric it is documented for, for every image"""
    metric(None, list(imgs), ["illum", "dgp"], parallel=parallel, peakn=peakn, peaka=peaka, peakt=peakt, peakr=peakr,
           threshold=threshold, scale=scale, lumrgb=lumrgb, blursun=blursun, lowlight=lowlight, gssimage=False)
    EQ("one evaluation per image", len(CALLS), len(imgs))
    for c, i in zip(CALLS, imgs):
        EQ("image", c[1], i)
        EQ("metrics", c[2], ["illum", "dgp"])
        EQ("peakn", c[3], peakn)
        EQ("scale", c[4], scale)
        if lumrgb is None:
            HOLDS("coefficients from the header", c[5] is None)
        else:
            EQ("lumrgb", list(c[5]), list(lumrgb))
        EQ("threshold", c[6], threshold)
        EQ("lowlight", c[7], lowlight)
        EQ("peaka", c[8], peaka)
        EQ("peakt", c[9], peakt)
        EQ("peakr", c[10], peakr)
        EQ("blursun", c[11], blursun)
    if parallel:
        HOLDS("all cores", CAPS[0] is None)
    else:
        EQ("one process", CAPS[0], 1)


def C16_metric_out(imgs=each(ONE, MANY), names=each(("illum",), ("illum", "dgp", "ugr"))):
    """each line has the values of its image"""
    metric(None, list(imgs), list(names), parallel=True)
    lines = [s[0][0] for s in SAID if s[1] is None]
    EQ("a line for the labels and for each image", len(lines), 1 + len(imgs))
    EQ("labels", lines[0].split("\t")[1:], list(names))
    for i in range(len(imgs)):
        w = lines[i + 1].split("\t")
        EQ("image", w[0], imgs[i])
        EQ("values", [float(x) for x in w[1:]], [code(imgs[i]) * 10 + k for k in range(len(names))])


def C16_gss(imgs=each(ONE, MANY), names=each(("gss",), ("gssnb",), ("gss", "gssnb"), ("gssnb", "gss"), ("illum", "gss"), ("gssnb", "illum"),
                                             ("gss", "illum", "gssnb")), image=each(True, False)):
    metric(None, list(imgs), list(names), parallel=True, gssimage=image)
    g = [c for c in CALLS if c[0] == "gss"]
    m = [c for c in CALLS if c[0] == "imgmetric"]
    EQ("one batch for each glare score", len(g), len([n for n in names if n.startswith("gss")]))
    for c in g:
        EQ("all images", c[1], list(imgs))
        EQ("save response images", c[3], image)
        if "gss" not in names:
            HOLDS("without blur and movement", not c[4] and not c[5] and not c[6])
        if "gssnb" not in names:
            HOLDS("with blur and movement", c[4] and c[5] and c[6])
    for c in m:
        EQ("other metrics", c[2], ["illum"])
    lines = [s[0][0] for s in SAID if s[1] is None]
    lab = lines[0].split("\t")[1:]
    EQ("all labels", sorted(lab), sorted(names))
    for i in range(len(imgs)):
        w = lines[i + 1].split("\t")
        EQ("image", w[0], imgs[i])
        EQ("as many values as labels", len(w) - 1, len(lab))
        for k in range(len(lab)):
            if lab[k] == "gss":
                EQ("score", float(w[k + 1]), code(imgs[i]) + 100)
            elif lab[k] == "gssnb":
                EQ("score without blur", float(w[k + 1]), code(imgs[i]) + 200)
            else:
                EQ("metric", float(w[k + 1]), code(imgs[i]) * 10)


def named(imgs, stdout):
    """names that were written are reported on standard error"""
    told = [w for s in SAID for x in s[0] if s[1] is not None for w in x.split("\n")]
    if not stdout:
        for i in imgs:
            HOLDS("file is reported", any([w.endswith("out " + i) for w in told]))
    EQ("nothing mixed into standard output", len([s for s in SAID if s[1] is None]), 0)


def C16_project(imgs=each(ONE, MANY), back=each(True, False), useview=each(True, False), stdout=each(True, False)):
    project(None, list(imgs), uv2ang=back, useview=useview, stdout=stdout)
    EQ("one conversion per image", len(CALLS), len(imgs))
    one = len(imgs) == 1
    for c, i in zip(CALLS, imgs):
        EQ("direction", c[0], "uv2ang" if back else "ang2uv")
        EQ("image", c[1], i)
        HOLDS("derived name", c[2] is None)
        EQ("standard output", c[3], stdout and one)
        if not back:
            EQ("useview", c[4], useview)
    named(imgs, stdout and one)


def C16_align(imgs=each(ONE, MANY), rot=num(lo=-90, hi=90), center=each(None, (3, 4), (3, 4, 5, 6)), first=each(True, False),
              nearest=each(True, False), stdout=each(True, False)):
    align(None, list(imgs), rotate=rot, center=center, rotate_first=first, nearest=nearest, stdout=stdout)
    EQ("one conversion per image", len(CALLS), len(imgs))
    one = len(imgs) == 1
    for c, i in zip(CALLS, imgs):
        EQ("image", c[1], i)
        HOLDS("derived name", c[2] is None)
        EQ("standard output", c[3], stdout and one)
        EQ("rotate", c[4], rot)
        if center is None:
            HOLDS("no center", c[5] is None)
        else:
            EQ("center", list(c[5]), list(center))
        EQ("order", c[6], first)
        EQ("nearest", c[7], nearest)
    named(imgs, stdout and one)


def C16_solid2ang(imgs=each(ONE, MANY), reverse=each(True, False), nearest=each(True, False), stdout=each(True, False),
                  va=posnum(lo=10, hi=180), given=each(True, False)):
    solid2ang(None, list(imgs), reverse=reverse, nearest=nearest, stdout=stdout, viewangle=va if given else None)
    EQ("one conversion per image", len(CALLS), len(imgs))
    one = len(imgs) == 1
    for c, i in zip(CALLS, imgs):
        EQ("image", c[1], i)
        HOLDS("derived name", c[2] is None)
        EQ("standard output", c[3], stdout and one)
        EQ("nearest", c[4], nearest)
        EQ("reverse", c[5], reverse)
        if given:
            EQ("viewangle", c[6], va)
        else:
            HOLDS("view angle of the header", c[6] is None)
    named(imgs, stdout and one)


def C16_cleanheader():
    cleanheader(None, "a.hdr")
    EQ("one image written", len(CALLS), 1)
    EQ("pixels", CALLS[0][0], "pixels of a.hdr")
    HOLDS("standard output", CALLS[0][1] is None)
    EQ("header", CALLS[0][2], ["header of a.hdr"])
    HOLDS("cleaned", CALLS[0][3])


def C16_cap(n=integer(0, 9), given=each(True, False)):
    ctx = None_ctx()
    main(ctx, "a.cfg", n if given else None)
    if given:
        HOLDS("process cap", n in PROC)
    EQ("configuration and its section", [p[:2] for p in PROC if isinstance(p, tuple)], [("raytools", "a.cfg")])


class None_ctx:
    info_name = ""


def C16_density(d=arr(6, 2, lo=-9, hi=9), x=each(0, 1), sigma=posnum(), given=each(True, False), sf=posnum(), out=arr(3), own=each(True, False)):
    """-sigma is the width of the kernel, Scott's rule if none; -sf scales it"""
    DATA.append(d)
    smooth(None, "f", x=x, x_out=out if own else [5.], y=None, sigma=sigma if given else None, sf=sf)
    c = d[:, x]
    EQ("samples", CALLS[0][1], c)
    EQ("width", CALLS[0][2], (sigma if given else np.std(c, ddof=1) * 6 ** -.2) * sf)
    xr = out if own else np.linspace(np.min(c), np.max(c), 5)
    EQ("positions", CALLS[1][1], xr)
    EQ("lines", np.array([s[0] for s in SAID]), np.stack((xr, xr * 2), 1))


def C16_smooth(d=arr(6, 3, lo=-9, hi=9), x=each(0, 1), y=each((2,), (0, 2), (-1,)), sigma=posnum(), given=each(True, False), sf=posnum(),
               out=arr(3), own=each(True, False)):
    DATA.append(d)
    smooth(None, "f", x=x, x_out=out if own else [5.], y=list(y), sigma=sigma if given else None, sf=sf)
    c = d[:, x]
    EQ("x", CALLS[0][1], c)
    EQ("y", CALLS[0][2], d[:, y].T)
    xr = out if own else np.linspace(np.min(c), np.max(c), 5)
    EQ("positions", CALLS[0][3], xr)
    EQ("width", CALLS[0][4], (sigma if given else np.std(c, ddof=1) * 6 ** -.2) * sf)
    EQ("mean", CALLS[0][6], "mean")
    EQ("lines", np.array([s[0] for s in SAID]), np.stack([xr] + [d[0, k] + xr for k in y], 1))
