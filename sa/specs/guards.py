"""invalid requests are refused before anything is touched (C21)"""
import os
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import io, imagetools, translate
from raytools.mapper import ViewMapper, SolidViewMapper
from raytools.mapper.perspectiveviewmapper import PerspectiveViewMapper
from raytools.evaluate import hvsgsm

MODELS = {"os.environ": Environment, "os.getenv": getenv, "os.path.isfile": isfile, "numpy.loadtxt": loadtxt,
          "builtins.open": Opened, "raytools.io.carray2hdr": write, "raytools.io.array2hdr": write,
          "raytools.imagetools.hdr2vm": noview}

VARS = []        # (name, value or None) in the order of change
FILES = []
TEXT = []
WRITTEN = []
FAULT = []


class Environment:
    """the environment of the process"""

    def __init__(self):
        pass

    def __setitem__(self, k, v):
        VARS.append((k, v))

    def __getitem__(self, k):
        v = getenv(k)
        if v is None:
            raise KeyError(k)
        return v

    def __delitem__(self, k):
        self[k]
        VARS.append((k, None))

    def __contains__(self, k):
        return getenv(k) is not None

    def get(self, k, d=None):
        v = getenv(k)
        return d if v is None else v

    def pop(self, *a):
        v = getenv(a[0])
        if v is None:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        VARS.append((a[0], None))
        return v

    def setdefault(self, k, d):
        v = getenv(k)
        if v is None:
            self[k] = d
        return d if v is None else v

    def update(self, *d, **kw):
        for a in d:
            for k, v in a.items():
                self[k] = v
        for k, v in kw.items():
            self[k] = v


def getenv(k, d=None):
    v = d
    for n, x in VARS:
        if n == k:
            v = d if x is None else x
    return v


def isfile(p):
    return p in FILES


def loadtxt(f, **kw):
    if FAULT:
        if FAULT[0] == "value":
            raise ValueError("could not convert")
        raise AttributeError("x")
    return ("table", f, kw)


class Opened:
    def __init__(self, path, mode="r"):
        self.path = path
        self.at = 0

    def readlines(self):
        return TEXT[0].splitlines(True)

    def __iter__(self):
        return TEXT[0].splitlines(True)

    def readline(self):
        self.at += 1
        lines = TEXT[0].splitlines(True)
        return lines[self.at - 1] if self.at <= len(lines) else ""

    def read(self):
        return TEXT[0]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        pass


def write(ar, imgf, header=None, clean=False):
    WRITTEN.append(imgf)
    return imgf


def noview(imgf, vpt=False):
    raise IOError("not an image")


CAP = "RAYTOOLS_PROC_CAP"


def C21_solid_angle(angle=posnum(lo=180.001, hi=720), d=unit(3)):
    said = "accepted"
    try:
        SolidViewMapper(d, angle)
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("view angles above 180 are refused", said, "ValueError")


def C21_solid_angle_valid(angle=posnum(lo=1, hi=180), d=unit(3)):
    EQ("up to 180 accepted", SolidViewMapper(d, angle).viewangle, angle)
    EQ("180 itself", SolidViewMapper(d, 180).viewangle, 180)
    EQ("180. itself", SolidViewMapper(d, 180.).viewangle, 180)


def C21_perspective_angle(a=posnum(lo=180, hi=720), b=posnum(lo=1, hi=179), which=each("vv", "vh", "both"), d=unit(3)):
    said = "accepted"
    try:
        if which == "vv":
            PerspectiveViewMapper(d, vv=a, vh=b)
        elif which == "vh":
            PerspectiveViewMapper(d, vv=b, vh=a)
        else:
            PerspectiveViewMapper(d, vv=a, vh=a)
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("view angles from 180 are refused", said, "ValueError")


def C21_perspective_limit(d=unit(3)):
    said = "accepted"
    try:
        PerspectiveViewMapper(d, vv=180, vh=180)
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("180 is refused", said, "ValueError")


def C21_perspective_valid(a=posnum(lo=1, hi=179.9), b=posnum(lo=1, hi=179.9), d=unit(3)):
    EQ("below 180 accepted", PerspectiveViewMapper(d, vv=a, vh=b).viewangle, np.maximum(a, b))


def C21_cap_invalid(n=each("4", 2.5, 4., (1,), "many"), before=each(None, "3")):
    """caps that are not integers are refused and the cap stays"""
    if before is not None:
        VARS.append((CAP, before))
    k = len(VARS)
    said = "accepted"
    try:
        io.set_nproc(n)
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("refused", said, "ValueError")
    EQ("environment untouched", len(VARS), k)


def C21_cap_valid(n=each(1, 2, 17, 400), before=each(None, "3")):
    if before is not None:
        VARS.append((CAP, before))
    io.set_nproc(n)
    EQ("cap is set", io.get_nproc(), n)
    EQ("value", int(getenv(CAP)), n)
    io.set_nproc(None)
    EQ("none changes nothing", io.get_nproc(), n)


def C21_cap_clear(n=each(0, -1, -7), before=each(None, "3")):
    if before is not None:
        VARS.append((CAP, before))
    io.set_nproc(n)
    HOLDS("cap is cleared", getenv(CAP) is None)


def C21_quantile(x=arr(5), y=arr(1, 5), q=each(-.1, 1.1, 50, (.5, 2), (-1, .5), "median ", "most"), sigma=posnum()):
    said = "accepted"
    try:
        translate.non_uniform_gaussian_filter(x, y, sigma=sigma, amethod=q)
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("quantiles outside [0, 1] are refused", said, "ValueError")


def C21_quantile_any(x=arr(5), y=arr(1, 5), q=num(lo=1.0001, hi=40), sign=each(1, -1), also=each(None, .5), sigma=posnum()):
    said = "accepted"
    b = q if sign > 0 else 1 - q
    try:
        translate.non_uniform_gaussian_filter(x, y, sigma=sigma, amethod=b if also is None else (also, b))
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("quantiles outside [0, 1] are refused", said, "ValueError")


def C21_quantiles_of_many(x=arr(5), y=arr(2, 5), sigma=posnum()):
    """several quantiles of several features are refused"""
    said = "accepted"
    try:
        translate.non_uniform_gaussian_filter(x, y, sigma=sigma, amethod=(.25, .75))
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("refused", said, "ValueError")


def C21_quantile_valid(x=arr(5), y=arr(1, 5), q=each(0, 1, .5, 1., (0, 1), (.25, .5)), sigma=posnum()):
    said = "accepted"
    try:
        translate.non_uniform_gaussian_filter(x, y, sigma=sigma, amethod=q)
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("quantiles inside [0, 1] are accepted", said, "accepted")


def C21_score_before_image(what=each("compute", "compute and save", "adapt", "response", "with illuminance"), ev=posnum()):
    g = hvsgsm.GSS()
    said = "accepted"
    try:
        if what == "compute":
            g.compute()
        elif what == "compute and save":
            g.compute(save="r.hdr", ev_eye=ev)
        elif what == "with illuminance":
            g.compute(ev_eye=ev)
        elif what == "adapt":
            g.adapt(ev)
        else:
            g.glare_response(np.ones((4, 4)), 1., 2., 3.)
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("refused", said, "ValueError")
    EQ("nothing written", len(WRITTEN), 0)
    HOLDS("no image", g.lum is None)


def C21_table(f=each("a.txt", b"a.txt"), fault=each(None, "value", "attribute"), exists=each(True, False)):
    if fault is not None:
        FAULT.append(fault)
    if exists:
        FILES.append(f)
    said = "accepted"
    try:
        r = io.load_txt(f, delimiter=",")
        EQ("table", r[1], f)
        EQ("options", r[2]["delimiter"], ",")
    except ValueError:
        said = "ValueError"
    except FileNotFoundError:
        said = "FileNotFoundError"
    except Exception:
        said = "another exception"
    EQ("documented exception", said, ("accepted" if fault is None else "ValueError") if exists else "FileNotFoundError")


def C21_table_type(f=each(None, 3, 2.5, (1, 2))):
    said = "accepted"
    try:
        io.load_txt(f)
    except TypeError:
        said = "TypeError"
    except Exception:
        said = "another exception"
    EQ("documented exception", said, "TypeError")


def C21_view_file(t=each("", "\n", "rvu -vtv -vh 45 -vv 45 -vd 1 0 0\n", "not a view\n", "rvu -vtl -vh 1\n\nVIEW= -vth -vd 0 1 0\n"),
                  which=each("function", "model")):
    TEXT.append(t)
    said = "accepted"
    try:
        if which == "function":
            imagetools.vf_to_vm("a.vf")
        else:
            hvsgsm.GSS("a.vf")
    except ValueError:
        said = "ValueError"
    except Exception:
        said = "another exception"
    EQ("view files without an angular view are refused", said, "ValueError")
