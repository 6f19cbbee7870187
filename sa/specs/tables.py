"""the tables of metric names and what is behind them (C06)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools.mapper import ViewMapper
from raytools.evaluate import MetricSet, BaseMetricSet, ColorMetricSet

N = 5
SEEN = []


def tables(c):
    return sorted(set(list(c.allmetrics) + list(c.defaultmetrics) + list(c.safe2sum)))


class Probe(MetricSet):
    """notes when metrics are computed"""

    @property
    def illum(self):
        SEEN.append("illum")
        return 1.

    @property
    def avglum(self):
        SEEN.append("avglum")
        return 1.


class ProbeColor(ColorMetricSet):

    @property
    def illum(self):
        SEEN.append("illum")
        return 1.


class ProbeBase(BaseMetricSet):

    @property
    def illum(self):
        SEEN.append("illum")
        return 1.


def outcome(f, *a):
    """how a call ends"""
    try:
        r = f(*a)
    except AttributeError as x:
        return "AttributeError"
    except Exception as x:
        return "another error"
    return "ok"


def C06_base(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3), guth=each(True, False)):
    m = BaseMetricSet(vec, omega, lum, ViewMapper(dxyz, 360), None, guth=guth)
    for n in tables(BaseMetricSet):
        HOLDS(n + " is advertised", n in BaseMetricSet.allmetrics)
        EQ(n + " is accepted", outcome(m, [n]), "ok")
        EQ(n + " is one value", m([n]).shape, (1,))
        EQ(n + " is the property", m([n])[0], getattr(m, n))
    HOLDS("the set advertises metrics", len(BaseMetricSet.allmetrics) > 5)


def C06_luminance(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3), thresh=each(3000., 1.5)):
    m = MetricSet(vec, omega, lum, ViewMapper(dxyz, 360), None, threshold=thresh)
    for n in tables(MetricSet):
        HOLDS(n + " is advertised", n in MetricSet.allmetrics)
        EQ(n + " is accepted", outcome(m, [n]), "ok")
        EQ(n + " is one value", m([n]).shape, (1,))
        EQ(n + " is the property", m([n])[0], getattr(m, n))
    for n in BaseMetricSet.allmetrics:
        HOLDS(n + " is inherited", n in MetricSet.allmetrics)


def C06_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60), dxyz=unit(3), thresh=each(3000., 1.5)):
    m = ColorMetricSet(vec, omega, rgb, ViewMapper(dxyz, 360), None, threshold=thresh)
    for n in tables(ColorMetricSet):
        HOLDS(n + " is advertised", n in ColorMetricSet.allmetrics)
        EQ(n + " is accepted", outcome(m, [n]), "ok")
        EQ(n + " has its entries", m([n]).shape, (3 if n == "irradiance" else 1,))
        EQ(n + " is the property", np.atleast_1d(getattr(m, n)), m([n]))
    for n in MetricSet.allmetrics:
        HOLDS(n + " is inherited", n in ColorMetricSet.allmetrics)


def C06_edge(vec=cone(N, 80), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=9), angle=each(180, 360), kind=each("dark", "no sources", "all sources")):
    """every metric is a value for any image"""
    k = {"dark": 0., "no sources": 1., "all sources": 1e6}[kind]
    m = MetricSet(vec, omega, lum * k, ViewMapper((0, 0, 1), angle), None)
    c = ColorMetricSet(vec, omega, lum[:, None] * k * np.ones(3), ViewMapper((0, 0, 1), angle), None)
    for n in tables(MetricSet):
        EQ(n + " is one value", m([n]).shape, (1,))
        EQ(n + " is one value of the colour set", c([n]).shape, (1,))


def C06_defaults(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3)):
    vm = ViewMapper(dxyz, 360)
    for c in (BaseMetricSet, MetricSet):
        EQ(c.__name__ + " default", c(vec, omega, lum, vm)(), c(vec, omega, lum, vm)(list(c.defaultmetrics)))
        d = list(c.defaultmetrics)
        a = list(c.allmetrics)
        m = c(vec, omega, lum, vm, ["density", "illum"])
        EQ(c.__name__ + " requested", m(), np.array((m.density, m.illum)))
        EQ(c.__name__ + " other request", m(["avglum"]), np.array((m.avglum,)))
        EQ(c.__name__ + " requested again", m(), np.array((m.density, m.illum)))
        EQ(c.__name__ + " default table", list(c.defaultmetrics), d)
        EQ(c.__name__ + " table", list(c.allmetrics), a)
    rgb = lum[:, None] * np.array((1., .5, .2))
    m = ColorMetricSet(vec, omega, rgb, vm)
    EQ("ColorMetricSet default", m(), m(list(ColorMetricSet.defaultmetrics)))


def C06_rejects(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3), where=each(0, 1, 2),
                bad=each("vec", "lum", "omega", "pos_idx", "sources", "src_mask", "DGP", "dgp ", "", "irradiance", "gss", "check_metrics",
                         "_lum", "scale", "rgb", "illum,dgp", "nothing", "pweight", "ctheta", "kwargs")):
    vm = ViewMapper(dxyz, 360)
    names = ["illum", "avglum"]
    names.insert(where, bad)
    EQ("at construction", outcome(Probe, vec, omega, lum, vm, names), "AttributeError")
    EQ("nothing computed at construction", len(SEEN), 0)
    m = Probe(vec, omega, lum, vm, ["illum"])
    EQ("at call", outcome(m, names), "AttributeError")
    EQ("nothing computed at call", len(SEEN), 0)
    EQ("check", MetricSet.check_metrics(names), ["illum", "avglum"])
    EQ("checked with error", outcome(MetricSet.check_metrics, names, True), "AttributeError")
    EQ("checked without error", outcome(MetricSet.check_metrics, names, False), "ok")
    HOLDS("not safe to sum", not MetricSet.check_safe2sum(names))
    EQ("still usable", m(["illum"]), np.array((1.,)))


def C06_rejects_base(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3), where=each(0, 1),
                     bad=each("dgp", "ugp", "ugr", "irradiance", "vec", "threshold", "backlum", "pweight", "pweighted_area")):
    names = ["illum"]
    names.insert(where, bad)
    vm = ViewMapper(dxyz, 360)
    EQ("at construction", outcome(ProbeBase, vec, omega, lum, vm, names), "AttributeError")
    EQ("at call", outcome(ProbeBase(vec, omega, lum, vm), names), "AttributeError")
    EQ("nothing computed", len(SEEN), 0)


def C06_rejects_color(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), rgb=pos(N, 3, lo=1, hi=60), dxyz=unit(3), where=each(0, 1),
                      bad=each("vec", "rgb", "Irradiance", "irradiance_r", "gss", "background", "ctheta", "_rgb")):
    names = ["illum"]
    names.insert(where, bad)
    vm = ViewMapper(dxyz, 360)
    EQ("at construction", outcome(ProbeColor, vec, omega, rgb, vm, names), "AttributeError")
    EQ("at call", outcome(ProbeColor(vec, omega, rgb, vm), names), "AttributeError")
    EQ("nothing computed", len(SEEN), 0)


def C06_duplicates(vec=unit(N, 3), omega=pos(N, lo=.01, hi=.3), lum=pos(N, lo=1, hi=60), dxyz=unit(3),
                   names=each(("illum", "illum"), ("dgp", "illum", "dgp"), (), ("ugr",), ("maxlum", "density", "avglum"))):
    """accepted requests give one value for each name in the order of the request"""
    m = MetricSet(vec, omega, lum, ViewMapper(dxyz, 360), list(names))
    v = [getattr(m, n) for n in names]
    EQ("constructed", m(), np.array(v))
    EQ("called", m(list(names)), np.array(v))
    EQ("called with a tuple", m(names), np.array(v))
    EQ("number", len(m()), len(names))


def C06_safe(names=each(("illum",), ("illum", "density"), ("avglum", "illum", "density"), ())):
    for c in (BaseMetricSet, MetricSet, ColorMetricSet):
        HOLDS(c.__name__ + " is safe", c.check_safe2sum(list(names)))
        EQ(c.__name__ + " valid", c.check_metrics(list(names), True), list(names))
        HOLDS(c.__name__ + " rejects a mixture", not c.check_safe2sum(list(names) + ["gcr"]))


def C06_safe_tables():
    for c in (BaseMetricSet, MetricSet, ColorMetricSet):
        HOLDS(c.__name__ + " names", c.check_safe2sum(sorted(c.safe2sum)))
        for n in c.allmetrics:
            EQ(c.__name__ + " " + n, c.check_safe2sum([n]), n in c.safe2sum)
