"""array resampling and exchange, rigid motions, drawing (C35 C36 C37 C39)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME, FRESH
from raytools import io, translate
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper

MODELS = {"builtins.open": Opened, "raytools.io.array2hdr": written}

N = 6
SINGLE = "N"
SEVERAL = ("C36_frames", "C36_exact", "C36_reflect_checks", "C36_reflect",)
OPENED = []
IMAGES = []


class Opened:
    """a file that holds what was written to it"""

    def __init__(self, path, mode="r"):
        self.path, self.mode = path, mode
        self.content = b""
        self.closed = False
        if "a" in mode:
            for f in OPENED:
                if f.path == path:
                    self.content = f.content
        elif "r" in mode:
            for f in OPENED:
                if f.path == path and f.closed:
                    self.content = f.content
        OPENED.append(self)

    def write(self, data):
        self.content = self.content + data

    def read(self):
        return self.content

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def written(ar, imgf, header=None, clean=False):
    IMAGES.append((ar, imgf, header))


# ------------------------------------------------------------- C35 arrays --
# whole numbers of which the reciprocal of the reciprocal is not the number
FACTORS = (93, 99, 105, 117, 186, 198, 210, 211, 221, 227)


def blocks(a, i, j):
    """mean of every block of i by j samples"""
    h, w = a.shape[0] // i, a.shape[1] // j
    return np.mean(np.mean(np.reshape(a, (h, i, w, j)), 3), 1)


def C35_down(a=arr(12, 24), i=each(1, 2, 3, 4, 6), j=each(1, 2, 3, 4, 8), amp=posnum(lo=1e-6, hi=1e6)):
    a = a * amp
    if i * j > 1:
        EQ("block means", translate.resample(a, (12 // i, 24 // j)), blocks(a, i, j))
        EQ("mean is kept", np.mean(translate.resample(a, (12 // i, 24 // j))), np.mean(a), atol=1e-9)


def C35_ratio(a=arr(1, 3), n=integer(1, 320), m=each(1, 2)):
    """every whole factor, also one whose reciprocal is not exact"""
    big = np.repeat(np.repeat(a, n, 0), m, 1)
    r = translate.resample(big, (1, 3))
    EQ("shape", np.array(r.shape), np.array((1, 3)))
    EQ("constant blocks", r, a)
    EQ("repeated rows", translate.resample(a, (n, 3 * m), gauss=False), big)


def C35_factors(n=each(*FACTORS)):
    big = np.arange(2. * n)
    EQ("block means", translate.resample(big, (2,)), np.array(((n - 1) / 2., (3 * n - 1) / 2.)))
    EQ("repeated samples", translate.resample(np.arange(2.), (2 * n,), gauss=False), np.repeat(np.arange(2.), n))


def C35_up(a=arr(4, 6), i=each(1, 2, 3), j=each(1, 2, 5), amp=posnum(lo=1e-6, hi=1e6)):
    a = a * amp
    r = translate.resample(a, (4 * i, 6 * j), gauss=False)
    y, x = np.arange(4 * i) // i, np.arange(6 * j) // j
    EQ("repeated samples", r, a[y][:, x])
    g = translate.resample(a, (4 * i, 6 * j))
    EQ("shape", np.array(g.shape), np.array((4 * i, 6 * j)))
    HOLDS("smoothed within the range", np.all(g <= np.max(a) + 1e-9 * amp) and np.all(g >= np.min(a) - 1e-9 * amp))
    EQ("mean is kept", np.mean(g), np.mean(a), atol=1e-6, rtol=1e-5)


def C35_three(a=arr(2, 4, 6), i=each(1, 2), j=each(1, 2), k=each(1, 3)):
    r = translate.resample(a, (2 * i, 4 * j, 6 * k), gauss=False)
    EQ("repeated samples", r, a[np.arange(2 * i) // i][:, np.arange(4 * j) // j][:, :, np.arange(6 * k) // k])


def C35_same(a=arr(5, 7), radius=each(1, 2, 3), c=num(), gauss=each(True, False)):
    EQ("no change", translate.resample(a), a)
    EQ("same shape", translate.resample(a, (5, 7), gauss=gauss), a)
    flat = np.full((6, 4), c)
    EQ("constants stay", translate.resample(flat, radius=radius, gauss=gauss), flat)
    EQ("constants stay when enlarged", translate.resample(flat, (12, 8), radius=radius, gauss=gauss), np.full((12, 8), c))
    EQ("constants stay when reduced", translate.resample(flat, (3, 2), radius=radius, gauss=gauss), np.full((3, 2), c))
    s = translate.resample(a, radius=radius, gauss=gauss)
    HOLDS("smoothed within the range", np.all(s <= np.max(a) + 1e-9) and np.all(s >= np.min(a) - 1e-9))
    EQ("linear", translate.resample(a * 3 + 1, radius=radius, gauss=gauss), s * 3 + 1)


def C35_radius(a=arr(4, 6), i=each(1, 2, 3), j=each(1, 2, 4), r=each(1, 3)):
    """the default width is the scale ratio less one; a width alone filters without a change of shape"""
    if i * j > 1:
        EQ("default width", translate.resample(a, (4 * i, 6 * j)), translate.resample(a, (4 * i, 6 * j), radius=(i - 1, j - 1)))
        g = translate.resample(a, (4 * i, 6 * j), gauss=False)
        EQ("repeated, then smoothed", translate.resample(a, (4 * i, 6 * j), radius=r), translate.resample(g, radius=r))
    spot = np.zeros((9, 9))
    spot[4, 4] = 1.
    c = np.arange(-4, 5)
    g = np.exp(-c * c / (2. * r * r))
    f = translate.resample(spot, radius=float(r) / 2)
    g2 = np.exp(-c * c / (r * r / 2.))
    if r == 1:
        EQ("bell of that width", f, np.outer(g2, g2) / np.sum(g2) ** 2, atol=1e-6)
    box = translate.resample(spot, radius=r, gauss=False)
    inside = np.abs(c) <= (r - 1) / 2
    EQ("window of that width", box, np.where(np.outer(inside, inside), 1. / r ** 2, 0.), atol=1e-12)


def C35_take(a=arr(4, 5, 6), i=each(0, 3), j=each((1, 2), (4, 0, 4)), axis=each(0, 1, 2)):
    EQ("one index keeps the dimension", translate.simple_take(a, i), a[i:i + 1])
    EQ("sequence", translate.simple_take(a, None, j), a[:, list(j)])
    EQ("slice", translate.simple_take(a, slice(0, 4, 3), None, slice(None, None, -2)), a[::3, :, ::-2])
    EQ("each axis on its own", translate.simple_take(a, [3, 0], list(j), 5), a[[3, 0]][:, list(j)][:, :, 5:])
    EQ("chosen axis", translate.simple_take(a, [2, 0], axes=axis), np.take(a, [2, 0], axis))
    EQ("chosen axes", translate.simple_take(a, slice(1, 3), [0, 2], axes=(2, 0)), a[[0, 2]][:, :, 1:3])


# ------------------------------------------------------- C36 rigid motions --
def C36_matrices(t=num(lo=-720, hi=720), s=num(lo=-720, hi=720), axis=each(0, 1, 2), degrees=each(True, False), v=arr(N, 3)):
    m = translate.rmtx_elem(t, axis, degrees)
    EQ("lengths and angles", m @ m.T, np.eye(3), rtol=1e-12, atol=1e-12)
    EQ("handedness", np.sum(np.cross(m[0], m[1]) * m[2]), 1., rtol=1e-12)
    EQ("inverse", m @ translate.rmtx_elem(-t, axis, degrees), np.eye(3), atol=1e-11)
    EQ("sequence", m @ translate.rmtx_elem(s, axis, degrees), translate.rmtx_elem(t + s, axis, degrees), atol=1e-10)
    full = 360. if degrees else 2 * np.pi
    EQ("full turn", translate.rmtx_elem(t + full, axis, degrees), m, atol=1e-10)
    r = translate.rotate_elem(v, t, axis, degrees)
    EQ("component along the axis", r[:, axis], v[:, axis], rtol=1e-12)
    EQ("products between vectors", r @ r.T, v @ v.T, atol=1e-11)
    axle = np.eye(3)[axis]
    turn = t * np.pi / 180 if degrees else t
    flat = v - v * axle
    EQ("right hand rule", r, v * axle + np.cos(turn) * flat + np.sin(turn) * np.cross(np.broadcast_to(axle, (N, 3)), v), atol=1e-11)
    EQ("rotated back", translate.rotate_elem(r, -t, axis, degrees), v, atol=1e-11)
    EQ("single vector", translate.rotate_elem(v[2:3], t, axis, degrees), r[2:3])


def C36_frames(d=unit(3), v=arr(N, 3), w=unit(3), near=posnum(lo=1e-6, hi=1.5), kind=each("view", "solid", "polar", "after change")):
    if kind == "solid":
        m = SolidViewMapper(d, 180)
    elif kind == "polar":
        m = ViewMapper(np.array((np.sin(near) * d[0], np.sin(near) * d[1], np.cos(near))), 180)
    elif kind == "after change":
        m = ViewMapper(w, 180)
        m.world2view(v)
        m.dxyz = d
    else:
        m = ViewMapper(d, 180)
    a = m.world2view(v)
    EQ("products between vectors", a @ a.T, v @ v.T, atol=1e-11)
    EQ("handedness", np.cross(a[0], a[1]), m.world2view(np.cross(v[0], v[1]))[0], atol=1e-11)
    EQ("and back", m.view2world(a), v, atol=1e-11)
    EQ("other way round", m.world2view(m.view2world(v)), v, atol=1e-11)
    EQ("view direction", m.world2view(m.dxyz), np.array(((0., 0., 1.),)), atol=1e-9)


def C36_yaw_pitch(v=unit(3), p=arr(N, 3)):
    y, q = translate.rmtx_yp(v)
    for m in (y, q):
        EQ("lengths and angles", m @ m.T, np.eye(3), atol=1e-12)
        EQ("handedness", np.sum(np.cross(m[0], m[1]) * m[2]), 1., rtol=1e-12)
    EQ("yaw leaves the vertical", y @ np.array((0., 0., 1.)), np.array((0., 0., 1.)), atol=1e-12)


def C36_exact(axis=each(0, 1, 2), sign=each(1., -1.), v=arr(N, 3), d=unit(3), va=each(90, 180, 360)):
    """directions exactly along an axis, alone and among others"""
    e0 = np.eye(3)[axis] * sign
    y, q = translate.rmtx_yp(e0)
    ys, qs = translate.rmtx_yp(np.stack((d, e0, -d, -e0)), keepdims=True)
    EQ("alone and among others", np.stack((y, q)), np.stack((ys[1], qs[1])), atol=1e-12)
    EQ("opposite", np.stack(translate.rmtx_yp(-e0)), np.stack((ys[3], qs[3])), atol=1e-12)
    for m in (y, q):
        EQ("lengths and angles", m @ m.T, np.eye(3), atol=1e-12)
        EQ("handedness", np.sum(np.cross(m[0], m[1]) * m[2]), 1., rtol=1e-12)
    EQ("to the vertical", q @ (y @ e0), np.array((0., 0., 1.)), atol=1e-12)
    m = ViewMapper(e0, va)
    a = m.world2view(v)
    EQ("products between vectors", a @ a.T, v @ v.T, atol=1e-11)
    EQ("handedness of the view", np.cross(a[0], a[1]), m.world2view(np.cross(v[0], v[1]))[0], atol=1e-11)
    EQ("and back", m.view2world(a), v, atol=1e-11)


def C36_norm(v=arr(N, 3, lo=-3, hi=3), size=each(1., 1e-9, 1e9)):
    """normalising changes the length only, however short or long the vector"""
    v = v * size
    n = translate.norm(v)
    EQ("direction", n, v / np.sqrt(np.sum(v * v, axis=1))[:, None])
    EQ("direction of one", translate.norm1(v[0]), n[0])
    EQ("direction of a list", translate.norm1([v[0, 0], v[0, 1], v[0, 2]]), n[0])
    EQ("nothing to normalise", translate.norm1(v[0] * 0), np.zeros(3))


def C36_reflect_checks(v=unit(N, 3), n=unit(3), k=pos(N, lo=1.02, hi=3)):
    """rays that are not of unit length are told apart, rays kept as four byte floats are not"""
    r, ok = translate.reflect(v.astype("f4"), n[None])
    HOLDS("four byte floats", np.all(ok))
    w = v * np.where(np.arange(N) % 2 == 0, 1., k)[:, None]
    r, ok = translate.reflect(w, n[None])
    EQ("unit rays", np.ravel(ok), np.arange(N) % 2 == 0)
    EQ("only those", np.reshape(translate.reflect(w, n[None], True), (3, 3)), np.reshape(r, (N, 3))[::2])


def C36_reflect(v=unit(N, 3), n=unit(3), m=unit(4, 3), k=pos(N, lo=.5, hi=2), single=each(True, False)):
    if single:
        r, ok = translate.reflect(v, n[None])
        r = np.reshape(r, (N, 3))
        c = v @ n
        EQ("mirrored", r, v - 2 * c[:, None] * n)
        EQ("twice", np.reshape(translate.reflect(r, n[None])[0], (N, 3)), v)
        HOLDS("valid", np.all(ok))
        EQ("other side of the plane", r @ n, -c)
        EQ("valid rays", np.reshape(translate.reflect(v, n[None], True), (N, 3)), r)
    else:
        r, ok = translate.reflect(v, m)
        EQ("every ray at every plane", r, v[:, None] - 2 * (v @ m.T)[..., None] * m[None])
        HOLDS("valid", np.all(ok))
        one = translate.reflect(v[:1], m)[0]
        EQ("one ray", one, r[0])


# ------------------------------------------------------------ C37 drawing --
def marks(p, shape):
    """image of the pixels p"""
    i = np.arange(shape[0])[:, None, None]
    j = np.arange(shape[1])[None, :, None]
    return np.any((p[:, 0] == i) & (p[:, 1] == j), -1)


def new_view(kind, d):
    if kind == "whole":
        return ViewMapper(d, 360)
    if kind == "solid":
        return SolidViewMapper(d, 180)
    return ViewMapper(d, 180 if kind == "half" else 70)


def image_pixels(vm, v, res):
    """pixel of every direction; the rear half of a whole view lies beyond the front half"""
    p = np.floor(vm.ray2pixel(v, res, integer=False))
    if vm.aspect == 2:
        q = np.floor(vm.ivm.ray2pixel(v, res, integer=False)) + np.array((res, 0))
        return np.where((vm.degrees(v) > 90)[:, None], q, p)
    return p


def C37_dots(v=unit(N, 3), d=unit(3), old=pos(16, 8), c=posnum(lo=1, hi=9), kind=each("whole", "half", "narrow", "solid")):
    vm = new_view(kind, d)
    img = old[:8 * vm.aspect]
    p = image_pixels(vm, v, 8)
    r = vm.add_vecs_to_img(np.copy(img), v, channels=(c, 0, 0))
    EQ("marked pixels", r, np.where(marks(p, img.shape), c, img))
    EQ("plain number", vm.add_vecs_to_img(np.copy(img), v, channels=c), r)


def C37_color(v=unit(N, 3), d=unit(3), old=pos(3, 16, 8), c=pos(3, lo=1, hi=9), kind=each("whole", "half", "narrow", "solid"),
              skip=each(None, 0, 2), dark=each(True, False)):
    if dark:
        c = c * np.array((1., 0., 1.))
    vm = new_view(kind, d)
    img = old[:, :8 * vm.aspect]
    p = image_pixels(vm, v, 8)
    ch = [None if skip == i else c[i] for i in range(3)]
    r = vm.add_vecs_to_img(np.copy(img), v, channels=ch)
    hit = marks(p, img.shape[1:])
    for i in range(3):
        EQ("channel", r[i], img[i] if skip == i else np.where(hit, c[i], img[i]))


def C37_masked(v=unit(N, 3), d=unit(3), old=pos(8, 8), row=integer(2, 6)):
    """only pixels of the mask may be set"""
    vm = ViewMapper(d, 180)
    keep = np.arange(8) < row
    at = np.nonzero(keep[:, None] & np.ones(8, dtype=bool))
    r = vm.add_vecs_to_img(np.copy(old), v, channels=2., mask=at)
    EQ("marked pixels", r, np.where(marks(image_pixels(vm, v, 8), (8, 8)) & keep[:, None], 2., old))


def C37_masked_pairs(v=unit(N, 3), d=unit(3), old=pos(8, 8), k=each(0, 1)):
    """pixels of the mask, not their rows and columns"""
    vm = ViewMapper(d, 180)
    i = np.arange(8)
    keep = (i[:, None] + i[None]) % 2 == k
    r = vm.add_vecs_to_img(np.copy(old), v, channels=2., mask=np.nonzero(keep))
    EQ("marked pixels", r, np.where(marks(image_pixels(vm, v, 8), (8, 8)) & keep, 2., old))


def C37_square_behind(v=unit(N, 3), d=unit(3)):
    """rays behind the view have no cell"""
    vm = new_view("half", d)
    ASSUME(np.all(np.abs(v @ d) > 1e-3))
    b = v * np.where(v @ d > 0, -1., 1.)[:, None]
    f = v * np.where(v @ d > 0, 1., -1.)[:, None]
    EQ("nothing is drawn", vm.add_vecs_to_img(np.zeros((8, 8)), b, channels=2., fisheye=False), np.zeros((8, 8)))
    EQ("only those in view", vm.add_vecs_to_img(np.zeros((8, 8)), np.concatenate((b, f)), channels=2., fisheye=False),
       vm.add_vecs_to_img(np.zeros((8, 8)), f, channels=2., fisheye=False))


def C37_square(v=unit(N, 3), d=unit(3), kind=each("whole", "half")):
    """on the square projection"""
    vm = new_view(kind, d)
    if kind == "half":
        v = v * np.where(v @ d < 0, -1., 1.)[:, None]
    uv = vm.xyz2uv(v)
    ASSUME(np.all(np.abs(v @ d) > 1e-3))
    r = vm.add_vecs_to_img(np.zeros((8 * vm.aspect, 8)), v, channels=2., fisheye=False)
    EQ("marked cells", r, np.where(marks(np.floor(uv * 8), (8 * vm.aspect, 8)), 2., 0.))


def C37_grow(t=num(lo=0, hi=.6), turn=num(lo=0, hi=6.28), d=unit(3), grow=each(1, 2), color=each(True, False)):
    """one dot is a square around its pixel"""
    vm = ViewMapper(d, 180)
    r, u = np.cross(d, np.array((0., 0., 1.))), d
    r = r / np.sqrt(np.sum(r * r))
    u = np.cross(r, d)
    v = (np.cos(t) * d + np.sin(t) * (np.cos(turn) * r + np.sin(turn) * u))[None]
    p = np.floor(vm.ray2pixel(v, 15, integer=False))[0]
    i, j = np.arange(15)[:, None], np.arange(15)[None]
    box = (np.abs(i - p[0]) <= grow) & (np.abs(j - p[1]) <= grow)
    if color:
        img = vm.add_vecs_to_img(np.zeros((3, 15, 15)), v, channels=(1., 2., 0.), grow=grow)
        EQ("square", img[0], np.where(box, 1., 0.), atol=1e-9)
        EQ("square of the next channel", img[1], np.where(box, 2., 0.), atol=1e-9)
        EQ("nothing", img[2], np.zeros((15, 15)), atol=1e-9)
    else:
        EQ("square", vm.add_vecs_to_img(np.zeros((15, 15)), v, channels=3., grow=grow), np.where(box, 3., 0.), atol=1e-9)


def C37_blank(d=unit(3), pt=arr(3), kind=each("whole", "half", "narrow", "solid"), features=each(1, 3), res=each(4, 7)):
    """a new image is black, with the rays of its pixels and the ones that are in view"""
    vm = new_view(kind, d)
    img, vecs, mask, mask2, header = vm.init_img(res, pt, features=features, indices=False)
    shape = (res * vm.aspect, res)
    EQ("black", img, np.zeros(shape if features == 1 else (features,) + shape))
    rays = vm.pixelrays(res)
    EQ("rays of the pixels", vecs, rays)
    front = vm.in_view(rays[:res], indices=False)
    if vm.aspect == 2:
        front = np.concatenate((np.ravel(front), np.ravel(vm.ivm.in_view(rays[res:], indices=False))))
    EQ("in view", np.ravel(mask), np.ravel(front))
    _, _, idx, idx2, header2 = vm.init_img(res, pt, features=features)
    lit = np.zeros(shape)
    lit[idx] = 1.
    EQ("in view by index", np.ravel(lit), np.where(np.ravel(front), 1., 0.))
    if features > 1:
        lit = np.zeros((features,) + shape)
        lit[idx2] = 1.
        for i in range(features):
            EQ("in view by index, every channel", np.ravel(lit[i]), np.where(np.ravel(front), 1., 0.))
    EQ("header", header, vm.header(pt))
    EQ("same header", header2, header)


def C37_blank_projection(d=unit(3), pt=arr(3), kind=each("whole", "half", "narrow"), features=each(1, 3), res=each(4, 7),
                         proj=each("e", "Equisolid", "vte", "u", "square", "fisheye", "Angular")):
    """a new image in another projection: black, its own rays, its own header"""
    vm = new_view(kind, d)
    p = {"e": "vte", "E": "vte", "v": "vte", "u": "vuv", "s": "vuv", "f": "vta", "A": "vta"}[proj[0]]
    img, vecs, mask, mask2, header = vm.init_img(res, pt, features=features, viewproj=proj, indices=False)
    shape = (res * vm.aspect, res)
    EQ("black", img, np.zeros(shape if features == 1 else (features,) + shape))
    EQ("header", header, vm.header(pt, viewproj=p))
    if p == "vta":
        EQ("rays of the pixels", vecs, vm.pixelrays(res))
    if p == "vuv":
        EQ("rays of the bins", vecs.reshape(-1, 3), vm.uv2xyz(translate.bin2uv(np.arange(res * res * vm.aspect), res)))
    if p == "vte" and vm.aspect == 1:
        EQ("rays of the pixels", vecs, vm.solid_pixelrays(res))
        front = np.ravel(vm.in_view(vecs, indices=False))
        EQ("in view", np.ravel(mask), front)
        _, _, idx, idx2, header2 = vm.init_img(res, pt, features=features, viewproj=proj)
        lit = np.zeros(shape)
        lit[idx] = 1.
        EQ("in view by index", np.ravel(lit), np.where(front, 1., 0.))
        if features > 1:
            lit = np.zeros((features,) + shape)
            lit[idx2] = 1.
            for i in range(features):
                EQ("in view by index, every channel", np.ravel(lit[i]), np.where(front, 1., 0.))


def C37_plane(v=arr(N, 3, lo=-.2, hi=1.2), old=pos(8, 4), c=posnum(), size=posnum(lo=.5, hi=4)):
    """a plain mapper: coordinates over its rectangle"""
    m = Mapper(sf=(2 * size, size), bbox=np.array(((0., 0.), (2., 1.))) * size)
    p = v * np.array((2., 1., 1.)) * size
    r = m.add_vecs_to_img(np.copy(old), p, channels=c)
    EQ("marked pixels", r, np.where(marks(np.floor(v[:, :2] * np.array((8., 4.))), (8, 4)), c, old))


def C37_plane_color(v=arr(N, 3, lo=-.2, hi=1.2), old=pos(3, 8, 4), c=pos(3), size=posnum(lo=.5, hi=4), b=arr(2)):
    m = Mapper(sf=(2 * size, size), bbox=np.array(((0., 0.), (2., 1.))) * size + b)
    p = v * np.array((2., 1., 1.)) * size + np.array((b[0], b[1], 0.))
    r = m.add_vecs_to_img(np.copy(old), p, channels=c)
    hit = marks(np.floor(v[:, :2] * np.array((8., 4.))), (8, 4))
    EQ("marked pixels", r, np.stack([np.where(hit, c[i], old[i]) for i in range(3)]))


def C37_plane_grow(x=num(lo=.35, hi=.65), y=num(lo=.35, hi=.65), b=arr(2), grow=each(1, 2), color=each(True, False), c=pos(3)):
    """one dot is a square around its pixel"""
    m = Mapper(sf=(2., 1.), bbox=np.array(((0., 0.), (2., 1.))) + b)
    v = np.array(((2 * x + b[0], y + b[1], .3),))
    i, j = np.arange(20)[:, None], np.arange(10)[None]
    box = (np.abs(i - np.floor(20 * x)) <= grow) & (np.abs(j - np.floor(10 * y)) <= grow)
    if color:
        r = m.add_vecs_to_img(np.zeros((3, 20, 10)), v, channels=c, grow=grow)
        EQ("square", r, np.stack([np.where(box, c[k], 0.) for k in range(3)]), atol=1e-9)
    else:
        EQ("square", m.add_vecs_to_img(np.zeros((20, 10)), v, channels=c, grow=grow), np.where(box, c[0], 0.), atol=1e-9)
        EQ("one pixel", m.add_vecs_to_img(np.zeros((20, 10)), v), np.where(marks(np.array(((np.floor(20 * x), np.floor(10 * y)),)), (20, 10)), 1., 0.))


def C37_plane_plot(v=arr(N, 3, lo=-.2, hi=1.2), grow=each(0, 1), default=each(True, False)):
    m = Mapper(sf=(2., 1.), bbox=((0., 0.), (2., 1.)))
    if default:
        m.plot(v, "p.hdr", res=12)
        grow = 1
    else:
        m.plot(v, "p.hdr", res=12, grow=grow)
    EQ("one image", len(IMAGES), 1)
    EQ("name", IMAGES[0][1], "p.hdr")
    EQ("image", IMAGES[0][0], m.add_vecs_to_img(np.zeros((12, 6)), v, grow=grow))
    EQ("its view", IMAGES[0][2][0], m.header())


def C37_plane_frame(d=arr(2), a=posnum(lo=.2, hi=5), res=each(5, 7, 16), v=arr(N, 3, lo=-.2, hi=1.2)):
    """a frame is rounded to whole pixels; its edges belong to it"""
    m = Mapper(sf=np.array((a, 1.)), bbox=np.stack((d, d + np.array((a, 1.)))))
    if a < 1:
        EQ("frame", np.array(m.framesize(res)), np.array((np.floor(res * a + .5), res)))
    else:
        EQ("frame", np.array(m.framesize(res)), np.array((res, np.floor(res / a + .5))))
    k = Mapper()
    edge = np.array(((0., 0., 0.), (1., .5, 0.), (.5, 1., 0.), (.3, 0., 0.), (0., .6, 0.)))
    HOLDS("edges are in view", np.all(k.in_view(edge, indices=False)))
    HOLDS("beyond them is not", not np.any(k.in_view((edge - .5) * 1.01 + .5, indices=False)))


def C37_plane_origin(uv=arr(N, 2), o=arr(3)):
    m = Mapper(origin=o, uvz=.7)
    for f in (m.uv2xyz, m.vxy2xyz):
        r = f(uv, stackorigin=True)
        EQ("origin first", r[:, :3], np.ones((N, 1)) * o[None])
        EQ("direction second", r[:, 3:], f(uv))


def C37_plane_blank(d=arr(2), res=each(4, 7), wide=each(True, False)):
    """a new image is black, with the rays of its pixels"""
    s = np.array((2., 1.) if wide else (1., 2.))
    m = Mapper(sf=s, bbox=np.stack((d, d + s)))
    img, vecs, mask, mask2, header = m.init_img(res)
    EQ("black", img, np.zeros(m.framesize(res)))
    EQ("rays of the pixels", vecs, m.pixelrays(res))
    EQ("header", header, m.header())


def C37_plot(v=unit(N, 3), d=unit(3), grow=each(0, 1), kind=each("half", "narrow")):
    vm = new_view(kind, d)
    vm.plot(v, "p.hdr", res=9, grow=grow)
    EQ("one image", len(IMAGES), 1)
    EQ("name", IMAGES[0][1], "p.hdr")
    EQ("image", IMAGES[0][0], vm.add_vecs_to_img(np.zeros((9, 9)), v, grow=grow))
    EQ("its view", IMAGES[0][2][0], vm.header())


# ----------------------------------------------------- C39 array exchange --
def C39_bytes(a=arr(4, 3), big=pos(4, 3, lo=1e-6, hi=1e6), i=ints(4, 3, lo=0, hi=250), rows=each(4, -1), kind=each("<f", "<d", ">f4", "<i4", "u1", "<u2")):
    x = i if kind in ("<i4", "u1", "<u2") else a * big
    b = io.np2bytes(x, kind)
    y = io.bytes2np(b, (rows, 3), kind)
    size = np.dtype(kind).itemsize
    EQ("length", len(b), 12 * size)
    EQ("values", y, x.astype(kind), rtol=0)
    EQ("transposed and strided arrays", io.bytes2np(io.np2bytes(x.T[:, ::2], kind), (3, 2), kind), x.T[:, ::2].astype(kind), rtol=0)


def C39_default(a=arr(5, 2)):
    """four byte floats, smallest byte first, unless another type is given"""
    b = io.np2bytes(a)
    EQ("length", len(b), 40)
    EQ("read", io.bytes2np(b, (5, 2)), a.astype("<f4"), rtol=0)
    EQ("type", np.frombuffer(b, "<f4"), np.ravel(a.astype("<f4")), rtol=0)


def C39_file(a=arr(4, 3), c=arr(2, 3), kind=each("<f", "<d", "<i4"), default=each(True, False)):
    if default:
        io.np2bytefile(a, "x.bin")
        kind = "<f"
    else:
        io.np2bytefile(a, "x.bin", kind)
    HOLDS("closed", OPENED[0].closed)
    EQ("name", OPENED[0].path, "x.bin")
    EQ("read back", io.bytefile2np(open("x.bin", "rb"), (-1, 3), kind), a.astype(kind), rtol=0)
    io.np2bytefile(c, "x.bin", kind, mode="ab")
    EQ("appended", io.bytefile2np(open("x.bin", "rb"), (6, 3), kind), np.concatenate((a, c)).astype(kind), rtol=0)
