"""resampling convention and jitter cells (C18 C23)"""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import imagetools, translate
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper
from raytools.evaluate import MetricSet

R = 5


# ------------------------------------------------------------------- C23 --
def C23_pixels(res=each(3, 6), dxyz=unit(3), va=each(90., 180.)):
    m = ViewMapper(dxyz, va)
    p = m.pixels(res)
    i = np.arange(res)
    EQ("pixel columns", p[:, :, 0], (i[:, None] + .5) * np.ones((res, res)))
    EQ("pixel rows", p[:, :, 1], (i[None] + .5) * np.ones((res, res)))
    EQ("pixel rays are rays of pixel centres", m.pixelrays(res), m.vxy2xyz(p / res))
    EQ("pixel of its ray", m.ray2pixel(m.pixelrays(res).reshape(-1, 3), res), np.floor(p).reshape(-1, 2))


def C23_plane_pixels(res=each(4), b=arr(2, lo=-2, hi=2)):
    m = Mapper(sf=(2, 1), bbox=np.stack((b, b + np.array((2., 1.)))))
    p = m.pixels(res)
    EQ("frame size", np.array(m.framesize(res)), np.array((4, 2)))
    EQ("pixel columns", p[:, :, 0], (np.arange(4)[:, None] + .5) * np.ones((4, 2)))
    EQ("pixel rows", p[:, :, 1], (np.arange(2)[None] + .5) * np.ones((4, 2)))


def C23_identity(img=arr(R, R), col=arr(3, R, R), nearest=each(True, False), first=each(True, False)):
    EQ("rotation by nothing", imagetools.array_rotate(img, 0, nearest=nearest, rotate_first=first), img)
    EQ("colour rotation by nothing", imagetools.array_rotate(col, 0, nearest=nearest, rotate_first=first), col)
    c = (R / 2, R / 2)
    EQ("centring on the centre", imagetools.array_rotate(img, 0, center=c, nearest=nearest, rotate_first=first), img)
    EQ("colour centring on the centre",
       imagetools.array_rotate(col, 0, center=c, nearest=nearest, rotate_first=first), col)
    EQ("moving a point to itself",
       imagetools.array_rotate(img, 0, center=(1.5, 2.5, 1.5, 2.5), nearest=nearest, rotate_first=first), img)


def C23_quarter(img=arr(R, R), col=arr(3, R, R), first=each(True, False), nearest=each(True, False)):
    q = imagetools.array_rotate(img, 90, rotate_first=first, nearest=nearest)
    EQ("quarter turn", q, QUARTER(img))
    EQ("half turn", imagetools.array_rotate(img, 180, rotate_first=first, nearest=nearest), img[::-1, ::-1])
    EQ("quarter back", imagetools.array_rotate(q, -90, rotate_first=first, nearest=nearest), img)
    c = imagetools.array_rotate(col, 90, rotate_first=first, nearest=nearest)
    EQ("colour quarter turn", c[1], QUARTER(col[1]))


def QUARTER(a):
    return a.T[::-1]


def C23_centre(img=arr(R, R), nearest=each(True, False), first=each(True, False)):
    a = imagetools.array_rotate(img, 0, center=(3.5, 1.5), nearest=nearest, rotate_first=first)
    EQ("new centre", a[2, 2], img[3, 1])
    b = imagetools.array_rotate(img, 0, center=(3.5, 1.5, 1.5, 2.5), nearest=nearest, rotate_first=first)
    EQ("moved point", b[1, 2], img[3, 1])


def C23_centre_then_turn(img=arr(R, R, lo=1, hi=9), ang=each(20., 90., -45.), nearest=each(True, False),
                         fill=each(None, 0., -3.), c=each((3.5, 1.5), (2.5, 2.5, 3.5, 2.5))):
    """not rotating first: the centred image is the one that is rotated"""
    a = imagetools.array_rotate(img, ang, center=c, rotate_first=False, fill_value=fill, nearest=nearest)
    b = imagetools.array_rotate(img, 0, center=c, fill_value=fill, nearest=nearest)
    EQ("centred, then rotated", a, imagetools.array_rotate(b, ang, fill_value=fill, nearest=nearest))


def C23_same_view(img=arr(6, 6), col=arr(3, 6, 6), dxyz=unit(3), kind=each(0, 1), nearest=each(True, False)):
    if kind == 0:
        m = ViewMapper(dxyz, 180)
    else:
        m = SolidViewMapper(dxyz, 180)
    inside = m.in_view(m.pixelrays(6), indices=False).reshape(6, 6)
    EQ("same view", m.transform_to(img, m, nearest=nearest), np.where(inside, img, 0), atol=1e-6, rtol=1e-5)
    EQ("same view, channels", m.transform_to(col, m, nearest=nearest), np.where(inside[None], col, 0),
       atol=1e-6, rtol=1e-5)


def C23_linear(a=arr(2), c=num(), dxyz=unit(3), kind=each(0, 1, 2)):
    """an image that is linear in the source pixel coordinates is resampled without error"""
    if kind == 0:
        m = ViewMapper(dxyz, 180)
        o = SolidViewMapper(dxyz, 180)
    elif kind == 1:
        o = ViewMapper(dxyz, 180)
        m = SolidViewMapper(dxyz, 180)
    else:
        m = ViewMapper(dxyz, 120)
        o = ViewMapper(dxyz, 180)
    p = o.pixels(6)
    img = p[:, :, 0] * a[0] + p[:, :, 1] * a[1] + c
    r = m.pixelrays(6).reshape(-1, 3)
    inside = o.in_view(r, indices=False)
    q = o.ray2pixel(r, 6, integer=False)
    EQ("resampled at pixel centres", m.transform_to(img, o).ravel(),
       np.where(inside, q[:, 0] * a[0] + q[:, 1] * a[1] + c, 0), atol=1e-6)


def C23_solid(a=arr(2), c=num(), reverse=each(True, False), va=each(120., 180.)):
    if reverse:
        m = ViewMapper(viewangle=va)
        o = SolidViewMapper(viewangle=va)
    else:
        m = SolidViewMapper(viewangle=va)
        o = ViewMapper(viewangle=va)
    p = m.pixels(6)
    img = p[:, :, 0] * a[0] + p[:, :, 1] * a[1] + c
    got, vm = imagetools.array_solid2ang(img, reverse=reverse, viewangle=va)
    EQ("transformation between equisolid and equiangular", got, m.transform_to(img, o))
    EQ("without the view", imagetools.array_solid2ang(img, reverse=reverse, viewangle=va, returnvm=False), got)
    if reverse:
        HOLDS("named by the output projection", vm.name == "vts")
    else:
        HOLDS("named by the output projection", vm.name == "vta")


def C23_square(img=arr(6, 6), col=arr(3, 6, 6), far=arr(12, 6)):
    m = ViewMapper(viewangle=180)
    uv = (np.stack(np.mgrid[0:6, 0:6], 2).reshape(-1, 2) + .5) / 6
    p = m.ray2pixel(m.uv2xyz(uv), 6)
    EQ("square pixels look up the pixel they point to", imagetools.array_ang2uv(img).ravel(), img[p[:, 0], p[:, 1]])
    EQ("square channels", imagetools.array_ang2uv(col)[2].ravel(), col[2][p[:, 0], p[:, 1]])
    r = m.pixelrays(6).reshape(-1, 3)
    inside = m.in_view(r, indices=False)
    ij = np.floor(m.xyz2uv(r[inside]) * 6).astype(int)
    a = imagetools.array_uv2ang(img)
    EQ("fisheye pixels look up the cell they point to", a.ravel()[inside], img[ij[:, 0], ij[:, 1]])
    EQ("outside the view", a.ravel()[np.logical_not(inside)], 0 * a.ravel()[np.logical_not(inside)])
    b = imagetools.array_uv2ang(col)
    EQ("fisheye channels", b[1].ravel()[inside], col[1][ij[:, 0], ij[:, 1]])


# ------------------------------------------------------------------- C18 --
def C18_cells(rate=num(lo=.05, hi=1), i=ints(6, lo=0, hi=31)):
    m = Mapper(jitterrate=rate)
    uv = m.idx2uv(i, (8, 4))
    EQ("jittered cell", m.uv2idx(uv, (8, 4)), i)
    c = np.stack((np.floor(i / 4), np.mod(i, 4))).T
    HOLDS("cell", np.all(np.abs(uv * np.array((8, 4)) - c - .5) <= rate / 2 + 1e-9))


def C18_view_cells(rate=num(lo=.05, hi=1), i=ints(6, lo=0, hi=31), dxyz=unit(3)):
    m = ViewMapper(dxyz, 360, jitterrate=rate)
    uv = m.idx2uv(i, (8, 4))
    c = np.stack((np.floor(i / 4), np.mod(i, 4))).T
    HOLDS("cell", np.all(np.abs(uv * 4 - c - .5) <= rate / 2 + 1e-9))
    HOLDS("same cell", np.all(np.floor(uv * 4) == c))


def C18_pixels(jitter=num(lo=.05, hi=1), dxyz=unit(3), kind=each(0, 1)):
    if kind == 0:
        m = ViewMapper(dxyz, 120)
    else:
        m = Mapper(sf=(2, 1), bbox=((0, 0), (2, 1)))
    p = m.pixels(4, jitter=jitter)
    q = m.pixels(4)
    HOLDS("pixel", np.all(np.abs(p - q) <= jitter / 2 + 1e-9))
    HOLDS("same pixel", np.all(np.floor(p) == np.floor(q)))
    HOLDS("same table", p.shape == q.shape)


def C18_off(dxyz=unit(3), i=ints(6, lo=0, hi=31), rate=num(lo=.05, hi=1), v=unit(6, 3)):
    """without jitter a repeated call is the same term"""
    m = ViewMapper(dxyz, 360, jitterrate=rate)
    p = Mapper(jitterrate=rate)
    EQ("view cells", m.idx2uv(i, (8, 4), jitter=False), m.idx2uv(i, (8, 4), jitter=False))
    EQ("cells", p.idx2uv(i, (8, 4), jitter=False), p.idx2uv(i, (8, 4), False))
    EQ("pixels", p.pixels(4), p.pixels(4))
    EQ("view pixels", m.pixels(4), m.pixels(4, jitter=0))
    EQ("pixel rays", m.pixelrays(4), m.pixelrays(4))
    EQ("plane pixel rays", p.pixelrays(4), p.pixelrays(4, jitter=0.))
    EQ("solid pixel rays", m.solid_pixelrays(4), m.solid_pixelrays(4))
    z = ViewMapper(dxyz, 360, jitterrate=0)
    EQ("no jitter rate", z.idx2uv(i, (8, 4)), m.idx2uv(i, (8, 4), jitter=False))
    a = m.init_img(4)
    b = m.init_img(4)
    EQ("image vectors", a[1], b[1])
    c = p.init_img(4)
    d = p.init_img(4)
    EQ("plane image vectors", c[1], d[1])
