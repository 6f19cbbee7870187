"""exchange of images with the Radiance programs (C10 C12 C20 C24)

`Program` stands for a started process and `Opened` for an opened file; both
follow the Radiance manual pages (pvalue, getinfo).  An image is its samples
`(rows from the top, columns from the left, channel)`."""
import os
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import io, imagetools, translate
from raytools.mapper import ViewMapper, SolidViewMapper
from raytools.evaluate import MetricSet, ColorMetricSet, hvsgsm

MODELS = {"subprocess.Popen": Program, "subprocess.run": run, "subprocess.check_output": check_output, "builtins.open": Opened, "os.path.isfile": isfile}

STARTED = []
OPENED = []
DISK = []          # samples of the image read
HEADER = []        # lines of its header
FAULT = []         # (kind of fault, message)
TEXT = []          # text of the file read


class Opened:
    """a file; what was written is there once it is flushed or closed"""

    def __init__(self, path, mode="r"):
        self.path, self.mode = path, mode
        self.at = 0
        self.closed = False
        self.pending = b""
        self.content = None
        OPENED.append(self)

    def write(self, data):
        self.pending = self.pending + data

    def flush(self):
        if self.content is None:
            self.content = self.pending

    def close(self):
        self.flush()
        self.closed = True

    def read(self, n=None):
        return TEXT[0] if n is None else TEXT[0][:n]

    def readlines(self):
        return TEXT[0].splitlines(True)

    def __iter__(self):
        return TEXT[0].splitlines(True)

    def readline(self):
        self.at += 1
        lines = TEXT[0].splitlines(True)
        return lines[self.at - 1] if self.at <= len(lines) else ""

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


class Feed:
    """standard input of a program"""

    def __init__(self):
        self.data = b""
        self.flushed = False

    def write(self, data):
        self.data = self.data + data

    def flush(self):
        pass

    def close(self):
        pass


class Output:
    """standard output of a program: a first line and the rest"""

    def __init__(self, program):
        self.program = program

    def readline(self):
        return self.program.out()[0]

    def read(self):
        return self.program.out()[1]

    def close(self):
        pass


class Program:
    def __init__(self, args, stdin=None, stdout=None, stderr=None, shell=False):
        self.args = args
        self.source, self.sink = stdin, stdout
        self.stdin = Feed()
        self.stdout = Output(self)
        self.waited = False
        self.returncode = None
        STARTED.append(self)

    def __enter__(self):
        return self

    def out(self):
        """(first line, rest) the program prints given the input it has so far"""
        if self.args[0] == "getinfo":
            if "-a" in self.args:
                return self.source.program.out()[0], self.source.program.out()[1], self.args[2:]
            return b"", info(self.args)[0]
        if "-r" in self.args:
            return encoded(self.args, self.stdin.data), self.args, None
        if FAULT and FAULT[0][0] == "truncated":
            return decoded(self.args, DISK[0])[0], decoded(self.args, DISK[0])[1][:20]
        if FAULT and FAULT[0][0] != "failing":
            return b"", b""
        return decoded(self.args, DISK[0])

    def complaint(self):
        if self.args[0] == "getinfo":
            return info(self.args)[1]
        if FAULT:
            return FAULT[0][1].encode()
        return b""

    def communicate(self, input=None):
        if input is not None:
            self.stdin.data = self.stdin.data + input
        self.wait()
        if self.sink is None or isinstance(self.sink, Opened):
            return None, self.complaint()
        return self.out()[1] if self.args[0] == "getinfo" else self.out()[0] + self.out()[1], self.complaint()

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        self.waited = True
        self.returncode = 0
        if FAULT and self.args[0] != "getinfo":
            self.returncode = 1
        if isinstance(self.sink, Opened):
            self.sink.content = self.out()
        return 0


def run(args, stdin=None, input=None, stdout=None, stderr=None, capture_output=False, check=False, text=False):
    p = Program(args, stdin, "pipe" if capture_output else stdout, stderr)
    p.stdout, p.stderr = p.communicate(input)
    if check and p.returncode != 0:
        raise OSError("exit status")
    return p


def check_output(args, stdin=None, stderr=None, input=None):
    return run(args, stdin, input, "pipe", stderr, False, True).stdout


def sample(args):
    if "-df" in args:
        return "<f4"
    if "-dd" in args:
        return "<f8"
    if "-db" in args:
        return "u1"
    return "<U20"


def encoded(args, data):
    """pvalue -r: samples to image"""
    d = np.frombuffer(data, dtype=sample(args)).astype(float)
    up = "+y" in args
    left = "-x" in args
    iy = args.index("+y" if up else "-y")
    ix = args.index("-x" if left else "+x")
    y = int(args[iy + 1])
    x = int(args[ix + 1])
    if "-b" in args:
        c = 1
    else:
        c = 3
    if iy < ix:
        major, minor = y, x
    else:
        major, minor = x, y
    if "-n" in args:
        im = np.moveaxis(d.reshape(c, major, minor), 0, -1)
    else:
        im = d.reshape(major, minor, c)
    if iy > ix:
        im = np.swapaxes(im, 0, 1)
    if up:
        im = im[::-1]
    if left:
        im = im[:, ::-1]
    return im


def decoded(args, im):
    """pvalue: image to resolution line and samples"""
    line = f"-Y {im.shape[0]} +X {im.shape[1]}\n".encode()
    if "-b" in args:
        im = (im @ np.array((.265, .67, .065)))[..., None]
    if "-n" in args:
        im = np.moveaxis(im, -1, 0)
    return line, im.astype(sample(args)).tobytes()


def info(args):
    """getinfo: name and header lines, or the resolution with -d"""
    name = args[-1]
    if FAULT:
        if FAULT[0][0] == "missing":
            return (name + ": cannot open\n").encode(), b""
        if FAULT[0][0] == "corrupt":
            if "-d" in args:
                return (name + "bad header!\n").encode(), b""
            return (name + ":\n\t\n").encode(), (name + ": bad header!\n").encode()
    if "-d" in args:
        return (name + f": -Y {DISK[0].shape[0]}     +X {DISK[0].shape[1]}    \n").encode(), b""
    t = name + ":\n\t#?RADIANCE\n"
    if HEADER:
        for h in HEADER[0]:
            t = t + "\t" + h + "\n"
    return (t + "\tFORMAT=32-bit_rle_rgbe\n\t\n").encode(), b""


def isfile(p):
    return not (FAULT and FAULT[0][0] == "missing")


X = 3
Y = 5


def C10_write_gray(ar=arr(X, Y, lo=.1, hi=9), header=each(None, ("a= b", "c"))):
    r = io.array2hdr(ar, "out.hdr", header)
    f = OPENED[0]
    EQ("rows from the top", f.content[0][..., 0], ar.T[::-1])
    EQ("name", r, "out.hdr")


def C10_write_color(ar=arr(3, X, Y, lo=.1, hi=9), header=each(None, ("a= b", "c")), via=each(True, False)):
    if via:
        r = io.array2hdr(ar, "out.hdr", header)
    else:
        r = io.carray2hdr(ar, "out.hdr", header)
    f = OPENED[0]
    EQ("rows from the top, channels last", f.content[0], ar.T[::-1])


def C10_write_types(v=ints(3, X, Y, lo=1, hi=200), t=each("float32", "float64", "int64", "int32", "uint8", "uint32", ">f4", ">f8", "bool"),
                    gray=each(True, False), order=each(True, False)):
    """samples of any type and memory layout are written by value"""
    ar = v.astype(t)
    if order:
        ar = np.asfortranarray(ar)
    if gray:
        io.array2hdr(ar[1], "out.hdr")
        EQ("gray samples", OPENED[0].content[0][..., 0], v.astype(t)[1].astype("float64").T[::-1], rtol=1e-6)
    else:
        io.carray2hdr(ar, "out.hdr")
        EQ("colour samples", OPENED[0].content[0], v.astype(t).astype("float64").T[::-1], rtol=1e-6)


LARGE = 601


def C10_large(v=arr(LARGE, lo=.1, hi=9), h=arr(480, lo=.1, hi=9)):
    """images of more than a megabyte"""
    ar = np.outer(v, h)
    io.array2hdr(ar, "out.hdr")
    EQ("gray samples", OPENED[0].content[0][..., 0], ar.T[::-1], rtol=1e-6)


def C10_large_color(v=arr(LARGE, lo=.1, hi=9), h=arr(480, lo=.1, hi=9)):
    ar = np.stack((np.outer(v, h), np.outer(v, h + 1), np.outer(v + 1, h)))
    io.carray2hdr(ar, "out.hdr")
    EQ("colour samples", OPENED[0].content[0], ar.T[::-1], rtol=1e-6)


def C10_read_large(v=arr(480, lo=.1, hi=9), h=arr(LARGE, lo=.1, hi=9)):
    im = np.moveaxis(np.stack((np.outer(v, h), np.outer(v, h + 1), np.outer(v + 1, h))), (1, 2, 0), (0, 1, 2))
    DISK.append(im)
    EQ("colour samples", io.hdr2carray("in.hdr"), np.moveaxis(im[::-1], (2, 1, 0), (0, 1, 2)), rtol=1e-6)


def C10_read_gray(im=arr(Y, X, 3, lo=.1, hi=9)):
    DISK.append(im)
    ar = io.hdr2array("in.hdr")
    EQ("x to the right, y up", ar, (im @ np.array((.265, .67, .065)))[::-1].T)


def C10_read_color(im=arr(Y, X, 3, lo=.1, hi=9)):
    DISK.append(im)
    ar = io.hdr2carray("in.hdr")
    EQ("channel, x to the right, y up", ar, np.moveaxis(im[::-1], (2, 1, 0), (0, 1, 2)))


def C10_read_weighted(im=arr(Y, X, 3, lo=.1, hi=9), vl=pos(3)):
    DISK.append(im)
    ar = io.hdr2array("in.hdr", vlambda=vl)
    EQ("weighted channels", ar, (im @ vl)[::-1].T)


def C10_read_stream(im=arr(Y, X, 3, lo=.1, hi=9), vl=pos(3), which=each("gray", "color", "weighted")):
    """an image that comes from another program"""
    DISK.append(im)
    src = Opened("stream")
    if which == "gray":
        ar = io.hdr2array("", stdin=src)
    elif which == "color":
        ar = io.hdr2carray("", stdin=src)
    else:
        ar = io.hdr2array("", stdin=src, vlambda=vl)
    HOLDS("read from the stream", STARTED[0].source is src)
    EQ("shape", np.shape(ar)[-2:], (X, Y))


LINES = ("SOFTWARE= a", "b.hdr:", "\tx= 1", "\ty= 2", "c.hdr:", "\tx= 1", "\tz= 3", "VIEW= -vta -vh 180")


def C10_clean(ar=arr(X, Y, lo=.1, hi=9), col=arr(3, X, Y, lo=.1, hi=9), n=each(1, 2, 8), clean=each(True, False)):
    """cleaning the header is up to the caller, for every kind of image"""
    lines = list(LINES[-n:]) + ["pvalue -h"]
    want = io.clean_header(lines) if clean else lines
    io.array2hdr(ar, "a.hdr", lines, clean=clean)
    io.array2hdr(col, "b.hdr", lines, clean=clean)
    io.carray2hdr(col, "c.hdr", lines, clean=clean)
    EQ("header", list(OPENED[0].content[2]), list(want))
    EQ("header of colours", list(OPENED[1].content[2]), list(want))
    EQ("header of a colour array", list(OPENED[2].content[2]), list(want))
    one = ["\tx=  1"]
    io.array2hdr(ar, "d.hdr", one, clean=clean)
    EQ("header of one line", list(OPENED[3].content[2]), list(io.clean_header(one)) if clean else one)


def C10_header_lines(ar=arr(X, Y, lo=.1, hi=9), n=each(1, 2, 70, 300)):
    """every line, in order, repeated ones too"""
    lines = ["z= last", "a= b", "z= last"] * n
    io.array2hdr(ar, "a.hdr", lines)
    EQ("header", list(OPENED[0].content[2]), lines)


# ------------------------------------------------------- C12 completeness --
def C12_written(ar=arr(X, Y, lo=.1, hi=9), col=arr(3, X, Y, lo=.1, hi=9), header=each(None, (), ("a= b", "c")),
                which=each("array", "color"), path=text()):
    """everything is in the named file when the call returns"""
    if which == "array":
        io.array2hdr(ar, path, header)
        n = 1
    else:
        io.carray2hdr(col, path, header)
        n = 3
    EQ("one file", len(OPENED), 1)
    EQ("named file", OPENED[0].path, path)
    HOLDS("producer has finished", OPENED[0].content is not None)
    EQ("all samples", np.size(OPENED[0].content[0]), n * X * Y)
    HOLDS("binary", OPENED[0].mode == "wb")
    if header:
        EQ("header lines", list(OPENED[0].content[2]), list(header))


def C12_stdout(ar=arr(X, Y, lo=.1, hi=9), header=each(None, ("a= b",))):
    io.array2hdr(ar, None, header)
    EQ("no file", len(OPENED), 0)
    HOLDS("standard output", STARTED[-1].sink is None)
    HOLDS("finished", STARTED[-1].waited)


def C12_bytes(ar=arr(4, 3), path=text()):
    io.np2bytefile(ar, path)
    EQ("named file", OPENED[0].path, path)
    HOLDS("file complete", OPENED[0].closed)
    EQ("samples", np.frombuffer(OPENED[0].content, "<f4").astype(float), ar.ravel())


def C12_unreadable(im=arr(Y, X, 3, lo=.1, hi=9), what=each("missing", "corrupt", "truncated", "failing"), msg=text("message"), path=text(),
                   which=each("array", "color", "weighted", "with header", "rays")):
    DISK.append(im)
    FAULT.append((what, msg))
    said = None
    try:
        if which == "array":
            io.hdr2array(path)
        elif which == "color":
            io.hdr2carray(path)
        elif which == "weighted":
            io.hdr2array(path, vlambda=(.3, .6, .1))
        elif which == "with header":
            io.hdr2carray(path, header=True)
        else:
            imagetools.hdr2vol(path)
    except Exception as x:
        said = str(x)
    HOLDS("an error is raised", said is not None)
    if said is not None and which != "rays":
        # hdr2vol may notice when it looks for the view first
        HOLDS("with the program's message", msg in said)


def C12_silent(im=arr(Y, X, 3, lo=.1, hi=9), what=each("truncated", "failing"), which=each("array", "color", "weighted")):
    """a program that fails without a word"""
    DISK.append(im)
    FAULT.append((what, ""))
    failed = False
    try:
        if which == "array":
            io.hdr2array("a.hdr")
        elif which == "color":
            io.hdr2carray("a.hdr")
        else:
            io.hdr2array("a.hdr", vlambda=(.3, .6, .1))
    except Exception as x:
        failed = True
    HOLDS("an error is raised", failed)


def C12_no_image(what=each("missing", "corrupt"), path=each("pic.hdr"), which=each("header", "items", "view", "view and point", "size")):
    FAULT.append((what, "x"))
    failed = False
    try:
        if which == "header":
            io.hdr_header(path)
        elif which == "items":
            io.hdr_header(path, items=["view"])
        elif which == "view":
            imagetools.hdr2vm(path)
        elif which == "size":
            imagetools.img_size(path)
        else:
            imagetools.hdr2vm(path, True)
    except Exception as x:
        failed = True
    HOLDS("an error is raised", failed)


def C12_is_hdr(path=text()):
    TEXT.append(b"#?RADIANCE\nFO")
    HOLDS("file is closed", io.is_hdr(path) and OPENED[0].closed)


# ------------------------------------------------------------ C20 defaults --
N = 4
COEF = (.265, .67, .065)
LUM = ("illum", "avglum", "dgp", "ugr")
COL = ("illum", "illuminance_r", "avgcolor")


def C20_rays(im=arr(N, N, 3, lo=.1, hi=9), header=each((), ("rcalc -f x.cal", "SOFTWARE= x")), color=each(True, False)):
    """an image without view is a 180 degree one"""
    DISK.append(im)
    HEADER.append(header)
    v, o, l = imagetools.hdr2vol("a.hdr", color=color)
    vm = ViewMapper(viewangle=180)
    EQ("directions", v, vm.pixelrays(N).reshape(-1, 3))
    EQ("solid angles", o, vm.pixel2omega(vm.pixels(N), N).ravel())
    a = np.swapaxes(im[::-1], 0, 1).reshape(-1, 3)
    EQ("pixels", l, a if color else a @ np.array(COEF), rtol=1e-5)


def C25_volume(im=arr(N, N, 3, lo=.1, hi=9), back=arr(N, N, 3, lo=.1, hi=9), both=each(True, False), color=each(True, False),
               given=each(True, False), d=unit(3), va=each(180, 90)):
    """direction, solid angle and value of every pixel of an image, also of both halves of a full view"""
    if both:
        DISK.append(np.concatenate((im, back), 1))
        va = 180
        m = ViewMapper(d, 360)
    else:
        DISK.append(im)
        m = ViewMapper(d, va)
    HEADER.append((m.header(),))
    v, o, l = imagetools.hdr2vol("a.hdr", m if given else None, color=color)
    n = 2 * N * N if both else N * N
    EQ("a direction for every pixel", np.array(v.shape), np.array((n, 3)))
    EQ("a solid angle for every pixel", np.array(o.shape), np.array((n,)))
    EQ("directions", v, m.pixelrays(N).reshape(-1, 3), atol=1e-5)
    one = ViewMapper(d, va)
    o1 = one.pixel2omega(one.pixels(N), N).ravel()
    EQ("solid angles", o, np.concatenate((o1, o1)) if both else o1, atol=1e-5)
    a = np.swapaxes(im[::-1], 0, 1).reshape(-1, 3)
    if both:
        a = np.concatenate((a, np.swapaxes(back[::-1], 0, 1).reshape(-1, 3)))
    EQ("pixels", l, a if color else a @ np.array(COEF), rtol=1e-5)


def C20_items(long=each(3, 60, 600)):
    """items are found whatever their case and length; the last one counts"""
    v = " ".join(["0.25"] * long)
    lines = ["pfilt -x 512:", "LuminanceRGB= 1 2 3", "NOTE= a:b", "Note2= a=b=c", "luminancergb= " + v, "x.hdr:"]
    got = io.header_items(lines, ["LUMINANCErgb", "note", "NOTE2", "missing"])
    EQ("last value, whole", got[0], v)
    EQ("colons", got[1], "a:b")
    EQ("equal signs", got[2], "a=b=c")
    EQ("missing", got[3], "")
    HEADER.append(tuple(lines))
    DISK.append(np.zeros((N, N, 3)))
    EQ("items of a file", io.hdr_header("a.hdr", items=["note", "luminancergb"]), ["a:b", v])


def C20_no_view(im=arr(N, N, 3, lo=.1, hi=9), header=each((), ("rcalc -f x.cal",))):
    DISK.append(im)
    HEADER.append(header)
    HOLDS("no view", imagetools.hdr2vm("a.hdr") is None)
    vm, pt = imagetools.hdr2vm("a.hdr", True)
    HOLDS("no view and no point", vm is None and pt is None)


def C20_metrics(im=arr(N, N, 3, lo=.1, hi=9), header=each((), ("SOFTWARE= x",), ("LUMINANCERGB=",)), peakn=each(True, False),
                scale=posnum(lo=50, hi=300)):
    DISK.append(im)
    HEADER.append(header)
    vm = ViewMapper(viewangle=180)
    a = np.swapaxes(im[::-1], 0, 1).reshape(-1, 3)
    v = vm.pixelrays(N).reshape(-1, 3)
    o = vm.pixel2omega(vm.pixels(N), N).ravel()
    EQ("luminance metrics", imagetools.imgmetric("a.hdr", ["illum", "avglum", "dgp"], peakn=peakn, scale=scale),
       MetricSet(v, o, a @ np.array(COEF), vm, ["illum", "avglum", "dgp"], scale=scale)(), rtol=1e-4)


def C20_color_metrics(im=arr(N, N, 3, lo=.1, hi=9), header=each((), ("LUMINANCERGB=",)), scale=posnum(lo=50, hi=300)):
    DISK.append(im)
    HEADER.append(header)
    vm = ViewMapper(viewangle=180)
    a = np.swapaxes(im[::-1], 0, 1).reshape(-1, 3)
    v = vm.pixelrays(N).reshape(-1, 3)
    o = vm.pixel2omega(vm.pixels(N), N).ravel()
    names = ["illum", "avglum", "irradiance"]
    EQ("colour metrics", imagetools.imgmetric("a.hdr", names, scale=scale),
       ColorMetricSet(v, o, a, vm, names, scale=scale, vlambda=COEF)(), rtol=1e-4)


BAD = ("LUMINANCERGB=", "LUMINANCERGB= .3", "LUMINANCERGB= .3 .5", "LUMINANCERGB= .3 .5 .2 .1", "LUMINANCERGB= .1 .2 .3 .4 .5 .6")


def C20_malformed(im=arr(N, N, 3, lo=.1, hi=9), header=each(*BAD), scale=posnum(lo=50, hi=300),
                  names=each(("illum", "avglum", "dgp"), ("illum", "avglum", "irradiance"))):
    """an entry that is not three coefficients is as good as none"""
    DISK.append(im)
    HEADER.append((header,))
    vm = ViewMapper(viewangle=180)
    a = np.swapaxes(im[::-1], 0, 1).reshape(-1, 3)
    v = vm.pixelrays(N).reshape(-1, 3)
    o = vm.pixel2omega(vm.pixels(N), N).ravel()
    EQ("metrics", imagetools.imgmetric("a.hdr", list(names), scale=scale),
       ColorMetricSet(v, o, a, vm, list(names), scale=scale, vlambda=COEF)(), rtol=1e-4)


def C20_given(im=arr(N, N, 3, lo=.1, hi=9), scale=posnum(lo=50, hi=300), arg=each(True, False)):
    """coefficients in the header are used unless others are requested"""
    DISK.append(im)
    HEADER.append(("LUMINANCERGB= .2 .7 .1",))
    vm = ViewMapper(viewangle=180)
    a = np.swapaxes(im[::-1], 0, 1).reshape(-1, 3)
    v = vm.pixelrays(N).reshape(-1, 3)
    o = vm.pixel2omega(vm.pixels(N), N).ravel()
    c = (.3, .5, .2) if arg else (.2, .7, .1)
    r = imagetools.imgmetric("a.hdr", ["illum", "avglum"], scale=scale, lumrgb=c if arg else None)
    EQ("luminance metrics", r, MetricSet(v, o, a @ np.array(c), vm, ["illum", "avglum"], scale=scale)(), rtol=1e-4)


def C20_gss(im=arr(N, N, 3, lo=.1, hi=9), header=each((), ("SOFTWARE= x",))):
    DISK.append(im)
    HEADER.append(header)
    g = hvsgsm.GSS("a.hdr")
    EQ("view angle", g.vm.viewangle, 180)
    EQ("direction", g.vm.dxyz, ViewMapper(viewangle=180).dxyz)
    EQ("luminance", g.lum, (im @ np.array(COEF))[::-1].T * 179, rtol=1e-5)


def C20_ang2uv(im=arr(N, N, 3, lo=.1, hi=9), useview=each(True, False)):
    DISK.append(im)
    HEADER.append(())
    imagetools.hdr_ang2uv("a.hdr", useview=useview)
    a = np.moveaxis(im[::-1], (2, 1, 0), (0, 1, 2))
    EQ("pixels", OPENED[0].content[0], imagetools.array_ang2uv(a, ViewMapper(viewangle=180)).T[::-1], rtol=1e-5)


def C20_solid2ang(im=arr(N, N, 3, lo=.1, hi=9), reverse=each(True, False)):
    DISK.append(im)
    HEADER.append(())
    imagetools.hdr_solid2ang("a.hdr", reverse=reverse)
    a = np.moveaxis(im[::-1], (2, 1, 0), (0, 1, 2))
    EQ("pixels", OPENED[0].content[0], imagetools.array_solid2ang(a, reverse=reverse, viewangle=180, returnvm=False).T[::-1],
       rtol=1e-5)


# ----------------------------------------------------------------- C24 view --
def C24_view(im=arr(N, N, 3, lo=.1, hi=9), d=unit(3), pt=arr(3, lo=-50, hi=50), angle=posnum(lo=.5, hi=180),
             where=each("VIEW", "rvu")):
    DISK.append(im)
    vm = ViewMapper(d, angle)
    line = vm.header(pt)
    if where == "rvu":
        line = "rvu" + line[5:]
    HEADER.append(("SOFTWARE= a", line, "x= y"))
    vm2, p2 = imagetools.hdr2vm("a.hdr", True)
    EQ("direction", vm2.dxyz, vm.dxyz, rtol=1e-13)
    EQ("angle", vm2.viewangle, angle, rtol=1e-14)
    EQ("point", p2, pt, rtol=1e-15)
    vm3 = imagetools.hdr2vm("a.hdr")
    EQ("direction alone", vm3.dxyz, vm.dxyz, rtol=1e-13)
    HOLDS("projection", line.split()[1] == "-vta")


def C24_axis(d=each((0., 0., 1.), (0., 1., 0.), (1., 0., 0.), (0., 0., -1.)), angle=posnum(lo=.5, hi=180)):
    DISK.append(np.zeros((N, N, 3)))
    vm = ViewMapper(d, angle)
    HEADER.append((vm.header(),))
    vm2, p2 = imagetools.hdr2vm("a.hdr", True)
    EQ("direction", vm2.dxyz, np.array(d), rtol=1e-13)
    EQ("angle", vm2.viewangle, angle, rtol=1e-14)
    EQ("point", p2, (0., 0., 0.))
    a = line_vector(vm.header(), "-vu")
    HOLDS("up vector is not the view direction", np.sum(np.square(np.cross(a, d))) > .1)


def line_vector(line, flag):
    w = line.split()
    i = w.index(flag)
    return np.array((float(w[i + 1]), float(w[i + 2]), float(w[i + 3])))


def C24_nearly_vertical(a=num(lo=0, hi=6.28), r=each(1e-4, 3e-3, .03), up=each(1., -1.)):
    """the up vector is z unless the view is vertical: rows of the image follow z"""
    d = np.array((r * np.cos(a), r * np.sin(a), up))
    vm = ViewMapper(d, 90)
    EQ("up vector", line_vector(vm.header(), "-vu"), np.array((0., 0., 1.)))
    l, u = np.cross((0., 0., 1.), vm.dxyz), vm.dxyz
    EQ("left of the view", np.ravel(vm.world2view(l / np.sqrt(l @ l))), np.array((1., 0., 0.)), atol=1e-6)


def C24_last(im=arr(N, N, 3, lo=.1, hi=9), d=unit(3), d2=unit(3), angle=posnum(lo=.5, hi=180)):
    """the last view in the header counts"""
    DISK.append(im)
    HEADER.append((ViewMapper(d2, 90).header(), "rcalc", ViewMapper(d, angle).header(),))
    EQ("direction", imagetools.hdr2vm("a.hdr").dxyz, ViewMapper(d, angle).dxyz, rtol=1e-13)
    EQ("angle", imagetools.hdr2vm("a.hdr").viewangle, angle, rtol=1e-14)


def C24_wide(d=unit(3)):
    """a 360 degree image is twice as wide as high and has the 180 degree view of its first half"""
    DISK.append(np.zeros((N, 2 * N, 3)))
    vm = ViewMapper(d, 360)
    HEADER.append((vm.header(),))
    vm2 = imagetools.hdr2vm("a.hdr")
    EQ("direction", vm2.dxyz, vm.dxyz, rtol=1e-13)
    EQ("aspect", vm2.aspect, 2)
    EQ("angle", vm2.viewangle, vm.viewangle)


def C24_solid(d=unit(3), angle=posnum(lo=.5, hi=180), pt=arr(3)):
    vm = SolidViewMapper(d, angle)
    line = vm.header(pt)
    EQ("direction", line_vector(line, "-vd"), vm.dxyz, rtol=1e-13)
    EQ("point", line_vector(line, "-vp"), pt, rtol=1e-13)
    w = line.split()
    EQ("angle", float(w[w.index("-vh") + 1]), angle, rtol=1e-14)
    EQ("vertical angle", float(w[w.index("-vv") + 1]), angle, rtol=1e-14)


def C24_view_file(d=unit(3), angle=posnum(lo=.5, hi=180), pt=arr(3)):
    vm = ViewMapper(d, angle)
    TEXT.append("rvu -vtv -vh 1 -vd 1 0 0\n" + ViewMapper((0., 1., 0.), 90).header() + "\n" + vm.header(pt) + "\n")
    vm2 = imagetools.vf_to_vm("a.vf")
    EQ("direction", vm2.dxyz, vm.dxyz, rtol=1e-13)
    EQ("angle", vm2.viewangle, angle, rtol=1e-14)


# --------------------------------------------------------- C13 output names --
def result(r, path, outf, stdout):
    """where the result went, given the requested output"""
    if outf is not None:
        EQ("requested name is used", r, outf)
        EQ("one file", len(OPENED), 1)
        EQ("written to the name", OPENED[0].path, outf)
        return None
    if stdout:
        EQ("nothing but standard output", len(OPENED), 0)
        HOLDS("to standard output", STARTED[-1].sink is None)
        HOLDS("no name returned", r is None)
        return None
    EQ("one file", len(OPENED), 1)
    EQ("written where it says", OPENED[0].path, r)
    HOLDS("not the input", r != path)
    HOLDS("beside the input", r.startswith(path.rsplit(".", 1)[0]))
    return None


def C13_uv2ang(im=arr(N, N, 3, lo=.1, hi=9), path=text(), outf=each(None, "o.hdr"), stdout=each(False, True)):
    DISK.append(im)
    result(imagetools.hdr_uv2ang(path, outf=outf, stdout=stdout), path, outf, stdout)


def C13_uv2ang_both(im=arr(N * 2, N, 3, lo=.1, hi=9), path=text(), stdout=each(False, True)):
    DISK.append(np.swapaxes(im, 0, 1))
    result(imagetools.hdr_uv2ang(path, stdout=stdout), path, None, stdout)


def C13_ang2uv(im=arr(N, N, 3, lo=.1, hi=9), path=text(), outf=each(None, "o.hdr"), stdout=each(False, True),
               useview=each(True, False), view=each((), ("VIEW= -vta -vv 180 -vh 180 -vd 1 0 0",))):
    DISK.append(im)
    HEADER.append(view)
    result(imagetools.hdr_ang2uv(path, outf=outf, stdout=stdout, useview=useview), path, outf, stdout)


def C13_rotate(im=arr(N, N, 3, lo=.1, hi=9), path=text(), outf=each(None, "o.hdr"), stdout=each(False, True),
               rotate=each(0., .4, 30., -20., 360.), center=each(None, (1, 2), (1, 2, 2, 2)), first=each(True, False)):
    DISK.append(im)
    result(imagetools.hdr_rotate(path, outf=outf, stdout=stdout, rotate=rotate, center=center, rotate_first=first),
           path, outf, stdout)


def C13_rotate_any(im=arr(N, N, 3, lo=.1, hi=9), path=text(), rotate=num(lo=-400, hi=400), a=integer(0, 3), b=integer(0, 3),
                   first=each(True, False), nearest=each(True, False)):
    DISK.append(im)
    result(imagetools.hdr_rotate(path, rotate=rotate, center=(a, b), rotate_first=first, nearest=nearest), path, None, False)


def C13_solid2ang(im=arr(N, N, 3, lo=.1, hi=9), path=text(), outf=each(None, "o.hdr"), stdout=each(False, True),
                  reverse=each(False, True), angle=each(None, 120)):
    DISK.append(im)
    result(imagetools.hdr_solid2ang(path, outf=outf, stdout=stdout, reverse=reverse, viewangle=angle), path, outf, stdout)


class Scored:
    """a glare model that records where it is asked to save"""

    def __init__(self):
        self.lum = None
        self.saved = None

    def compute(self, save=None, ev_eye=None):
        self.saved = save
        return ev_eye


def C13_response(path=text(), outdir=each(None, "resp"), save=each(True, False)):
    g = Scored()
    hvsgsm.process_gss(path, 1., g, outf=save, outdir=outdir)
    EQ("image evaluated", g.lum, path)
    if save:
        HOLDS("not the input", g.saved != path)
        if outdir is not None:
            HOLDS("in the directory", g.saved.startswith(outdir + "/") and "/" not in g.saved[len(outdir) + 1:])
        else:
            HOLDS("beside the input", g.saved.startswith(path.rsplit(".", 1)[0]))
    else:
        HOLDS("nothing saved", g.saved is None)


class Model(hvsgsm.GSS):
    """a glare model with a given response"""

    lum = 1

    def __init__(self, r):
        self.r = r

    def adapt(self, ev):
        return ev, 1, 1

    def glare_response(self, img, e, a, d):
        return self.r

    def gss(self, r):
        return np.sum(r)


def C13_save(r=arr(2, N, N, lo=.1, hi=9), ev=posnum(), path=text()):
    """the response goes exactly to the requested file"""
    g = Model(r)
    g.compute(save=path, ev_eye=ev)
    EQ("one file", len(OPENED), 1)
    EQ("requested name", OPENED[0].path, path)
    EQ("response", OPENED[0].content[0][..., 0], r[0].T[::-1])
