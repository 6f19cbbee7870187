"""mapping in parallel (C14) and what batches share (C15)

`Pool` stands for the executors of concurrent.futures: tasks run when somebody
waits for one, in the order of completion the driver chooses."""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import utility
from raytools.utility import pool_call
from raytools.evaluate import hvsgsm

MODELS = {"concurrent.futures.ThreadPoolExecutor": Threads, "concurrent.futures.ProcessPoolExecutor": Processes,
          "concurrent.futures.as_completed": as_completed, "concurrent.futures.wait": wait,
          "multiprocessing.get_context": get_context, "os.getenv": getenv, "os.environ": Environment, "os.cpu_count": cpu_count,
          "shutil.get_terminal_size": terminal, "raytools.evaluate.hvsgsm.GSS": Tracker,
          "clasp.script_tools.try_mkdir": mkdir}
BASES = {"tqdm.tqdm": Bar}

ORDER = []
POOLS = []
CALLS = []
ENV = []


class Future:
    def __init__(self, pool, task, args, kwargs):
        self.pool, self.task, self.args, self.kwargs = pool, task, args, kwargs
        self.ready = False
        self.value = None
        self.fault = None
        self.callbacks = []

    def run(self):
        if not self.ready:
            self.ready = True
            try:
                self.value = self.task(*self.args, **self.kwargs)
            except Exception as x:
                self.fault = x
            for c in self.callbacks:
                c(self)

    def done(self):
        # between two looks another task ends
        self.pool.advance()
        return self.ready

    def running(self):
        return not self.ready

    def cancelled(self):
        return False

    def result(self, timeout=None):
        self.pool.settle()
        if self.fault is not None:
            raise self.fault
        return self.value

    def exception(self, timeout=None):
        self.pool.settle()
        return self.fault

    def add_done_callback(self, f):
        self.callbacks.append(f)


class Pool:
    mode = ""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=()):
        self._max_workers = max_workers
        self.context = mp_context
        self.tasks = []
        POOLS.append(self)

    def submit(self, fn, *args, **kwargs):
        f = Future(self, fn, args, kwargs)
        self.tasks.append(f)
        return f

    def advance(self):
        for f in permuted(self.tasks):
            if not f.ready:
                f.run()
                return

    def settle(self):
        for f in permuted(self.tasks):
            f.run()

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return [f.result() for f in fs]

    def shutdown(self, wait=True, cancel_futures=False):
        self.settle()

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.settle()


class Threads(Pool):
    mode = "thread"


class Processes(Pool):
    mode = "process"


def permuted(fs):
    """in the order of completion"""
    fs = list(fs)
    every = fs[0].pool.tasks if fs else []
    if ORDER and len(ORDER[0]) == len(every):
        return [every[i] for i in ORDER[0] if every[i] in fs]
    return fs


def as_completed(fs, timeout=None):
    fs = permuted(fs)
    for f in fs:
        f.run()
    return fs


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    done, left = [], []
    first = return_when != "ALL_COMPLETED"
    for f in permuted(fs):
        if not first or f.ready or not done:
            f.run()
            done.append(f)
        else:
            left.append(f)
    return set(done), set(left)


def get_context(name=None):
    return "context " + str(name)


class Environment:
    def __init__(self):
        pass

    def __getitem__(self, k):
        v = getenv(k)
        if v is None:
            raise KeyError(k)
        return v

    def __contains__(self, k):
        return getenv(k) is not None

    def get(self, k, d=None):
        return getenv(k, d)


def getenv(name, default=None):
    return ENV[0] if ENV and name == "RAYTOOLS_PROC_CAP" else default


def cpu_count():
    return 6


class Terminal:
    columns = 80
    lines = 24


def terminal(fallback=None):
    return Terminal()


class Bar:
    """progress bar"""

    def __init__(self, desc=None, position=0, ncols=100, total=None, disable=False, **kw):
        self.n = 0
        self.total = total

    def update(self, n=1):
        self.n = self.n + n

    def close(self):
        pass

    def set_description(self, desc=None, refresh=True):
        pass

    def write(self, s, file=None, end="", nolock=False):
        pass

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def work(a, b, c, k=0):
    CALLS.append((a, b, c, k))
    return a + 2 * b + 3 * c + 5 * k


def single(a, c, k=0):
    CALLS.append((a, c, k))
    return a, c, k


def falsy(a):
    return None if a == 1 else a * 0


def failing(i, at):
    if i == at:
        raise KeyError("task")
    return i


MODES = (False, None, 0, "", True, 1, "process", "thread", "t", "threads", "T", "Thread")
ORDERS = ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2))


def C14_expanded(x=arr(4, lo=1, hi=9), y=arr(4, lo=1, hi=9), c=posnum(), k=posnum(), mode=each(*MODES), order=each(*ORDERS),
                 pbar=each(True, False)):
    ORDER.append(order)
    r = pool_call(work, [(x[0], y[0]), (x[1], y[1]), (x[2], y[2]), (x[3], y[3])], c, workers=mode, pbar=pbar, k=k)
    EQ("one result per argument", len(r), 4)
    EQ("one call per argument", len(CALLS), 4)
    for i in range(4):
        EQ("in argument order", r[i], x[i] + 2 * y[i] + 3 * c + 5 * k)


def C14_whole(x=arr(4, lo=1, hi=9), c=posnum(), k=posnum(), mode=each(*MODES), order=each(*ORDERS)):
    """arguments that are sequences themselves stay whole"""
    ORDER.append(order)
    r = pool_call(single, ["ab", (x[0], x[1]), x[2], None], c, expandarg=False, workers=mode, k=k)
    EQ("one result per argument", len(r), 4)
    EQ("text", r[0][0], "ab")
    EQ("pair", list(r[1][0]), [x[0], x[1]])
    EQ("number", r[2][0], x[2])
    HOLDS("none", r[3][0] is None)
    for i in range(4):
        EQ("fixed argument", r[i][1], c)
        EQ("keyword", r[i][2], k)


def C14_repeated(x=posnum(), mode=each(*MODES), order=each(*ORDERS)):
    """equal arguments and results without a value are kept"""
    ORDER.append(order)
    r = pool_call(falsy, [1, 1, 2, 1], expandarg=False, workers=mode)
    EQ("one result per argument", len(r), 4)
    HOLDS("as the loop", r[0] is None and r[1] is None and r[3] is None)
    EQ("zero", r[2], 0)


def C14_none(mode=each(*MODES)):
    EQ("no arguments, no results", len(pool_call(failing, [], 1, workers=mode)), 0)


def C14_many(x=arr(7), mode=each(*MODES), cap=each(None, 1, 2), order=each(None, (4, 6, 0, 2, 1, 5, 3))):
    if order is not None:
        ORDER.append(order)
    r = pool_call(single, list(x), 1., expandarg=False, workers=mode, cap=cap)
    EQ("all arguments", np.array([i[0] for i in r]), x)


def C14_fault(at=each(0, 1, 3), mode=each(*MODES), order=each(*ORDERS), pbar=each(True, False)):
    """an exception in a call reaches the caller"""
    ORDER.append(order)
    seen = "nothing"
    try:
        pool_call(failing, [0, 1, 2, 3], at, expandarg=False, workers=mode, pbar=pbar)
        seen = "result"
    except KeyError:
        seen = "the exception"
    EQ("raised to the caller", seen, "the exception")


def C14_mode(mode=each(*MODES)):
    """the requested kind of workers"""
    pool_call(falsy, [1, 2], expandarg=False, workers=mode)
    if not mode:
        EQ("no pool", len(POOLS), 0)
    else:
        EQ("one pool", len(POOLS), 1)
        EQ("kind", POOLS[0].mode, "thread" if str(mode).lower().startswith("t") and mode is not True else "process")


def C14_cap(cap=integer(1, 9), ctx=each("fork", "forkserver")):
    """the cap bounds the number of processes, in the requested context"""
    pool_call(falsy, [1, 2], expandarg=False, cap=cap, context=ctx)
    EQ("processes", POOLS[0]._max_workers, cap)
    EQ("context", POOLS[0].context, "context " + ctx)


def C14_cap_default(env=each(None, "3", "many", ""), x=arr(2)):
    """without a cap the environment decides, else the number of processors"""
    if env is not None:
        ENV.append(env)
    pool_call(falsy, [1, 2], expandarg=False)
    EQ("processes", POOLS[0]._max_workers, 3 if env == "3" else 6)


# ------------------------------------------------------------- C15 batches --
SET = []
MADE = []
DIRS = []


def mkdir(path):
    DIRS.append(path)


class Tracker:
    """a glare model: its score tells which image and options it saw"""

    def __init__(self, view=None, **kw):
        self.view, self.kw = view, kw
        self._lum = None

    @property
    def lum(self):
        return self._lum

    @lum.setter
    def lum(self, img):
        SET.append(self)
        self._lum = img

    def compute(self, save=None, ev_eye=None):
        return self._lum, ev_eye, save


def C15_batch_of(illums=each(None, (30., 10., 40., 20.)), save=each(False, True), order=each(*ORDERS), outdir=each(None, "d")):
    """each image gets its own score, whatever the order of completion"""
    ORDER.append(order)
    imgs = ["a.hdr", "b.hdr", "x/c.hdr", "a.hdr"]
    r = hvsgsm.gss_compute(imgs, illums, save=save, outdir=outdir)
    EQ("one score per image", len(r), 4)
    EQ("directory is made", DIRS, [outdir] if save and outdir is not None else [])
    for i in range(4):
        EQ("in the order of the images", r[i][0], imgs[i])
        if illums is None:
            HOLDS("no given illuminance", r[i][1] is None)
        else:
            EQ("its illuminance", r[i][1], illums[i])
        if save:
            stem = imgs[i].rsplit(".", 1)[0]
            EQ("its file", r[i][2], stem + "_rg.hdr" if outdir is None else "d/" + stem.rsplit("/")[-1] + "_rg.hdr")
        else:
            HOLDS("nothing saved", r[i][2] is None)


def C15_suffix(suffix=each("_x.hdr", ".gss.hdr", "_rg"), outdir=each(None, "d")):
    r = hvsgsm.gss_compute(["a.hdr", "x/c.hdr"], save=True, suffix=suffix, outdir=outdir)
    EQ("file of the first", r[0][2], ("a" if outdir is None else "d/a") + suffix)
    EQ("file of the second", r[1][2], ("x/c" if outdir is None else "d/c") + suffix)


def C15_workers(illums=each(None, (10., 20., 30.))):
    """tasks that set an image on a model run in processes, or on a model of
    their own"""
    hvsgsm.gss_compute(["a.hdr", "b.hdr", "c.hdr"], illums)
    if POOLS and POOLS[0].mode == "thread":
        EQ("each task sets its own model", len(SET), 3)
        HOLDS("not shared", SET[0] is not SET[1] and SET[1] is not SET[2] and SET[0] is not SET[2])


def C15_options(psf=each(True, False), age=num(lo=20, hi=80)):
    """the options of a batch are those of the model"""
    MADE.append(hvsgsm.gss_compute(["a.hdr", "b.hdr"], psf=psf, age=age))
    EQ("age", SET[0].kw["age"], age)
    EQ("psf", SET[0].kw["psf"], psf)


def C15_many(n=each(1, 9, 33, 100), illums=each(False, True), ev=pos(100, lo=10, hi=1000)):
    """every image of a long list, with illuminances as an array"""
    imgs = [f"i{i}.hdr" for i in range(n)]
    r = hvsgsm.gss_compute(imgs, ev[:n] if illums else None)
    EQ("one score per image", len(r), n)
    for i in range(n):
        EQ("in the order of the images", r[i][0], imgs[i])
        if illums:
            EQ("its illuminance", r[i][1], ev[i])


def C14_many(n=each(1, 2, 9, 33, 100), mode=each(True, False, "t"), expand=each(True, False), cap=each(None, 1, 3)):
    """one result per argument, however many there are"""
    args = [(i, 1) for i in range(n)]
    r = pool_call(lambda *a: a, args, 5, cap=cap, expandarg=expand, workers=mode)
    EQ("one result per argument", len(r), n)
    for i in range(n):
        EQ("result", r[i], (i, 1, 5) if expand else ((i, 1), 5))
