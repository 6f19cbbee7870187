"""C17: process-wide state is as before when a call returns"""
import ast

from ..values import program
from ..whole import Whole
from ..interp import Interp, State, AbsRaise, Give
from ..terms import Node, walk, show, is_const, cval

RULE = "process state"
TEXT = ("effect analysis over every public function and method and over all module level code: no call that changes "
        "numpy error handling, warning filters, print options, global random state, working directory, environment, "
        "import path, signal or locale settings, except in a with block, restored from its own result afterwards, or "
        "one of the documented setters")
SETTERS = {
    "numpy.seterr": "numpy error handling", "numpy.seterrcall": "numpy error handling",
    "numpy.setbufsize": "numpy buffers",
    "numpy.set_printoptions": "print options", "numpy.set_string_function": "print options",
    "warnings.simplefilter": "warning filters", "warnings.filterwarnings": "warning filters",
    "warnings.resetwarnings": "warning filters",
    "os.chdir": "working directory", "os.fchdir": "working directory", "os.umask": "umask", "os.putenv": "environment",
    "os.unsetenv": "environment", "os.nice": "priority", "os.setuid": "user",
    "random.seed": "random state", "random.setstate": "random state",
    "locale.setlocale": "locale", "signal.signal": "signals", "signal.alarm": "signals",
    "socket.setdefaulttimeout": "sockets", "sys.setrecursionlimit": "interpreter", "sys.settrace": "interpreter",
    "sys.setswitchinterval": "interpreter", "gc.disable": "garbage collector", "gc.enable": "garbage collector",
    "gc.set_threshold": "garbage collector", "multiprocessing.set_start_method": "multiprocessing",
    "threading.setprofile": "threads", "threading.settrace": "threads", "threading.stack_size": "threads",
    "faulthandler.enable": "faults", "logging.basicConfig": "logging", "logging.disable": "logging",
    "resource.setrlimit": "limits", "decimal.setcontext": "decimal", "time.tzset": "time zone",
    "atexit.register": "exit handlers", "sys.path.append": "search path", "sys.path.insert": "search path",
    "sys.path.extend": "search path", "sys.path.remove": "search path", "os.environ.update": "environment",
    "scipy.special.seterr": "scipy error handling", "sys.setdefaultencoding": "interpreter",
}
# setter -> (restoring call, query giving the state to restore)
BACK = {"os.chdir": ("os.chdir", "os.getcwd"), "numpy.seterr": ("numpy.seterr", "numpy.geterr"),
        "numpy.set_printoptions": ("numpy.set_printoptions", "numpy.get_printoptions"),
        "random.seed": ("random.setstate", "random.getstate"),
        "numpy.random.seed": ("numpy.random.set_state", "numpy.random.get_state"),
        "locale.setlocale": ("locale.setlocale", "locale.getlocale"),
        "signal.signal": ("signal.signal", "signal.getsignal"),
        "sys.setrecursionlimit": ("sys.setrecursionlimit", "sys.getrecursionlimit")}
# legacy draws advance the global generator
LEGACY = {"seed", "rand", "randn", "random", "random_sample", "uniform", "normal", "randint", "choice", "shuffle",
          "permutation", "standard_normal", "set_state", "exponential", "poisson", "ranf", "sample", "beta", "gamma"}
RANDOM = {"random", "uniform", "randint", "choice", "shuffle", "gauss", "sample", "randrange", "normalvariate", "choices",
          "getrandbits", "triangular"}
ENVMUT = {"pop", "update", "setdefault", "clear", "popitem", "__setitem__", "__delitem__", "putenv"}
# documented: process cap setters; import time search path
ALLOWED = {"raytools.io.set_nproc", "raytools.io.unset_nproc"}
PATHVARS = {"RAYPATH", "PATH", "MANPATH", "LD_LIBRARY_PATH"}


def state_of(e):
    """(what, name) of a process-state changing effect"""
    if e.kind == "ext":
        n = e.data[0]
        if n in SETTERS:
            return SETTERS[n], n
        p = n.split(".")
        if n.startswith("numpy.random.") and p[-1] in LEGACY and len(p) == 3:
            return "global random state", n
        if p[0] == "random" and len(p) == 2 and p[1] in RANDOM:
            return "global random state", n
        return None
    if e.kind == "extset":
        return "environment or module table", f"{show(e.data[0])}[{show(e.data[1])}]="
    if e.kind == "environ" and e.data[0] in ENVMUT:
        return "environment", "os.environ." + e.data[0]
    if e.kind == "method" and e.data[0] in ("append", "insert", "extend", "remove", "pop", "clear") and \
            isinstance(e.data[4], Node) and "sys.path" in show(e.data[4]):
        return "search path", "sys.path." + e.data[0]
    return None


def restored(effects, i):
    """a later call of the same setter is given what this one returned"""
    e = effects[i]
    if e.kind != "ext":
        return False
    name = e.data[0]
    for f in effects[i + 1:]:
        if f.kind == "ext" and f.data[0] in (name, BACK.get(name, (name,))[0]):
            args = list(f.data[3]) + [v for _, v in f.data[4]]
            for a in args:
                for n in walk(a):
                    if n.op == "call" and (n.args[0] == name and n.args[1] == e.data[3] or
                                           n.args[0] in BACK.get(name, (0, 0))[1:]):
                        if set(f.pc) <= set(e.pc):
                            return True
    return False


def restoring(effects, i):
    """this call hands back what an earlier call of it returned"""
    f = effects[i]
    if f.kind != "ext":
        return False
    args = list(f.data[3]) + [v for _, v in f.data[4]]
    own = {f.data[0]} | {g for v in BACK.values() if v[0] == f.data[0] for g in v[1:]}
    return any(n.op == "call" and n.args[0] in own for a in args for n in walk(a))


def key_of(e):
    if e.kind == "extset":
        k = e.data[1]
    elif e.kind == "environ" and e.data[1]:
        k = e.data[1][0]
    else:
        return None
    return cval(k) if isinstance(k, Node) and is_const(k) else None


def run(rep):
    rep.rule(RULE, TEXT)
    prog = program(rep.root)
    w = Whole(prog, skip=())
    n = sites = 0
    for r in w.roots():
        w.run(r)
        n += 1
        if r.error:
            rep.unsure(RULE, r.qual, r.error)
        bad = judge(r, r.effects)
        sites += len(r.effects)
        for b in bad:
            rep.violation(RULE, f"{b[0]}: {b[1]}", f"{r.qual} changes {b[2]} by {b[1]} in {b[0]} line {b[3]}")
        if not bad and not r.error:
            rep.ok(RULE, r.qual, f"{len(r.effects)} effects")
    rep.need("public functions and methods", n, 200)
    rep.need("effects examined", sites, 3000)
    modules(rep, prog)


def judge(r, effects):
    bad = []
    inwith = 0
    depth = []
    for i, e in enumerate(effects):
        if e.kind == "enter":
            depth.append(show(e.data[0]) if isinstance(e.data[0], Node) else str(e.data[0]))
        elif e.kind == "exit" and depth and depth[-1] == show(e.data[0]):
            depth.pop()
        s = state_of(e)
        if s is None:
            continue
        fn = e.loc[2]
        if any(q in ALLOWED for q in e.stack) and (
                r.qual in ALLOWED or r.qual.startswith("raytools.cli.")):
            continue
        if r.qual == "raytools.set_raypath" and key_of(e) in PATHVARS:
            continue
        if s[0] == "warning filters" and any("catch_warnings" in d for d in depth):
            continue
        if s[0] == "print options" and any("printoptions" in d for d in depth):
            continue
        if restored(effects, i) or restoring(effects, i):
            continue
        bad.append((fn, s[1], s[0], e.loc[1]))
    return sorted(set(bad))


def modules(rep, prog):
    """module level statements: only the search path may be prepared"""
    for m in prog.modules.values():
        if not m.name.startswith("raytools"):
            continue
        it = Interp(prog)
        st = State()
        fid = it.fresh("f")
        it.frames[fid] = (m, None, None)
        st.env[fid] = {}
        it.stack.append(m.name)
        body = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
        err = None
        for s in body:
            if isinstance(s, ast.If) and "__main__" in ast.unparse(s.test):
                continue
            try:
                it.stmt(st, s, fid)
            except (AbsRaise, Give) as e:
                err = f"{type(e).__name__} {e}"
        bad = []
        for e in it.effects:
            s = state_of(e)
            if s and not (key_of(e) in PATHVARS):
                bad.append((s[1], e.loc[1]))
        for c in (e[1] for e in m.names.values() if e[0] == "class"):
            for s in c.node.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and not isinstance(s, ast.FunctionDef):
                        d = ast.unparse(x.func)
                        if d.replace("np.", "numpy.") in SETTERS:
                            bad.append((d, x.lineno))
        for b in bad:
            rep.violation(RULE, f"{m.name}: {b[0]}", f"importing {m.name} changes process state by {b[0]} line {b[1]}")
        if err:
            rep.unsure(RULE, m.name, err)
        elif not bad:
            rep.ok(RULE, m.name + " (import)", f"{len(body)} statements")
