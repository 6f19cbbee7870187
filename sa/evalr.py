"""Valuation of value-graph terms.

The graph produced by `interp` is a closed expression over the symbols a
specification introduces.  A valuation assigns every symbol a member of its
declared domain; `Ev` folds the graph bottom up over numpy values (gates are
resolved by their condition, only the selected side is visited).  The analysed
program is not executed: what is folded are the graph's operators, i.e. numpy
primitives and arithmetic.

Used for three things
 * shape facts (`shape_of`): facts are re-checked on every later valuation,
 * random interpretation (Gulwani/Necula): equal graphs agree everywhere, and
   graphs that agree on random members of their domain are equal with high
   probability,
 * separating valuations: an alarm needs two terms that differ by more than
   rounding.
"""
import ast
import hashlib
import math
import sys
import warnings
import numpy as np

from .terms import Node, cval, mk, const, walk, show, children, NONE

sys.setrecursionlimit(200000)


class Undef(Exception):
    """term has no value (not modelled)"""


class Raised(Undef):
    """the primitive raises for this valuation"""

    def __init__(self, exc):
        self.exc = exc
        Undef.__init__(self, repr(exc))


DENY = ("numpy.random", "numpy.load", "numpy.save", "numpy.fromfile",
        "numpy.loadtxt", "numpy.savetxt", "numpy.genfromtxt", "numpy.seterr",
        "numpy.memmap", "numpy.set_printoptions", "numpy.ctypeslib",
        "numpy.testing", "numpy.f2py", "numpy.distutils", "numpy.frompyfunc",
        "numpy.vectorize", "numpy.apply_along_axis", "numpy.open_memmap")
SCIPY_OK = ("scipy.interpolate.", "scipy.ndimage.", "scipy.stats.norm",
            "scipy.spatial.cKDTree", "scipy.spatial.KDTree",
            "scipy.spatial.transform.Rotation", "scipy.special.",
            "scipy.signal.")
BUILTIN_OK = {"int", "float", "bool", "str", "len", "abs", "min", "max", "sum",
              "round", "list", "tuple", "set", "sorted", "range", "zip",
              "enumerate", "reversed", "all", "any", "slice", "repr", "ord",
              "chr", "bytes", "divmod", "pow", "dict", "frozenset"}
METH_ARR = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "flatten",
            "copy", "astype", "sum", "mean", "min", "max", "argmax", "argmin",
            "argsort", "all", "any", "prod", "cumsum", "clip", "round",
            "nonzero", "repeat", "take", "dot", "tobytes", "tolist", "std",
            "var", "searchsorted", "item", "trace", "view"}
METH_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "join",
            "format", "title", "split", "rsplit", "splitlines", "startswith",
            "endswith", "isdigit", "isnumeric", "encode", "decode", "find", "rfind",
            "index", "count", "partition", "rpartition", "zfill", "isalpha", "expandtabs",
            "rindex", "removeprefix", "removesuffix", "isspace", "casefold", "capitalize",
            "ljust", "rjust", "center", "isalnum", "isdecimal", "isupper", "islower", "hex"}


def resolve_ext(name):
    if name.startswith("numpy."):
        if name.startswith(DENY):
            raise Undef(name)
        o = np
        for p in name.split(".")[1:]:
            o = getattr(o, p, None)
            if o is None:
                raise Undef(name)
        return o
    if name.startswith("math."):
        return getattr(math, name[5:])
    if name.startswith("builtins.") and name[9:] in BUILTIN_OK:
        return getattr(__import__("builtins"), name[9:])
    if name.startswith(SCIPY_OK):
        import importlib
        parts = name.split(".")
        for k in range(len(parts) - 1, 0, -1):
            try:
                o = importlib.import_module(".".join(parts[:k]))
            except ImportError:
                continue
            for p in parts[k:]:
                o = getattr(o, p)
            return o
    if name in ("textwrap.fill", "textwrap.wrap", "textwrap.dedent"):
        import textwrap
        return getattr(textwrap, name[9:])
    if name == "operator.itemgetter":
        import operator
        return operator.itemgetter
    if name == "os.path.expandvars":
        import re
        return lambda p: re.sub(r"\$(\w+|\{[^}]*\})", "value", p)
    if name == "os.path.expanduser":
        import re
        return lambda p: re.sub(r"^~[^/]*", "/home/user", p)
    if name.startswith("os.path.") and name[8:] in ("splitext", "basename", "join", "dirname", "normpath", "commonprefix", "sep"):
        import os
        return getattr(os.path, name[8:])
    if name.startswith("re.") and name[3:] in ("match", "search", "split", "sub", "findall", "compile", "fullmatch"):
        import re
        return getattr(re, name[3:])
    if name in ("shlex.split", "shlex.quote", "shlex.join", "os.fspath", "os.fsdecode", "os.fsencode"):
        import importlib
        return getattr(importlib.import_module(name.split(".")[0]), name.split(".")[1])
    if name.startswith("itertools."):
        import itertools
        return getattr(itertools, name[10:])
    raise Undef(name)


PYEXC = (ArithmeticError, ValueError, TypeError, IndexError, KeyError,
         AttributeError, np.linalg.LinAlgError, OverflowError)


DRAWS = {"uniform": (("low", "high", "size"), (0., 1., None)), "random": (("size",), (None,)),
         "random_sample": (("size",), (None,)), "beta": (("a", "b", "size"), (1., 1., None)),
         "normal": (("loc", "scale", "size"), (0., 1., None)), "standard_normal": (("size",), (None,)),
         "triangular": (("left", "mode", "right", "size"), (0., .5, 1., None)),
         "integers": (("low", "high", "size"), (0, None, None))}


class Ev:
    def __init__(self, env, parent=None):
        self.env = env
        self.memo = {}
        self.bind = {}      # elem node id -> value
        self.gates = {} if parent is None else parent.gates
        self.assume = None
        self.steps = [0]    # loop iterations folded

    probe = False       # loop variables stand for their first value
    dep = up = None     # inside a loop: what depends on its variables; the rest is evaluated outside

    def child(self, dep):
        sub = Ev.__new__(type(self))
        sub.__dict__.update(self.__dict__)
        sub.memo = {}
        sub.bind = dict(self.bind)
        sub.dep, sub.up = dep, self
        return sub

    def ev(self, n):
        if self.dep is not None and n.id not in self.dep:
            return self.up.ev(n)
        r = self.memo.get(n.id)
        if r is None:
            try:
                v = self._ev(n)
                r = (True, v)
            except Undef as e:
                r = (False, e)
            except RecursionError:
                raise
            except PYEXC as e:
                r = (False, Raised(e))
            self.memo[n.id] = r
        if r[0]:
            return r[1]
        raise r[1]

    def a(self, x):
        """argument: node or tuple of nodes/kw pairs"""
        if isinstance(x, Node):
            return self.ev(x)
        if isinstance(x, tuple):
            return tuple(self.a(i) for i in x)
        return x

    def kw(self, t):
        return {k: self.ev(v) for k, v in t}

    def _ev(self, n):
        f = getattr(self, "n_" + n.op, None)
        if f is None:
            raise Undef(n.op)
        return f(n)

    # -------------------------------------------------------------- leaves --
    def n_const(self, n):
        return cval(n)

    def n_sym(self, n):
        k = n.args[0]
        if k == "pi":
            return np.pi
        if k == "e":
            return np.e
        if k in self.env:
            return self.env[k]
        raise Undef("sym " + k)

    def n_tuple(self, n):
        return tuple(self.ev(a) for a in n.args)

    def n_list(self, n):
        return [self.ev(a) for a in n.args]

    def n_dict(self, n):
        it = [self.ev(a) for a in n.args]
        return dict(zip(it[::2], it[1::2]))

    def n_slice(self, n):
        return slice(*[self.index(self.ev(a)) for a in n.args])

    def n_phi(self, n):
        c = self.cond(n.args[0])
        return self.ev(n.args[1] if c else n.args[2])

    def cond(self, c):
        v = self.ev(c)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Raised(ValueError("truth value of an array"))
            v = v.reshape(-1)[0]
        b = bool(v)
        if c.op != "const":
            self.gates.setdefault(c.id, set()).add(b)
        return b

    # ---------------------------------------------------------- arithmetic --
    def n_bin(self, n):
        o = n.args[0]
        a, b = self.ev(n.args[1]), self.ev(n.args[2])
        return self.binop(o, a, b)

    def binop(self, o, a, b):
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "/":
            return self.div(a, b)
        if o == "//":
            return a // b
        if o == "%":
            return a % b
        if o == "**":
            return a ** b
        if o == "@":
            return a @ b
        if o == "&":
            return a & b
        if o == "|":
            return a | b
        if o == "^":
            return a ^ b
        if o == "<<":
            return a << b
        if o == ">>":
            return a >> b
        raise Undef(o)

    def div(self, a, b):
        return a / b

    def n_un(self, n):
        v = self.ev(n.args[1])
        o = n.args[0]
        return -v if o == "-" else (~v if isinstance(v, (np.ndarray, np.generic, int)) else _und(o))

    def n_cmp(self, n):
        o = n.args[0]
        a, b = self.ev(n.args[1]), self.ev(n.args[2])
        if o == "in":
            return a in b
        if o == "is":
            if a is None or b is None or isinstance(a, (bool, str)):
                return a is b
            raise Undef("is")
        r = self.compare(o, a, b)
        return r

    def compare(self, o, a, b):
        if o == "<":
            return a < b
        if o == "<=":
            return a <= b
        if o == ">":
            return a > b
        if o == ">=":
            return a >= b
        if o == "==":
            return a == b
        if o == "!=":
            return a != b
        raise Undef(o)

    def n_not(self, n):
        return not self.cond(n.args[0])

    def n_and(self, n):
        return self.cond(n.args[0]) and self.cond(n.args[1])

    def n_or(self, n):
        return self.cond(n.args[0]) or self.cond(n.args[1])

    # -------------------------------------------------------------- arrays --
    def index(self, i):
        if isinstance(i, np.ndarray) and i.dtype == object:
            return i.astype(int)
        if isinstance(i, tuple):
            return tuple(self.index(k) for k in i)
        if isinstance(i, list):
            return [self.index(k) for k in i]
        return i

    def n_view(self, n):
        op, x = n.args[0], self.ev(n.args[1])
        rest = n.args[2:]
        return self.view(op, x, rest)

    def view(self, op, x, rest):
        if op == "T":
            return np.asarray(x).T
        if op == "flat":
            return np.asarray(x).reshape(-1)
        if op == "getitem":
            return self.getitem(x, self.ev(rest[0]))
        if op.startswith("m_"):
            targs, tkw = rest[0]
            if op[2:] not in METH_ARR:
                raise Undef(op)
            if not isinstance(x, np.ndarray):
                x = np.asarray(x)
            return getattr(x, op[2:])(*[self.index(self.ev(a)) for a in targs], **self.kw(tkw))
        targs, tkw = rest[0] if rest else ((), ())
        return self.lib("numpy." + op, [x] + [self.ev(a) for a in targs], self.kw(tkw))

    def n_getitem(self, n):
        return self.getitem(self.ev(n.args[0]), self.ev(n.args[1]))

    def getitem(self, x, i):
        if isinstance(x, dict):
            return x[i]
        i = self.index(i)
        if isinstance(x, (list, tuple, str, bytes)):
            if isinstance(i, np.generic):
                i = i.item()
            return x[i]
        if isinstance(x, (np.ndarray, np.generic)):
            return x[i]
        if hasattr(x, "__getitem__"):
            return x[i]
        raise Raised(TypeError("not subscriptable"))

    def n_update(self, n):
        base, path, idx, val = n.args
        b = self.ev(base)
        i = self.ev(idx)
        v = self.ev(val)
        if isinstance(b, dict):
            b = dict(b)
            b[i] = v
            return b
        if isinstance(b, list):
            b = list(b)
            b[self.index(i)] = v
            return b
        b = np.array(b)
        b = self.promote_store(b, v)
        w = b
        for k, p in enumerate(path):
            if p[0] == "flat":
                if k != len(path) - 1:
                    raise Undef("flat view")
                w.flat[self.index(i)] = v
                return b
            w = self.view(p[0], w, p[1:])
        if not isinstance(w, np.ndarray):
            raise Undef("store into scalar view")
        if path and not np.shares_memory(w, b) and w.size:
            raise Undef("store into copy")
        w[self.index(i)] = v
        return b

    def promote_store(self, b, v):
        return b

    def n_mutated(self, n):
        how, b = n.args[0], n.args[1]
        if how == ".sort()" and n.args[2] == ():
            return np.sort(self.ev(b))
        if how == "numpy.fill_diagonal":
            raise Undef(how)
        raise Undef("mutated " + str(how))

    def n_append(self, n):
        return list(self.ev(n.args[0])) + [self.ev(n.args[1])]

    def n_arrattr(self, n):
        x = self.ev(n.args[1])
        if n.args[0] in ("shape", "ndim", "size") and not isinstance(x, np.ndarray):
            if isinstance(x, (list, tuple, str)):
                raise Raised(AttributeError(n.args[0]))
            x = np.asarray(x)
        return getattr(x, n.args[0])

    # --------------------------------------------------------------- calls --
    def n_ext(self, n):
        return resolve_ext(n.args[0])

    def n_call(self, n):
        name, targs, tkw = n.args[:3]
        if name == "builtins.getattr":
            raise Undef(name)
        last = name.split(".")[-1]
        if name.startswith("numpy.random.") and (last in DRAWS or last == "rand"):
            if last == "rand":
                targs, last = (mk("tuple", *targs),) if targs else (), "random"
            return self.draws(last, "default_rng", (last, None, targs, tkw) + tuple(n.args[3:]))
        args = [self.ev(a) for a in targs]
        kw = self.kw(tkw)
        return self.lib(name, args, kw)

    def lib(self, name, args, kw):
        f = resolve_ext(name)
        args = [self.pre(a) for a in args]
        kw = {k: self.pre(v) for k, v in kw.items()}
        if name in ("numpy.ones", "numpy.zeros", "numpy.empty", "numpy.full", "numpy.arange",
                    "numpy.reshape", "numpy.repeat", "numpy.tile", "builtins.range", "numpy.linspace", "numpy.broadcast_to"):
            args = [self.intish(a) for a in args]
        if name == "numpy.empty":
            f = np.zeros
        if name == "numpy.empty_like":
            f = np.zeros_like
        r = f(*args, **kw)
        if name in ("builtins.zip", "builtins.enumerate", "builtins.reversed", "builtins.range", "builtins.map"):
            r = list(r)
        return r

    def intish(self, a):
        return a

    def pre(self, a):
        return a

    def n_mcall(self, n):
        name, t, targs, tkw = n.args[:4]
        if t.op == "call" and t.args[0].startswith("numpy.random.") and name in DRAWS:
            return self.draws(name, t.args[0], n.args)
        if len(n.args) > 4 and name not in ("item", "pop"):
            raise Undef("." + name)
        o = self.ev(t)
        args = [self.ev(a) for a in targs]
        kw = self.kw(tkw)
        return self.method(o, name, args, kw)

    salt = 0

    def draws(self, name, src, rest):
        """members of the interval a random draw is taken from; its ends included"""
        if src.split(".")[-1] not in ("default_rng", "RandomState", "Generator"):
            raise Undef(src)
        args = [self.ev(a) for a in rest[2]]
        kw = self.kw(rest[3])
        names, dflt = DRAWS[name]
        v = dict(zip(names, dflt))
        v.update(zip(names, args))
        v.update({k: x for k, x in kw.items() if k in v})
        size = v["size"]
        if size is None:
            size = np.broadcast_shapes(*[np.shape(x) for k, x in v.items() if k != "size"]) if len(v) > 1 else ()
        rng = np.random.default_rng([self.salt, rest_salt(rest)])
        u = rng.uniform(size=size)
        if self.salt % 4 == 0:
            u = np.zeros_like(u)
        if self.salt % 4 == 1:
            u = np.full_like(u, 1 - 2 ** -50)
        if name in ("normal", "standard_normal"):
            # members up to five deviations off, which a large image has
            return v.get("loc", 0.) + v.get("scale", 1.) * 10 * (u - .5)
        if name == "triangular":
            return v["left"] + (v["right"] - v["left"]) * u
        if name == "integers":
            lo, hi = (0, v["low"]) if v["high"] is None else (v["low"], v["high"])
            return np.floor(lo + (hi - lo) * u).astype(int)
        return v.get("low", 0.) + (v.get("high", 1.) - v.get("low", 0.)) * u

    def method(self, o, name, args, kw):
        if isinstance(o, (np.ndarray, np.generic)):
            if name not in METH_ARR:
                if not hasattr(o, name):
                    raise Raised(AttributeError(name))
                raise Undef("." + name)
            return getattr(o, name)(*[self.index(a) for a in args], **kw)
        if isinstance(o, (str, bytes)):
            if name not in METH_STR:
                raise Undef("str." + name)
            return getattr(o, name)(*args, **kw)
        if isinstance(o, (list, tuple)):
            if name in ("index", "count", "copy"):
                return getattr(o, name)(*args)
            if name in ("append", "extend", "pop", "insert"):
                raise Undef("list." + name)
            raise Raised(AttributeError(name))
        if isinstance(o, dict):
            if name in ("get", "items", "keys", "values", "copy"):
                r = getattr(o, name)(*args)
                return list(r) if name in ("items", "keys", "values") else r
            raise Undef("dict." + name)
        if isinstance(o, (set, frozenset)):
            if name in ("union", "difference", "intersection", "issubset", "issuperset"):
                return getattr(o, name)(*args)
            raise Undef("set." + name)
        if isinstance(o, (int, float)) or o is None:
            if not hasattr(o, name):
                raise Raised(AttributeError(name))
            raise Undef("." + name)
        if isinstance(o, slice) and name == "indices" or isinstance(o, np.dtype) and name == "newbyteorder":
            return getattr(o, name)(*[self.index(a) for a in args], **kw)
        if isinstance(o, range) and name in ("index", "count"):
            return getattr(o, name)(*args)
        m = type(o).__module__ or ""
        if m.startswith(("scipy.", "re", "_sre")):
            return getattr(o, name)(*args, **kw)
        raise Undef(f"{type(o).__name__}.{name}")

    def n_callval(self, n):
        f, targs, tkw = n.args[:3]
        f = self.ev(f)
        if not callable(f) or isinstance(f, (np.ndarray,)):
            raise Raised(TypeError("not callable"))
        m = type(f).__module__ or ""
        if not (m.startswith("scipy.") or m.startswith("numpy") or isinstance(f, __import__("operator").itemgetter)):
            raise Undef("callval")
        return f(*[self.ev(a) for a in targs], **self.kw(tkw))

    def n_extbound(self, n):
        raise Undef("extbound")

    def n_extattr(self, n):
        raise Undef("extattr")

    # ------------------------------------------------------------- strings --
    def n_strcat(self, n):
        return "".join(self.ev(a) for a in n.args)

    def n_fmt(self, n):
        t, spec, conv = n.args
        v = self.ev(t)
        s = ""
        if spec:
            tree = ast.parse(spec, mode="eval").body
            if isinstance(tree, ast.JoinedStr):
                if not all(isinstance(x, ast.Constant) for x in tree.values):
                    raise Undef("format spec")
                s = "".join(x.value for x in tree.values)
            elif isinstance(tree, ast.Constant):
                s = tree.value
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        return format(v, s)

    def n_format(self, n):
        t, targs, tkw = n.args
        return self.ev(t).format(*[self.ev(a) for a in targs], **self.kw(tkw))

    # ---------------------------------------------------------- predicates --
    def n_isnone(self, n):
        return self.ev(n.args[0]) is None

    def n_typeof(self, n):
        return type(self.ev(n.args[0]))

    def n_isinstance(self, n):
        v = self.ev(n.args[0])
        t = []
        for q in n.args[1]:
            try:
                t.append(resolve_ext(q) if q not in ("builtins.int",) else int)
            except Undef:
                if v is None or isinstance(v, (np.ndarray, int, float, str, list, tuple, dict, np.generic)):
                    continue
                raise
        return isinstance(v, tuple(x for x in t if isinstance(x, type)))

    def n_raises(self, n):
        names, terms, guards = n.args
        import builtins
        excs = tuple(getattr(builtins, x) for x in names if hasattr(builtins, x))
        for t, g in zip(terms, guards):
            try:
                if all(self.cond(c) == p for c, p in g):
                    self.ev(t)
            except Raised as e:
                if isinstance(e.exc, excs):
                    return True
                raise
        return False

    # --------------------------------------------------------------- loops --
    def n_elem(self, n):
        if n.id in self.bind:
            return self.bind[n.id]
        if self.probe and n.args[1][0] == "xloop":
            s = self.ev(n.args[0])
            if len(s):
                return s[0] if not isinstance(s, (dict, set)) else list(s)[0]
        raise Undef("elem")

    def n_iterates(self, n):
        return len(self.ev(n.args[0])) > 0

    def n_undef(self, n):
        raise Undef("unbound")

    def n_loopvar(self, n):
        if n.id in self.bind:
            v = self.bind[n.id]
            if isinstance(v, Undef):
                raise v
            return v
        if self.probe and n.args[0][0] == "xloop":
            v = self.ev(n.args[2])
            if not isinstance(v, (list, dict, str, set, tuple)):
                return v
        raise Undef("loopvar")

    def n_foldout(self, n):
        loop = n.args[0]
        key = ("loop", loop.id)
        r = self.memo.get(key)
        if r is None:
            try:
                r = (True, self.run_loop(loop))
            except Undef as e:
                r = (False, e)
            except PYEXC as e:
                r = (False, Raised(e))
            self.memo[key] = r
        if not r[0]:
            raise r[1]
        v = r[1][n.args[1]]
        if isinstance(v, Undef):
            raise v
        return v

    def run_loop(self, loop):
        tag, src, cond, code, ret, lvs, inits, ends = loop.args
        bound = [l.id for l in lvs]
        facts = LOOPFACTS(loop.id)
        roots = [cond, code, ret, *ends] + [t for t, _ in facts]
        el = None
        if src is not NONE:
            seq = self.ev(src)
            seq = list(seq)
            el = mk("elem", src, tag).id
            bound.append(el)
        dep = depends(loop.id, roots, frozenset(bound))
        vals = []
        for t in inits:
            try:
                vals.append(self.ev(t))
            except Undef as e:
                vals.append(e)
        first = [sig(v) for v in vals]
        k = 0
        how, out = 0, Undef("no result")
        while True:
            if k > 3000 or self.steps[0] > 30000:
                raise Undef("loop too long")
            self.steps[0] += 1
            sub = self.child(dep)
            for l, v in zip(lvs, vals):
                sub.bind[l.id] = v
            if src is not NONE:
                if k >= len(seq):
                    break
                sub.bind[el] = seq[k]
            elif not sub.cond(cond):
                break
            for t, r in facts:
                if t.id in dep and not sub.fact(t, r):
                    raise Undef("shape changes between iterations")
            new = []
            for t in ends:
                try:
                    new.append(sub.ev(t))
                except Raised:
                    raise
                except Undef as e:
                    new.append(e)
            for a, b in zip(first, new):
                if a is not None and sig(b) != a:
                    raise Undef("shape changes between iterations")
            how = sub.ev(code)
            vals = new
            k += 1
            if how:
                if how == 2:
                    out = sub.ev(ret)
                break
        return vals + [how, out]

    def fact(self, t, r):
        """does a shape fact the graph was built with hold here"""
        try:
            if isinstance(r, tuple) and r and r[0] == "truth":
                return bool(self.cond(t)) == r[1]
            v = self.ev(t)
            if isinstance(v, (np.ndarray, np.generic)):
                return v.shape == r
            if isinstance(v, (list, tuple, str)):
                return ("len", len(v)) == r
            if isinstance(v, (int, float)):
                return r == ()
            return False
        except Undef:
            return True

    def n_comp(self, n):
        src, tag, body, conds = n.args
        s = self.ev(src)
        if isinstance(s, dict):
            s = list(s)
        out = []
        el = mk("elem", src, tag)
        dep = depends(n.id, [body, *conds], frozenset([el.id]))
        for x in s:
            sub = self.child(dep)
            sub.bind[el.id] = x
            if all(sub.cond(c) for c in conds):
                v = sub.ev(body)
                if body.op == "tuple" and len(body.args) == 1:
                    v = v[0]
                out.append(v)
        return out


_deps = {}


def depends(key, roots, bound):
    """terms below roots that depend on the bound variables"""
    k = (key, bound)
    r = _deps.get(k)
    if r is not None:
        return r
    state = {}
    for root in roots:
        stack = [(root, None)]
        while stack:
            n, kids = stack.pop()
            if kids is None:
                if n.id in state:
                    continue
                if n.id in bound:
                    state[n.id] = True
                    continue
                kids = list(children(n))
                state[n.id] = False
                stack.append((n, kids))
                stack += [(c, None) for c in kids if c.id not in state]
            else:
                state[n.id] = any(state.get(c.id) for c in kids)
    r = frozenset(i for i, d in state.items() if d) | bound
    _deps[k] = r
    return r


def sig(v):
    """what has to stay the same from one iteration to the next"""
    if isinstance(v, (np.ndarray, np.generic)):
        return v.shape
    if isinstance(v, (bool, int, float)):
        return ()
    return None


def LOOPFACTS(i):
    from .interp import LOOPS
    return LOOPS.get(i, [])


def rest_salt(rest):
    import zlib
    return zlib.crc32(repr(rest[4:]).encode())


def _und(o):
    raise Undef(o)


# ------------------------------------------------------------------ domains --

TEXTS = {"path": ["a.hdr", "room.v2.hdr", "/data/a.b/c d.hdr", "../x.pic", "./view_ang.hdr", "x_r00.hdr", "p.uv.hdr",
                  "it's.hdr", "a=b.hdr", "C-3_4.hdr", "ang.HDR"],
         "message": ["pvalue: missing resolution", "x: bad header!", "scanline 12: read error", "no such file", "e1",
                     "end of file", "can't open 'q'", "warning - %s {}", "short scan", "EIO", "?"]}


class Dom:
    """declared domain of a specification symbol"""

    def __init__(self, kind, args, kw):
        self.kind, self.args, self.kw = kind, args, kw

    def scalar(self):
        return self.kind in ("num", "posnum", "integer", "boolean", "angle", "text")

    def draw(self, rng, mode):
        k, a = self.kind, self.args
        if k == "unit":
            v = rng.normal(size=tuple(a) + (3,)) if not (a and a[-1] == 3) else rng.normal(size=tuple(a))
            if mode % 4 == 1:
                v = v * np.array([1, 1, .02])
            if mode % 4 == 2:
                v = v * np.array([1, .1, 1])
            return v / np.linalg.norm(v, axis=-1, keepdims=True)
        if k == "cone":          # unit vectors within a[1] degrees of +z
            t = np.radians(a[1]) * np.sqrt(rng.uniform(0, 1, a[0]))
            p = rng.uniform(0, 2 * np.pi, a[0])
            return np.stack((np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)), -1)
        if k == "pos":
            lo, hi = self.kw.get("lo", 1e-2), self.kw.get("hi", 1e3)
            if mode % 3 == 1 and "lo" not in self.kw:
                lo, hi = .3, 3.
            return np.exp(rng.uniform(np.log(lo), np.log(hi), size=tuple(a)))
        if k == "posnum":
            lo, hi = self.kw.get("lo", 1e-2), self.kw.get("hi", 1e3)
            return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
        if k == "arr":
            lo, hi = self.kw.get("lo", -2.), self.kw.get("hi", 2.)
            return rng.uniform(lo, hi, size=tuple(a))
        if k == "num":
            lo, hi = self.kw.get("lo", -2.), self.kw.get("hi", 2.)
            return float(rng.uniform(lo, hi))
        if k == "ints":
            return rng.integers(self.kw.get("lo", 0), self.kw.get("hi", 10) + 1, size=tuple(a))
        if k == "integer":
            return int(rng.integers(a[0], a[1] + 1))
        if k == "boolean":
            return bool(rng.integers(0, 2))
        if k == "choice":
            return a[int(rng.integers(0, len(a)))]
        if k == "text":          # file names, messages
            return TEXTS[a[0] if a else "path"][(mode + (0 if mode >= 2000 else int(rng.integers(0, 3)))) % 11]
        if k == "grid":          # increasing values
            lo, hi = self.kw.get("lo", 0.), self.kw.get("hi", 1.)
            return np.sort(rng.uniform(lo, hi, size=tuple(a)), axis=-1)
        raise Undef("domain " + k)


def between(d, a, b, t):
    """member of the domain a share t of the way from a to b (discrete values stay at a)"""
    if d.kind in ("unit", "cone"):
        v = a + (b - a) * t
        return v / np.linalg.norm(v, axis=-1, keepdims=True)
    if d.kind in ("pos", "posnum"):
        v = np.exp(np.log(a) + (np.log(b) - np.log(a)) * t)
    elif d.kind in ("arr", "num", "grid"):
        v = a + (b - a) * t
    else:
        return a
    return v if isinstance(a, np.ndarray) else float(v)


def close(a, b, rtol=1e-6, atol=1e-7):
    """None inconclusive, True equal, False different"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            (any(isinstance(x, str) or x is None for x in a) or len(a) != len(b)):
        if len(a) != len(b):
            return False
        rs = [close(x, y, rtol, atol) for x, y in zip(a, b)]
        return False if False in rs else (None if None in rs else True)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None or \
            isinstance(a, (slice, type)) or isinstance(b, (slice, type)):
        return type(a) is type(b) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        rs = [close(a[k], b[k], rtol, atol) for k in a]
        return False if False in rs else (None if None in rs else True)
    try:
        x, y = np.asarray(a), np.asarray(b)
    except ValueError:
        rs = [close(x, y, rtol, atol) for x, y in zip(a, b)]
        return False if False in rs else (None if None in rs else True)
    if x.dtype == object or y.dtype == object:
        return None
    if x.dtype.kind in "US" or y.dtype.kind in "US":
        return bool(x.shape == y.shape and np.all(x == y))
    if x.shape != y.shape:
        if x.size == y.size == 1:
            x, y = x.reshape(()), y.reshape(())
        else:
            return False
    if x.dtype.kind == "b" or y.dtype.kind == "b":
        return bool(np.array_equal(x, y))
    x, y = x.astype(float), y.astype(float)
    if np.any(np.isnan(y)):
        return None
    if np.any(np.isnan(x)):
        return False
    with np.errstate(all="ignore"):
        scale = np.maximum(np.abs(x), np.abs(y))
        same = (x == y)
        fin = scale[np.isfinite(scale)]
        top = float(np.max(fin)) if fin.size else 0.
        ok = same | np.isfinite(scale) & (np.abs(x - y) <= rtol * scale + atol * top + 1e-13)
    return bool(np.all(ok))


ARITH = ("bin", "call", "mcall", "view", "un")


class Rounding(Ev):
    """evaluation with a different rounding of every inexact result"""
    seed = 0

    def _ev(self, n):
        v = Ev._ev(self, n)
        if n.op not in ARITH:
            return v
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size and v.flags.owndata or \
                isinstance(v, (float, np.floating)):
            x = np.asarray(v, float)
            m, _ = np.frexp(x)
            m = m * 2.**24
            with np.errstate(all="ignore"):
                inexact = np.isfinite(x) & (m != np.rint(m))
            if np.any(inexact):
                u = np.random.default_rng([self.seed, n.id]).uniform(-1, 1, x.shape)
                r = np.where(inexact, x * (1 + 2e-15 * u), x)
                return r if isinstance(v, np.ndarray) else type(v)(r)
        return v
