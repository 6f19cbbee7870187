"""hash-consed value-graph terms and the value classes of the interpreter"""
from fractions import Fraction

_table = {}


class Node:
    __slots__ = ("op", "args", "id", "loc", "kind", "_d")

    def __repr__(self):
        return show(self)


def mk(op, *args, kind=None, loc=None):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.loc = op, args, loc
        n.id = len(_table)
        n.kind = kind
        n._d = None
        _table[key] = n
    elif n.kind is None and kind is not None:
        n.kind = kind
    if loc is not None:
        n.loc = loc        # the driver at work names its own sites
    return n


def const(v):
    t = type(v).__name__
    if isinstance(v, bool):
        k = "bool"
    elif isinstance(v, (int, float, complex)):
        k = "num"
    elif v is None:
        k = "none"
    elif isinstance(v, str):
        k = "str"
    elif isinstance(v, bytes):
        k = "bytes"
    elif v is Ellipsis:
        k, v = "ellipsis", "..."
    else:
        raise TypeError(v)
    if isinstance(v, float) and v != v:
        v = "nan"
    return mk("const", t, v, kind=k)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(n):
    return isinstance(n, Node) and n.op == "const"


def cval(n):
    if n.args[0] == "ellipsis":
        return Ellipsis
    if n.args[0] == "float" and n.args[1] == "nan":
        return float("nan")
    return n.args[1]


def children(n):
    for a in n.args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            yield from _tc(a)


def _tc(t):
    for a in t:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            yield from _tc(a)


def walk(*roots):
    seen, stack = set(), [r for r in roots if isinstance(r, Node)]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(children(n))


def show(n, depth=4):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == "const":
        return repr(cval(n))
    if n.op == "sym":
        return n.args[0]
    if depth == 0:
        return "…"

    def s(a):
        if isinstance(a, Node):
            return show(a, depth - 1)
        if isinstance(a, tuple):
            return "(" + ",".join(s(i) for i in a) + ")"
        return str(a)
    return f"{n.op}[" + ", ".join(s(a) for a in n.args) + "]"


def frac(n):
    """exact value of a constant arithmetic term (decimal literals exact) or
    None"""
    if n.op == "const":
        v = cval(n)
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, float):
            try:
                return Fraction(repr(v))
            except ValueError:
                return None
        return None
    if n.op == "bin":
        a, b = frac(n.args[1]), frac(n.args[2])
        if a is None or b is None:
            return None
        try:
            o = n.args[0]
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if o == "*":
                return a * b
            if o == "/":
                return a / b
            if o == "//":
                return Fraction(a // b)
            if o == "%":
                return a % b
            if o == "**" and b.denominator == 1 and abs(b) < 64:
                return a ** int(b)
        except ZeroDivisionError:
            return None
    if n.op == "un" and n.args[0] == "-":
        a = frac(n.args[1])
        return None if a is None else -a
    return None


# ------------------------------------------------------------------ values --

class Val:
    __slots__ = ()


class Arr(Val):
    """reference to a numpy array: base object and a path of view operations"""
    __slots__ = ("base", "path")

    def __init__(self, base, path=()):
        self.base, self.path = base, path


class Lst(Val):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid


class VSet(Lst):
    """mutable set of known members"""
    __slots__ = ()


class Dct(Val):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid


class VTuple(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Inst(Val):
    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls


class Func(Val):
    __slots__ = ("fn", "mod", "fid", "cls", "bare")

    def __init__(self, fn, mod, fid=None, cls=None, bare=False):
        self.fn, self.mod, self.fid, self.cls = fn, mod, fid, cls
        self.bare = bare        # as written, without its decorators


class Bound(Val):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Cls(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class Mod(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Ext(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class ExtBound(Val):
    """method of a value the interpreter has no definition for"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super(Val):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class VPhi(Val):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class _Undef(Val):
    pass


UNDEF = _Undef()
