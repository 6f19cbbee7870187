"""Static interpretation of the source into a gated value graph.

Nothing of the analysed program is executed: every function body is walked
once per calling context, conditions that are not decided by the source become
gates (phi nodes), library calls become uninterpreted call nodes, and every
effect (in-place array update, attribute write, external call, raise, change
of process-wide state) is logged together with the path condition it occurs
under.
"""
import ast
import time
import builtins
from fractions import Fraction

from .terms import (children, mk, const, cval, is_const, NONE, TRUE, FALSE, Node, frac,
                    Arr, Lst, VSet, Dct, VTuple, Inst, Func, Bound, Cls, Mod, Ext,
                    ExtBound, Super, VPhi, UNDEF, Val, walk, show)
from .loader import ClassInfo


class Effect:
    __slots__ = ("kind", "pc", "data", "loc", "stack")

    def __init__(self, kind, pc, data, loc, stack):
        self.kind, self.pc, self.data = kind, pc, data
        self.loc, self.stack = loc, stack

    def __repr__(self):
        return f"{self.kind}@{self.loc}: {self.data}"


class State:
    __slots__ = ("env", "heap", "pc", "base_pc")

    def __init__(self, env=None, heap=None, pc=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State({k: dict(v) for k, v in self.env.items()},
                     dict(self.heap), self.pc)


# a defect of the analysis itself is an unmodelled construct, never a verdict
INTERNAL = (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError,
            RecursionError, ArithmeticError, NotImplementedError)


# calls of builtins written as the expressions they stand for
MAP1, MAPN, FILTER, FILTER0, FROMKEYS = (ast.parse(x, mode="eval").body for x in (
    "[f(x) for x in it]", "[f(*x) for x in it]", "[x for x in it if f(x)]", "[x for x in it if x]", "{x: f for x in it}"))
UNBOUND = ("builtins.str", "builtins.bytes", "builtins.list", "builtins.dict", "builtins.tuple",
           "builtins.set", "numpy.ndarray")


def fixed(t):
    """(value,) of a term without unknowns"""
    if t.op == "const":
        return (cval(t),)
    if t.op in ("tuple", "list"):
        vs = [fixed(a) for a in t.args if isinstance(a, Node)]
        return None if len(vs) != len(t.args) or None in vs else (tuple(v[0] for v in vs),)
    return None


class Give(Exception):
    """the analysis does not model this construct"""


class Exc(str):
    """name of a raised exception, with its message"""
    msg = None
    src = None      # place of the raise statement
    at = None       # place of the operation that raises it
    call = False    # arguments that do not fit a function of the repository
    sure = False    # Python raises it here whatever the operands' values are


def exc_with(name, msg):
    e = Exc(name)
    e.msg = msg
    return e


class Managed:
    """context manager written as a generator; its frame is bound"""

    def __init__(self, fn, fid, q):
        self.fn, self.fid, self.q = fn, fid, q


class AbsRaise(Exception):
    """definite exception while evaluating an expression"""

    def __init__(self, exc, sure=False):
        if not isinstance(exc, Exc):
            exc = Exc(exc)
        self.exc = exc
        exc.sure = exc.sure or sure


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
          ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>"}
SETOPS = {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
          ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "isnot",
          ast.In: "in", ast.NotIn: "notin"}

# numpy functions returning (possibly) a view of / the same object as an arg
ALIAS = {"numpy.asarray": 0, "numpy.atleast_1d": 0, "numpy.atleast_2d": 0,
         "numpy.atleast_3d": 0, "numpy.ravel": 0, "numpy.reshape": 0,
         "numpy.squeeze": 0, "numpy.transpose": 0, "numpy.moveaxis": 0,
         "numpy.swapaxes": 0, "numpy.broadcast_to": 0, "numpy.asanyarray": 0,
         "numpy.expand_dims": 0, "numpy.rollaxis": 0,
         "numpy.ascontiguousarray": 0, "numpy.real": 0, "numpy.flip": 0,
         "numpy.flipud": 0, "numpy.fliplr": 0, "numpy.rot90": 0,
         "numpy.diagonal": 0, "numpy.asfarray": 0}
# array methods that are the numpy function of the same name
METHODS_ALIAS = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view"}
METHODS_FRESH = {"flatten", "copy", "astype", "sum", "mean", "min", "max",
                 "argmax", "argmin", "argsort", "all", "any", "prod", "cumsum",
                 "clip", "round", "nonzero", "repeat", "take", "dot", "tobytes",
                 "tolist", "std", "var", "searchsorted", "item", "conj", "trace"}
METHODS_MUTATE = {"sort", "fill", "itemset", "partition", "put", "resize", "setfield"}
# functions mutating an argument: name -> positions
MUTATORS = {"numpy.copyto": (0,), "numpy.put": (0,), "numpy.place": (0,),
            "numpy.putmask": (0,), "numpy.fill_diagonal": (0,),
            "numpy.put_along_axis": (0,), "numpy.random.shuffle": (0,),
            "random.shuffle": (0,)}
# position of the output argument
POSOUT = {"numpy." + n: 2 for n in ("add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power",
                                    "mod", "minimum", "maximum", "arctan2", "hypot", "matmul", "greater", "less",
                                    "logical_and", "logical_or", "copysign", "fmod", "remainder")}
POSOUT.update({"numpy." + n: 1 for n in ("sqrt", "square", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "exp",
                                         "log", "log10", "abs", "absolute", "negative", "floor", "ceil", "rint",
                                         "sign", "logical_not", "radians", "degrees", "deg2rad", "rad2deg")})
POSOUT["numpy.clip"] = 3
SCALAR_FUNCS = {"builtins.len", "builtins.int", "builtins.float", "builtins.round",
                "builtins.ord", "builtins.hash", "builtins.id"}
PURE_BUILTINS = {n for n in dir(builtins)}
# calls that do not fail with the arguments this code base passes
NORAISE = {"warnings.catch_warnings", "warnings.simplefilter", "warnings.filterwarnings", "numpy.errstate",
           "contextlib.suppress", "contextlib.nullcontext", "functools.lru_cache", "functools.partial"}
IMPURE_PREFIX = ("subprocess.", "os.", "numpy.random.", "random.", "time.",
                 "builtins.open", "tempfile.", "shutil.", "concurrent.",
                 "builtins.input", "secrets.", "uuid.", "datetime.")
EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and
       issubclass(getattr(builtins, n), BaseException)}


_ho = {}


LOOPS = {}        # loop node id -> shape facts its iterations have to satisfy


def walkconst(t):
    """constants a gate can select"""
    if t.op == "phi":
        yield from walkconst(t.args[1])
        yield from walkconst(t.args[2])
    elif t.op == "const":
        yield cval(t)
    else:
        yield from (0, 1, 2, 3)


def holds_object(t):
    r = _ho.get(t.id)
    if r is None:
        r = t.op in ("inst", "bound") or t.op == "func" or any(holds_object(x) for x in children(t))
        _ho[t.id] = r
    return r


class Interp:
    MAXDEPTH = 60
    MAXREC = 3
    MAXUNROLL = 400

    def __init__(self, prog, shape_of=None):
        self.prog = prog
        self.effects = []
        self.obligations = []
        self.stack = []          # (qualified function name)
        self.loc = None
        self.frames = {}         # fid -> (module, closure fid, class)
        self.n = 0
        self.shape_of = shape_of or (lambda it, n: None)
        self.truth_of = None
        self.modcache = {}
        self.intrinsics = {}
        self.class_models = {}
        self.stand_ins = {}      # library objects (not functions) replaced by an instance
        self.deadline = None     # processor time after which to give up
        self.memo_sizes = {}
        self.own_decos, self.keep = {}, []
        self.visited = set()     # repo functions inlined
        self.import_state = State()     # as the program was loaded
        self.importing = []
        self.classes = {}        # object -> its class
        self.import_deps = {}
        self.objects = {}        # value number -> object
        self.handed = []         # objects given to unknown code
        self.sites = 0
        self.opaque = []         # constructs given up on
        self.escapes = []        # raises leaving calls made in enclosing try bodies
        self.catch = []          # events of enclosing try bodies
        self.bases = {}          # base -> origin
        self.setoids = set()
        self.domain = {}         # sym name -> domain
        self.unroll = True
        self.exact = False       # loops of unknown length as recurrences
        self.facts = []          # shape facts used while building

    # ------------------------------------------------------------ helpers --
    def fresh(self, tag="o"):
        self.n += 1
        return (tag, self.n)

    def effect(self, st, kind, *data):
        e = Effect(kind, st.pc, data, self.loc, tuple(self.stack))
        self.effects.append(e)
        return e

    def arr(self, st, content, origin="fresh"):
        b = self.fresh("b")
        st.heap[("b", b)] = content
        self.bases[b] = origin
        return Arr(b)

    def new_list(self, st, items):
        o = self.fresh("l")
        st.heap[("l", o)] = tuple(items) if not isinstance(items, Node) else items
        return Lst(o)

    def new_dict(self, st, items):
        o = self.fresh("d")
        if not isinstance(items, Node):
            c = ()
            for k, v in items:
                c = dict_set(c, k, v)
            items = c
        st.heap[("l", o)] = items
        return Dct(o)

    # ------------------------------------------------------------- terms --
    def apply_path(self, x, path):
        for p in path:
            x = mk("view", p[0], x, *p[1:], kind="arr")
        return x

    def remember(self, n, v):
        """objects stay objects when they come back out of a term"""
        self.objects[n.id] = v
        return n

    def term(self, st, v):
        if isinstance(v, Node):
            return v
        if isinstance(v, Arr):
            return self.apply_path(st.heap[("b", v.base)], v.path)
        if isinstance(v, VTuple):
            return mk("tuple", *[self.term(st, i) for i in v.items], kind="tuple")
        if isinstance(v, Lst):
            c = st.heap[("l", v.oid)]
            if isinstance(c, Node):
                return c
            if isinstance(v, VSet):
                return self.mk_set([self.term(st, i) for i in c])
            return mk("list", *[self.term(st, i) for i in c], kind="list")
        if isinstance(v, Dct):
            c = st.heap[("l", v.oid)]
            if isinstance(c, Node):
                return c
            return self.dict_term(st, c)
        if isinstance(v, VPhi):
            return self.phi_term(v.cond, self.term(st, v.a), self.term(st, v.b))
        if isinstance(v, Inst):
            return self.remember(mk("inst", v.cls.qual, v.oid, kind="inst"), v)
        if isinstance(v, Func):
            q = v.mod.name + "." + (v.cls.name + "." if v.cls else "") + \
                getattr(v.fn, "name", f"<lambda>{v.fn.lineno}")
            return self.remember(mk("func", q, v.fid, kind="func"), v)
        if isinstance(v, Bound):
            return self.remember(mk("bound", self.term(st, v.func), self.term(st, v.self), kind="func"), v)
        if isinstance(v, Cls):
            return self.remember(mk("cls", v.info.qual, kind="cls"), v)
        if isinstance(v, Ext):
            return mk("ext", v.name, kind="ext")
        if isinstance(v, Mod):
            return mk("mod", v.name, kind="mod")
        if isinstance(v, ExtBound):
            return mk("extbound", v.name, self.term(st, v.obj), kind="func")
        if v is UNDEF:
            return mk("undef")
        raise Give(f"term of {type(v).__name__}")

    def dict_term(self, st, c, keys=False):
        """entries (key, value) in order of insertion, some perhaps absent"""
        d, sure = None, []
        for k, v in c:
            if d is None and not maybe_absent(v):
                sure += [k, NONE if keys else self.term(st, v)]
                continue
            if d is None:
                d = mk("dict", *sure, kind="dict")
            d = self.dict_put(st, d, k, v, keys)
        return mk("dict", *sure, kind="dict") if d is None else d

    def dict_put(self, st, d, k, v, keys):
        if v is UNDEF:
            return d
        if maybe_absent(v):
            return self.phi_term(v.cond, self.dict_put(st, d, k, v.a, keys), self.dict_put(st, d, k, v.b, keys))
        return mk("update", d, (), k, NONE if keys else self.term(st, v), kind="dict")

    def dict_find(self, st, c, t, default):
        """value under key t, `default` where no entry has that key"""
        r = default
        for k, v in c:
            if k is t:
                same = TRUE
            elif k.op == "const" and t.op == "const":
                same = const(cval(k) == cval(t))
            else:
                same = self.compare(st, "==", k, t)
            if same is not FALSE:
                r = self.dict_alt(same, self.dict_present(v, r), r)
        return r

    def dict_present(self, v, other):
        if v is UNDEF:
            return other
        if maybe_absent(v):
            return self.dict_alt(v.cond, self.dict_present(v.a, other), self.dict_present(v.b, other))
        return v

    def dict_alt(self, c, a, b):
        if c is TRUE or a is b:
            return a
        if c is FALSE:
            return b
        if a is UNDEF or b is UNDEF:
            return VPhi(c, a, b)
        return self.merge_val(c, a, b)

    def dict_known(self, c):
        """are keys and presence of every entry known"""
        return isinstance(c, tuple) and not any(maybe_absent(v) for _, v in c) and \
            (len(c) < 2 or all(k.op == "const" for k, _ in c))

    def dict_has(self, v):
        if v is UNDEF:
            return FALSE
        if maybe_absent(v):
            return self.phi_term(v.cond, self.dict_has(v.a), self.dict_has(v.b))
        return TRUE

    def dict_get(self, st, c, t):
        """entry under t; a missing one is a KeyError"""
        r = self.dict_find(st, c, t, UNDEF)
        if r is UNDEF:
            raise AbsRaise("KeyError", sure=True)
        if maybe_absent(r):
            self.may_raise(st, mk("getitem", self.dict_term(st, c, True), t), "KeyError")
            r = present(r)
        return r

    def phi_term(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if c.op == "not":
            c, a, b = c.args[0], b, a
        if a.op == "phi" and a.args[0] is c:
            a = a.args[1]
        if b.op == "phi" and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return a
        return mk("phi", c, a, b, kind=a.kind if a.kind == b.kind else None)

    # ------------------------------------------------------------- merge --
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Node) and isinstance(b, Node):
            return self.phi_term(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.base == b.base and a.path == b.path:
            return a
        if type(a) is type(b):
            if isinstance(a, VTuple) and len(a.items) == len(b.items):
                return VTuple([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, (Lst, Dct, Inst)) and a.oid == b.oid:
                return a
            if isinstance(a, Func) and a.fn is b.fn and a.fid == b.fid:
                return a
            if isinstance(a, Cls) and a.info is b.info:
                return a
            if isinstance(a, (Ext, Mod)) and a.name == b.name:
                return a
            if isinstance(a, Bound) and isinstance(a.self, Inst) and isinstance(b.self, Inst) \
                    and a.self.oid == b.self.oid and a.func.fn is b.func.fn:
                return a
        return VPhi(c, a, b)

    def merge(self, c, s1, s2, pc):
        """state that is s1 if c else s2"""
        out = State({}, {}, pc)
        for f in set(s1.env) | set(s2.env):
            e1, e2 = s1.env.get(f), s2.env.get(f)
            if e1 is None or e2 is None:
                out.env[f] = dict(e1 if e1 is not None else e2)
                continue
            d = {}
            for k in list(e1) + [k for k in e2 if k not in e1]:
                d[k] = self.merge_val(c, e1.get(k, UNDEF), e2.get(k, UNDEF))
            out.env[f] = d
        h1, h2 = s1.heap, s2.heap
        loaded = self.import_state.heap
        for k in [k for k in h1 if k not in h2 and k in loaded]:
            h2[k] = loaded[k]
        for k in [k for k in h2 if k not in h1 and k in loaded]:
            h1[k] = loaded[k]
        for k in list(h1) + [k for k in h2 if k not in h1]:
            if k[0] == "memo":
                # a result cached on one side only is computed again
                if k in h1 and k in h2 and h1[k] is h2[k]:
                    out.heap[k] = h1[k]
            elif k not in h1 or k not in h2:
                v = h2[k] if k not in h1 else h1[k]
                if k[0] == "a":
                    # set on one side: the class's own value on the other
                    d = self.class_default(s1 if k not in h1 else s2, k)
                    if d is not None:
                        self.class_default(out, k)
                        v = self.merge_val(c, d, v) if k not in h1 else self.merge_val(c, v, d)
                out.heap[k] = v
            else:
                a, b = h1[k], h2[k]
                if a is b:
                    out.heap[k] = a
                elif isinstance(a, tuple) and isinstance(b, tuple) and k[0] == "l":
                    if k[1] in self.setoids and [self.term(s1, i) for i in a] != [self.term(s2, i) for i in b]:
                        out.heap[k] = self.phi_term(c, self.mk_set([self.term(s1, i) for i in a]),
                                                    self.mk_set([self.term(s2, i) for i in b]))
                    else:
                        out.heap[k] = self.merge_items(c, a, b, s1, s2)
                elif isinstance(a, tuple) or isinstance(b, tuple):
                    ta = a if isinstance(a, Node) else mk("list", *[self.term(s1, i) for i in a if not isinstance(i, tuple)])
                    tb = b if isinstance(b, Node) else mk("list", *[self.term(s2, i) for i in b if not isinstance(i, tuple)])
                    if k[1] in self.setoids:
                        ta = a if isinstance(a, Node) else self.mk_set(ta.args)
                        tb = b if isinstance(b, Node) else self.mk_set(tb.args)
                    out.heap[k] = self.phi_term(c, ta, tb)
                else:
                    out.heap[k] = self.merge_val(c, a, b)
        return out

    def class_default(self, st, key):
        info = self.classes.get(key[1])
        lk = info and self.class_attr(st, info, key[2])
        if not lk or lk[0] != "assign":
            return None
        try:
            return self.cls_assign_value(st, lk[2], key[2], lk[1])
        except AbsRaise:
            return None

    def merge_items(self, c, a, b, s1, s2):
        if a == b:
            return a
        if a and isinstance(a[0], tuple) or b and isinstance(b[0], tuple):
            # dict items
            da = [(k, v) for k, v in a]
            db = [(k, v) for k, v in b]
            ka = [k for k, _ in da]
            out = []
            for k, v in da:
                w = [y for x, y in db if x is k]
                out.append((k, self.merge_val(c, v, w[0]) if w else
                            VPhi(c, v, UNDEF)))
            for k, v in db:
                if k not in ka:
                    out.append((k, VPhi(c, UNDEF, v)))
            return tuple(out)
        if len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        return self.phi_term(c, mk("list", *[self.term(s1, i) for i in a], kind="list"),
                             mk("list", *[self.term(s2, i) for i in b], kind="list"))

    def fold(self, outs, npc):
        """merge (state, value) outcomes whose pcs form a tree below npc"""
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0]
        lens = [len(s.pc) for s, _ in outs]
        if min(lens) <= npc:
            # a shorter outcome dominates: order is unknown -> keep gates of
            # the others on top of it
            base = [o for o in outs if len(o[0].pc) <= npc]
            rest = [o for o in outs if len(o[0].pc) > npc]
            if not rest:
                return base[-1]
            cur = base[-1]
            for s, v in rest:
                c = self.conj(s.pc[npc:])
                m = self.merge(c, s, cur[0], cur[0].pc)
                cur = (m, self.merge_val(c, v, cur[1]) if v is not None else None)
            return cur
        c = outs[0][0].pc[npc][0]
        pos = [o for o in outs if o[0].pc[npc] == (c, True)]
        neg = [o for o in outs if o[0].pc[npc] == (c, False)]
        other = [o for o in outs if o[0].pc[npc][0] is not c]
        res = None
        a = self.fold(pos, npc + 1)
        b = self.fold(neg, npc + 1)
        if a and b:
            pc = a[0].pc[:npc]
            m = self.merge(c, a[0], b[0], pc)
            res = (m, self.merge_val(c, a[1], b[1]) if a[1] is not None and b[1] is not None
                   else (a[1] if b[1] is None else b[1]))
        else:
            res = a or b
        if other:
            cond = None
            for x, _ in other:
                k = self.conj(x.pc[npc:])
                cond = k if cond is None else mk("or", cond, k, kind="bool")
            o = self.fold(other, npc)
            m = self.merge(cond, o[0], res[0], res[0].pc[:npc])
            res = (m, self.merge_val(cond, o[1], res[1]) if res[1] is not None else None)
        return res

    def conj(self, pc):
        out = None
        for c, p in pc:
            t = c if p else self.negate(c)
            out = t if out is None else mk("and", out, t, kind="bool")
        return out if out is not None else TRUE

    def negate(self, c):
        if c is TRUE:
            return FALSE
        if c is FALSE:
            return TRUE
        if c.op == "not":
            return c.args[0]
        return mk("not", c, kind="bool")

    # ---------------------------------------------------------- branching --
    def truth(self, st, v):
        """TRUE / FALSE / condition node"""
        if isinstance(v, Node):
            if v.op == "const":
                return TRUE if cval(v) else FALSE
            if v.op == "phi":
                a, b = self.truth(st, v.args[1]), self.truth(st, v.args[2])
                if a is b:
                    return a
                if a is TRUE and b is FALSE:
                    return self.truth(st, v.args[0])
                if a is FALSE and b is TRUE:
                    return self.negate(self.truth(st, v.args[0]))
            if v.op == "tuple" or v.op == "list":
                return TRUE if v.args else FALSE
            if v.op in ("exc", "excobj"):
                return TRUE
            return self.decide(st, v)
        if isinstance(v, VTuple):
            return TRUE if v.items else FALSE
        if isinstance(v, (Lst, Dct)):
            c = st.heap[("l", v.oid)]
            if isinstance(c, tuple):
                return TRUE if c else FALSE
            return self.decide(st, c)
        if isinstance(v, (Inst, Func, Bound, Cls, Mod, Ext)):
            return TRUE
        if isinstance(v, VPhi):
            a, b = self.truth(st, v.a), self.truth(st, v.b)
            if a is b:
                return a
            return self.decide(st, self.phi_term(v.cond, a, b))
        if isinstance(v, Arr):
            return self.decide(st, self.term(st, v))
        return self.decide(st, self.term(st, v))

    def decide(self, st, c):
        neg = False
        while c.op == "not":
            c, neg = c.args[0], not neg
        if c.op == "const":
            r = TRUE if cval(c) else FALSE
        else:
            r = c
            for f, p in st.pc:
                if f is c:
                    r = TRUE if p else FALSE
                    break
            else:
                if c.op in ("and", "or"):
                    ds = [self.decide(st, x) for x in c.args]
                    absorb = FALSE if c.op == "and" else TRUE
                    if any(d is absorb for d in ds):
                        r = absorb
                    elif all(is_const(d) for d in ds):
                        r = TRUE if absorb is FALSE else FALSE
                if r is c and self.truth_of is not None:
                    t = self.truth_of(self, c)
                    if t is not None:
                        r = TRUE if t else FALSE
        return self.negate(r) if neg else r

    def assume(self, st, c, pol):
        while c.op == "not":
            c, pol = c.args[0], not pol
        s = st.copy()
        s.pc = st.pc + ((c, pol),)
        return s

    def distribute(self, st, v, fn):
        """apply fn(state, value)->(value) to every alternative of v, merging
        the states in place"""
        if not isinstance(v, VPhi):
            return fn(st, v)
        d = self.decide(st, v.cond)
        if d is TRUE:
            return self.distribute(st, v.a, fn)
        if d is FALSE:
            return self.distribute(st, v.b, fn)
        s1, s2 = self.assume(st, v.cond, True), self.assume(st, v.cond, False)
        pc = st.pc
        x1 = x2 = None
        try:
            r1 = self.distribute(s1, v.a, fn)
        except AbsRaise as e:
            self.effect(s1, "raise", e.exc)
            r1, x1 = None, self.located(e.exc)
        try:
            r2 = self.distribute(s2, v.b, fn)
        except AbsRaise as e:
            self.effect(s2, "raise", e.exc)
            r2, x2 = None, self.located(e.exc)
        if x1 is not None and x2 is not None:
            raise AbsRaise(x1 if x1 == x2 else "Exception")
        if x1 is not None or x2 is not None:
            if self.escapes:
                self.escapes[-1].append((s1, x1) if x2 is None else (s2, x2))
            s = s2 if x2 is None else s1
            st.env, st.heap, st.pc = s.env, s.heap, s.pc
            return r2 if x2 is None else r1
        m = self.merge(v.cond if v.cond.op != "not" else v.cond, s1, s2, pc)
        st.env, st.heap, st.pc = m.env, m.heap, pc
        return self.merge_val(v.cond, r1, r2)

    # -------------------------------------------------------- entry points --
    def ext(self, st, q):
        """something of another package, or the class that stands for it"""
        if q in self.class_models:
            return self.class_models[q](st)
        return Ext(q)

    def module_value(self, st, mod, name):
        """value of a global name"""
        r = self.prog.resolve(mod, name)
        if r is None:
            if hasattr(builtins, name):
                return Ext("builtins." + name)
            return None
        if r[0] == "func":
            return Func(r[1], r[2])
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "mod":
            return Mod(r[1])
        if r[0] == "ext":
            return self.ext(st, r[1])
        if r[0] == "expr":
            key = ("g", r[2].name, name)

            def make(s):
                fid = self.fresh("f")
                self.frames[fid] = (r[2], None, None)
                s.env[fid] = {}
                v = self.eval(s, r[1], fid)
                self._mark_origin(s, v, ("global", r[2].name + "." + name))
                return v
            return self.at_import(st, key, make)
        return None

    def at_import(self, st, key, make):
        """the object made once, when the program is loaded: every path sees
        the same one, whichever path looks at it first"""
        imp = self.import_state
        if st is imp and self.importing:
            self.import_deps[self.importing[-1]].append(key)
        if key in st.heap:
            return st.heap[key]
        if key not in imp.heap:
            before = set(imp.heap)
            self.import_deps[key] = []
            self.importing.append(key)
            try:
                imp.heap[key] = make(imp)
            finally:
                self.importing.pop()
            self.import_deps[key] += [k for k in imp.heap if k not in before and k != key]
        if st is not imp:
            self.import_into(st, key)
        return st.heap[key]

    def loaded(self, st, mod, name):
        """what a global or class attribute is before this path sets it"""
        try:
            if isinstance(mod, ClassInfo):
                if name in mod.assigns:
                    self.cls_assign_value(st, mod, name, mod.assigns[name])
            else:
                self.module_value(st, mod, name)
        except AbsRaise:
            pass

    def import_into(self, st, key):
        imp = self.import_state
        if key in st.heap:
            return
        st.heap[key] = imp.heap[key]
        for k in self.import_deps.get(key, ()):
            if k in self.import_deps:
                self.import_into(st, k)
            elif k not in st.heap and k in imp.heap:
                st.heap[k] = imp.heap[k]
        for f, d in imp.env.items():
            if f not in st.env:
                st.env[f] = dict(d)

    def _mark_origin(self, st, v, origin):
        if isinstance(v, Arr):
            self.bases[v.base] = origin
        elif isinstance(v, (Lst, Dct)):
            self.bases[v.oid] = origin

    def call_function(self, st, f, args, kwargs, selfval=None):
        """inline a repository function. args/kwargs are values"""
        fn = f.fn
        q = f.mod.name + "." + (f.cls.name + "." if f.cls else "") + \
            getattr(fn, "name", f"<lambda>{fn.lineno}")
        if len(self.stack) > self.MAXDEPTH or self.stack.count(q) >= self.MAXREC:
            self.opaque.append(("recursion", q, self.loc))
            return mk("rec", q, tuple(self.term(st, a) for a in args))
        self.visited.add(q)
        if selfval is not None:
            args = [selfval] + list(args)
        h = self.intrinsics.get(q)
        if h is not None and q not in self.stack:
            return h(self, st, args, kwargs)
        if not f.bare:
            w = self.decorated(st, f)
            if w is not None:
                return self.call(st, w, args, kwargs)
        size = self.memo_size(f)
        if size is not False:
            key = ("memo", q, self.memo_key(st, args, kwargs))
            if key[2] is not None:
                if key in st.heap:
                    v = st.heap.pop(key)
                    st.heap[key] = v          # most recently used
                    return v
                v = self.call_plain(st, f, fn, q, args, kwargs)
                st.heap[key] = v
                if size is not None:
                    same = [k for k in st.heap if k[0] == "memo" and k[1] == q]
                    for k in same[:max(0, len(same) - size)]:
                        del st.heap[k]
                return v
        return self.call_plain(st, f, fn, q, args, kwargs)

    def decorated(self, st, f):
        """the function as its decorators of this repository return it"""
        fn = f.fn
        if isinstance(fn, ast.Lambda) or not fn.decorator_list:
            return None
        ds = self.own_decos.get(id(fn))
        if ds is None:
            ds = []
            for d in fn.decorator_list:
                e = d.func if isinstance(d, ast.Call) else d
                r = None
                if isinstance(e, ast.Name):
                    r = self.prog.resolve(f.mod, e.id)
                elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                    r = self.prog.resolve(f.mod, e.value.id)
                    r = self.prog.resolve(self.prog.modules[r[1]], e.attr) if r and r[0] == "mod" else None
                if r and r[0] in ("func", "class"):
                    ds.append(d)
            self.own_decos[id(fn)] = ds
            self.keep.append(fn)
        if not ds:
            return None
        key = ("decorated", id(fn), f.fid)
        v = st.heap.get(key)
        if v is None:
            fid = f.fid
            if fid is None:
                fid = self.fresh("f")
                self.frames[fid] = (f.mod, None, f.cls)
                st.env[fid] = {}
            v = Func(fn, f.mod, f.fid, f.cls, True)
            for d in reversed(ds):
                v = self.call(st, self.eval(st, d, fid), [v], {})
            st.heap[key] = v
        return v

    def memo_size(self, f):
        """False: not memoised, None: unbounded, n: n most recent results"""
        fn = f.fn
        if isinstance(fn, ast.Lambda):
            return False
        r = self.memo_sizes.get(id(fn))
        if r is None:
            r = False
            for d in fn.decorator_list:
                call = isinstance(d, ast.Call)
                e = d.func if call else d
                nm = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "")
                if nm in ("cached_property", "cache"):
                    r = None
                elif nm == "lru_cache":
                    r = 128
                    if call:
                        a = d.args[:1] + [k.value for k in d.keywords if k.arg == "maxsize"]
                        if a and isinstance(a[0], ast.Constant):
                            r = a[0].value
            self.memo_sizes[id(fn)] = (r,)
        else:
            r = r[0]
        return r

    def memo_key(self, st, args, kwargs):
        out = []
        for k, v in [(None, a) for a in args] + sorted(kwargs.items()):
            if isinstance(v, Inst):
                lk = self.class_attr(st, v.cls, "__hash__") or self.class_attr(st, v.cls, "__eq__")
                if lk:
                    self.opaque.append(("memo on custom identity", v.cls.qual, self.loc))
                    return None
                out.append((k, v.oid))
            elif isinstance(v, Cls):
                out.append((k, v.info.qual))
            else:
                try:
                    out.append((k, self.term(st, v).id))
                except Give:
                    return None
        return tuple(out)

    def call_plain(self, st, f, fn, q, args, kwargs):
        fid = self.fresh("f")
        self.frames[fid] = (f.mod, f.fid, f.cls)
        caller_loc = self.loc
        env = self.bind(st, f, fn, list(args), dict(kwargs), fid, q)
        st.env[fid] = env
        self.stack.append(q)
        try:
            if isinstance(fn, ast.Lambda):
                v = self.eval(st, fn.body, fid)
            else:
                v = self.run_body(st, fn, fid, q)
        finally:
            self.stack.pop()
            self.loc = caller_loc
        if not self._captured(v):
            st.env.pop(fid, None)
        return v

    def _captured(self, v):
        # closures keep their frame alive
        return True

    def run_body(self, st, fn, fid, q):
        npc = len(st.pc)
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))
        if gen and any((d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) == "contextmanager"
                       for d in fn.decorator_list):
            return Managed(fn, fid, q)
        if gen and q.endswith("<lambda>"):
            self.opaque.append(("generator", q, self.loc))
            return mk("gen", q, self.fresh("n"))
        if gen:
            # a generator as the list of what it yields
            st.env[fid]["%yield"] = acc = self.new_list(st, [])
        outs = self.block(st, fn.body, fid)
        rets = []
        raised = 0
        for kind, s, v in outs:
            if kind == "fall":
                rets.append((s, NONE))
            elif kind == "return":
                rets.append((s, v))
            elif kind == "raise":
                raised += 1
        if not rets:
            # exceptions the code raises itself come last: they are certain only
            # when every path ends in one
            rs = sorted([(s, v) for k, s, v in outs if k == "raise"],
                        key=lambda x: getattr(x[1], "src", None) is not None)
            if self.escapes and len(rs) > 1:
                self.escapes[-1] += rs[1:]
            if rs:
                st.env, st.heap, st.pc = rs[0][0].env, rs[0][0].heap, rs[0][0].pc
            raise AbsRaise(rs[0][1] if rs else "Exception")
        if self.escapes and raised:
            self.escapes[-1] += [(s, v) for k, s, v in outs if k == "raise"]
        s, v = self.fold(rets, npc)
        st.env, st.heap, st.pc = s.env, s.heap, s.pc
        return acc if gen else v

    def bind(self, st, f, fn, args, kwargs, fid, q):
        a = fn.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        pos = list(args)
        for p in params:
            if pos:
                env[p] = pos.pop(0)
                if p in kwargs:
                    self.effect(st, "raise", "TypeError", f"{q}: {p} given twice")
                    raise self.misfit(f)
            elif p in kwargs:
                env[p] = kwargs.pop(p)
        if a.vararg:
            env[a.vararg.arg] = VTuple(pos)
            pos = []
        elif pos:
            self.effect(st, "raise", "TypeError", f"{q}: too many arguments")
            raise self.misfit(f)
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
        star = kwargs.pop("**", None)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(
                st, [(const(k), v) for k, v in kwargs.items()])
            if star is not None:
                env["**"] = star
        elif kwargs:
            self.effect(st, "raise", "TypeError",
                        f"{q}: unexpected keyword {sorted(kwargs)}")
            raise self.misfit(f)
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in env:
                if p in defaults:
                    key = ("dflt", q, p)

                    def make(s):
                        dfid = self.fresh("f")
                        self.frames[dfid] = (f.mod, f.fid, None)
                        s.env[dfid] = {}
                        v = self.eval(s, defaults[p], dfid)
                        self._mark_origin(s, v, ("default", q + "." + p))
                        return v
                    if f.fid is None:
                        env[p] = self.at_import(st, key, make)
                    elif key in st.heap and isinstance(st.heap[key], (Lst, Dct, Arr)):
                        env[p] = st.heap[key]
                    else:
                        env[p] = st.heap[key] = make(st)
                elif star is not None:
                    env[p] = self.sub(st, star, const(p))
                else:
                    self.effect(st, "raise", "TypeError", f"{q}: missing argument {p}")
                    raise self.misfit(f)
        return env

    def misfit(self, f):
        """the arguments of a call do not fit the called function"""
        x = Exc("TypeError")
        # a stand-in for a library function may accept less than the library
        x.sure = x.call = "spec_" not in f.mod.name
        return AbsRaise(x)

    def sub(self, st, obj, key):
        return mk("getitem", self.term(st, obj), key)

    # ----------------------------------------------------------- statements --
    def block(self, st, stmts, fid):
        """outcomes [(kind, state, value)]"""
        outs = []
        cur = st
        for i, s in enumerate(stmts):
            res = self.stmt(cur, s, fid)
            falls = [(s2, None) for k, s2, _ in res if k == "fall"]
            for o in res:
                if o[0] == "suspended":
                    # the rest of a context manager whose block was left by a jump
                    for k, s2, v in self.block(o[1], stmts[i + 1:], fid):
                        outs.append((k, s2, v) if k == "raise" else ("suspended" if k == "fall" else "ended", s2, o[2]))
                elif o[0] != "fall":
                    outs.append(o)
            if not falls:
                return outs
            npc = min(len(cur.pc), min(len(f[0].pc) for f in falls))
            cur = self.fold(falls, npc)[0] if len(falls) > 1 else falls[0][0]
        outs.append(("fall", cur, None))
        return outs

    def stmt(self, st, s, fid):
        mod = self.frames[fid][0]
        self.loc = (mod.path, s.lineno, self.stack[-1] if self.stack else mod.name)
        self.sites += 1
        if self.deadline and time.process_time() > self.deadline:
            raise Give("analysis budget of this entry point is used up")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.opaque.append(("stmt " + type(s).__name__, self.loc))
            return [("fall", st, None)]
        try:
            return m(st, s, fid)
        except AbsRaise as e:
            self.loc = (mod.path, s.lineno, self.stack[-1] if self.stack else mod.name)
            self.effect(st, "raise", e.exc)
            return [("raise", st, self.located(e.exc))]
        except INTERNAL as e:
            raise Give(f"{type(e).__name__} in the analysis of this statement: {e}")

    def s_Expr(self, st, s, fid):
        if isinstance(s.value, ast.Yield) and "%with" in st.env[fid]:
            return self.managed_body(st, s, fid)
        self.eval(st, s.value, fid)
        return [("fall", st, None)]

    def s_Pass(self, st, s, fid):
        return [("fall", st, None)]

    def s_Global(self, st, s, fid):
        st.env[fid].setdefault("%global", VTuple(()))
        st.env[fid]["%global"] = VTuple(tuple(st.env[fid]["%global"].items) +
                                        tuple(const(n) for n in s.names))
        return [("fall", st, None)]

    def s_Nonlocal(self, st, s, fid):
        st.env[fid].setdefault("%nonlocal", VTuple(()))
        st.env[fid]["%nonlocal"] = VTuple(tuple(st.env[fid]["%nonlocal"].items) +
                                          tuple(const(n) for n in s.names))
        return [("fall", st, None)]

    def s_Import(self, st, s, fid):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            q = a.name if a.asname else a.name.split(".")[0]
            st.env[fid][n] = Mod(q) if q in self.prog.modules else self.ext(st, q)
        return [("fall", st, None)]

    def s_ImportFrom(self, st, s, fid):
        for a in s.names:
            base = s.module or ""
            if s.level:
                base = ".".join(self.frames[fid][0].name.split(".")[:-s.level] + ([s.module] if s.module else []))
            v = None
            if base in self.prog.modules:
                v = self.module_value(st, self.prog.modules[base], a.name)
            if v is None and base + "." + a.name in self.prog.modules:
                v = Mod(base + "." + a.name)
            st.env[fid][a.asname or a.name] = v or self.ext(st, base + "." + a.name)
        return [("fall", st, None)]

    def s_FunctionDef(self, st, s, fid):
        st.env[fid][s.name] = Func(s, self.frames[fid][0], fid)
        return [("fall", st, None)]

    def s_ClassDef(self, st, s, fid):
        self.opaque.append(("local class", self.loc))
        return [("fall", st, None)]

    def s_Assert(self, st, s, fid):
        c = self.truth(st, self.eval(st, s.test, fid))
        if c is FALSE:
            raise AbsRaise("AssertionError")
        if c is not TRUE:
            f = self.assume(st, c, False)
            self.effect(f, "raise", "AssertionError")
            t = self.assume(st, c, True)
            return [("fall", t, None), ("raise", f, "AssertionError")]
        return [("fall", st, None)]

    def s_Return(self, st, s, fid):
        v = self.eval(st, s.value, fid) if s.value is not None else NONE
        return [("return", st, v)]

    def s_Break(self, st, s, fid):
        return [("break", st, None)]

    def s_Continue(self, st, s, fid):
        return [("continue", st, None)]

    def s_Raise(self, st, s, fid):
        exc = "reraise"
        cur = st.env[fid].get("%exc")
        if isinstance(s.exc, ast.Call):
            made = self.made_exception(st, s.exc, fid)
            if made:
                return made
        if s.exc is None and isinstance(cur, Node):
            exc = exc_with(cur.args[0], cur.args[1] if len(cur.args) > 1 and isinstance(cur.args[1], Node) else None)
            self.effect(st, "raise", exc, exc.msg)
            return [("raise", st, exc)]
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                n = e.func
                for a in e.args:
                    try:
                        self.eval(st, a, fid)
                    except (AbsRaise, Give):
                        pass
            else:
                n = e
            exc = ast.unparse(n)
        msg = self.term(st, self.eval(st, s.exc.args[0], fid)) if s.exc is not None and \
            isinstance(s.exc, ast.Call) and s.exc.args else None
        if s.exc is not None and not isinstance(s.exc, ast.Call):
            v = self.eval(st, s.exc, fid)
            if isinstance(v, Node) and v.op == "exc":
                exc = v.args[0]
                msg = v.args[1] if len(v.args) > 1 and isinstance(v.args[1], Node) else None
            elif isinstance(v, Node) and v.op == "excobj":
                exc = v.args[0]
                msg = v.args[1][0] if v.args[1] else None
        exc = exc_with(exc, msg)
        exc.src = self.loc
        self.effect(st, "raise", exc, msg)
        return [("raise", st, exc)]

    def made_exception(self, st, e, fid):
        """outcomes of raising what a function or method of the program returns"""
        if isinstance(e.func, ast.Name):
            try:
                f = self.eval_name(st, e.func.id, fid)
            except AbsRaise:
                return None
        elif isinstance(e.func, ast.Attribute):
            f = self.eval(st, e.func, fid)
        else:
            return None
        if not isinstance(f, (Func, Bound)):
            return None
        outs = []

        def split(st, v):
            if isinstance(v, VPhi):
                c, a, b = v.cond, v.a, v.b
            elif isinstance(v, Node) and v.op == "phi":
                c, a, b = v.args
            else:
                if not (isinstance(v, Node) and v.op in ("exc", "excobj")):
                    raise Give("raises a value that is not a known exception")
                if v.op == "exc":
                    msg = v.args[1] if len(v.args) > 1 and isinstance(v.args[1], Node) else None
                else:
                    msg = v.args[1][0] if v.args[1] else None
                exc = exc_with(v.args[0], msg)
                exc.src = self.loc
                self.effect(st, "raise", exc, msg)
                outs.append(("raise", st, exc))
                return
            for side, w in ((True, a), (False, b)):
                s2 = st.copy()
                s2.pc = st.pc + ((c, side),)
                split(s2, w)
        split(st, self.eval(st, e, fid))
        return outs

    def s_Delete(self, st, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(st, t.value, fid)
                i = self.eval(st, t.slice, fid)
                m = self.prog.lookup(o.cls, "__delitem__") if isinstance(o, Inst) else None
                if m:
                    self.call_function(st, Func(m[1], m[2].mod, None, m[2]), [i], {}, o)
                elif isinstance(o, Node) and o.op == "ext" and o.args[0] == "os.environ":
                    self.effect(st, "environ", "pop", (self.term(st, i),))
                else:
                    self.mutate(st, o, "delitem", i, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(st, t.value, fid)
                if isinstance(o, Inst):
                    st.heap.pop(("a", o.oid, t.attr), None)
                    for k in [k for k in st.heap if k[0] == "memo" and
                              k[1].endswith("." + t.attr) and k[2] == ((None, o.oid),)]:
                        del st.heap[k]
                    self.effect(st, "setattr", o, t.attr, None)
        return [("fall", st, None)]

    def s_Assign(self, st, s, fid):
        v = self.eval(st, s.value, fid)
        for t in s.targets:
            self.assign(st, t, v, fid)
        return [("fall", st, None)]

    def s_AnnAssign(self, st, s, fid):
        if s.value is not None:
            self.assign(st, s.target, self.eval(st, s.value, fid), fid)
        return [("fall", st, None)]

    def s_AugAssign(self, st, s, fid):
        op = BINOPS[type(s.op)]
        rhs = self.eval(st, s.value, fid)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval_name(st, t.id, fid)
            self.assign(st, t, self.inplace(st, cur, op, rhs), fid)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value, fid)
            cur = self.getattr(st, o, t.attr)
            self.setattr(st, o, t.attr, self.inplace(st, cur, op, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value, fid)
            i = self.eval(st, t.slice, fid)
            cur = self.getitem(st, o, i)
            if isinstance(o, (Lst, Dct)) or isinstance(o, VPhi):
                nv = self.inplace(st, cur, op, rhs)
            else:
                nv = self.binop(st, op, cur, rhs)
            self.setitem(st, o, i, nv, aug=True)
        return [("fall", st, None)]

    def inplace(self, st, cur, op, rhs):
        def f(st, cur):
            if isinstance(cur, Arr):
                content = self.term(st, cur)
                if content.kind in ("num", "bool", "str", "int") and cur.path == ():
                    return self.binop(st, op, cur, rhs)
                nv = mk("bin", op, content, self.term(st, rhs), kind="arr", loc=self.loc)
                self.store(st, cur, "aug" + op, nv)
                return cur
            if isinstance(cur, VSet) and op in SETOPS:
                self.vset_method(st, cur, {"|": "update", "&": "intersection_update", "-": "difference_update",
                                           "^": "symmetric_difference_update"}[op], [rhs])
                return cur
            if isinstance(cur, Lst) and op == "+":
                c = st.heap[("l", cur.oid)]
                r = self.items(st, rhs)
                self.effect(st, "mutate", self.bases.get(cur.oid, "fresh"), "list +=")
                if isinstance(c, tuple) and r is not None:
                    st.heap[("l", cur.oid)] = c + tuple(r)
                else:
                    st.heap[("l", cur.oid)] = mk("bin", "+", self.term(st, cur), self.as_list(st, rhs), kind="list")
                return cur
            if isinstance(cur, Dct):
                self.mutate(st, cur, "update", None, rhs)
                return cur
            return self.binop(st, op, cur, rhs)
        return self.distribute(st, cur, f)

    def store(self, st, a, how, value_term):
        """whole-view in-place write to Arr a"""
        self.effect(st, "mutate", self.bases.get(a.base, "fresh"), how,
                    st.heap[("b", a.base)])
        if a.path == ():
            st.heap[("b", a.base)] = value_term
        else:
            st.heap[("b", a.base)] = mk("update", st.heap[("b", a.base)], a.path,
                                        mk("slice", NONE, NONE, NONE) if False else const(Ellipsis),
                                        value_term, kind="arr", loc=self.loc)

    def assign(self, st, t, v, fid):
        if isinstance(t, ast.Name):
            g = st.env[fid].get("%global")
            if g is not None and const(t.id) in g.items:
                self.effect(st, "setglobal", self.frames[fid][0].name + "." + t.id)
                self.loaded(st, self.frames[fid][0], t.id)
                st.heap[("g", self.frames[fid][0].name, t.id)] = v
                return
            g = st.env[fid].get("%nonlocal")
            if g is not None and const(t.id) in g.items:
                f = self.frames[fid][1]
                while f is not None:
                    if t.id in st.env.get(f, ()):
                        st.env[f][t.id] = v
                        return
                    f = self.frames[f][1]
            st.env[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(st, t.elts, v, fid)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.eval(st, t.value, fid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value, fid)
            i = self.eval(st, t.slice, fid)
            self.setitem(st, o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v, fid)

    def unpack(self, st, elts, v, fid):
        n = len(elts)
        if isinstance(v, VPhi):
            la = self.items(st, v.a) if not isinstance(v.a, VPhi) else None
            lb = self.items(st, v.b) if not isinstance(v.b, VPhi) else None
            if la is not None and lb is not None and len(la) == len(lb):
                vals = [self.merge_val(v.cond, a, b) for a, b in zip(la, lb)]
                return self._unpack(st, elts, vals, fid)
        vals = self.items(st, v)
        if vals is None and self.definitely_scalar(st, v):
            raise AbsRaise("TypeError", sure=self.number(v))
        if vals is None:
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            t = self.term(st, v)
            vals = []
            for i, e in enumerate(elts):
                if star and i == star[0]:
                    vals.append(mk("getitem", t, mk("slice", const(i), const(i - n + 1) if i - n + 1 else NONE, NONE)))
                elif star and i > star[0]:
                    vals.append(self.getitem(st, v, const(i - n)))
                else:
                    vals.append(self.getitem(st, v, const(i)))
            for e, x in zip(elts, vals):
                self.assign(st, e, x, fid)
            return
        self._unpack(st, elts, vals, fid)

    def _unpack(self, st, elts, vals, fid):
        vals = list(vals)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            tail = len(elts) - k - 1
            if len(vals) < len(elts) - 1:
                raise AbsRaise("ValueError", sure=True)
            mid = vals[k:len(vals) - tail]
            seq = vals[:k] + [self.new_list(st, mid)] + vals[len(vals) - tail:]
        else:
            if len(vals) != len(elts):
                raise AbsRaise("ValueError", sure=True)
            seq = vals
        for e, x in zip(elts, seq):
            self.assign(st, e, x, fid)

    def number(self, v):
        """a Python number or None"""
        return isinstance(v, Node) and (v is NONE or v.kind in ("num", "bool") and (
            v.op == "const" or v.op == "sym" and v.args[0] in self.domain))

    def definitely_scalar(self, st, v):
        return isinstance(v, Node) and v.kind in ("num", "bool", "none")

    def s_If(self, st, s, fid):
        c = self.truth(st, self.eval(st, s.test, fid))
        if c is TRUE:
            return self.block(st, s.body, fid)
        if c is FALSE:
            return self.block(st, s.orelse, fid)
        pos, neg = self.assume(st, c, True), self.assume(st, c, False)
        self.narrow(pos, s.test, fid, True)
        self.narrow(neg, s.test, fid, False)
        o1 = self.block(pos, s.body, fid)
        o2 = self.block(neg, s.orelse, fid)
        f1 = [o for o in o1 if o[0] == "fall"]
        f2 = [o for o in o2 if o[0] == "fall"]
        rest = [o for o in o1 + o2 if o[0] != "fall"]
        n = len(st.pc)
        if f1 and f2:
            m = self.fold([(f1[0][1], None), (f2[0][1], None)], n)[0]
            m.pc = st.pc
            # facts both alternatives share are kept by construction
            return rest + [("fall", m, None)]
        return rest + f1 + f2

    def narrow(self, st, test, fid, pol):
        """`x is None` tests refine the variable"""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, pol = test.operand, not pol
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], ast.Is) == pol
            v = st.env[fid].get(test.left.id)
            if v is None:
                return
            if isnone and isinstance(v, Node):
                st.env[fid][test.left.id] = NONE
            elif not isnone and isinstance(v, VPhi):
                if v.a is NONE:
                    st.env[fid][test.left.id] = v.b
                elif v.b is NONE:
                    st.env[fid][test.left.id] = v.a
            elif not isnone and isinstance(v, Node) and v.op == "phi":
                if v.args[1] is NONE:
                    st.env[fid][test.left.id] = v.args[2]
                elif v.args[2] is NONE:
                    st.env[fid][test.left.id] = v.args[1]

    def s_For(self, st, s, fid):
        it = self.iterable(st, self.eval(st, s.iter, fid))
        seq = self.items(st, it)
        if seq is None and self.number(it):
            raise AbsRaise("TypeError", sure=True)
        npc = len(st.pc)
        if seq is not None and len(seq) <= self.MAXUNROLL and self.unroll:
            cur = st
            outs, exits = [], []
            broke = False
            for x in seq:
                try:
                    self.assign(cur, s.target, x, fid)
                except AbsRaise as e:
                    self.effect(cur, "raise", e.exc)
                    outs.append(("raise", cur, self.located(e.exc)))
                    cur = None
                    break
                res = self.block(cur, s.body, fid)
                nxt = []
                for k, s2, v in res:
                    if k in ("fall", "continue"):
                        nxt.append((s2, None))
                    elif k == "break":
                        exits.append((s2, None))
                    else:
                        outs.append((k, s2, v))
                if not nxt:
                    cur = None
                    break
                n = min(len(f[0].pc) for f in nxt)
                cur = self.fold(nxt, min(n, len(cur.pc)))[0]
            final = []
            if cur is not None:
                if s.orelse:
                    res = self.block(cur, s.orelse, fid)
                    final += [(s2, None) for k, s2, _ in res if k == "fall"]
                    outs += [o for o in res if o[0] != "fall"]
                else:
                    final.append((cur, None))
            final += exits
            if not final:
                return outs
            return outs + [("fall", self.fold(final, npc)[0], None)]
        if self.exact:
            r = self.exactloop(st, s, fid, it)
            if r is not None:
                return r
        return self.symloop(st, s, fid, it)

    def s_While(self, st, s, fid):
        cur, outs, exits = st, [], []
        npc = len(st.pc)
        tried, left = False, 2
        for _ in range(64 if self.exact else 2):
            log = self.marks()
            pre = cur.copy()
            c = self.truth(cur, self.eval(cur, s.test, fid))
            if c is FALSE:
                exits.append((cur, None))
                cur = None
                break
            if self.exact and (c is not TRUE or isinstance(s.test, ast.Constant)):
                if not tried:
                    tried = True
                    saved = [(l, l[n:]) for l, n in log]
                    self.rewind(log)
                    r = self.exactloop(pre, s, fid, None)
                    if r is not None:
                        outs += [o for o in r if o[0] != "fall"]
                        exits += [(s2, None) for x, s2, _ in r if x == "fall"]
                        cur = None
                        break
                    for l, x in saved:
                        l.extend(x)
                if not left:
                    break
                left -= 1
            if c is not TRUE:
                neg = self.assume(cur, c, False)
                exits.append((neg, None))
                cur = self.assume(cur, c, True)
            res = self.block(cur, s.body, fid)
            nxt = []
            for k, s2, v in res:
                if k in ("fall", "continue"):
                    nxt.append((s2, None))
                elif k == "break":
                    exits.append((s2, None))
                else:
                    outs.append((k, s2, v))
            if not nxt:
                cur = None
                break
            cur = self.fold(nxt, min(len(cur.pc), min(len(f[0].pc) for f in nxt)))[0]
        if cur is not None:
            # not exhausted: everything the body assigns is unknown afterwards
            self.opaque.append(("while", self.loc))
            self.havoc(cur, s.body, fid)
            exits.append((cur, None))
        if not exits:
            return outs
        return outs + [("fall", self.fold(exits, npc)[0], None)]

    def assigned(self, body):
        names = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        return names

    def havoc(self, st, body, fid, tag=None):
        tag = tag or self.fresh("h")
        for n in self.assigned(body):
            if n in st.env[fid]:
                st.env[fid][n] = mk("loopout", tag, n)

    def marks(self):
        logs = [self.effects, self.opaque, self.handed, self.escapes, self.obligations, *self.catch, *self.escapes]
        return [(l, len(l)) for l in logs if isinstance(l, list)]

    def rewind(self, marks):
        for l, n in marks:
            del l[n:]

    def exactloop(self, st, s, fid, it):
        """loop of unknown length as a recurrence: one generic iteration from
        generalised loop variables, iterated to the fixpoint of what has to be
        generalised; None if something that is not a value is carried around"""
        log = self.marks()
        nf = len(self.facts)
        try:
            r = self._exactloop(st, s, fid, it, log, nf)
        except Give:
            r = None
        if r is None:
            self.rewind(log)
        return r

    def _exactloop(self, st, s, fid, it, log, nf):
        tag = self.fresh("xloop")
        src = self.term(st, it) if it is not None else None
        if src is not None and holds_object(src):
            return None
        elem = mk("elem", src, tag) if src is not None else None
        names = self.assigned(s.body)
        if src is not None:
            names |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        else:
            names |= {x.target.id for x in ast.walk(s.test) if isinstance(x, ast.NamedExpr)}
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for b in s.body for x in ast.walk(b)):
            return None
        gen = {}                      # key -> kind of the generalised value
        for _ in range(12):
            self.rewind(log)
            body = st.copy()
            start = {}

            def general(v, key):
                t = self.term(st, v)
                if holds_object(t):
                    raise Give("object carried by a loop")
                lv = mk("loopvar", tag, repr(key), t, kind=gen[key])
                if isinstance(v, Arr):
                    return lv, t, self.arr(body, lv)
                if isinstance(v, VSet) or isinstance(v, (Inst, Dct)):
                    raise Give("object carried by a loop")
                if isinstance(v, Lst):
                    return lv, t, self.new_list(body, lv)
                return lv, t, lv
            for key in gen:
                if key[0] == "n":
                    start[key] = general(st.env[fid][key[1]], key)
                    body.env[fid][key[1]] = start[key][2]
                elif key[0] in "bl" and len(key) == 2:
                    if key[1] in self.setoids:
                        return None
                    c = st.heap[key]
                    if key[0] == "l" and not isinstance(c, Node):
                        t = self.term(st, Dct(key[1]) if key[1][0] == "d" else Lst(key[1]))
                    else:
                        t = c
                    if holds_object(t):
                        return None
                    lv = mk("loopvar", tag, repr(key), t, kind=gen[key])
                    start[key] = (lv, t, lv)
                    body.heap[key] = lv
                else:
                    start[key] = general(st.heap[key], key)
                    body.heap[key] = start[key][2]
            begin = {n: body.env[fid].get(n) for n in names}
            cond = TRUE
            pc0 = body.pc
            try:
                if src is not None:
                    body = self.assume(body, mk("iterates", src, tag, kind="bool"), True)
                    self.assign(body, s.target, elem, fid)
                else:
                    cond = self.truth(body, self.eval(body, s.test, fid))
                    if cond is FALSE:
                        return None
                    if cond is not TRUE:
                        body = self.assume(body, cond, True)
                heap0 = dict(body.heap)
                res = self.block(body, s.body, fid)
            except AbsRaise as e:
                return None
            npc = len(body.pc)
            ends = []
            excs = []
            for k, s2, v in res:
                code = {"fall": 0, "continue": 0, "break": 1, "return": 2, "raise": 3}[k]
                if k == "raise":
                    excs.append(v)
                ends.append((s2, VTuple([const(code), v if k == "return" and v is not None else NONE])))
            if len({str(x) for x in excs}) > 1 or not ends:
                return None
            end, val = self.fold(ends, npc)
            if not isinstance(val, VTuple):
                val = VTuple([self.sub_item(val, 0), self.sub_item(val, 1)])
            code, ret = val.items
            code = self.term(end, code)
            more = False

            def want(key, kind):
                nonlocal more
                if key not in gen:
                    gen[key] = kind
                    more = True
                elif gen[key] != kind and gen[key] is not None:
                    gen[key] = None
                    more = True
            changed = {}
            for n in names:
                b, v = begin.get(n), end.env[fid].get(n)
                if n in st.env[fid] and st.env[fid][n] is not UNDEF:
                    key = ("n", n)
                    if key in gen:
                        if v is start[key][2] or isinstance(v, Arr) and isinstance(b, Arr) and v.base == b.base and v.path == b.path:
                            pass
                        changed[key] = self.term(end, v)
                        want(key, gen[key] if gen[key] == changed[key].kind or isinstance(v, Arr) else None)
                    elif v is not b and not (isinstance(v, Arr) and isinstance(b, Arr) and v.base == b.base and v.path == b.path) \
                            and not (isinstance(v, (Lst, Dct, Inst)) and type(v) is type(b) and v.oid == b.oid):
                        t0, t1 = self.term(st, st.env[fid][n]), self.term(end, v)
                        want(key, "arr" if isinstance(v, Arr) else (t0.kind if t0.kind == t1.kind else None))
                elif v is not None and v is not UNDEF:
                    changed[("n", n)] = self.term(end, v)
            for k in st.heap:
                if k[0] == "memo":
                    continue
                if k not in end.heap:
                    return None
                if k in gen:
                    c = end.heap[k]
                    if k[0] == "l" and not isinstance(c, Node):
                        c = self.term(end, Dct(k[1]) if k[1][0] == "d" else Lst(k[1]))
                    changed[k] = self.term(end, c)
                    want(k, gen[k] if k[0] in "bl" and len(k) == 2 or gen[k] == changed[k].kind else None)
                elif end.heap[k] is not heap0[k] and end.heap[k] != heap0[k]:
                    c = end.heap[k]
                    kind = "arr" if k[0] == "b" else ({"d": "dict"}.get(k[1][0], "list") if k[0] == "l" else None)
                    want(k, kind)
            # a carried array written through its name would alias the original
            for key, (lv, t, v) in start.items():
                if isinstance(v, Arr) and end.heap[("b", v.base)] is not lv:
                    return None
                if isinstance(v, Lst) and end.heap[("l", v.oid)] is not lv:
                    return None
            if more:
                continue
            break
        else:
            return None
        rt = self.term(end, ret)
        if any(holds_object(t) for t in [rt, code, *changed.values()]):
            return None
        keys = sorted(changed, key=repr)
        lvs, inits, outs = [], [], []
        for k in keys:
            if k in start:
                lvs.append(start[k][0])
                inits.append(start[k][1])
            else:
                lvs.append(mk("loopvar", tag, repr(k), mk("undef")))
                inits.append(mk("undef"))
            outs.append(changed[k])
        loop = mk("loop", tag, src if src is not None else NONE, cond, code, rt, tuple(lvs), tuple(inits), tuple(outs))
        facts = [f for f in self.facts[nf:]]
        LOOPS[loop.id] = LOOPS.get(loop.id, []) + facts
        post = st.copy()
        for f, e in end.env.items():
            if f not in post.env:
                post.env[f] = dict(e)
        for k, v in end.heap.items():
            if k not in post.heap and k[0] != "memo":
                post.heap[k] = v
        for k in [k for k in post.heap if k[0] == "memo" and (k not in end.heap or end.heap[k] is not post.heap[k])]:
            del post.heap[k]
        for i, k in enumerate(keys):
            kind = outs[i].kind if k not in gen else gen[k]
            o = mk("foldout", loop, i, kind=kind, loc=self.loc)
            if k[0] in "bl" and len(k) == 2:
                post.heap[k] = o
            elif k[0] == "n":
                v = end.env[fid].get(k[1])
                post.env[fid][k[1]] = self.arr(post, o) if isinstance(v, Arr) else (
                    self.new_list(post, o) if isinstance(v, Lst) and not isinstance(v, VSet) else o)
            else:
                post.heap[k] = self.arr(post, o) if isinstance(end.heap[k], Arr) else o
        res, cur = [], post
        how = mk("foldout", loop, -2, kind="num")
        codes = {c for c in walkconst(code)}
        if 3 in codes:
            c = mk("cmp", "==", how, const(3), kind="bool")
            bad = self.assume(cur, c, True)
            self.effect(bad, "raise", excs[0])
            res.append(("raise", bad, excs[0]))
            cur = self.assume(cur, c, False)
        if 2 in codes:
            c = mk("cmp", "==", how, const(2), kind="bool")
            r = self.assume(cur, c, True)
            o = mk("foldout", loop, -1, kind=rt.kind)
            res.append(("return", r, self.arr(r, o) if isinstance(ret, Arr) else o))
            cur = self.assume(cur, c, False)
        if s.orelse:
            if 1 in codes:
                c = mk("cmp", "==", how, const(1), kind="bool")
                stop = self.assume(cur, c, True)
                go = self.assume(cur, c, False)
                o = self.block(go, s.orelse, fid)
                f = [x for x in o if x[0] == "fall"]
                res += [x for x in o if x[0] != "fall"] + [("fall", stop, None)] + f
            else:
                res += self.block(cur, s.orelse, fid)
        else:
            res.append(("fall", cur, None))
        return res

    def sub_item(self, v, i):
        if isinstance(v, VTuple):
            return v.items[i]
        if isinstance(v, VPhi):
            return self.merge_val(v.cond, self.sub_item(v.a, i), self.sub_item(v.b, i))
        raise Give("loop result")

    def symloop(self, st, s, fid, it):
        """loop over a sequence of unknown length: one generic iteration"""
        tag = self.fresh("loop")
        self.opaque.append(("loop", self.loc, tag))
        pre = st.copy()
        src = self.term(st, it)
        elem = mk("elem", src, tag)
        body = self.assume(st, mk("iterates", src, kind="bool"), True)
        before = {k: v for k, v in body.env[fid].items()}
        hb = dict(body.heap)
        for n in self.assigned(s.body):
            if n in body.env[fid] and not isinstance(body.env[fid][n], (Arr, Lst, Dct, Inst)):
                body.env[fid][n] = mk("loopvar", tag, n, self.term(body, body.env[fid][n]))
        outs = []
        try:
            self.assign(body, s.target, self.elem_value(body, it, elem), fid)
            res = self.block(body, s.body, fid)
        except AbsRaise as e:
            res = [("raise", body, self.located(e.exc))]
        final = [(pre, None)]
        for k, s2, v in res:
            if k in ("return", "raise"):
                outs.append((k, s2, v))
                continue
            # results depend on the number of iterations
            for n in self.assigned(s.body) | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}:
                cur = s2.env[fid].get(n)
                if cur is not None and cur is not before.get(n) and not isinstance(cur, (Arr, Lst, Dct, Inst)):
                    s2.env[fid][n] = mk("loopout", tag, n, self.term(s2, cur))
            for k2, v2 in list(s2.heap.items()):
                if k2 in hb and hb[k2] is not v2:
                    if k2[0] == "b":
                        s2.heap[k2] = mk("loopout", tag, "heap", v2, kind="arr")
                    elif k2[0] == "l":
                        o = v2 if isinstance(v2, Node) else mk("list", *[
                            self.term(s2, i) for i in v2 if not isinstance(i, tuple)])
                        s2.heap[k2] = mk("loopout", tag, "list", o, kind="list")
                    elif isinstance(v2, Node):
                        s2.heap[k2] = mk("loopout", tag, "attr", v2)
            final.append((s2, None))
        cur = self.fold(final, len(st.pc))[0]
        cur.pc = st.pc
        if s.orelse:
            res = self.block(cur, s.orelse, fid)
            return outs + res
        return outs + [("fall", cur, None)]

    def elem_value(self, st, it, elem):
        return elem

    def managed_body(self, st, s, fid):
        """the block of the with statement runs where its manager yields"""
        stmt, k, outer = st.env[fid]["%with"]
        v = self.eval(st, s.value.value, fid) if s.value.value is not None else NONE
        i = stmt.items[k]
        q = self.stack.pop()
        try:
            if i.optional_vars is not None:
                self.assign(st, i.optional_vars, v, outer)
            return [o if o[0] in ("fall", "raise") else ("suspended", o[1], (o[0], o[2]))
                    for o in self.with_items(st, stmt, k + 1, outer)]
        finally:
            self.stack.append(q)

    def with_items(self, st, s, k, fid):
        if k == len(s.items):
            return self.block(st, s.body, fid)
        return self.s_With(st, s, fid, k)

    def s_With(self, st, s, fid, start=0):
        ctx = []
        for j, i in enumerate(s.items[start:]):
            v = self.eval(st, i.context_expr, fid)
            if isinstance(v, Managed):
                st.env[v.fid]["%with"] = (s, start + j, fid)
                self.stack.append(v.q)
                try:
                    outs = self.block(st, v.fn.body, v.fid)
                finally:
                    self.stack.pop()
                outs = [("fall", s2, None) if o == "return" else (w[0], s2, w[1]) if o in ("suspended", "ended")
                        else (o, s2, w) for o, s2, w in outs]
                return self.leave(outs, ctx)
            self.effect(st, "enter", self.term(st, v))
            ctx.append(v)
            if i.optional_vars is not None:
                if isinstance(v, Inst):
                    ent = self.prog.lookup(v.cls, "__enter__")
                    if ent:
                        v = self.call_function(st, Func(ent[1], ent[2].mod, None, ent[2]), [], {}, v)
                self.assign(st, i.optional_vars, v, fid)
        return self.leave(self.block(st, s.body, fid), ctx)

    def leave(self, outs, ctx):
        for k, s2, v in outs:
            for c in reversed(ctx):
                self.effect(s2, "exit", self.term(s2, c))
                if isinstance(c, Inst):
                    ex = self.prog.lookup(c.cls, "__exit__")
                    if ex:
                        self.call_function(s2, Func(ex[1], ex[2].mod, None, ex[2]), [NONE, NONE, NONE], {}, c)
        return outs

    def handler_names(self, h, fid):
        if h.type is None:
            return ["BaseException"]
        ts = list(h.type.elts) if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        while ts:
            t = ts.pop(0)
            v = t
            if isinstance(t, ast.Starred):
                v = t = t.value
            if isinstance(t, ast.Name) and t.id not in EXC:
                v = self.bound_expr(t.id, fid)
                if isinstance(v, (ast.Tuple, ast.List)):
                    ts = list(v.elts) + ts
                    continue
            out.append(ast.unparse(v if isinstance(v, (ast.Name, ast.Attribute)) else t).split(".")[-1])
        return out

    def bound_expr(self, name, fid):
        """the expression a name is bound to, once, in its function or module"""
        hits = [n.value for n in ast.walk(self.frames[fid][0].tree) if isinstance(n, ast.Assign) and len(n.targets) == 1
                and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name]
        return hits[0] if len(hits) == 1 else None

    def exc_match(self, exc, names):
        e = EXC.get(str(exc).split(".")[-1])
        for n in names:
            h = EXC.get(n)
            if n == str(exc).split(".")[-1]:
                return True
            if e is not None and h is not None and issubclass(e, h):
                return True
            if e is None and n in ("Exception", "BaseException"):
                return True
        return False

    def s_Try(self, st, s, fid):
        names = [self.handler_names(h, fid) for h in s.handlers]
        before = st.copy()
        ev = []
        self.catch.append((ev, [n for x in names for n in x]))
        self.escapes.append([])
        neff = len(self.effects)
        try:
            outs = self.block(st, s.body, fid)
        finally:
            self.catch.pop()
            esc = self.escapes.pop()
        res, caught = [], []
        for k, s2, v in outs:
            if k == "raise":
                for h, n in zip(s.handlers, names):
                    if self.exc_match(v, n):
                        caught.append((s2, h, v))
                        break
                else:
                    res.append((k, s2, v))
            else:
                res.append((k, s2, v))
        for s2, v in esc:
            for h, n in zip(s.handlers, names):
                if self.exc_match(v, n):
                    caught.append((s2, h, v))
                    break
            else:
                if self.escapes:
                    self.escapes[-1].append((s2, v))
        # raises that were caught are not effects of the function
        for e in self.effects[neff:]:
            if e.kind == "raise" and any(self.exc_match(e.data[0], n) for n in names):
                e.kind = "caught"
        # else clause runs only without exception
        if s.orelse:
            new = []
            for k, s2, v in res:
                if k == "fall":
                    new += self.block(s2, s.orelse, fid)
                else:
                    new.append((k, s2, v))
            res = new
        # possible exceptions of library calls
        poss = [e for e in ev if e is not None]
        hres = []
        for s2, h, v in caught:
            x = mk("exc", str(v), v.msg) if getattr(v, "msg", None) is not None else mk("exc", str(v), self.fresh("e"))
            s2.env[fid]["%exc"] = x
            if h.name:
                s2.env[fid][h.name] = x
            hres += self.block(s2, h.body, fid)
        live = [o for o in res if o[0] != "raise"]
        earlier = ()
        if poss and s.handlers and live:
            for h, n in zip(s.handlers, names):
                k = len(before.pc)
                found = [(t, pc[k:] if pc[:k] == before.pc else ()) for t, xs, pc in poss
                         if any(self.exc_match(x, n) or self.exc_match(y, [x]) for x in xs for y in n)]
                terms = tuple(t for t, _ in found)
                if not terms:
                    continue
                # each counts only where it is reached
                c = mk("raises", tuple(n), terms, tuple(g for _, g in found), kind="bool")
                d = self.decide(before, c)
                if d is FALSE:
                    continue
                hs = before.copy()
                hs.pc = before.pc + earlier + ((c, True),)
                earlier += ((c, False),)
                if h.name:
                    hs.env[fid][h.name] = mk("exc", "Exception", self.fresh("e"))
                if d is TRUE:
                    res = []
                    hres += self.block(hs, h.body, fid)
                    continue
                for part in (res, hres):
                    for i, (kk, s2, v) in enumerate(part):
                        if (c, True) in s2.pc or any(x in s2.pc for x in [(y, True) for y, _ in earlier]):
                            continue
                        s3 = s2.copy()
                        s3.pc = s2.pc[:k] + ((c, False),) + s2.pc[k:]
                        part[i] = (kk, s3, v)
                hres += self.block(hs, h.body, fid)
        outs = res + hres
        if s.finalbody:
            new = []
            for k, s2, v in outs:
                for k2, s3, v2 in self.block(s2, s.finalbody, fid):
                    new.append((k, s3, v) if k2 == "fall" else (k2, s3, v2))
            outs = new
        falls = [(s2, None) for k, s2, _ in outs if k == "fall"]
        rest = [o for o in outs if o[0] != "fall"]
        if len(falls) > 1:
            m = self.fold(falls, len(before.pc))[0]
            return rest + [("fall", m, None)]
        return outs

    def located(self, exc):
        """an exception with the place of the operation that raises it"""
        if isinstance(exc, Exc):
            if exc.at is None:
                exc.at = self.loc
            return exc
        x = Exc(str(exc))
        x.at = self.loc
        return x

    def may_raise(self, st, t, *xs):
        if self.catch:
            self.catch[-1][0].append((t, xs, st.pc))

    # ---------------------------------------------------------- expressions --
    def eval(self, st, e, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Give("expression " + type(e).__name__)
        return m(st, e, fid)

    def e_Constant(self, st, e, fid):
        return const(e.value)

    def e_Name(self, st, e, fid):
        return self.eval_name(st, e.id, fid)

    def eval_name(self, st, name, fid):
        f = fid
        while f is not None:
            env = st.env.get(f)
            if env is not None and name in env:
                v = env[name]
                if v is not UNDEF:
                    return v
            f = self.frames[f][1]
        v = self.module_value(st, self.frames[fid][0], name)
        if v is None:
            raise AbsRaise("NameError", sure=True)
        return v

    def e_Attribute(self, st, e, fid):
        o = self.eval(st, e.value, fid)
        return self.getattr(st, o, e.attr)

    def e_Tuple(self, st, e, fid):
        xs = self.elts(st, e.elts, fid)
        if isinstance(xs, Node):
            return mk("call", "builtins.tuple", (xs,), (), kind="tuple")
        return VTuple(xs)

    def e_List(self, st, e, fid):
        return self.new_list(st, self.elts(st, e.elts, fid))

    def e_Set(self, st, e, fid):
        xs = self.elts(st, e.elts, fid)
        if not isinstance(xs, Node):
            r = self.new_set(st, xs)
            if r is not None:
                return r
            xs = mk("list", *[self.term(st, x) for x in xs], kind="list")
        return mk("call", "builtins.set", (xs,), (), kind="set")

    def elts(self, st, elts, fid):
        """values of a display; a list term where a starred part has unknown
        length"""
        out, parts = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(st, x.value, fid)
                i = self.items(st, v)
                if i is None:
                    parts += [mk("list", *[self.term(st, y) for y in out], kind="list"),
                              mk("call", "builtins.list", (self.term(st, v),), (), kind="list")]
                    out = []
                else:
                    out += list(i)
            else:
                out.append(self.eval(st, x, fid))
        if not parts:
            return out
        parts.append(mk("list", *[self.term(st, y) for y in out], kind="list"))
        r = parts[0]
        for y in parts[1:]:
            r = mk("bin", "+", r, y, kind="list")
        return r

    def e_Dict(self, st, e, fid):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(st, v, fid)
                c = st.heap[("l", d.oid)] if isinstance(d, Dct) else None
                if not isinstance(c, tuple):
                    raise Give("dict expansion")
                items += list(c)
            else:
                items.append((self.term(st, self.eval(st, k, fid)), self.eval(st, v, fid)))
        return self.new_dict(st, items)

    def e_JoinedStr(self, st, e, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.term(st, self.eval(st, v.value, fid))
                spec = ""
                if t.op == "exc" and isinstance(t.args[1], Node):
                    t = t.args[1]
                if v.format_spec is not None:
                    spec = ast.unparse(v.format_spec)
                if t.op == "const" and not spec and v.conversion == -1 and t.kind in ("str",):
                    parts.append(t)
                else:
                    parts.append(mk("fmt", t, spec, v.conversion, kind="str"))
        return self.strcat(parts)

    def strcat(self, parts):
        out = []
        for p in parts:
            if p.op == "strcat":
                sub = list(p.args)
            else:
                sub = [p]
            for q in sub:
                if out and q.op == "const" and out[-1].op == "const":
                    out[-1] = const(cval(out[-1]) + cval(q))
                elif not (q.op == "const" and cval(q) == ""):
                    out.append(q)
        if not out:
            return const("")
        if len(out) == 1 and (out[0].kind == "str"):
            return out[0]
        return mk("strcat", *out, kind="str")

    def e_FormattedValue(self, st, e, fid):
        return mk("fmt", self.term(st, self.eval(st, e.value, fid)), "", -1, kind="str")

    def e_BinOp(self, st, e, fid):
        a = self.eval(st, e.left, fid)
        b = self.eval(st, e.right, fid)
        return self.binop(st, BINOPS[type(e.op)], a, b)

    def has_list(self, v):
        if isinstance(v, VPhi):
            return self.has_list(v.a) or self.has_list(v.b)
        return isinstance(v, (Lst, VTuple))

    def binop(self, st, op, a, b):
        if op == "+" and (isinstance(a, VPhi) or isinstance(b, VPhi)) and self.has_list(a) and self.has_list(b):
            if isinstance(a, VPhi):
                return self.distribute(st, a, lambda s, v: self.binop(s, op, v, b))
            return self.distribute(st, b, lambda s, v: self.binop(s, op, a, v))
        if op == "+":
            ia, ib = isinstance(a, (VTuple, Lst)), isinstance(b, (VTuple, Lst))
            if ia and ib:
                x, y = self.items(st, a), self.items(st, b)
                if x is not None and y is not None:
                    xs = list(x) + list(y)
                    return VTuple(xs) if isinstance(a, VTuple) else self.new_list(st, xs)
            if isinstance(a, Node) and isinstance(b, Node) and a.kind == "str" and b.kind == "str":
                return self.strcat([a, b])
            if isinstance(a, Node) and isinstance(b, Node) and "str" in (a.kind, b.kind):
                return self.strcat([a, b])
        if op == "*" and isinstance(a, (Lst, VTuple)) and isinstance(b, Node) and b.op == "const":
            x = self.items(st, a)
            if x is not None and isinstance(cval(b), int):
                xs = list(x) * cval(b)
                return VTuple(xs) if isinstance(a, VTuple) else self.new_list(st, xs)
        if isinstance(a, VSet) and op in SETOPS:
            r = self.vset_method(st, a, SETOPS[op], [b])
            if r is not None:
                return r
        elif isinstance(b, VSet) and op in ("&", "|", "^"):
            r = self.vset_method(st, b, SETOPS[op], [a])
            if r is not None:
                return r
        ta, tb = self.term(st, a), self.term(st, b)
        if op in ("|", "&", "-", "^"):
            x, y = self.const_set(ta), self.const_set(tb)
            if x is not None and y is not None:
                return self.mk_set({"|": x | y, "&": x & y, "-": x - y, "^": x ^ y}[op])
        if ta.op == "const" and tb.op == "const":
            x, y = cval(ta), cval(tb)
            if op == "%" and isinstance(x, str):
                pass
            elif isinstance(x, (int, str, bytes)) and isinstance(y, (int, str, bytes)) and \
                    not (op == "/" or op == "**" and isinstance(y, int) and y < 0):
                try:
                    return const({"+": lambda: x + y, "-": lambda: x - y,
                                  "*": lambda: x * y, "//": lambda: x // y,
                                  "%": lambda: x % y, "**": lambda: x ** y,
                                  "&": lambda: x & y, "|": lambda: x | y,
                                  "^": lambda: x ^ y, "<<": lambda: x << y,
                                  ">>": lambda: x >> y}[op]())
                except (ZeroDivisionError, TypeError, KeyError):
                    raise AbsRaise("TypeError")
        scalar = self.is_scalar(ta) and self.is_scalar(tb)
        n = mk("bin", op, ta, tb, kind="num" if scalar and op not in "@" else None, loc=self.loc)
        if scalar:
            f = frac(n)
            if f is not None and f.denominator == 1 and all(
                    x.op == "const" and isinstance(cval(x), int) for x in (ta, tb)) and op != "/":
                return const(int(f))
            return n
        if ta.kind == "str" or tb.kind == "str":
            n.kind = "str"
            return n
        return self.arr(st, n)

    def is_scalar(self, t):
        return t.kind in ("num", "bool", "int")

    def e_UnaryOp(self, st, e, fid):
        v = self.eval(st, e.operand, fid)
        if isinstance(e.op, ast.Not):
            c = self.truth(st, v)
            return self.negate(c)
        t = self.term(st, v)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if t.op == "const" and op == "-":
            return const(-cval(t))
        if op == "+":
            return v
        n = mk("un", op, t, kind="num" if self.is_scalar(t) else None, loc=self.loc)
        return n if self.is_scalar(t) else self.arr(st, n)

    def e_BoolOp(self, st, e, fid):
        isand = isinstance(e.op, ast.And)
        vals = []
        cur = self.eval(st, e.values[0], fid)
        for nxt in e.values[1:]:
            c = self.truth(st, cur)
            if c is (FALSE if isand else TRUE):
                return cur
            if c is (TRUE if isand else FALSE):
                cur = self.eval(st, nxt, fid)
                continue
            s2 = self.assume(st, c, isand)
            try:
                v2 = self.eval(s2, nxt, fid)
            except AbsRaise as x:
                self.effect(s2, "raise", x.exc)
                if self.escapes:
                    self.escapes[-1].append((s2, self.located(x.exc)))
                st.pc = st.pc + ((c, not isand),)
                continue
            s1 = st.copy()
            m = self.merge(c, s2, s1, st.pc) if isand else self.merge(c, s1, s2, st.pc)
            st.env, st.heap = m.env, m.heap
            if self.boolish(st, cur) and self.boolish(st, v2):
                t2 = self.truth(st, v2)
                if t2 is (TRUE if isand else FALSE):
                    cur = c
                elif t2 is (FALSE if isand else TRUE):
                    cur = t2
                else:
                    cur = mk("and" if isand else "or", c, t2, kind="bool")
            else:
                cur = self.merge_val(c, v2, cur) if isand else self.merge_val(c, cur, v2)
        return cur

    def boolish(self, st, v):
        return isinstance(v, Node) and (v.kind == "bool" or v.op in ("cmp", "not", "and", "or"))

    def e_Compare(self, st, e, fid):
        left = self.eval(st, e.left, fid)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(st, r, fid)
            c = self.compare(st, CMPOPS[type(op)], left, right)
            left = right
            if out is None:
                out = c
            else:
                a, b = self.truth(st, out), self.truth(st, c)
                if a is FALSE or b is FALSE:
                    out = FALSE
                elif a is TRUE:
                    out = b
                elif b is TRUE:
                    out = a
                else:
                    out = mk("and", a, b, kind="bool")
        return out

    def compare(self, st, op, a, b):
        if op in ("is", "isnot"):
            r = self.identical(st, a, b)
            if isinstance(r, bool):
                return const(r if op == "is" else not r)
            return r if op == "is" else self.negate(r)
        if op in ("in", "notin"):
            m = self.prog.lookup(b.cls, "__contains__") if isinstance(b, Inst) else None
            if m:
                r = self.truth(st, self.call_function(st, Func(m[1], m[2].mod, None, m[2]), [a], {}, b))
                return r if op == "in" else self.negate(r)
            r = self.contains(st, a, b)
            if isinstance(r, bool):
                return const(r if op == "in" else not r)
            return r if op == "in" else self.negate(r)
        if isinstance(a, VPhi) and not self._termable(a) or isinstance(b, VPhi) and not self._termable(b):
            x, y = (a, b)
            if isinstance(x, VPhi):
                return self.distribute(st, x, lambda s, v: self.compare(s, op, v, y))
            return self.distribute(st, y, lambda s, v: self.compare(s, op, x, v))
        ta, tb = self.term(st, a), self.term(st, b)
        sa, sb = self.const_set(ta), self.const_set(tb)
        if sa is not None and sb is not None:
            return const({"<": sa < sb, "<=": sa <= sb, ">": sa > sb, ">=": sa >= sb,
                          "==": sa == sb, "!=": sa != sb}[op])
        if op in ("==", "!="):
            if ta.op == "phi" and tb.op == "const" and ta.kind in ("str", None) and \
                    ta.args[1].op == "const" and ta.args[2].op == "const":
                x = cval(ta.args[1]) == cval(tb)
                y = cval(ta.args[2]) == cval(tb)
                if x == y:
                    return const(x == (op == "=="))
                c = ta.args[0] if x else self.negate(ta.args[0])
                return c if op == "==" else self.negate(c)
            if ta.op in ("const", "cls", "ext", "func") and tb.op in ("const", "cls", "ext", "func") :
                if ta.op == "const" and tb.op == "const":
                    fa, fb = frac(ta), frac(tb)
                    eq = fa == fb if fa is not None and fb is not None else cval(ta) == cval(tb)
                else:
                    eq = ta is tb
                return const(eq if op == "==" else not eq)
            nn = {"num", "bool", "str", "none", "arr"}
            if ta.op == "const" and tb.kind in nn and ta.kind in nn or tb.op == "const" and ta.kind in nn and tb.kind in nn:
                ka = "num" if ta.kind == "bool" else ta.kind
                kb = "num" if tb.kind == "bool" else tb.kind
                if ka != kb and "arr" not in (ka, kb):
                    return const(op == "!=")
            if ta.op == "typeof" or tb.op == "typeof":
                r = self.type_eq(ta, tb)
                if r is not None:
                    return const(r if op == "==" else not r)
        fa, fb = frac(ta), frac(tb)
        if fa is not None and fb is not None:
            return const({"<": fa < fb, "<=": fa <= fb, ">": fa > fb, ">=": fa >= fb,
                          "==": fa == fb, "!=": fa != fb}[op])
        scalar = self.is_scalar(ta) and self.is_scalar(tb) or "str" in (ta.kind, tb.kind) or \
            "none" in (ta.kind, tb.kind)
        n = mk("cmp", op, ta, tb, kind="bool" if scalar else None, loc=self.loc)
        if scalar:
            return self.decide(st, n) if self.decide(st, n) in (TRUE, FALSE) else n
        return self.arr(st, n)

    def _termable(self, v):
        if isinstance(v, VPhi):
            return self._termable(v.a) and self._termable(v.b)
        return isinstance(v, (Node, Arr, VTuple, Lst, Dct))

    def type_eq(self, a, b):
        if a.op == "typeof" and b.op == "typeof":
            return None
        if b.op == "typeof":
            a, b = b, a
        k = a.args[0].kind
        name = b.args[0] if b.op in ("ext", "cls") else None
        if name is None or k is None:
            return None
        short = name.split(".")[-1]
        mapk = {"str": "str", "none": "NoneType", "list": "list", "tuple": "tuple",
                "dict": "dict", "arr": "ndarray", "bytes": "bytes", "slice": "slice"}
        if k in mapk:
            return mapk[k] == short
        if k == "num":
            v = a.args[0]
            if v.op == "const":
                return type(cval(v)).__name__ == short
            return False if short in ("str", "list", "tuple", "dict", "ndarray", "slice", "bytes", "cKDTree") else None
        if k == "bool":
            return short == "bool"
        return None

    def identical(self, st, a, b):
        if isinstance(a, VPhi) or isinstance(b, VPhi):
            x, y = (a, b) if isinstance(a, VPhi) else (b, a)
            p, q = self.identical(st, x.a, y), self.identical(st, x.b, y)
            p = const(p) if isinstance(p, bool) else p
            q = const(q) if isinstance(q, bool) else q
            if p is q:
                return cval(p) if p.op == "const" else p
            if p is TRUE and q is FALSE:
                return x.cond
            if p is FALSE and q is TRUE:
                return self.negate(x.cond)
            return self.phi_term(x.cond, p, q)
        for x in (a, b):
            if isinstance(x, Node) and x.op == "typeof":
                r = self.term(st, self.compare(st, "==", a, b))
                return cval(r) if r.op == "const" else r
        if not isinstance(a, Node) or not isinstance(b, Node):
            if isinstance(a, Arr) or isinstance(b, Arr):
                o = b if isinstance(a, Arr) else a
                ar = a if isinstance(a, Arr) else b
                if isinstance(o, Arr):
                    if o.base == ar.base and o.path == ar.path:
                        return True
                    return False if self.bases.get(o.base) == "fresh" else mk("cmp", "is", self.term(st, a), self.term(st, b), kind="bool")
                t = self.term(st, ar)
                if o is NONE:
                    if t.op == "sym" and t.kind is None:
                        return mk("isnone", t, kind="bool")
                    if t.op == "phi":
                        return self.isnone_phi(t)
                    if t.op in ("call", "mcall", "getitem", "extattr", "elem", "loopout"):
                        if t.kind == "arr" or t.op == "call" and str(t.args[0]).startswith("numpy."):
                            return False
                        return mk("isnone", t, kind="bool")
                return False
            if type(a) is type(b) and isinstance(a, (Ext, Mod)):
                return a.name == b.name
            if type(a) is type(b) and isinstance(a, Func):
                return a.fn is b.fn
            if type(a) is type(b) and isinstance(a, Bound):
                return False
            return type(a) is type(b) and getattr(a, "oid", 0) == getattr(b, "oid", 1) or \
                type(a) is type(b) and isinstance(a, Cls) and a.info is b.info
        if a is b and a.op == "const":
            return True
        if b is NONE or a is NONE:
            t = a if b is NONE else b
            if t.op == "const":
                return t is NONE
            if t.kind is not None and t.kind != "none":
                return False
            return self.isnone_phi(t)
        if a.op == "const" and b.op == "const":
            return a is b
        return mk("cmp", "is", a, b, kind="bool")

    def isnone_phi(self, t):
        if t.op == "phi":
            p, q = self.isnone_phi(t.args[1]), self.isnone_phi(t.args[2])
            if isinstance(p, bool) and p == q:
                return p
            p = const(p) if isinstance(p, bool) else p
            q = const(q) if isinstance(q, bool) else q
            if p is TRUE and q is FALSE:
                return t.args[0]
            if p is FALSE and q is TRUE:
                return self.negate(t.args[0])
            return self.phi_term(t.args[0], p, q)
        if t is NONE:
            return True
        if t.op == "const" or t.kind not in (None, "none"):
            return False
        if t.op in ("bin", "un", "update", "exc", "excobj", "tuple", "list", "dict") or t.op == "call" and str(t.args[0]).startswith("numpy."):
            return False
        return mk("isnone", t, kind="bool")

    def contains(self, st, a, b):
        ta = self.term(st, a)
        if isinstance(b, Node) and b.op == "const" and isinstance(cval(b), (str, bytes)):
            if ta.op == "const":
                return cval(ta) in cval(b)
            return mk("cmp", "in", ta, b, kind="bool")
        it = self.items(st, b)
        if it is None and isinstance(b, Dct):
            c = st.heap[("l", b.oid)]
            if isinstance(c, tuple):
                r = self.dict_has(self.dict_find(st, c, ta, UNDEF))
                return cval(r) if r.op == "const" else r
        if it is not None:
            p = self.place(st, a, it)
            if p is not None:
                return p >= 0
            ts = [self.term(st, x) for x in it]
            if ta.op == "const" and all(x.op == "const" for x in ts):
                return any(cval(x) == cval(ta) for x in ts)
            if any(x is ta for x in ts):
                return True
        tb = self.term(st, b)
        if ta.op == "const" and tb.op == "const" and isinstance(cval(tb), (str, bytes)):
            return cval(ta) in cval(tb)
        return mk("cmp", "in", ta, tb, kind="bool")

    def e_IfExp(self, st, e, fid):
        c = self.truth(st, self.eval(st, e.test, fid))
        if c is TRUE:
            return self.eval(st, e.body, fid)
        if c is FALSE:
            return self.eval(st, e.orelse, fid)
        s1, s2 = self.assume(st, c, True), self.assume(st, c, False)
        x1 = x2 = None
        try:
            v1 = self.eval(s1, e.body, fid)
        except AbsRaise as x:
            self.effect(s1, "raise", x.exc)
            x1 = self.located(x.exc)
        try:
            v2 = self.eval(s2, e.orelse, fid)
        except AbsRaise as x:
            self.effect(s2, "raise", x.exc)
            x2 = self.located(x.exc)
        if x1 is not None and x2 is not None:
            raise AbsRaise(x1 if x1 == x2 else "Exception")
        if x1 is not None or x2 is not None:
            if self.escapes:
                self.escapes[-1].append((s1, x1) if x2 is None else (s2, x2))
            s = s2 if x2 is None else s1
            st.env, st.heap, st.pc = s.env, s.heap, s.pc
            return v2 if x2 is None else v1
        m = self.merge(c, s1, s2, st.pc)
        st.env, st.heap = m.env, m.heap
        return self.merge_val(c, v1, v2)

    def e_Lambda(self, st, e, fid):
        return Func(e, self.frames[fid][0], fid)

    def e_NamedExpr(self, st, e, fid):
        v = self.eval(st, e.value, fid)
        self.assign(st, e.target, v, fid)
        return v

    def e_Starred(self, st, e, fid):
        return self.eval(st, e.value, fid)

    def e_Slice(self, st, e, fid):
        f = lambda x: NONE if x is None else self.term(st, self.eval(st, x, fid))
        return mk("slice", f(e.lower), f(e.upper), f(e.step), kind="slice")

    def e_Subscript(self, st, e, fid):
        o = self.eval(st, e.value, fid)
        i = self.eval(st, e.slice, fid)
        return self.getitem(st, o, i)

    def e_Await(self, st, e, fid):
        raise Give("await")

    def e_Yield(self, st, e, fid):
        acc = st.env[fid].get("%yield")
        if acc is None:
            raise Give("yield")
        v = self.eval(st, e.value, fid) if e.value is not None else NONE
        k = ("l", acc.oid)
        c = st.heap[k]
        st.heap[k] = c + (v,) if isinstance(c, tuple) else mk("append", c, self.term(st, v), kind="list")
        return NONE

    def e_YieldFrom(self, st, e, fid):
        acc = st.env[fid].get("%yield")
        if acc is None:
            raise Give("yield")
        v = self.eval(st, e.value, fid)
        k = ("l", acc.oid)
        c, new = st.heap[k], self.items(st, v)
        if isinstance(c, tuple) and new is not None:
            st.heap[k] = c + tuple(new)
        else:
            t = mk("call", "builtins.list", (self.term(st, v),), (), kind="list")
            st.heap[k] = mk("bin", "+", self.term(st, acc), t, kind="list")
        return NONE

    # comprehensions
    def e_ListComp(self, st, e, fid):
        r = self.comp(st, e.generators, [e.elt], fid)
        if isinstance(r, Node):
            return self.new_list(st, r)
        return self.new_list(st, [x[0] for x in r])

    def e_GeneratorExp(self, st, e, fid):
        return self.e_ListComp(st, e, fid)

    def e_SetComp(self, st, e, fid):
        r = self.e_ListComp(st, e, fid)
        c = st.heap[("l", r.oid)]
        s = self.new_set(st, c) if isinstance(c, tuple) else None
        return s if s is not None else mk("call", "builtins.set", (self.term(st, r),), (), kind="set")

    def e_DictComp(self, st, e, fid):
        r = self.comp(st, e.generators, [e.key, e.value], fid)
        if isinstance(r, Node):
            return self.new_dict(st, r)
        return self.new_dict(st, [(self.term(st, k), v) for k, v in r])

    def comp(self, st, gens, elts, fid):
        cf = self.fresh("f")
        m, _, c = self.frames[fid]
        self.frames[cf] = (m, fid, c)
        st.env[cf] = {}
        g = gens[0]
        it = self.iterable(st, self.eval(st, g.iter, fid))
        seq = self.items(st, it)
        if seq is None or not self.unroll:
            src = self.term(st, it)
            tag = self.fresh("loop")
            self.opaque.append(("comprehension", self.loc, tag))
            self.assign(st, g.target, self.elem_value(st, it, mk("elem", src, tag)), cf)
            conds = []
            for f in g.ifs:
                conds.append(self.term(st, self.eval(st, f, cf)))
            if len(gens) > 1:
                r = self.comp(st, gens[1:], elts, cf)
                body = r if isinstance(r, Node) else mk("list", *[self.term(st, x[0]) for x in r])
            else:
                body = mk("tuple", *[self.term(st, self.eval(st, x, cf)) for x in elts])
            return mk("comp", src, tag, body, tuple(conds), kind="list")
        out = []
        gate = []
        for x in seq:
            self.assign(st, g.target, x, cf)
            ok = True
            for f in g.ifs:
                t = self.truth(st, self.eval(st, f, cf))
                if t is FALSE:
                    ok = False
                    break
                if t is not TRUE:
                    ok = None
                    cnd = t
            if ok is False:
                continue
            if ok is None:
                # symbolic filter
                src = self.term(st, it)
                tag = self.fresh("loop")
                self.assign(st, g.target, mk("elem", src, tag), cf)
                conds = tuple(self.term(st, self.eval(st, f, cf)) for f in g.ifs)
                body = mk("tuple", *[self.term(st, self.eval(st, y, cf)) for y in elts])
                return mk("comp", src, tag, body, conds, kind="list")
            if len(gens) > 1:
                r = self.comp(st, gens[1:], elts, cf)
                if isinstance(r, Node):
                    raise Give("nested symbolic comprehension")
                out += r
            else:
                out.append([self.eval(st, y, cf) for y in elts])
        return out

    # ------------------------------------------------------------ sequences --
    def iterable(self, st, v):
        """what iterating over an instance goes over"""
        if isinstance(v, Inst) and self.prog.lookup(v.cls, "__iter__"):
            r = self.call(st, self.getattr(st, v, "__iter__"), [], {})
            if not (isinstance(r, Inst) and r == v):
                return self.iterable(st, r)
        return v

    def items(self, st, v):
        """list of values if v is a sequence of statically known length"""
        if isinstance(v, Inst):
            v = self.iterable(st, v)
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, Lst):
            c = st.heap[("l", v.oid)]
            return list(c) if isinstance(c, tuple) else self.items(st, c)
        if isinstance(v, Dct):
            c = st.heap[("l", v.oid)]
            if self.dict_known(c):
                return [self.wrap(st, k) for k, _ in c]
            return None
        if isinstance(v, Node):
            if v.op in ("tuple", "list"):
                return [self.wrap(st, a) for a in v.args]
            if v.op == "const" and isinstance(cval(v), str):
                return [const(x) for x in cval(v)]
            if v.op == "call" and v.args[0] == "builtins.range":
                xs = [frac(a) for a in v.args[1]]
                if all(x is not None for x in xs):
                    return [const(i) for i in range(*[int(x) for x in xs])]
                return None
            if v.op == "call" and v.args[0] == "builtins.set" and v.args[1] and v.args[1][0].op == "list":
                ts = v.args[1][0].args
                if all(t.op == "const" for t in ts):
                    return sorted(set(ts), key=lambda n: repr(cval(n)))
            if v.op in ("bin", "call", "mcall", "view", "getitem", "phi", "update", "sym", "un"):
                n = self.length(st, v)
                if n is not None:
                    return [self.getitem(st, v, const(i)) for i in range(n)]
            return None
        if isinstance(v, Arr):
            n = self.length(st, self.term(st, v))
            if n is not None:
                return [self.getitem(st, v, const(i)) for i in range(n)]
            return None
        if isinstance(v, VPhi):
            a, b = self.items(st, v.a), self.items(st, v.b)
            if a is not None and b is not None and len(a) == len(b):
                return [self.merge_val(v.cond, x, y) for x, y in zip(a, b)]
        return None

    def length(self, st, t):
        s = self.shape_of(self, t)
        if s is None or s == ():
            return None
        return s[0]

    def is_basic(self, st, i):
        """index selects a view (basic indexing)?"""
        if isinstance(i, Node):
            if i.op in ("slice",) or i.kind in ("num", "int", "none", "ellipsis"):
                return True
            return False
        if isinstance(i, VTuple):
            return all(self.is_basic(st, x) for x in i.items)
        return False

    def getitem(self, st, o, i):
        if isinstance(o, VPhi) and not self._arrays(o):
            return self.distribute(st, o, lambda s, v: self.getitem(s, v, i))
        if isinstance(o, Inst):
            m = self.prog.lookup(o.cls, "__getitem__")
            if m:
                return self.call_function(st, Func(m[1], m[2].mod, None, m[2]), [i], {}, o)
        if isinstance(o, (VTuple, Lst)):
            it = list(o.items) if isinstance(o, VTuple) else (
                list(st.heap[("l", o.oid)]) if isinstance(st.heap[("l", o.oid)], tuple) else None)
            if it is not None and isinstance(i, Node):
                f = frac(i)
                if f is not None and i.kind != "bool":
                    try:
                        return it[int(f)]
                    except IndexError:
                        raise AbsRaise("IndexError", sure=True)
                if i.op == "slice" and all(is_const(a) for a in i.args):
                    sl = it[slice(*[cval(a) for a in i.args])]
                    return VTuple(sl) if isinstance(o, VTuple) else self.new_list(st, sl)
        if isinstance(o, Dct):
            c = st.heap[("l", o.oid)]
            ti = self.term(st, i)
            if isinstance(c, tuple):
                return self.dict_get(st, c, ti)
        ti = self.term(st, i)
        if isinstance(o, Arr):
            if self.is_basic(st, i):
                t = self.term(st, o)
                if t.op in ("tuple", "list") and frac(ti) is not None and ti.kind != "bool":
                    k = int(frac(ti))
                    if -len(t.args) <= k < len(t.args):
                        return self.wrap(st, t.args[k])
                self.may_raise(st, mk("view", "getitem", t, ti), "IndexError")
                return Arr(o.base, o.path + (("getitem", ti),))
            n = mk("getitem", self.term(st, o), ti, kind="arr", loc=self.loc)
            self.may_raise(st, n, "IndexError")
            return self.arr(st, n)
        t = self.term(st, o)
        if t.op in ("tuple", "list") and frac(ti) is not None and ti.kind != "bool":
            try:
                return self.wrap(st, t.args[int(frac(ti))])
            except IndexError:
                raise AbsRaise("IndexError", sure=True)
        if t.op == "const" and isinstance(cval(t), str):
            if ti.op == "const":
                try:
                    return const(cval(t)[cval(ti)])
                except IndexError:
                    raise AbsRaise("IndexError", sure=True)
            if ti.op == "slice" and all(is_const(a) for a in ti.args):
                return const(cval(t)[slice(*[cval(a) for a in ti.args])])
        if t.op == "phi" and t.args[1].op in ("tuple", "list") and t.args[2].op in ("tuple", "list"):
            got = []
            for b in t.args[1:]:
                try:
                    got.append(self.getitem(st, b, i))
                except AbsRaise:
                    got.append(None)
            if None not in got:
                return self.merge_val(t.args[0], *got)
            if got != [None, None]:
                self.may_raise(st, mk("getitem", t, ti, loc=self.loc), "IndexError")
                return got[0] if got[1] is None else got[1]
            raise AbsRaise("IndexError")
        if t.kind == "num":
            raise AbsRaise("TypeError")
        n = mk("getitem", t, ti, kind="str" if t.kind == "str" else None, loc=self.loc)
        self.may_raise(st, n, "IndexError", "KeyError", "TypeError")
        return n

    def _arrays(self, v):
        if isinstance(v, VPhi):
            return self._arrays(v.a) and self._arrays(v.b)
        return isinstance(v, (Arr, Node))

    def wrap(self, st, t):
        return self.objects.get(t.id, t) if isinstance(t, Node) else t

    def setitem(self, st, o, i, v, aug=False):
        def f(st, o):
            if isinstance(o, Arr):
                base = st.heap[("b", o.base)]
                self.effect(st, "mutate", self.bases.get(o.base, "fresh"),
                            "setitem", base)
                st.heap[("b", o.base)] = mk("update", base, o.path, self.term(st, i),
                                            self.term(st, v), kind="arr", loc=self.loc)
            elif isinstance(o, Lst):
                c = st.heap[("l", o.oid)]
                self.effect(st, "mutate", self.bases.get(o.oid, "fresh"), "list setitem")
                fi = frac(i) if isinstance(i, Node) else None
                if isinstance(c, tuple) and fi is not None:
                    c = list(c)
                    try:
                        c[int(fi)] = v
                    except IndexError:
                        raise AbsRaise("IndexError", sure=True)
                    st.heap[("l", o.oid)] = tuple(c)
                else:
                    st.heap[("l", o.oid)] = mk("update", self.term(st, o), (), self.term(st, i), self.term(st, v), kind="list")
            elif isinstance(o, Dct):
                c = st.heap[("l", o.oid)]
                self.effect(st, "mutate", self.bases.get(o.oid, "fresh"), "dict setitem")
                ti = self.term(st, i)
                if isinstance(c, tuple):
                    st.heap[("l", o.oid)] = dict_set(c, ti, v)
                else:
                    st.heap[("l", o.oid)] = mk("update", c, (), ti, self.term(st, v), kind="dict")
            elif isinstance(o, VTuple):
                raise AbsRaise("TypeError", sure=True)
            elif isinstance(o, Inst):
                m = self.prog.lookup(o.cls, "__setitem__")
                if m:
                    self.call_function(st, Func(m[1], m[2].mod, None, m[2]), [i, v], {}, o)
            else:
                t = self.term(st, o)
                if t.op == "extattr" and t.args[0] == "environ" or t.op == "ext":
                    self.effect(st, "extset", t, self.term(st, i), self.term(st, v))
                else:
                    self.effect(st, "mutate", ("node", t), "setitem", t)
            return NONE
        self.distribute(st, o, f)

    def mutate(self, st, o, how, i, v):
        if isinstance(o, Arr):
            b = st.heap[("b", o.base)]
            self.effect(st, "mutate", self.bases.get(o.base, "fresh"), how, b)
            st.heap[("b", o.base)] = mk("mutated", how, b, o.path, self.fresh("m"), kind="arr")
        elif isinstance(o, (Lst, Dct)):
            self.effect(st, "mutate", self.bases.get(o.oid, "fresh"), how)
            st.heap[("l", o.oid)] = mk("mutated", how, self.term(st, o), self.fresh("m"))
        else:
            self.effect(st, "mutate", ("node", self.term(st, o)), how, self.term(st, o))

    # ------------------------------------------------------------ attributes --
    def class_attr(self, st, c, name, after=None):
        return self.prog.lookup(c, name, after)

    def cls_assign_value(self, st, owner, name, expr):
        key = ("c", owner.qual, name)

        def make(s):
            fid = self.fresh("f")
            # class level expressions see the class namespace
            self.frames[fid] = (owner.mod, None, owner)
            env = {}
            s.env[fid] = env
            for n in ast.walk(expr):
                if isinstance(n, ast.Name) and n.id in owner.assigns and n.id != name:
                    env[n.id] = self.cls_assign_value(s, owner, n.id, owner.assigns[n.id])
            v = self.eval(s, expr, fid)
            self._mark_origin(s, v, ("classattr", owner.qual + "." + name))
            return v
        return self.at_import(st, key, make)

    def getattr(self, st, o, name):
        o = self.wrap(st, o)
        if isinstance(o, VPhi):
            if self._arrays(o):
                return self.arr_attr(st, o, name)
            return self.distribute(st, o, lambda s, v: self.getattr(s, v, name))
        if isinstance(o, Inst):
            key = ("a", o.oid, name)
            lk = self.class_attr(st, o.cls, name)
            if lk and lk[0] == "property":
                return self.call_property(st, o, lk)
            if key in st.heap:
                v = st.heap[key]
                if not (v is UNDEF):
                    return v
            if lk:
                return self.bind_attr(st, o, lk, name)
            if name == "__class__":
                return Cls(o.cls)
            if name == "__dict__":
                return mk("instdict", o.oid)
            ext = [b for k in self.prog.mro(o.cls) for b in k.bases if not isinstance(b, ClassInfo)]
            if any(b not in ("builtins.object", "object") for b in ext):
                return mk("extattr", name, self.term(st, o))
            raise AbsRaise("AttributeError", sure=True)
        if isinstance(o, Super):
            lk = self.class_attr(st, o.self.cls if isinstance(o.self, Inst) else o.self.info, name, after=o.cls)
            if lk is None:
                return ExtBound(o.self, "super." + name)
            if lk[0] == "property":
                return self.call_property(st, o.self, lk)
            return self.bind_attr(st, o.self, lk, name)
        if isinstance(o, Cls):
            if name == "__name__":
                return const(o.info.name)
            lk = self.class_attr(st, o.info, name)
            if lk is None:
                if name == "__mro__":
                    return mk("mro", o.info.qual)
                raise AbsRaise("AttributeError", sure=True)
            if lk[0] == "assign":
                key = ("ca", o.info.qual, name)
                return self.cls_assign_value(st, lk[2], name, lk[1])
            if lk[0] == "class":
                return Bound(Func(lk[1], lk[2].mod, None, lk[2]), o)
            return Func(lk[1], lk[2].mod, None, lk[2])
        if isinstance(o, Mod):
            v = self.module_value(st, self.prog.modules[o.name], name)
            if v is not None:
                return v
            if f"{o.name}.{name}" in self.prog.modules:
                return Mod(f"{o.name}.{name}")
            if name.startswith("__"):
                return mk("modattr", o.name, name, kind="str")
            raise AbsRaise("AttributeError", sure=True)
        if isinstance(o, Ext):
            q = f"{o.name}.{name}"
            if q == "numpy.pi" or q == "math.pi":
                return mk("sym", "pi", kind="num")
            if q in ("numpy.e", "math.e"):
                return mk("sym", "e", kind="num")
            if q in ("numpy.inf", "math.inf"):
                return const(float("inf"))
            if q in ("numpy.nan", "math.nan"):
                return const(float("nan"))
            if q == "numpy.newaxis":
                return NONE
            if q in self.stand_ins:
                k = ("stand-in", q)
                if k not in st.heap:
                    st.heap[k] = self.stand_ins[q](self, st, [], {})
                return st.heap[k]
            if o.name == "os" and name == "environ":
                return mk("ext", "os.environ", kind="environ")
            return self.ext(st, q)
        if isinstance(o, Func):
            if name == "__name__":
                return const(getattr(o.fn, "name", "<lambda>"))
            return mk("funcattr", self.term(st, o), name)
        if isinstance(o, (Lst, Dct, VTuple)):
            return ExtBound(o, name)
        if isinstance(o, Arr):
            return self.arr_attr(st, o, name)
        if isinstance(o, Node):
            if o is NONE:
                raise AbsRaise("AttributeError", sure=True)
            if o.op == "ext":
                return ExtBound(o, name)
            return self.arr_attr(st, o, name)
        if isinstance(o, ExtBound) and not name.startswith("__"):
            # attribute of an attribute of an object without definition
            return ExtBound(mk("extattr", o.name, self.term(st, o.obj)), name)
        if isinstance(o, (Bound, ExtBound)):
            return mk("funcattr", self.term(st, o), name)
        raise Give(f"attribute {name} of {type(o).__name__}")

    def arr_attr(self, st, o, name):
        t = self.term(st, o)
        if name == "T":
            if isinstance(o, Arr):
                return Arr(o.base, o.path + (("T",),))
            return self.arr(st, mk("view", "T", t))
        if name == "flat":
            if isinstance(o, Arr):
                return Arr(o.base, o.path + (("flat",),))
            return mk("view", "flat", t)
        if name in ("shape", "size", "ndim"):
            s = self.shape_of(self, t)
            if s is not None:
                if name == "shape":
                    return VTuple([const(int(x)) for x in s])
                if name == "ndim":
                    return const(len(s))
                n = 1
                for x in s:
                    n *= int(x)
                return const(n)
            return mk("arrattr", name, t, kind="tuple" if name == "shape" else "num")
        if name in ("dtype", "real", "imag", "itemsize"):
            return mk("arrattr", name, t)
        if isinstance(t, Node) and t.op == "sym" and t.args[0] in self.domain and \
                t.kind in ("num", "str", "bool"):
            if t.kind != "str":
                raise AbsRaise("AttributeError")
        return ExtBound(o, name)

    def call_property(self, st, o, lk):
        if lk[1] is None:
            raise AbsRaise("AttributeError", sure=True)
        return self.call_function(st, Func(lk[1], lk[2].mod, None, lk[2]), [], {}, o)

    def bind_attr(self, st, o, lk, name):
        if lk[0] == "method":
            return Bound(Func(lk[1], lk[2].mod, None, lk[2]), o)
        if lk[0] == "static":
            return Func(lk[1], lk[2].mod, None, lk[2])
        if lk[0] == "class":
            return Bound(Func(lk[1], lk[2].mod, None, lk[2]), Cls(o.cls) if isinstance(o, Inst) else o)
        return self.cls_assign_value(st, lk[2], name, lk[1])

    def setattr(self, st, o, name, v):
        o = self.wrap(st, o)
        def f(st, o):
            if isinstance(o, Inst):
                sm = self.prog.lookup_setter(o.cls, name)
                lk = self.class_attr(st, o.cls, name)
                if sm is not None:
                    self.call_function(st, Func(sm[0], sm[1].mod, None, sm[1]), [v], {}, o)
                elif lk and lk[0] == "property":
                    raise AbsRaise("AttributeError")
                else:
                    self.effect(st, "setattr", o, name, self.term(st, v) if not isinstance(v, Inst) else None)
                    st.heap[("a", o.oid, name)] = v
            elif isinstance(o, Cls):
                self.effect(st, "setclass", o.info.qual, name)
                self.loaded(st, o.info, name)
                st.heap[("c", o.info.qual, name)] = v
            elif isinstance(o, (Mod, Ext)):
                self.effect(st, "setglobal", o.name + "." + name)
                if isinstance(o, Mod):
                    m = self.prog.modules.get(o.name)
                    if m is not None:
                        self.loaded(st, m, name)
                    st.heap[("g", o.name, name)] = v
            elif isinstance(o, Arr) and name == "flat":
                self.setitem(st, Arr(o.base, o.path + (("flat",),)), const(Ellipsis), v)
            elif isinstance(o, Arr) and name == "shape":
                self.mutate(st, o, "shape=", None, v)
            else:
                self.effect(st, "setattrext", self.term(st, o), name, self.term(st, v))
            return NONE
        self.distribute(st, o, f)

    # ---------------------------------------------------------------- calls --
    def e_Call(self, st, e, fid):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = self.frames[fid][2]
            f = fid
            while cls is None and f is not None:
                f = self.frames[f][1]
                cls = self.frames[f][2] if f is not None else None
            env = st.env[f if f is not None else fid]
            fn_self = next(iter(env.values()))
            return Super(cls, fn_self)
        func = self.eval(st, e.func, fid)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value, fid)
                it = self.items(st, v)
                if it is None:
                    args.append(mk("star", self.term(st, v)))
                else:
                    args += list(it)
            else:
                args.append(self.eval(st, a, fid))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(st, k.value, fid)
                if isinstance(d, Dct) and isinstance(st.heap[("l", d.oid)], tuple):
                    for kk, v in st.heap[("l", d.oid)]:
                        if kk.op != "const":
                            kwargs["**"] = d
                        elif isinstance(v, VPhi) and UNDEF in (v.a, v.b):
                            kwargs[cval(kk)] = v
                        else:
                            kwargs[cval(kk)] = v
                else:
                    kwargs["**"] = self.term(st, d) if not isinstance(d, (Dct,)) else d
            else:
                kwargs[k.arg] = self.eval(st, k.value, fid)
        mod = self.frames[fid][0]
        self.loc = (mod.path, e.lineno, self.stack[-1] if self.stack else mod.name)
        return self.call(st, func, args, kwargs)

    def call(self, st, func, args, kwargs):
        func = self.wrap(st, func)
        if isinstance(func, VPhi):
            return self.distribute(st, func, lambda s, f: self.call(s, f, args, kwargs))
        if isinstance(func, Func):
            if any(isinstance(a, Node) and a.op == "star" for a in args):
                return self.call_star(st, func, args, kwargs, None)
            return self.call_function(st, func, args, kwargs)
        if isinstance(func, Bound):
            if any(isinstance(a, Node) and a.op == "star" for a in args):
                return self.call_star(st, func.func, args, kwargs, func.self)
            return self.call_function(st, func.func, args, kwargs, func.self)
        if isinstance(func, Cls):
            return self.instantiate(st, func.info, args, kwargs)
        if isinstance(func, Ext):
            return self.call_ext(st, func.name, args, kwargs)
        if isinstance(func, ExtBound):
            return self.call_method(st, func.obj, func.name, args, kwargs)
        if isinstance(func, Inst):
            lk = self.class_attr(st, func.cls, "__call__")
            if lk:
                return self.call_function(st, Func(lk[1], lk[2].mod, None, lk[2]), args, kwargs, func)
        if isinstance(func, Arr) or isinstance(func, Node):
            t = self.term(st, func)
            if t.op == "func" or t.op == "phi":
                pass
            n = mk("callval", t, tuple(self.term(st, a) for a in args),
                   tuple(sorted((k, self.term(st, v)) for k, v in kwargs.items())), loc=self.loc)
            self.effect(st, "callval", t, tuple(args), dict(kwargs))
            self.hands_out("call of a value", (t,) + tuple(self.term(st, a) for a in args), ())
            return self.arr(st, n)
        raise Give(f"call of {type(func).__name__}")

    def call_star(self, st, func, args, kwargs, selfval):
        """call with an argument list of unknown length: fill remaining
        positional parameters symbolically"""
        fn = func.fn
        params = [p.arg for p in fn.args.posonlyargs + fn.args.args]
        if selfval is not None:
            params = params[1:]
        out = []
        for a in args:
            if isinstance(a, Node) and a.op == "star":
                rest = len([x for x in args if not (isinstance(x, Node) and x.op == "star")])
                free = [p for p in params if p not in kwargs]
                k = len(free) - rest - (len(out) - (rest - rest))
                req = len(params) - len(fn.args.defaults)
                k = max(0, min(len(free), req) - rest)
                for i in range(k):
                    out.append(mk("getitem", a.args[0], const(i)))
            else:
                out.append(a)
        return self.call_function(st, func, out, kwargs, selfval)

    def instantiate(self, st, info, args, kwargs):
        h = self.intrinsics.get(info.qual)
        if h is not None:
            return h(self, st, args, kwargs)
        oid = self.fresh("i")
        o = Inst(oid, info)
        self.bases[oid] = "fresh"
        self.classes[oid] = info
        lk = self.class_attr(st, info, "__init__")
        if lk:
            self.call_function(st, Func(lk[1], lk[2].mod, None, lk[2]), args, kwargs, o)
        return o

    # external calls ---------------------------------------------------------
    def call_ext(self, st, name, args, kwargs):
        h = self.intrinsics.get(name)
        if h is not None:
            return h(self, st, args, kwargs)
        h = getattr(self, "x_" + name.replace(".", "_"), None)
        if h is not None:
            r = h(st, args, kwargs)
            if r is not None:
                return r
        short = name.split(".")[-1]
        if name == "builtins.dict.fromkeys" and not kwargs:
            return self.as_comp(st, FROMKEYS, args[1] if len(args) > 1 else NONE, args[0])
        if args and name.rsplit(".", 1)[0] in UNBOUND and short not in ("maketrans", "fromhex"):
            return self.call(st, self.getattr(st, args[0], short), args[1:], kwargs)
        if name.startswith("builtins.") and short in EXC:
            return mk("excobj", short, tuple(self.term(st, a) for a in args))
        targs = tuple(self.term(st, a) for a in args)
        tkw = tuple(sorted((k, self.term(st, v)) for k, v in kwargs.items()))
        self.effect(st, "ext", name, tuple(args), dict(kwargs), targs, tkw)
        self.hands_out(name, targs, tkw)
        if name in MUTATORS:
            for i in MUTATORS[name]:
                if i < len(args):
                    self.mutate(st, args[i], name, None, None)
            return NONE
        if "out" in kwargs and isinstance(kwargs["out"], (Arr, VPhi)):
            kw = tuple(x for x in tkw if x[0] != "out")
            n = mk("call", name, targs, kw, kind="arr", loc=self.loc)
            if isinstance(kwargs["out"], Arr):
                self.store(st, kwargs["out"], "out=", n)
            return kwargs["out"]
        if name.startswith("numpy.") and name.endswith(".at") and name.count(".") == 2 and args:
            self.mutate(st, args[0], name, None, None)
            return NONE
        pos = POSOUT.get(name)
        if pos is not None and len(args) > pos and isinstance(args[pos], Arr):
            n = mk("call", name, targs[:pos], tkw, kind="arr", loc=self.loc)
            self.store(st, args[pos], "out=", n)
            return args[pos]
        if name in ALIAS and args:
            return self.alias_call(st, name, args, kwargs, targs, tkw)
        if name == "numpy.array" and (("copy", FALSE) in tkw) and isinstance(args[0], Arr):
            return args[0]
        extra = ()
        if name.startswith(IMPURE_PREFIX) and not name.startswith(("os.path.", "os.sep", "os.pathsep")):
            extra = (self.fresh("x"),)
        kind = self.result_kind(name, targs, tkw)
        n = mk("call", name, targs, tkw, *extra, kind=kind, loc=self.loc)
        self.may_raise(st, n, *self.ext_raises(name))
        if kind in ("num", "bool", "str", "list", "tuple", "bytes"):
            return n
        if kind == "obj":
            return n
        return self.arr(st, n)

    def hands_out(self, name, targs, tkw):
        """objects with behaviour of their own leave the analysed code: what
        happens to them is unknown from here on"""
        for t in targs + tuple(v for _, v in tkw):
            if isinstance(t, Node) and holds_object(t):
                self.handed.append((name, self.loc))
                return

    def ext_raises(self, name):
        if name in NORAISE:
            return ()
        if name.startswith("numpy."):
            return ("ValueError", "TypeError", "IndexError", "AttributeError")
        return ("ValueError", "TypeError", "OSError", "IOError", "FileNotFoundError", "KeyError",
                "IndexError", "AttributeError", "UnicodeDecodeError")

    def result_kind(self, name, targs, tkw):
        if name in SCALAR_FUNCS:
            return "num"
        if name.startswith("builtins."):
            return {"str": "str", "repr": "str", "bool": "bool", "range": "list",
                    "sorted": "list", "list": "list", "tuple": "tuple",
                    "isinstance": "bool", "hasattr": "bool", "callable": "bool",
                    "open": "obj", "zip": "list", "enumerate": "list", "map": "list",
                    "filter": "list", "set": "set", "sum": None, "min": None,
                    "max": None, "abs": None}.get(name.split(".")[1], None)
        if name.startswith(("subprocess.", "concurrent.", "multiprocessing.", "scipy.interpolate.", "scipy.spatial.",
                            "scipy.stats.", "warnings.", "tqdm.", "clasp.")):
            return "obj"
        if name.startswith("os.path."):
            return {"isfile": "bool", "exists": "bool", "isdir": "bool"}.get(name.split(".")[-1], "str")
        if name.startswith("numpy.") and targs and all(t.kind in ("num", "bool") for t in targs) and \
                name.split(".")[-1] in ("sqrt", "sin", "cos", "tan", "exp", "log", "log10",
                                        "square", "arcsin", "arccos", "arctan", "arctan2",
                                        "abs", "power", "floor", "ceil", "minimum", "maximum",
                                        "tanh", "mod", "radians", "degrees", "deg2rad", "rad2deg", "hypot"):
            return "num"
        if name.startswith("math."):
            return "num"
        return None

    def alias_call(self, st, name, args, kwargs, targs, tkw):
        a = args[0]
        short = name.split(".")[-1]
        rest = (targs[1:], tkw)
        if isinstance(a, Arr):
            if short in ("asarray", "asanyarray", "ascontiguousarray") and not targs[1:] and not tkw:
                t = targs[0]
                if t.kind not in ("num", "list", "tuple"):
                    return a
            new = Arr(a.base, a.path + ((short,) + ((rest,) if rest != ((), ()) else ()),))
            if rest != ((), ()) and self.catch:
                self.may_raise(st, self.term(st, new), "ValueError", "TypeError")
            return new
        if isinstance(a, VPhi):
            return self.distribute(st, a, lambda s, v: self.call_ext(s, name, [v] + list(args[1:]), kwargs))
        n = mk("view", short, targs[0], *((rest,) if rest != ((), ()) else ()), kind="arr", loc=self.loc)
        return self.arr(st, n)

    def same(self, st, a, b):
        """are two values equal as members: True, False, or None when not known"""
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst) and isinstance(b, Inst) and a.oid == b.oid:
                return True
            for x in (a, b):
                if isinstance(x, Inst) and self.prog.lookup(x.cls, "__eq__"):
                    return None
            o = b if isinstance(a, Inst) else a
            return False if isinstance(o, (Inst, Lst, Dct, VTuple, Func, Cls)) or isinstance(o, Node) and o.op == "const" else None
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return False
            rs = [self.same(st, x, y) for x, y in zip(a.items, b.items)]
            return False if False in rs else None if None in rs else True
        ta, tb = self.term(st, a), self.term(st, b)
        if ta is tb:
            return True
        if ta.op == "const" and tb.op == "const":
            return cval(ta) == cval(tb)
        fa, fb = frac(ta), frac(tb)
        if fa is not None and fb is not None:
            return fa == fb
        return None

    def place(self, st, v, xs):
        """position of a member equal to v in known members, -1, or None when not known"""
        for i, x in enumerate(xs):
            r = self.same(st, v, x)
            if r is None:
                return None
            if r:
                return i
        return -1

    def new_set(self, st, xs):
        """mutable set of known members, None when it is not known which are equal"""
        out = []
        for x in xs:
            p = self.place(st, x, out)
            if p is None:
                return None
            if p < 0:
                out.append(x)
        o = VSet(self.new_list(st, out).oid)
        self.setoids.add(o.oid)
        return o

    def vset_method(self, st, o, name, args):
        c = st.heap[("l", o.oid)]
        org = self.bases.get(o.oid, "fresh")
        if not isinstance(c, tuple):
            if name in ("add", "remove", "discard", "update", "pop", "clear"):
                self.effect(st, "mutate", org, name)
                t = self.term(st, o)
                r = mk("mcall", "pop", t, (), (), self.fresh("x")) if name == "pop" else NONE
                st.heap[("l", o.oid)] = mk("mutated", name, t, tuple(self.term(st, a) for a in args), self.fresh("m"), kind="set")
                return r
            return None
        if name in ("add", "discard", "remove"):
            self.effect(st, "mutate", org, name)
            p = self.place(st, args[0], c)
            if p is None:
                st.heap[("l", o.oid)] = mk("mutated", name, self.term(st, o), self.term(st, args[0]), self.fresh("m"), kind="set")
            elif name == "add":
                if p < 0:
                    st.heap[("l", o.oid)] = c + (args[0],)
            elif p >= 0:
                st.heap[("l", o.oid)] = c[:p] + c[p + 1:]
            elif name == "remove":
                raise AbsRaise("KeyError", sure=True)
            return NONE
        if name == "clear":
            self.effect(st, "mutate", org, name)
            st.heap[("l", o.oid)] = ()
            return NONE
        if name == "copy":
            return self.new_set(st, c)
        base = {"update": "union", "difference_update": "difference", "intersection_update": "intersection",
                "symmetric_difference_update": "symmetric_difference"}.get(name, name)
        if base in ("union", "difference", "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
            cur = list(c)
            for a in args:
                xs = self.items(st, a)
                if xs is None:
                    cur = None
                    break
                ina = [self.place(st, x, xs) for x in cur]
                inc = [self.place(st, x, cur) for x in xs]
                if None in ina or None in inc:
                    cur = None
                    break
                if base == "union":
                    cur = cur + [x for x, p in zip(xs, inc) if p < 0]
                elif base == "difference":
                    cur = [x for x, p in zip(cur, ina) if p < 0]
                elif base == "intersection":
                    cur = [x for x, p in zip(cur, ina) if p >= 0]
                elif base == "symmetric_difference":
                    cur = [x for x, p in zip(cur, ina) if p < 0] + [x for x, p in zip(xs, inc) if p < 0]
                elif base == "issubset":
                    return const(all(p >= 0 for p in ina))
                elif base == "issuperset":
                    return const(all(p >= 0 for p in inc))
                else:
                    return const(all(p < 0 for p in ina))
            new = None if cur is None else self.new_set(st, cur)
            if base != name:
                self.effect(st, "mutate", org, name)
                st.heap[("l", o.oid)] = st.heap[("l", new.oid)] if new is not None else \
                    mk("mutated", name, self.term(st, o), tuple(self.term(st, a) for a in args), self.fresh("m"), kind="set")
                return NONE
            return new
        return None

    def const_set(self, t):
        """members of a set-valued term whose members are all known"""
        if isinstance(t, Node) and t.op == "call" and t.args[0] in ("builtins.set", "builtins.frozenset"):
            if not t.args[1]:
                return frozenset()
            if t.args[1][0].op in ("list", "tuple"):
                ts = t.args[1][0].args
                if all(x.op == "const" for x in ts):
                    return frozenset(ts)
        return None

    def mk_set(self, members):
        xs = sorted(set(members), key=lambda n: (0, repr(cval(n)), 0) if n.op == "const" else (1, "", n.id))
        return mk("call", "builtins.set", (mk("list", *xs, kind="list"),), (), kind="set")

    def set_method(self, st, o, name, args):
        s = self.const_set(o)
        if s is None:
            return None
        others = []
        for a in args:
            x = self.const_set(self.term(st, a))
            if x is None:
                it = self.items(st, a)
                if it is None:
                    return None
                ts = [self.term(st, i) for i in it]
                if not all(i.op == "const" for i in ts):
                    return None
                x = frozenset(ts)
            others.append(x)
        if name in ("union", "intersection", "difference"):
            return self.mk_set(getattr(s, name)(*others))
        if name == "symmetric_difference" and len(others) == 1:
            return self.mk_set(s ^ others[0])
        if name in ("issubset", "issuperset", "isdisjoint") and len(others) == 1:
            return const(getattr(s, name)(others[0]))
        if name == "copy":
            return o
        return None

    def call_method(self, st, o, name, args, kwargs):
        if isinstance(o, Node) and o.op == "call":
            r = self.set_method(st, o, name, args)
            if r is not None:
                return r
        if isinstance(o, VPhi) and not self._arrays(o):
            return self.distribute(st, o, lambda s, v: self.call_method(s, v, name, args, kwargs))
        if isinstance(o, VSet):
            r = self.vset_method(st, o, name, args)
            if r is not None:
                return r
        elif isinstance(o, Lst):
            r = self.list_method(st, o, name, args, kwargs)
            if r is not None:
                return r
        if isinstance(o, Dct):
            r = self.dict_method(st, o, name, args, kwargs)
            if r is not None:
                return r
        if isinstance(o, Node) and o.op == "ext" and o.args[0] == "os.environ":
            self.effect(st, "environ", name, tuple(self.term(st, a) for a in args))
            return mk("call", "os.environ." + name, tuple(self.term(st, a) for a in args), (), self.fresh("x"))
        targs = tuple(self.term(st, a) for a in args)
        tkw = tuple(sorted((k, self.term(st, v)) for k, v in kwargs.items()))
        t = self.term(st, o)
        if isinstance(o, Arr) and t.kind not in ("str", "list", "obj", "bytes"):
            if name in METHODS_ALIAS:
                rest = (targs, tkw)
                new = Arr(o.base, o.path + (("m_" + name, rest),))
                if rest != ((), ()) and self.catch:
                    self.may_raise(st, self.term(st, new), "ValueError", "TypeError")
                return new
            if name in METHODS_MUTATE:
                self.mutate(st, o, "." + name + "()", None, None)
                return NONE
        if isinstance(o, VPhi) and name in METHODS_ALIAS:
            return self.distribute(st, o, lambda s, v: self.call_method(s, v, name, args, kwargs))
        r = self.str_method(st, t, name, args, targs, tkw)
        if r is not None:
            return r
        self.effect(st, "method", name, o, tuple(args), dict(kwargs), t, targs, tkw)
        self.hands_out("." + name, (t,) + targs, tkw)
        kind = None
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "decode", "replace", "join", "format", "group", "title"):
            kind = "str"
        elif name in ("tobytes", "encode"):
            kind = "bytes"
        elif name in ("split", "rsplit", "splitlines", "readlines", "tolist"):
            kind = "list"
        elif name in ("startswith", "endswith", "isdigit", "issubset"):
            kind = "bool"
        extra = ()
        if name in ("read", "readline", "readlines", "communicate", "uniform", "normal", "random", "standard_normal",
                    "integers", "choice", "permutation", "submit", "result", "pop", "write", "wait"):
            extra = (self.fresh("x"),)
        n = mk("mcall", name, t, targs, tkw, *extra, kind=kind, loc=self.loc)
        self.may_raise(st, n, "ValueError", "AttributeError", "IndexError", "KeyError", "UnicodeDecodeError", "TypeError")
        if name in METHODS_FRESH and kind is None and isinstance(o, (Arr, VPhi)):
            return self.arr(st, n)
        if kind is None and isinstance(o, Arr):
            return self.arr(st, n)
        return n

    def str_method(self, st, t, name, args, targs, tkw):
        if t.op == "const" and isinstance(cval(t), str):
            if name == "join" and args:
                it = self.items(st, args[0])
                if it is not None:
                    parts = []
                    for i, x in enumerate(it):
                        if i:
                            parts.append(t)
                        parts.append(self.term(st, x))
                    return self.strcat(parts)
            if name == "format":
                return mk("format", t, targs, tkw, kind="str")
            if all(a.op == "const" for a in targs) and not tkw and hasattr(str, name):
                try:
                    r = getattr(cval(t), name)(*[cval(a) for a in targs])
                except Exception as e:
                    raise AbsRaise(type(e).__name__, sure=True)
                if isinstance(r, list):
                    return self.new_list(st, [const(x) for x in r])
                if isinstance(r, tuple):
                    return VTuple([const(x) for x in r])
                return const(r)
        return None

    def as_list(self, st, v):
        t = self.term(st, v)
        return t if isinstance(v, Lst) or t.kind == "list" else mk("call", "builtins.list", (t,), (), kind="list")

    def list_method(self, st, o, name, args, kwargs):
        c = st.heap[("l", o.oid)]
        org = self.bases.get(o.oid, "fresh")
        known = isinstance(c, tuple)
        if name == "append":
            self.effect(st, "mutate", org, "append")
            if known:
                st.heap[("l", o.oid)] = c + (args[0],)
            else:
                st.heap[("l", o.oid)] = mk("append", c, self.term(st, args[0]), kind="list")
            return NONE
        if name == "extend":
            self.effect(st, "mutate", org, "extend")
            it = self.items(st, args[0])
            if known and it is not None:
                st.heap[("l", o.oid)] = c + tuple(it)
            else:
                st.heap[("l", o.oid)] = mk("bin", "+", self.term(st, o), self.as_list(st, args[0]), kind="list")
            return NONE
        if name == "insert":
            self.effect(st, "mutate", org, "insert")
            f = frac(args[0]) if isinstance(args[0], Node) else None
            if known and f is not None:
                l = list(c)
                l.insert(int(f), args[1])
                st.heap[("l", o.oid)] = tuple(l)
            else:
                self.mutate(st, o, "insert", None, None)
            return NONE
        if name == "pop":
            self.effect(st, "mutate", org, "pop")
            f = frac(args[0]) if args and isinstance(args[0], Node) else (Fraction(-1) if not args else None)
            if known and f is not None:
                l = list(c)
                try:
                    v = l.pop(int(f))
                except IndexError:
                    raise AbsRaise("IndexError", sure=True)
                st.heap[("l", o.oid)] = tuple(l)
                return v
            r = mk("mcall", "pop", self.term(st, o), tuple(self.term(st, a) for a in args), (), self.fresh("x"))
            st.heap[("l", o.oid)] = mk("mutated", "pop", self.term(st, o), self.fresh("m"))
            return r
        if name in ("sort", "reverse", "clear", "remove"):
            self.effect(st, "mutate", org, name)
            o2 = self.ordered(st, list(c), kwargs) if known and name == "sort" and not args else None
            if o2 is not None:
                st.heap[("l", o.oid)] = tuple(o2)
            elif known and name == "reverse":
                st.heap[("l", o.oid)] = tuple(reversed(c))
            elif name == "clear":
                st.heap[("l", o.oid)] = ()
            elif known and name == "remove" and self.place(st, args[0], c) is not None:
                p = self.place(st, args[0], c)
                if p < 0:
                    raise AbsRaise("ValueError", sure=True)
                st.heap[("l", o.oid)] = c[:p] + c[p + 1:]
            else:
                st.heap[("l", o.oid)] = mk("mutated", name, self.term(st, o), self.fresh("m"), kind="list")
            return NONE
        if name in ("index", "count") and known and len(args) == 1:
            ps = [self.same(st, args[0], x) for x in c]
            if None not in ps:
                if name == "count":
                    return const(sum(ps))
                if True not in ps:
                    raise AbsRaise("ValueError", sure=True)
                return const(ps.index(True))
        if name == "copy":
            return self.new_list(st, c)
        return None

    def dict_method(self, st, o, name, args, kwargs):
        c = st.heap[("l", o.oid)]
        known = isinstance(c, tuple)
        if name in ("items", "keys", "values") and self.dict_known(c):
            return self.new_list(st, [VTuple((k, v)) if name == "items" else k if name == "keys" else v for k, v in c])
        if name in ("get", "pop") and known:
            t = self.term(st, args[0])
            if len(args) > 1 or name == "get":
                r = self.dict_find(st, c, t, args[1] if len(args) > 1 else NONE)
            else:
                r = self.dict_get(st, c, t)
            if name == "pop":
                self.effect(st, "mutate", self.bases.get(o.oid, "fresh"), "pop")
                left = ()
                for k, v in c:
                    same = const(cval(k) == cval(t)) if k.op == t.op == "const" else TRUE if k is t else \
                        self.compare(st, "==", k, t)
                    if same is not TRUE:
                        left += ((k, v if same is FALSE else VPhi(same, UNDEF, v)),)
                st.heap[("l", o.oid)] = left
            return r
        if name == "update":
            self.effect(st, "mutate", self.bases.get(o.oid, "fresh"), "update")
            new = []
            if args:
                d = args[0]
                if isinstance(d, Dct) and self.dict_known(st.heap[("l", d.oid)]):
                    new += list(st.heap[("l", d.oid)])
                else:
                    pairs = None if isinstance(d, Dct) else self.items(st, d)
                    pairs = [self.items(st, x) for x in pairs] if pairs is not None else [None]
                    if any(x is None or len(x) != 2 for x in pairs):
                        st.heap[("l", o.oid)] = mk("mutated", "update", self.term(st, o), self.fresh("m"), kind="dict")
                        return NONE
                    new += [(self.term(st, k), v) for k, v in pairs]
            new += [(const(k), v) for k, v in kwargs.items()]
            for k, v in new:
                if known:
                    c = dict_set(c, k, v)
                else:
                    c = mk("update", c, (), k, self.term(st, v), kind="dict")
            st.heap[("l", o.oid)] = c
            return NONE
        if name == "setdefault" and known:
            t = self.term(st, args[0])
            v = args[1] if len(args) > 1 else NONE
            r = self.dict_find(st, c, t, v)
            st.heap[("l", o.oid)] = dict_set(c, t, r)
            self.effect(st, "mutate", self.bases.get(o.oid, "fresh"), "setdefault")
            return r
        if name == "clear":
            self.effect(st, "mutate", self.bases.get(o.oid, "fresh"), "clear")
            st.heap[("l", o.oid)] = ()
            return NONE
        if name == "copy" and known:
            return self.new_dict(st, c)
        return None

    # builtins with structure ------------------------------------------------
    def x_builtins_len(self, st, args, kw):
        v = args[0]
        it = None
        m = self.prog.lookup(v.cls, "__len__") if isinstance(v, Inst) else None
        if m:
            return self.call_function(st, Func(m[1], m[2].mod, None, m[2]), [], {}, v)
        if isinstance(v, (VTuple, Lst)):
            it = self.items(st, v)
        elif isinstance(v, Dct):
            it = self.items(st, v)
        if it is not None:
            return const(len(it))
        t = self.term(st, v)
        cs = self.const_set(t)
        if cs is not None:
            return const(len(cs))
        if t.op in ("tuple", "list"):
            return const(len(t.args))
        if t.op == "const" and isinstance(cval(t), str):
            return const(len(cval(t)))
        if t.kind == "num":
            raise AbsRaise("TypeError")
        s = self.shape_of(self, t)
        if s is not None and len(s):
            return const(int(s[0]))
        return mk("call", "builtins.len", (t,), (), kind="num", loc=self.loc)

    def x_builtins_list(self, st, args, kw):
        if not args:
            return self.new_list(st, [])
        it = self.items(st, args[0])
        if it is not None:
            return self.new_list(st, it)
        return self.new_list(st, mk("call", "builtins.list", (self.term(st, args[0]),), (), kind="list"))

    def x_builtins_tuple(self, st, args, kw):
        if not args:
            return VTuple(())
        it = self.items(st, args[0])
        if it is not None:
            return VTuple(it)

    def x_builtins_dict(self, st, args, kw):
        items = []
        if args:
            if isinstance(args[0], Dct) and isinstance(st.heap[("l", args[0].oid)], tuple):
                items += list(st.heap[("l", args[0].oid)])
            else:
                pairs = None if isinstance(args[0], Dct) else self.items(st, args[0])
                pairs = [self.items(st, x) for x in pairs] if pairs is not None else [None]
                if any(x is None or len(x) != 2 for x in pairs):
                    return None
                items += [(self.term(st, k), v) for k, v in pairs]
        return self.new_dict(st, items + [(const(k), v) for k, v in kw.items()])

    x_collections_OrderedDict = x_builtins_dict

    def x_builtins_set(self, st, args, kw):
        if not args:
            return self.new_set(st, [])
        it = self.items(st, args[0])
        if it is not None:
            r = self.new_set(st, it)
            if r is not None:
                return r
            return mk("call", "builtins.set", (mk("list", *[self.term(st, x) for x in it], kind="list"),), (), kind="set")

    def x_builtins_zip(self, st, args, kw):
        its = [self.items(st, a) for a in args]
        if any(self.number(a) for a in args):
            raise AbsRaise("TypeError", sure=True)
        if any(i is None for i in its):
            # length of the shortest known sequence is not enough
            return mk("call", "builtins.zip", tuple(self.term(st, a) for a in args), (), kind="list")
        return self.new_list(st, [VTuple(x) for x in zip(*its)])

    def x_builtins_enumerate(self, st, args, kw):
        it = self.items(st, args[0])
        if it is None:
            return None
        s = 0
        if len(args) > 1 and frac(args[1]) is not None:
            s = int(frac(args[1]))
        return self.new_list(st, [VTuple((const(i + s), x)) for i, x in enumerate(it)])

    def x_builtins_range(self, st, args, kw):
        return mk("call", "builtins.range", tuple(self.term(st, a) for a in args), (), kind="list")

    def x_builtins_reversed(self, st, args, kw):
        it = self.items(st, args[0])
        if it is not None:
            return self.new_list(st, list(reversed(it)))

    def x_builtins_isinstance(self, st, args, kw):
        v, c = args
        cs = self.items(st, c) if isinstance(c, VTuple) else [c]
        return self.isinst(st, v, cs)

    def isinst(self, st, v, cs):
        if isinstance(v, VPhi):
            a, b = self.isinst(st, v.a, cs), self.isinst(st, v.b, cs)
            return a if a is b else self.phi_term(v.cond, a, b)
        if isinstance(v, Inst):
            mro = self.prog.mro(v.cls)
            return const(any(isinstance(c, Cls) and c.info in mro for c in cs))
        if isinstance(v, Ext) and v.name.startswith("subprocess.") and all(isinstance(c, Cls) for c in cs):
            return FALSE
        t = self.term(st, v)
        names = [c.info.qual if isinstance(c, Cls) else getattr(c, "name", "?") for c in cs]
        k = t.kind
        py = {"str": "builtins.str", "list": "builtins.list", "tuple": "builtins.tuple",
              "dict": "builtins.dict", "arr": "numpy.ndarray", "bytes": "builtins.bytes", "none": "NoneType"}
        if k in py:
            return const(py[k] in names)
        if k in ("num", "bool") and not any(n in names for n in ("builtins.int", "builtins.float", "builtins.bool", "numbers.Number")):
            return FALSE
        if t.op == "const":
            return const(("builtins." + type(cval(t)).__name__) in names)
        return mk("isinstance", t, tuple(names), kind="bool")

    def x_builtins_hasattr(self, st, args, kw):
        v, n = args
        if isinstance(n, Node) and n.op == "const":
            name = cval(n)
            if isinstance(v, Inst):
                return const(("a", v.oid, name) in st.heap or self.class_attr(st, v.cls, name) is not None)
            t = self.term(st, v)
            if name == "__len__":
                if isinstance(v, (VTuple, Lst, Dct)):
                    return TRUE
                if t.kind == "num":
                    return FALSE
                s = self.shape_of(self, t)
                if s is not None:
                    return const(len(s) > 0)
        return mk("call", "builtins.hasattr", tuple(self.term(st, a) for a in args), (), kind="bool")

    def x_builtins_getattr(self, st, args, kw):
        if isinstance(args[1], Node) and args[1].op == "const":
            try:
                return self.getattr(st, args[0], cval(args[1]))
            except AbsRaise:
                if len(args) > 2:
                    return args[2]
                raise
        return mk("getattr", self.term(st, args[0]), self.term(st, args[1]))

    def x_builtins_setattr(self, st, args, kw):
        if isinstance(args[1], Node) and args[1].op == "const":
            self.setattr(st, args[0], cval(args[1]), args[2])
            return NONE

    def x_builtins_type(self, st, args, kw):
        v = args[0]
        if isinstance(v, Inst):
            return Cls(v.cls)
        t = self.term(st, v)
        return mk("typeof", t)

    def x_builtins_float(self, st, args, kw):
        t = self.term(st, args[0]) if args else const(0)
        if t.kind == "num":
            return t
        return mk("call", "builtins.float", (t,), (), kind="num", loc=self.loc) if not self.catch else None

    def x_builtins_int(self, st, args, kw):
        t = self.term(st, args[0]) if args else const(0)
        f = frac(t)
        if f is not None:
            return const(int(f))
        return None

    def x_builtins_bool(self, st, args, kw):
        return self.truth(st, args[0])

    def x_builtins_str(self, st, args, kw):
        t = self.term(st, args[0]) if args else const("")
        if t.op == "exc" and isinstance(t.args[1], Node):
            return self.x_builtins_str(st, [t.args[1]], {})
        if t.kind == "str":
            return t
        if t.op == "const" and isinstance(cval(t), (int, bool)):
            return const(str(cval(t)))
        return mk("fmt", t, "", -1, kind="str")

    def x_builtins_min(self, st, args, kw):
        return self._minmax(st, args, kw, "min")

    def x_builtins_max(self, st, args, kw):
        return self._minmax(st, args, kw, "max")

    def _minmax(self, st, args, kw, which):
        it = args
        if len(args) == 1:
            it = self.items(st, args[0])
            if it is None:
                return None
        ts = [self.term(st, x) for x in it]
        fs = [frac(t) for t in ts]
        if all(f is not None for f in fs) and ts:
            i = (min if which == "min" else max)(range(len(fs)), key=lambda k: fs[k])
            return ts[i]
        return mk("call", "builtins." + which, tuple(ts), (), kind="num" if all(self.is_scalar(t) for t in ts) else None, loc=self.loc)

    def x_builtins_sum(self, st, args, kw):
        it = self.items(st, args[0])
        if it is None:
            return None
        cur = args[1] if len(args) > 1 else const(0)
        for x in it:
            cur = self.binop(st, "+", cur, x)
        return cur

    def x_builtins_abs(self, st, args, kw):
        t = self.term(st, args[0])
        f = frac(t)
        if f is not None and t.op == "const":
            return const(abs(cval(t)))
        n = mk("call", "numpy.abs", (t,), (), kind=t.kind, loc=self.loc)
        return n if t.kind == "num" else self.arr(st, n)

    def x_builtins_map(self, st, args, kw):
        its = [self.items(st, a) for a in args[1:]]
        if any(i is None for i in its):
            if isinstance(args[0], Ext) and args[0].name.count(".") == 1:
                return None
            it = args[1] if len(args) == 2 else self.call_ext(st, "builtins.zip", args[1:], {})
            return self.as_comp(st, MAP1 if len(args) == 2 else MAPN, args[0], it)
        return self.new_list(st, [self.call(st, args[0], list(x), {}) for x in zip(*its)])

    def x_builtins_filter(self, st, args, kw):
        return self.as_comp(st, FILTER if not (isinstance(args[0], Node) and args[0] is NONE) else FILTER0,
                            args[0], args[1])

    def as_comp(self, st, e, f, it):
        fid = self.fresh("f")
        self.frames[fid] = (self.frames_mod(), None, None)
        st.env[fid] = {"f": f, "it": it}
        return self.eval(st, e, fid)

    def frames_mod(self):
        return next(iter(self.frames.values()))[0]

    def x_builtins_all(self, st, args, kw):
        it = self.items(st, args[0])
        if it is None:
            return None
        cur = TRUE
        for x in it:
            t = self.truth(st, x)
            if t is FALSE:
                return FALSE
            if t is not TRUE:
                cur = t if cur is TRUE else mk("and", cur, t, kind="bool")
        return cur

    def x_builtins_any(self, st, args, kw):
        it = self.items(st, args[0])
        if it is None:
            return None
        cur = FALSE
        for x in it:
            t = self.truth(st, x)
            if t is TRUE:
                return TRUE
            if t is not FALSE:
                cur = t if cur is FALSE else mk("or", cur, t, kind="bool")
        return cur

    def x_builtins_sorted(self, st, args, kw):
        it = self.items(st, args[0])
        if it is not None:
            o = self.ordered(st, it, kw)
            if o is not None:
                return self.new_list(st, o)

    def ordered(self, st, it, kw):
        """the items in order where the source decides it"""
        kw = dict(kw)
        key, rev = kw.pop("key", NONE), kw.pop("reverse", FALSE)
        if kw or rev not in (TRUE, FALSE):
            return None
        if key is not NONE and not isinstance(key, (Func, Bound)):
            return None
        ks = [self.term(st, self.call(st, key, [x], {}) if key is not NONE else x) for x in it]
        vs = [fixed(k) for k in ks]
        if any(v is None for v in vs):
            return None
        try:
            i = sorted(range(len(it)), key=lambda j: vs[j][0], reverse=rev is TRUE)
        except TypeError:
            return None
        return [it[j] for j in i]

    def x_builtins_print(self, st, args, kw):
        self.effect(st, "print", tuple(self.term(st, a) for a in args), tuple(sorted((k, self.term(st, v)) for k, v in kw.items())))
        return NONE

    def x_functools_partial(self, st, args, kw):
        fn = args[0]
        return mk("partial", self.term(st, fn), tuple(self.term(st, a) for a in args[1:]),
                  tuple(sorted((k, self.term(st, v)) for k, v in kw.items())))

    def x_numpy_array(self, st, args, kw):
        t = self.term(st, args[0])
        if kw:
            return None
        return self.arr(st, mk("call", "numpy.array", (t,) + tuple(self.term(st, a) for a in args[1:]), (), kind="arr", loc=self.loc))

    def x_numpy_apply_along_axis(self, st, args, kw):
        """apply_along_axis over the columns of a table of known size"""
        args = list(args)
        for k in ("func1d", "axis", "arr")[len(args):]:
            if k in kw:
                args.append(kw.pop(k))
        if len(args) < 3 or not isinstance(args[0], (Func, Bound)):
            return None
        ax = self.term(st, args[1])
        t = self.term(st, args[2])
        shp = self.shape_of(self, t) if self.shape_of else None
        if not is_const(ax) or not shp or len(shp) != 2 or cval(ax) not in (0, -2) or shp[1] > 64:
            return None
        cols = []
        for j in range(shp[1]):
            c = self.arr(st, mk("getitem", t, mk("tuple", mk("slice", NONE, NONE, NONE), const(j)), kind="arr"))
            cols.append(self.call(st, args[0], [c] + args[3:], dict(kw)))
        tl = mk("list", *[self.term(st, c) for c in cols], kind="list")
        return self.arr(st, mk("call", "numpy.stack", (tl,), (("axis", const(-1)),), kind="arr", loc=self.loc))

    def x_numpy_nan_to_num(self, st, args, kw):
        t = tuple(self.term(st, a) for a in args)
        tkw = tuple(sorted((k, self.term(st, v)) for k, v in kw.items() if k != "copy"))
        nocopy = len(args) > 1 and args[1] is FALSE or kw.get("copy") is FALSE
        n = mk("call", "numpy.nan_to_num", (t[0],) + t[2:] if False else t[:1] + (TRUE,) * (len(t) > 1) + t[2:], tkw, kind="arr", loc=self.loc)
        if nocopy and isinstance(args[0], Arr):
            self.store(st, args[0], "nan_to_num", n)
            return args[0]
        return self.arr(st, n)


def maybe_absent(v):
    return v is UNDEF or isinstance(v, VPhi) and (maybe_absent(v.a) or maybe_absent(v.b))


def present(v):
    """the value of an entry that is there"""
    if isinstance(v, VPhi):
        a, b = present(v.a), present(v.b)
        return b if a is UNDEF else a if b is UNDEF else v if a is v.a and b is v.b else VPhi(v.cond, a, b)
    return v


def dict_set(c, t, v):
    """a later entry that may have the same key keeps the update last"""
    at = [i for i, (k, _) in enumerate(c) if k is t]
    if at and not maybe_absent(v) and all(k.op == t.op == "const" for k, _ in c[at[-1] + 1:]):
        return c[:at[-1]] + ((t, v),) + c[at[-1] + 1:]
    return c + ((t, v),)
