"""whole-package effect analysis: every public function and every method of
every class is interpreted abstractly from fully symbolic arguments; the
effects met on any path are collected"""
import ast
import time
import re

from .interp import Interp, State, AbsRaise, Give, ALIAS, METHODS_ALIAS
from .terms import (mk, const, Node, Func, Cls, Inst, Arr, Lst, Dct, VTuple, VPhi, TRUE, FALSE, NONE,
                    frac, walk, show)

VIEWS = "raytools.mapper.viewmapper.ViewMapper"
METRICBASE = "BaseMetricSet"


class Root:
    def __init__(self, qual, fn, mod, cls, owner):
        self.qual, self.fn, self.mod, self.cls, self.owner = qual, fn, mod, cls, owner
        self.effects, self.opaque, self.visited = [], [], set()
        self.error = None
        self.ret = None
        self.setup = 0          # effects before this index belong to building the instance


def scalar_default(fn, name):
    a = fn.args
    ps = a.posonlyargs + a.args
    d = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
    d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    e = d.get(name)
    if isinstance(e, ast.UnaryOp):
        e = e.operand
    return isinstance(e, ast.Constant) and e.value is not None and not isinstance(e.value, (tuple,))


class Whole:
    def __init__(self, prog, fixed=None, skip=("raytools.cli",), private=False, depth=None):
        self.prog, self.fixed = prog, fixed or (lambda fn, p: None)
        self.skip, self.private = skip, private
        self.depth = depth

    def roots(self):
        for m in self.prog.modules.values():
            if not m.name.startswith("raytools") or m.name in self.skip:
                continue
            for n, e in m.names.items():
                if e[0] == "func":
                    if self.private or not n.startswith("_"):
                        yield Root(f"{m.name}.{n}", e[1], m, None, None)
                elif e[0] == "class":
                    yield from self.class_roots(e[1])

    def class_roots(self, c):
        if not self.prog.lookup(c, "__init__"):
            return          # mixin: analysed through the classes using it
        seen = set()
        for k in self.prog.mro(c):
            for tab, suffix in ((k.methods, ""), (k.setters, ".setter")):
                for n, fn in tab.items():
                    if (n, suffix) in seen:
                        continue
                    seen.add((n, suffix))
                    if n.startswith("_") and not self.private and not (n.startswith("__") and n.endswith("__")):
                        continue
                    yield Root(f"{c.qual}.{n}{suffix}", fn, k.mod, c, k)

    def symargs(self, it, st, fn, skip):
        out = []
        a = fn.args
        for p in (a.posonlyargs + a.args)[skip:]:
            v = self.fixed(fn, p.arg)
            out.append(v if v is not None else it.arr(st, mk("sym", p.arg), ("param", p.arg)))
        return out

    def instance(self, it, st, cls):
        lk = self.prog.lookup(cls, "__init__")
        fn = lk[1]
        args = self.symargs(it, st, fn, 1)
        if any(k.name == METRICBASE for k in self.prog.mro(cls)):
            names = [p.arg for p in fn.args.args][1:]
            vm = it.instantiate(st, self.prog.cls(VIEWS), [it.arr(st, mk("sym", "dxyz")), mk("sym", "viewangle", kind="num")], {})
            if "vm" in names:
                i = names.index("vm")
                args = args[:i] + [vm] + args[i + 1:]
                j = names.index("metricset") if "metricset" in names else i + 1
                keep = [(n, a) for n, a in zip(names, args) if n not in ("metricset", "warn", "kwargs")]
                return it.instantiate(st, cls, [], dict(keep))
        return it.instantiate(st, cls, args, {})

    def run(self, r):
        it = Interp(self.prog)
        st = State()
        it.deadline = time.process_time() + 40
        self.prepare(it)
        try:
            args, skip, selfval = [], 0, None
            if r.cls is not None:
                kind = r.owner.kind.get(r.fn.name) if not r.qual.endswith(".setter") else "method"
                if kind == "static":
                    pass
                elif kind == "class":
                    skip, args = 1, [Cls(r.cls)]
                elif r.fn.name == "__init__":
                    if any(k.name == METRICBASE for k in self.prog.mro(r.cls)):
                        self.instance(it, st, r.cls)
                        r.effects, r.opaque, r.visited = it.effects, it.opaque, it.visited
                        return r
                    skip, args = 1, [Inst(it.fresh("i"), r.cls)]
                else:
                    skip, args = 1, [self.instance(it, st, r.cls)]
            r.setup = len(it.effects)
            args += self.symargs(it, st, r.fn, skip)
            r.ret = it.call_function(st, Func(r.fn, r.mod, None, r.owner), args, {})
        except AbsRaise as e:
            r.error = f"raises {e.exc}"
        except Give as e:
            r.error = f"not modelled: {e}"
        r.effects, r.opaque, r.visited, r.it = it.effects, it.opaque, it.visited, it
        return r

    def prepare(self, it):
        pass

    def all(self):
        return [self.run(r) for r in self.roots()]


VIEWCALLS = {k for k in ALIAS}


def basic_index(t):
    if t.op == "slice" or t is NONE:
        return True
    if t.op == "const":
        return True
    if t.op == "tuple":
        return all(basic_index(x) for x in t.args)
    return t.kind == "num"


def origins(t, depth=0):
    """parameters whose storage a term may share"""
    if not isinstance(t, Node) or depth > 60:
        return set()
    if t.op == "sym":
        return {t.args[0]}
    if t.op == "view":
        return origins(t.args[1], depth + 1)
    if t.op == "phi":
        return origins(t.args[1], depth + 1) | origins(t.args[2], depth + 1)
    if t.op in ("update", "mutated"):
        return origins(t.args[0] if t.op == "update" else t.args[1], depth + 1)
    if t.op == "getitem":
        if basic_index(t.args[1]):
            return origins(t.args[0], depth + 1)
        return set()
    if t.op == "elem":
        return origins(t.args[0], depth + 1)
    if t.op in ("loopout", "loopvar"):
        return origins(t.args[-1], depth + 1)
    if t.op == "mcall" and t.args[0] in METHODS_ALIAS:
        return origins(t.args[1], depth + 1)
    if t.op == "call" and t.args[0] in ALIAS and t.args[1]:
        return origins(t.args[1][0], depth + 1)
    return set()
