"""Obligations: specification drivers -> value graph -> verdicts."""
import re
import ast
import os
import sys
import time
import warnings
import zlib
import numpy as np

from .loader import Program
from .interp import Interp, State, AbsRaise, Give
from .terms import (mk, const, Node, Func, walk, children, show, NONE, TRUE,
                    FALSE, is_const, cval, Arr)
from .evalr import Rounding, Ev, Dom, Undef, Raised, close, between

SPECDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs")
BUDGET = 60          # processor seconds to build, and to compare, one driver
OBJECTS = {"os.environ", "sys.stdout", "sys.stderr", "sys.argv"}
CONTINUOUS = ("unit", "cone", "pos", "posnum", "arr", "num", "grid")
SHAPEOPS = {"arrattr", "typeof", "isinstance"}


class Oblig:
    def __init__(self, kind, label, terms, pc, loc, stack, opts):
        self.kind, self.label, self.terms, self.pc = kind, label, terms, pc
        self.loc, self.stack, self.opts = loc, stack, opts
        self.status = None       # same | agree | differ | undecided
        self.trials = self.conclusive = self.skipped = 0
        self.why = None
        self.witness = None


def literal(e, consts):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -literal(e.operand, consts)
    if isinstance(e, ast.Name):
        return consts[e.id]
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(literal(x, consts) for x in e.elts)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add, ast.Sub, ast.Div)):
        a, b = literal(e.left, consts), literal(e.right, consts)
        return {"Mult": lambda: a * b, "Add": lambda: a + b, "Sub": lambda: a - b,
                "Div": lambda: a / b}[type(e.op).__name__]()
    raise ValueError(ast.dump(e))


def parse_dom(e, consts):
    if isinstance(e, ast.Call):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += literal(a.value, consts)
            else:
                args.append(literal(a, consts))
        return Dom(e.func.id, tuple(args),
                   {k.arg: literal(k.value, consts) for k in e.keywords})
    return Dom("each", (literal(e, consts),), {})


def combos(doms):
    out = [{}]
    for p, d in doms.items():
        if d.kind == "each":
            out = [dict(o, **{p: v}) for o in out for v in d.args]
    return out


def replaced(prog, qual):
    """the repository function a stand-in replaces"""
    m, _, n = qual.rpartition(".")
    r = prog.resolve(prog.modules[m], n) if m in prog.modules else None
    return r if r is not None and r[0] == "func" and not r[1].decorator_list else None


def fits(fn, args, kw):
    """whether the arguments fit the parameters of the function"""
    a = fn.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    only = [p.arg for p in a.kwonlyargs]
    if "**" in kw:
        return True
    given = set(pos[:len(args)])
    if len(args) > len(pos) and not a.vararg or given & set(kw):
        return False
    if not a.kwarg and set(kw) - set(pos) - set(only):
        return False
    need = set(pos[:len(pos) - len(a.defaults)]) | {n for n, d in zip(only, a.kw_defaults) if d is None}
    return need <= given | set(kw)


# operations no number and no None supports
NOTYPE = ("not subscriptable", "NoneType")


NUMBER = re.compile(r"[-+]?\d+\.?\d*([eE][-+]?\d+)?")


def worded(got, ref, g2, r2):
    """texts that differ in more than their numbers"""
    if not all(isinstance(x, str) for x in (got, ref, g2, r2)):
        return False
    a, b, c, d = (NUMBER.sub("#", x) for x in (got, ref, g2, r2))
    return a != b and a == c and b == d


def outweighs(got, ref, g2, r2):
    """some element differs by a thousand times what rounding does to it"""
    try:
        a, b, c, d = (np.asarray(x, dtype=float) for x in (got, ref, g2, r2))
    except (TypeError, ValueError):
        return False
    if not a.shape == b.shape == c.shape == d.shape:
        return False
    with np.errstate(all="ignore"):
        drift = np.abs(a - c) + np.abs(b - d)
        size = np.maximum(np.abs(a), np.abs(b))
        gap = np.abs(a - b)
        return bool(np.any(np.isfinite(gap) & (gap > 1e3 * drift) & (gap > 1e-5 * size) & (gap > 1e-6 * np.max(size))))


class Driver:
    """one specification function under one choice of its enumerated options"""

    def __init__(self, prog, mod, fn, choice, doms, seed):
        self.prog, self.mod, self.fn = prog, mod, fn
        self.choice, self.doms, self.seed = choice, doms, seed
        self.name = fn.name + ("" if not choice else
                               "[" + ",".join(f"{k}={v}" for k, v in choice.items()) + "]")
        self.facts = []
        self.factseen = {}
        self.obligs = []
        self.error = None
        self.refused = None    # exception the code raises on every path
        self.lost = []         # (path condition, exception) of paths that leave the driver
        self.leaves = {}       # (exception, place) -> valuations on which it leaves the driver
        self.standing = set()  # spec functions that stand in for library functions
        self.it = None

    # -------------------------------------------------------- static facts --
    def valuation(self, i):
        # common random numbers per driver: reproducible from VERIF_SEED
        rng = np.random.default_rng([self.seed, zlib.crc32(self.name.encode()), i])
        env = {}
        for p, d in self.doms.items():
            if d.kind != "each":
                env[p] = d.draw(rng, i)
        return env

    def probes(self):
        if not hasattr(self, "_probes"):
            self._probes = []
            for i in range(8):
                p = Ev(self.valuation(1000 + i))
                p.probe = True
                self._probes.append(p)
        return self._probes

    def textprobes(self):
        """one valuation for every text"""
        if not hasattr(self, "_textprobes"):
            self._textprobes = []
            for i in range(11):
                p = Ev(self.valuation(2002 + i))
                p.probe = True
                self._textprobes.append(p)
        return self._textprobes

    def shape_of(self, it, t):
        if t.id in self.factseen:
            return self.factseen[t.id]
        self.factseen[t.id] = None     # recursion guard
        shapes = set()
        ok = 0
        for ev in self.probes():
            try:
                with quiet():
                    v = ev.ev(t)
                if isinstance(v, (np.ndarray, np.generic)):
                    shapes.add(v.shape)
                elif isinstance(v, (list, tuple, str)):
                    shapes.add(("len", len(v)))
                elif isinstance(v, (int, float)):
                    shapes.add(())
                else:
                    shapes.add("other")
                ok += 1
            except Undef:
                pass
            if ok == 3:
                break
        r = None
        if ok == 3 and len(shapes) == 1:
            r = shapes.pop()
            if r == "other":
                r = None
            else:
                self.facts.append((t, r))
                if r and r[0] == "len":
                    r = (r[1],)
        self.factseen[t.id] = r
        return r

    def truth_of(self, it, c):
        if not (c.op == "raises" or shape_only(c)):
            return None
        key = ("t", c.id)
        if key in self.factseen:
            return self.factseen[key]
        vals = set()
        ok = 0
        need = 3
        probes = self.probes()
        texts = frozenset(p for p, d in self.doms.items() if d.kind == "text")
        if texts and mentions(c, texts):
            probes = self.textprobes()
            need = len(probes)
        for ev in probes:
            try:
                with quiet():
                    vals.add(bool(ev.cond(c)))
                ok += 1
            except Undef:
                pass
            if ok == need:
                break
        r = None
        if ok == need and len(vals) == 1:
            r = vals.pop()
            self.facts.append((c, ("truth", r)))
        self.factseen[key] = r
        return r

    # ------------------------------------------------------------ building --
    def build(self):
        it = Interp(self.prog, self.shape_of)
        it.truth_of = self.truth_of
        it.exact = True
        it.facts = self.facts
        it.deadline = time.process_time() + BUDGET
        it.escapes = [[]]
        self.it = it
        for n in ("EQ", "HOLDS", "ASSUME", "CLOSE", "FRESH"):
            it.intrinsics["spec." + n] = getattr(self, "i_" + n)
        st = State()
        self.models(it, st)
        args = []
        for p in self.fn.args.args:
            d = self.doms[p.arg]
            if p.arg in self.choice:
                v = self.choice[p.arg]
                args.append(self.constval(it, st, v))
                continue
            if d.scalar():
                kind = {"boolean": "bool", "text": "str"}.get(d.kind, "num")
                # the kind is part of the name: drivers share the term table
                n = mk("sym", p.arg, kind, kind=kind)
                it.domain[p.arg] = d
                args.append(n)
            else:
                args.append(it.arr(st, mk("sym", p.arg), ("param", p.arg)))
        try:
            it.call_function(st, Func(self.fn, self.mod), args, {})
        except AbsRaise as e:
            last = [x for x in it.effects if x.kind == "raise"]
            self.error = f"raises {e.exc} at {last[-1].loc if last else '?'}"
            src = getattr(e.exc, "src", None)
            if src is not None and SPECDIR not in src[0]:
                self.refused = (str(e.exc), src)
            self.lost.append((st.pc, it.located(e.exc)))
        except Give as e:
            self.error = f"not modelled: {e} at {it.loc}"
        self.lost += [(s.pc, x) for s, x in it.escapes[0]]
        it.escapes = [[]]
        return self

    def models(self, it, st):
        """MODELS = {"qualified name": spec function or class name}: what stands
        in for an external program or a part summarised in this spec file"""
        for s in self.mod.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) \
                    and s.targets[0].id == "MODELS":
                for k, v in zip(s.value.keys, s.value.values):
                    self.standing.add(f"{self.mod.name}.{v.id}")

                    def h(it, st, args, kw, name=v.id, of=replaced(it.prog, k.value)):
                        if of is not None and not fits(of[1], args, kw):
                            raise it.misfit(Func(of[1], of[2]))
                        return it.call(st, it.module_value(st, self.mod, name), args, kw)
                    if k.value in OBJECTS:
                        it.stand_ins[k.value] = h
                    else:
                        it.intrinsics[k.value] = h
                        if any(isinstance(c, ast.ClassDef) and c.name == v.id for c in self.mod.tree.body):
                            it.class_models[k.value] = lambda st, name=v.id: it.module_value(st, self.mod, name)

    def constval(self, it, st, v):
        if isinstance(v, tuple):
            return it.new_list(st, [self.constval(it, st, x) for x in v])
        return const(v)

    def add(self, it, st, kind, label, terms, opts):
        # path conditions opened by earlier obligations stay in force
        self.obligs.append(Oblig(kind, f"{self.name}:{label}", terms, st.pc, it.loc,
                                 tuple(it.stack), opts))
        return NONE

    def i_EQ(self, it, st, args, kw):
        lab = cval(args[0]) if is_const(args[0]) else show(it.term(st, args[0]))
        opts = {k: cval(v) for k, v in kw.items()}
        return self.add(it, st, "eq", lab, (it.term(st, args[1]), it.term(st, args[2])), opts)

    i_CLOSE = i_EQ

    def i_HOLDS(self, it, st, args, kw):
        lab = cval(args[0]) if is_const(args[0]) else show(it.term(st, args[0]))
        return self.add(it, st, "holds", lab, (it.term(st, args[1]),), {k: cval(v) for k, v in kw.items()})

    def i_FRESH(self, it, st, args, kw):
        """FRESH(function, ...): what the call gives in a program that did
        nothing else before; the state of modules, classes, defaults and
        decorators is put back afterwards"""
        imp = it.import_state
        keep = set()
        todo = [k for k in imp.heap if k[0] in ("g", "dflt", "c") and str(k[1]).startswith("spec_")]
        while todo:
            k = todo.pop()
            if k not in keep:
                keep.add(k)
                todo += it.import_deps.get(k, ())
        gone = {k: v for k, v in st.heap.items()
                if k not in keep and (k in imp.heap or k[0] in ("g", "c", "dflt", "memo")
                                      and not str(k[1]).startswith("spec_"))}
        env = {f: d for f, d in st.env.items() if f in imp.env}
        for k in gone:
            del st.heap[k]
        for f in env:
            st.env[f] = dict(imp.env[f])
        v = it.call(st, args[0], list(args[1:]), dict(kw))
        for k in [k for k in st.heap if k not in gone and k not in keep and
                  (k in imp.heap or k[0] in ("g", "c", "dflt", "memo") and not str(k[1]).startswith("spec_"))]:
            del st.heap[k]
        st.heap.update(gone)
        st.env.update(env)
        return v

    def i_ASSUME(self, it, st, args, kw):
        c = it.truth(st, args[0])
        if c is TRUE:
            return NONE
        s = it.assume(st, c, True)
        st.pc = s.pc
        return NONE

    # ------------------------------------------------------------ deciding --
    def decide(self, trials, pairs=0, seconds=0):
        gates = {}
        for o in self.obligs:
            if o.kind == "eq" and o.terms[0] is o.terms[1]:
                o.status = "same"
            elif o.kind == "holds" and o.terms[0] is TRUE:
                o.status = "same"
        todo = [o for o in self.obligs if o.status is None]
        if not todo and not self.lost:
            return gates
        end = time.process_time() + BUDGET
        self.crossings = 0
        seen = []
        for i in range(trials):
            if time.process_time() > end:
                break
            seen.append(self.visit(todo, self.valuation(i), i, gates))
        if pairs and any(d.kind in CONTINUOUS for d in self.doms.values()):
            self.crossing(todo, seen[:24], gates, pairs, min(end, time.process_time() + seconds))
        for o in todo:
            if o.status is None and not o.conclusive and len(getattr(o, "raised", [])) >= 3:
                # rejected for every member of the domain
                env, x, ref = o.raised[0]
                o.status = "differ"
                o.witness = {"valuation": {k: brief(v) for k, v in env.items()}, "code": "raises " + x, "reference": ref}
            if o.status is None:
                o.status = "agree" if o.conclusive else "undecided"
        return gates

    def visit(self, todo, env, salt, gates):
        """all open obligations under one valuation"""
        ev = Ev(env)
        ev.salt = salt
        ev.gates = gates
        with quiet():
            bad = self.facts_fail(ev)
            if not bad:
                self.leaving(ev, env)
            for o in todo:
                if o.status == "differ":
                    continue
                o.trials += 1
                if bad:
                    o.skipped += 1
                    continue
                self.one(o, ev, env)
        return ev

    def leaving(self, ev, env):
        """exceptions raised in the code that leave the driver under this valuation"""
        for pc, x in self.lost:
            at = x.src or x.at
            if at is None or not (x.src or x.sure):
                continue
            if SPECDIR in at[0] and not (x.call and at[2] in self.standing):
                continue
            try:
                if all(ev.cond(c) == p for c, p in pc):
                    self.leaves.setdefault((str(x), at), []).append(env)
            except Undef:
                pass

    def comparisons(self, todo):
        """order comparisons of code and reference, unshared ones first"""
        sides = ({}, {})
        for o in todo:
            if o.status == "differ":
                continue
            for n in walk(o.terms[-1]):
                sides[1][n.id] = n
            for t in list(o.terms[:-1]) + [c for c, _ in o.pc]:
                for n in walk(t):
                    sides[0][n.id] = n
        out = []
        for n in {**sides[0], **sides[1]}.values():
            if n.op == "cmp" and n.args[0] in ("<", "<=", ">", ">="):
                out.append((n.id in sides[0] and n.id in sides[1], n.id, n))
        return [n for _, _, n in sorted(out, key=lambda x: x[:2])]

    def crossing(self, todo, evs, gates, pairs, end):
        """valuations next to the places where a comparison changes its outcome:
        between two members of the domain on either side of it, by bisection"""
        rng = np.random.default_rng([self.seed, 5])
        cmps = self.comparisons(todo)
        plan = []
        with quiet():
            for n in cmps:
                by = {}
                for k, ev in enumerate(evs):
                    try:
                        v = np.asarray(ev.ev(n))
                    except Undef:
                        continue
                    if v.dtype.kind == "b" and 0 < v.size <= 4096:
                        by.setdefault(v.shape, []).append((k, v.reshape(-1)))
                for rows in by.values():
                    m = np.array([r for _, r in rows])
                    mixed = np.nonzero(np.any(m, 0) & ~np.all(m, 0))[0]
                    if not len(mixed):
                        continue
                    for el in rng.permutation(mixed)[:2]:
                        yes = rng.choice(np.nonzero(m[:, el])[0])
                        no = rng.choice(np.nonzero(~m[:, el])[0])
                        plan.append((n, el, evs[rows[yes][0]], evs[rows[no][0]]))
        if len(plan) > pairs:
            first = [x for i, x in enumerate(plan) if not i or plan[i - 1][0] is not x[0]]
            plan = (first + [x for x in plan if not any(x is y for y in first)])[:pairs]
        for n, el, a, b in plan:
            if time.process_time() > end:
                break
            if all(o.status == "differ" for o in todo):
                break
            self.bisect(todo, n, el, a, b, gates)

    def bisect(self, todo, n, el, a, b, gates):
        def at(t):
            env = {k: between(self.doms[k], a.env[k], b.env[k], t) for k in a.env}
            return env

        def side(t):
            ev = Ev(at(t))
            ev.salt = a.salt
            try:
                with quiet():
                    return bool(np.asarray(ev.ev(n)).reshape(-1)[el])
            except (Undef, IndexError):
                return None
        s0, s1 = side(0.), side(1.)
        if s0 is None or s1 is None or s0 == s1:
            return
        lo, hi = 0., 1.
        for _ in range(14):
            m = (lo + hi) / 2
            s = side(m)
            if s is None:
                return
            lo, hi = (m, hi) if s == s0 else (lo, m)
        self.crossings += 1
        for d in (.001, .004):
            for t in (lo - d, hi + d):
                if 0 <= t <= 1:
                    self.visit(todo, at(t), a.salt, gates)

    def facts_fail(self, ev):
        for t, r in self.facts:
            try:
                if isinstance(r, tuple) and r and r[0] == "truth":
                    if bool(ev.cond(t)) != r[1]:
                        return True
                    continue
                v = ev.ev(t)
                if isinstance(v, (np.ndarray, np.generic)):
                    s = v.shape
                elif isinstance(v, (list, tuple, str)):
                    s = ("len", len(v))
                elif isinstance(v, (int, float)):
                    s = ()
                else:
                    s = None
                if s != r:
                    return True
            except Undef:
                pass
        return False

    def one(self, o, ev, env):
        try:
            for c, p in o.pc:
                if ev.cond(c) != p:
                    o.skipped += 1
                    return
        except Undef as e:
            o.why = f"path condition: {e}"
            return
        try:
            ref = ev.ev(o.terms[-1])
        except Undef as e:
            o.why = f"reference: {e}"
            return
        if o.kind == "holds":
            r = bool(np.all(ref))
            got = ref
        else:
            try:
                got = ev.ev(o.terms[0])
            except Raised as e:
                # the primitive rejects a value of the declared domain
                o.why = f"raises {e}"
                if isinstance(e.exc, (ValueError, IndexError, KeyError)) or \
                        isinstance(e.exc, TypeError) and any(m in str(e.exc) for m in NOTYPE):
                    o.raised = getattr(o, "raised", []) + [(env, repr(e.exc), brief(ref))]
                return
            except Undef as e:
                o.why = f"code: {e}"
                return
            r = close(got, ref, **{k: v for k, v in o.opts.items() if k in ("rtol", "atol")})
        if r is None:
            o.why = "reference undefined"
            return
        if not r and not o.opts.get("exact") and not self.stable(o, env, got, ref, ev.salt):
            o.why = "difference not stable under rounding-size perturbation"
            o.skipped += 1
            return
        o.conclusive += 1
        if not r:
            o.fails = getattr(o, "fails", 0) + 1
            if o.fails >= 2 or o.kind == "holds" and not o.opts.get("exact"):
                o.status = "differ"
                o.witness = {"valuation": {k: brief(v) for k, v in env.items()},
                             "code": brief(got), "reference": brief(ref)}

    def stable(self, o, env, got, ref, salt):
        """a difference counts only where neither side sits on a knife edge:
        both keep their value when the valuation moves by rounding errors"""
        rng = np.random.default_rng([self.seed, 77])
        for _ in range(2):
            e2 = {}
            for k, v in env.items():
                if isinstance(v, np.ndarray) and v.dtype.kind == "f" or type(v) is float:
                    v = v * (1 + 1e-12 * rng.uniform(-1, 1, np.shape(v)))
                    if np.ndim(v) == 0:
                        v = float(v)
                e2[k] = v
            ev = Ev(e2)
            ev.salt = salt
            try:
                for c, p in o.pc:
                    if ev.cond(c) != p:
                        return False
                r2 = ev.ev(o.terms[-1])
                if o.kind == "holds":
                    if bool(np.all(r2)) != bool(np.all(ref)):
                        return False
                    continue
                g2 = ev.ev(o.terms[0])
            except Undef:
                return False
            kw = {k: v for k, v in o.opts.items() if k in ("rtol", "atol")}
            if close(r2, ref, **kw) is not True or (close(g2, got, **kw) is not True and not hasnan(got)):
                if not outweighs(got, ref, g2, r2) and not worded(got, ref, g2, r2):
                    return False
        if o.kind == "holds":
            return True
        # the required value is not made of rounding errors (a cancellation)
        for k in range(2):
            ev = Rounding(env)
            ev.salt = salt
            ev.seed = self.seed + k
            try:
                r2 = ev.ev(o.terms[-1])
            except Undef:
                return False
            if close(r2, ref, **kw) is not True and not outweighs(got, ref, got, r2) and \
                    not worded(got, ref, got, r2):
                return False
        return True

    def constructs(self, o, limit=12):
        """repository source locations feeding only the code side"""
        ref = {n.id for n in walk(o.terms[-1])} if o.kind == "eq" else set()
        locs = {}
        for n in walk(o.terms[0]):
            if n.id in ref or n.loc is None:
                continue
            p, l, f = n.loc
            if SPECDIR in p:
                continue
            locs.setdefault(f, set()).add(l)
        if not locs:
            locs = {f: {0} for f in sorted(self.it.visited) if not f.startswith("spec_")}
            return sorted(locs)[:limit]
        return [f"{f}:{','.join(map(str, sorted(ls)))}" for f, ls in sorted(locs.items())][:limit]


def hasnan(v):
    try:
        return bool(np.any(np.isnan(np.asarray(v, float))))
    except (TypeError, ValueError):
        return False


def brief(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, precision=6, threshold=40)
    return repr(v)[:300]


def textual(c):
    """a test on text (searching, comparing, matching)"""
    if c.op == "cmp":
        return any(isinstance(a, Node) and (a.kind in ("str", "bytes") or a.op == "mcall" and a.args[0] in TEXTOPS)
                   for a in c.args[1:])
    return c.op == "mcall" and c.args[0] in ("startswith", "endswith", "isdigit") or \
        c.op == "call" and c.args[0] in ("re.match", "re.search", "re.fullmatch")


TEXTOPS = ("decode", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "join", "split", "rsplit", "splitlines",
           "encode", "removeprefix", "removesuffix", "casefold", "partition", "rpartition", "expandtabs", "capitalize")
_so = {}


def shape_only(c):
    r = _so.get(c.id)
    if r is None:
        if c.op in SHAPEOPS or c.op == "call" and c.args[0] in (
                "builtins.len", "builtins.hasattr", "numpy.ndim", "numpy.shape"):
            r = True
        elif c.op == "isnone" or textual(c):
            r = True
        elif c.op == "sym":
            r = c.args[0] in ("pi", "e")
        elif c.op in ("phi", "loopvar", "foldout", "elem"):
            r = False
        else:
            r = all(shape_only(x) for x in children(c))
        _so[c.id] = r
    return r


_mentions = {}


def mentions(c, names):
    """does the term depend on one of these symbols"""
    r = _mentions.get((c.id, names))
    if r is None:
        r = c.args[0] in names if c.op == "sym" else any(mentions(x, names) for x in children(c))
        _mentions[c.id, names] = r
    return r


class quiet:
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.e = np.errstate(all="ignore")
        self.e.__enter__()

    def __exit__(self, *a):
        self.e.__exit__(*a)
        self.w.__exit__(*a)


def load(root, specs):
    extra = [("spec_" + s, os.path.join(SPECDIR, s + ".py")) for s in specs]
    return Program(root, extra=extra)


def drivers(prog, spec, prefix, seed=1):
    mod = prog.modules["spec_" + spec]
    consts = {}
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            try:
                consts[s.targets[0].id] = literal(s.value, consts)
            except (ValueError, KeyError, TypeError):
                pass
    for s in mod.tree.body:
        if isinstance(s, ast.FunctionDef) and s.name.startswith(prefix + "_"):
            ps = [p.arg for p in s.args.args]
            doms = {p: parse_dom(d, consts) for p, d in zip(ps, s.args.defaults)}
            for c in combos(doms):
                yield Driver(prog, mod, s, c, doms, seed)
