"""size thresholds: constants that decide what happens to large inputs

A driver interprets the code for inputs of a handful of elements.  Code that
treats large inputs apart compares a size (a length, a shape entry, a
resolution) with a constant, cuts an array at one or steps through it in blocks
of one, and no input of the driver gets there.  Such constants are found in the
source, and the drivers reaching them are interpreted again on a program in
which the constant is a small number: what has to hold for every size has to
hold wherever the border between small and large is drawn.
"""
import ast

LEAST = 5            # smaller borders lie within the sizes of the drivers
SMALL = (2, 3)       # what the constants become
SIZES = {"shape", "size", "nbytes"}
NAMES = {"res", "_res", "resolution", "npix", "nrays", "nvecs", "npts", "nsamples", "rows", "cols", "nrows", "ncols"}
# borders the package has by definition: the solid angles of sets of more than
# 100 rays are fitted to the view, for smaller ones they are taken as given
MEANT = {("raytools.evaluate", v) for v in (100, 101)}
ORDER = (ast.Lt, ast.LtE, ast.Gt, ast.GtE)
SPLIT = (ast.FloorDiv, ast.Div, ast.Mod)


def number(e):
    """value of an expression of integer literals"""
    if isinstance(e, ast.Constant) and type(e.value) in (int, float) and e.value == int(e.value if abs(e.value) < 1e18 else 0):
        return int(e.value)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Pow, ast.LShift)):
        a, b = number(e.left), number(e.right)
        if a is None or b is None or abs(a) > 1e9 or abs(b) > (64 if not isinstance(e.op, ast.Mult) else 1e9):
            return None
        return a * b if isinstance(e.op, ast.Mult) else a ** b if isinstance(e.op, ast.Pow) else a << b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "int" and len(e.args) == 1:
        return number(e.args[0])
    return None


class Finder:
    """size comparisons of one function"""

    def __init__(self, prog, mod, cls, fn):
        self.prog, self.mod, self.cls, self.fn = prog, mod, cls, fn
        self.sizey = set()
        self.defaults = {}
        for f in ast.walk(fn):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                a = f.args
                pos = a.posonlyargs + a.args
                for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                        [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                    self.defaults[p.arg] = d
        self.local = {}
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.local.setdefault(s.targets[0].id, []).append(s.value)
        while True:
            n = len(self.sizey)
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign) and self.size(s.value):
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.sizey.add(x.id)
            if len(self.sizey) == n:
                break

    def size(self, e):
        """is the value a size or calculated from sizes only"""
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "len":
                return True
            f = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
            if f in ("prod", "min", "max", "int", "ceil", "floor", "product", "size", "abs", "round", "sum") and e.args:
                return any(self.size(a) for a in e.args)
            return False
        if isinstance(e, ast.Attribute):
            return e.attr in SIZES or e.attr in NAMES
        if isinstance(e, ast.Name):
            return e.id in self.sizey or e.id in NAMES
        if isinstance(e, ast.Subscript):
            return self.size(e.value)
        if isinstance(e, ast.BinOp):
            return self.size(e.left) or self.size(e.right)
        if isinstance(e, ast.UnaryOp):
            return self.size(e.operand)
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(self.size(x) for x in e.elts)
        return False

    def constant(self, e, depth=0):
        """expressions that define the constant -> (value, nodes)"""
        v = number(e)
        if v is not None:
            return v, [e]
        if depth > 3:
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add, ast.Sub)):
            a, b = self.constant(e.left, depth + 1), self.constant(e.right, depth + 1)
            if a and b:
                return max(a, b, key=lambda x: x[0])
            return None
        if isinstance(e, ast.Name):
            if e.id in self.local:
                vs = [self.constant(x, depth + 1) for x in self.local[e.id]]
                return vs[0] if len(vs) == 1 and vs[0] else None
            if e.id in self.defaults:
                return self.constant(self.defaults[e.id], depth + 1)
            r = self.prog.resolve(self.mod, e.id)
            if r and r[0] == "expr":
                return self.constant(r[1], depth + 1)
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if e.value.id in ("self", "cls") and self.cls is not None:
                r = self.prog.lookup(self.cls, e.attr)
                if r and r[0] == "assign":
                    return self.constant(r[1], depth + 1)
            r = self.prog.resolve(self.mod, e.value.id)
            if r and r[0] == "class":
                r = self.prog.lookup(r[1], e.attr)
                return self.constant(r[1], depth + 1) if r and r[0] == "assign" else None
            if r and r[0] == "mod":
                r = self.prog.resolve(self.prog.modules[r[1]], e.attr)
                return self.constant(r[1], depth + 1) if r and r[0] == "expr" else None
        return None

    def border(self, e, least=LEAST):
        c = self.constant(e)
        return c if c and c[0] >= least else None

    def found(self):
        """-> (node, value, defining nodes)"""
        for e in ast.walk(self.fn):
            if isinstance(e, ast.Compare):
                xs = [e.left] + e.comparators
                for a, op, b in zip(xs, e.ops, xs[1:]):
                    if isinstance(op, ORDER):
                        for s, k in ((a, b), (b, a)):
                            if self.size(s) and not self.size(k):
                                c = self.border(k)
                                if c:
                                    yield e, *c
            elif isinstance(e, ast.BinOp) and isinstance(e.op, SPLIT) and self.size(e.left) and not self.size(e.right):
                c = self.border(e.right)
                if c:
                    yield e, *c
            elif isinstance(e, ast.Call):
                f = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
                if f == "range" and len(e.args) == 3 and self.size(e.args[1]) or f in ("min", "max", "divmod", "minimum", "maximum") \
                        and any(self.size(a) for a in e.args):
                    for a in (e.args[2:] if f == "range" else e.args):
                        c = None if self.size(a) else self.border(a)
                        if c:
                            yield e, *c
            elif isinstance(e, ast.Slice):
                for a in (e.lower, e.upper):
                    c = self.border(a, 16) if a is not None and not self.size(a) else None
                    if c:
                        yield e, *c


def functions(prog):
    for q, fn, m, c in prog.functions():
        if not m.name.startswith("spec_"):
            yield q, fn, m, c


def find(prog):
    """[(functions, value, places of the defining expressions)], a place is (module, position)"""
    out = {}
    for q, fn, m, c in functions(prog):
        for node, v, defs in Finder(prog, m, c, fn).found():
            mods = [x for x in prog.modules.values() if any(d is y for d in defs for y in ast.walk(x.tree))]
            if not mods:
                continue
            place = []
            for d in defs:
                place.append((mods[0].name, d.lineno, d.col_offset, d.end_col_offset))
                # the same literal again in this function belongs to it
                if mods[0] is m and any(d is y for y in ast.walk(fn)):
                    place += [(m.name, y.lineno, y.col_offset, y.end_col_offset) for y in ast.walk(fn)
                              if isinstance(y, type(d)) and number(y) == v]
            if any(m.name.startswith(a) and v == b for a, b in MEANT):
                continue
            key = (v, tuple(sorted(set(place))))
            out.setdefault(key, set()).add((q, node.lineno))
    return [(sorted({q.removesuffix(".setter") for q, _ in k}), v, p) for (v, p), k in out.items()]


def scale(prog, places, k):
    """make the constants small in a freshly loaded program"""
    for mod, line, col, end in places:
        for x in ast.walk(prog.modules[mod].tree):
            if isinstance(x, (ast.Constant, ast.BinOp, ast.Call)) and \
                    (x.lineno, x.col_offset, x.end_col_offset) == (line, col, end):
                # in place: tables of the program refer to the same nodes
                if isinstance(x, ast.Constant):
                    x.value = k
                elif isinstance(x, ast.BinOp):
                    x.left, x.op, x.right = ast.copy_location(ast.Constant(k), x), ast.Mult(), ast.copy_location(ast.Constant(1), x)
                else:
                    x.args = [ast.copy_location(ast.Constant(k), x)]
    return prog
