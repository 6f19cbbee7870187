"""parse the package, resolve modules, classes and their linearisation"""
import ast
import os


class ClassInfo:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases = []          # ClassInfo or external qualified name
        self.methods = {}        # name -> FunctionDef (getter for properties)
        self.setters = {}
        self.kind = {}           # name -> 'method'|'property'|'static'|'class'
        self.decos = {}
        self.assigns = {}        # class level name -> expr
        self.mro = None

    @property
    def qual(self):
        return f"{self.mod.name}.{self.name}"


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}   # name -> ('func',node)|('class',info)|('expr',node)|('import',mod,attr|None)
        self.order = []


class Program:
    def __init__(self, root, package="raytools", extra=()):
        self.root = root
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                self.add(rel, p)
        for name, p in extra:
            self.add(name, p)
        self.stand_in = {}       # library class -> specification class
        for name, _ in extra:
            m = self.modules[name]
            for x in m.tree.body:
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "BASES":
                    for k, v in zip(x.value.keys, x.value.values):
                        self.stand_in[k.value] = m.names[v.id][1]
        for m in self.modules.values():
            self._resolve_classes(m)

    def add(self, name, path):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree, src)
        self.modules[name] = m
        self._collect(m, tree.body)

    def _collect(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef,)):
                m.names[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                m.names[s.name] = ("class", self._class(s, m))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("import", a.name, None)
                    else:
                        m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                modname = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    modname = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name != "*":
                        m.names[a.asname or a.name] = ("import", modname, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("expr", s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                            len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                m.names[a.id] = ("expr", b)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                m.names[s.target.id] = ("expr", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(m, s.body)
                for x in getattr(s, "handlers", []):
                    self._collect(m, x.body)
                self._collect(m, s.orelse)

    def _class(self, node, m):
        c = ClassInfo(node.name, node, m)
        self._class_body(c, node.body)
        return c

    def _class_body(self, c, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                kind, setter = "method", False
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        kind = "property"
                    elif isinstance(d, ast.Name) and d.id == "staticmethod":
                        kind = "static"
                    elif isinstance(d, ast.Name) and d.id == "classmethod":
                        kind = "class"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        setter = True
                    elif isinstance(d, ast.Attribute) and d.attr == "cached_property" or \
                            isinstance(d, ast.Name) and d.id == "cached_property":
                        kind = "property"
                if setter:
                    c.setters[s.name] = s
                else:
                    c.methods[s.name] = s
                    c.kind[s.name] = kind
                    c.decos[s.name] = s.decorator_list
                    c.assigns.pop(s.name, None)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.assigns[t.id] = s.value
                        c.methods.pop(t.id, None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                c.assigns[s.target.id] = s.value

    # ------------------------------------------------------------- resolve --
    def resolve(self, mod, name, depth=0):
        """resolve name in module -> ('func',node,mod)|('class',info)|('mod',name)|('ext',qual)|('expr',node,mod)|None"""
        if depth > 20:
            return None
        e = mod.names.get(name)
        if e is None:
            # submodule
            q = f"{mod.name}.{name}"
            if q in self.modules:
                return ("mod", q)
            return None
        if e[0] == "func":
            return ("func", e[1], mod)
        if e[0] == "class":
            return ("class", e[1])
        if e[0] == "expr":
            return ("expr", e[1], mod)
        _, mname, attr = e
        if attr is None:
            if mname in self.modules:
                return ("mod", mname)
            return ("ext", mname)
        if mname in self.modules:
            r = self.resolve(self.modules[mname], attr, depth + 1)
            if r is not None:
                return r
            if f"{mname}.{attr}" in self.modules:
                return ("mod", f"{mname}.{attr}")
            return None
        if f"{mname}.{attr}" in self.modules:
            return ("mod", f"{mname}.{attr}")
        return ("ext", f"{mname}.{attr}")

    def _resolve_classes(self, m):
        for e in m.names.values():
            if e[0] == "class" and not e[1].bases:
                c = e[1]
                for b in c.node.bases:
                    b = self._base(m, b)
                    c.bases.append(self.stand_in.get(b, b) if isinstance(b, str) else b)

    def _base(self, m, b):
        if isinstance(b, ast.Name):
            r = self.resolve(m, b.id)
            if r is None:
                return "builtins." + b.id
            if r[0] == "class":
                return r[1]
            if r[0] == "ext":
                return r[1]
            return b.id
        if isinstance(b, ast.Attribute):
            inner = self._base(m, b.value) if isinstance(b.value, (ast.Name, ast.Attribute)) else None
            if isinstance(b.value, ast.Name):
                r = self.resolve(m, b.value.id)
                if r and r[0] == "mod":
                    rr = self.resolve(self.modules[r[1]], b.attr)
                    if rr and rr[0] == "class":
                        return rr[1]
                if r and r[0] == "ext":
                    return f"{r[1]}.{b.attr}"
            return f"{inner}.{b.attr}"
        return ast.unparse(b)

    def mro(self, c):
        if c.mro is None:
            c.mro = self._c3(c)
        return c.mro

    def _c3(self, c):
        seqs = [list(self.mro(b)) for b in c.bases if isinstance(b, ClassInfo)]
        seqs.append([b for b in c.bases if isinstance(b, ClassInfo)])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise TypeError("inconsistent mro " + c.name)
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, c, name, after=None):
        """find attribute in class linearisation -> (kind, node, owner)"""
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return (k.kind[name], k.methods[name], k)
            if name in k.assigns:
                return ("assign", k.assigns[name], k)
            if name in k.setters:
                return ("property", None, k)
        return None

    def lookup_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return (k.setters[name], k)
            if name in k.methods or name in k.assigns:
                return None
        return None

    def classes(self):
        for m in self.modules.values():
            for e in m.names.values():
                if e[0] == "class":
                    yield e[1]

    def functions(self):
        """(qualified name, FunctionDef, Module, ClassInfo|None)"""
        for m in self.modules.values():
            for n, e in m.names.items():
                if e[0] == "func":
                    yield f"{m.name}.{n}", e[1], m, None
                elif e[0] == "class":
                    for k, f in e[1].methods.items():
                        yield f"{m.name}.{n}.{k}", f, m, e[1]
                    for k, f in e[1].setters.items():
                        yield f"{m.name}.{n}.{k}.setter", f, m, e[1]

    def cls(self, qual):
        modn, _, n = qual.rpartition(".")
        m = self.modules.get(modn)
        if m is None:
            return None
        r = self.resolve(m, n)
        return r[1] if r and r[0] == "class" else None
