"""C01: no in-place operation reaches storage of an argument"""
import re
import ast

from ..values import program
from ..whole import Whole, origins, scalar_default
from ..terms import Node, show

RULE = "caller data"
TEXT = ("alias and effect analysis: every public function and method interpreted from symbolic arguments; an in-place "
        "operation (item, slice or .flat assignment, augmented assignment, out=, mutating method or function) whose "
        "target may share storage with an argument is a violation")
# image arrays handed over to be drawn on
DRAWN = {("add_vecs_to_img", "img")}
LISTMUT = {"append", "extend", "insert", "remove", "clear", "pop", "reverse", "update", "setdefault", "popitem",
           "add", "discard", "sort", "fill", "itemset", "partition", "put", "resize", "setfield", "setflags"}
# parameters holding one number or text: augmented assignment rebinds
SCALARS = {"ang", "axis", "res", "side", "tol", "scale", "threshold", "viewangle", "age", "f", "fwidth", "n", "nproc",
           "imgf", "outf", "outdir", "suffix", "name", "desc", "s", "pval", "dtype", "mode", "view", "aspect", "basefile",
           "subd", "peakt", "peaka", "cosrad", "radius", "ev_eye", "ev", "pupa", "pupd", "illum", "mi", "depth", "da",
           "features", "jitterrate", "jitter", "channels", "grow", "spacespertab", "outtab", "headerwidth", "file", "end",
           "offset", "vv", "vh", "cap", "context", "workers", "ncols", "position", "instance", "stdin", "vpt"}


ARRAYS = {"sigma"}


def scalar(r, p):
    if p in ARRAYS:
        return False
    fns = [r.fn]
    if r.cls is not None:
        k = r.cls
        fns += [m.methods["__init__"] for m in [k] if "__init__" in m.methods]
    for fn in fns:
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        if p not in names:
            continue
        if scalar_default(fn, p):
            return True
        doc = ast.get_docstring(fn) or ""
        m = re.search(r"^\s*" + re.escape(p) + r"\s*:\s*(.+)$", doc, re.M)
        if m:
            t = m.group(1)
            if re.search(r"\b(float|int|bool|str)\b", t) and not re.search(r"array|np\.|list|tuple|Sequence|Iterable", t):
                return True
    if p == "theta" and r.fn.name in ("rmtx_elem", "rotate_elem"):
        return True
    return p in SCALARS


def run(rep):
    rep.rule(RULE, TEXT)
    w = Whole(program(rep.root))
    n = sites = 0
    for r in w.roots():
        w.run(r)
        n += 1
        if r.error:
            rep.unsure(RULE, r.qual, r.error)
        bad = {}
        for e in r.effects:
            if e.kind == "mutate":
                sites += 1
                org, how = e.data[0], e.data[1]
                if org[0] == "param":
                    ps = {org[1]}
                elif org[0] == "node":
                    ps = origins(org[1])
                elif org == "fresh" and len(e.data) > 2 and isinstance(e.data[2], Node):
                    ps = set()
                else:
                    ps = set()
            elif e.kind == "method" and e.data[0] in LISTMUT:
                how = "." + e.data[0] + "()"
                t = e.data[4]
                ps = origins(t)
                sites += 1
            elif e.kind == "setattrext" and e.data[1] in ("flat", "shape", "real", "imag", "dtype", "strides"):
                how = "." + e.data[1] + "="
                ps = origins(e.data[0])
                sites += 1
            else:
                continue
            for p in ps - {"pi", "e"}:
                if (r.fn.name, p) in DRAWN or any((f.split(".")[-1], p) in DRAWN for f in e.stack):
                    continue
                if how.startswith("aug") and scalar(r, p):
                    continue
                bad.setdefault((p, how, e.loc[2]), e.loc)
        if bad:
            for (p, how, f), loc in sorted(bad.items()):
                rep.violation(RULE, f"{f}: {p} ({how})",
                              f"argument '{p}' of {r.qual} is changed in place ({how}) in {f} line {loc[1]}")
        elif not r.error:
            rep.ok(RULE, r.qual, f"{len(r.effects)} effects")
    rep.need("public functions and methods", n, 200)
    rep.need("in-place operations examined", sites, 100)
