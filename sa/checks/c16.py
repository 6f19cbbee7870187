"""C16: every declared command line option is bound to a parameter of its
command and converted to the kind of value it documents"""
import ast

from ..values import program

BOUND = "option is bound"
KIND = "option kind"
BOUND_TEXT = ("for every click option and argument of every command: the name click derives from the declaration is an explicit "
              "parameter of the command function (a name swallowed by ** never takes effect), and the value of that parameter is read")
KIND_TEXT = ("for every option: the kind of value the declaration produces (callback, type, flag or default) is the one it documents")
FRAMEWORK = {"opts", "debug", "version", "help"}      # handled by clasp
CALLBACK = {"split_str": "strings", "split_int": "ints", "split_float": "floats", "are_files": "files", "is_file": "file"}
DOC = {
    "main": {"n": "int"},
    "metric": {"imgs": "files", "metrics": "strings", "parallel": "flag", "peakn": "flag", "peaka": "float", "peakt": "float",
               "peakr": "float", "threshold": "float", "scale": "float", "lumrgb": "floats", "blursun": "flag",
               "gssimage": "flag", "lowlight": "flag"},
    "project": {"img": "files", "uv2ang": "flag", "useview": "flag", "stdout": "flag"},
    "align": {"img": "files", "rotate": "float", "center": "ints", "rotate_first": "flag", "nearest": "flag", "stdout": "flag"},
    "solid2ang": {"img": "files", "reverse": "flag", "nearest": "flag", "stdout": "flag", "viewangle": "float"},
    "cleanheader": {"img": "file"},
    "smooth": {"dataf": "file", "x": "int", "x_out": "floats", "y": "ints", "sigma": "float", "sf": "float"},
}
DEFAULT = "option default"
DEFAULT_TEXT = ("for every option that stands for a parameter of a library function: omitting it means what omitting the parameter of "
                "the library function means (compared with the signature), or the documented value where the command "
                "documents its own")
# library function whose parameter of the same name an option stands for
LIBRARY = {"metric": "raytools.imagetools.imgmetric", "project": "raytools.imagetools.hdr_ang2uv",
           "align": "raytools.imagetools.hdr_rotate", "solid2ang": "raytools.imagetools.hdr_solid2ang"}
# documented by the command itself: peaks are corrected and sources written to standard output unless declined;
# options whose help says what happens if none is given
OWN = {("metric", "peakn"): True, ("solid2ang", "stdout"): True, ("metric", "parallel"): True, ("metric", "gssimage"): False,
       ("project", "uv2ang"): False, ("smooth", "sigma"): None, ("smooth", "y"): None, ("smooth", "sf"): 1, ("main", "n"): None}


def const(mod, e, depth=0):
    """module level constants behind names"""
    while isinstance(e, ast.Name) and e.id in mod.names and mod.names[e.id][0] == "expr" and depth < 9:
        e = mod.names[e.id][1]
        depth += 1
    return e


def value(mod, e):
    """constant value of an expression, or Ellipsis"""
    e = const(mod, e)
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        pass
    if isinstance(e, ast.BinOp) or isinstance(e, ast.UnaryOp):
        try:
            return eval(compile(ast.Expression(e), "", "eval"), {"__builtins__": {}})
        except Exception:
            return ...
    return ...


def declared(mod, d):
    """('option'|'argument', declarations, keywords) of a click decorator"""
    d = const(mod, d)
    if not (isinstance(d, ast.Call) and isinstance(d.func, (ast.Attribute, ast.Name))):
        return None
    nm = d.func.attr if isinstance(d.func, ast.Attribute) else d.func.id
    if nm not in ("option", "argument"):
        return None
    decl = [value(mod, a) for a in d.args]
    if any(not isinstance(a, str) for a in decl) or any(k.arg is None for k in d.keywords):
        return nm, None, {}
    return nm, decl, {k.arg: k.value for k in d.keywords}


def name_of(decl):
    """parameter name as click derives it: (name, reversed?)"""
    given = [x for x in decl if x.isidentifier()]
    first = []
    second = []
    for x in decl:
        if x.isidentifier():
            continue
        a, _, b = x.partition("/")
        first.append(a.strip())
        if b:
            second.append(b.strip())
    clean = [(len(x) - len(x.lstrip("-")), x.lstrip("-").replace("-", "_").lower()) for x in first]
    if given:
        nm = given[0]
    else:
        clean.sort(key=lambda x: -x[0])
        nm = clean[0][1]
    back = any(x.lstrip("-").replace("-", "_").lower() == nm for x in second) and not any(c[1] == nm for c in clean)
    return nm, bool(second), back


def kind_of(mod, decl, kw, pair):
    if "callback" in kw:
        c = const(mod, kw["callback"])
        nm = c.attr if isinstance(c, ast.Attribute) else getattr(c, "id", None)
        return CALLBACK.get(nm)
    if pair:
        return "flag"
    if "is_flag" in kw:
        return "flag" if value(mod, kw["is_flag"]) is True else None
    if "type" in kw:
        t = const(mod, kw["type"])
        nm = (t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")).lower()
        return {"int": "int", "float": "float", "str": "string", "string": "string", "bool": "flag"}.get(nm)
    if "default" in kw:
        v = value(mod, kw["default"])
        if v is ...:
            return None
        return {bool: "flag", int: "int", float: "float", str: "string", type(None): "string"}.get(type(v))
    return "string"


def library_default(prog, nm, opt):
    """(default of the library parameter,) or None"""
    q = LIBRARY.get(nm)
    if q is None:
        return None
    m, _, f = q.rpartition(".")
    r = prog.resolve(prog.modules[m], f) if m in prog.modules else None
    if r is None or r[0] != "func":
        return None
    a = r[1].args
    pos = a.posonlyargs + a.args
    d = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return (value(r[2], d[opt]),) if opt in d else None


def iscommand(d):
    c = d.func if isinstance(d, ast.Call) else d
    return isinstance(c, ast.Attribute) and c.attr in ("command", "group")


def run(rep):
    rep.rule(BOUND, BOUND_TEXT)
    rep.rule(KIND, KIND_TEXT)
    rep.rule(DEFAULT, DEFAULT_TEXT)
    prog = program(rep.root)
    mod = prog.modules.get("raytools.cli")
    n = nd = 0
    for nm, e in sorted(mod.names.items()):
        if e[0] != "func" or not any(iscommand(d) for d in e[1].decorator_list):
            continue
        fn = e[1]
        a = fn.args
        params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        read = {x.id for s in fn.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        # names read through the catch-all parameter
        caught = set()
        if a.kwarg:
            for x in ast.walk(fn):
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == a.kwarg.arg and \
                        isinstance(x.slice, ast.Constant):
                    caught.add(x.slice.value)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                        x.func.value.id == a.kwarg.arg and x.args and isinstance(x.args[0], ast.Constant):
                    caught.add(x.args[0].value)
            whole = any(isinstance(k, ast.keyword) and k.arg is None and isinstance(k.value, ast.Name) and
                        k.value.id == a.kwarg.arg for k in ast.walk(fn))
        else:
            whole = False
        for d in fn.decorator_list:
            c = declared(mod, d)
            if c is None:
                continue
            what, decl, kw = c
            if decl is None:
                rep.unsure(BOUND, nm, "declaration is not a constant")
                continue
            if what == "argument":
                opt, pair, back = decl[0].replace("-", "_").lower(), False, False
            else:
                opt, pair, back = name_of(decl)
            n += 1
            key = f"{nm}: {'/'.join(decl)}"
            if opt in FRAMEWORK:
                rep.ok(BOUND, key, "handled by the framework")
                continue
            if opt in params and opt in read:
                rep.ok(BOUND, key, "explicit parameter, read in the body")
            elif opt in caught:
                rep.ok(BOUND, key, "read from the catch-all parameter")
            elif opt in params:
                rep.violation(BOUND, key, f"raytools.cli.{nm}: parameter {opt} is never read")
            elif whole:
                rep.unsure(BOUND, key, "handed on with the catch-all parameter")
            else:
                rep.violation(BOUND, key, f"raytools.cli.{nm} has no parameter {opt}: the value is swallowed")
            if back:
                rep.violation(KIND, key, f"raytools.cli.{nm}: the flag that sets {opt} is declared as its negation")
            want = DOC.get(nm, {}).get(opt)
            if want is None:
                continue
            std = (OWN[nm, opt],) if (nm, opt) in OWN else library_default(prog, nm, opt)
            if std is not None and what == "option":
                nd += 1
                has = value(mod, kw["default"]) if "default" in kw else False if want == "flag" else None
                if has is ... or std[0] is ...:
                    rep.unsure(DEFAULT, key, "not a constant")
                elif has == std[0] and (has is None) == (std[0] is None):
                    rep.ok(DEFAULT, key, repr(has))
                else:
                    rep.violation(DEFAULT, key, f"raytools.cli.{nm}: omitting {opt} means {has!r} where {std[0]!r} is required")
            k = kind_of(mod, decl, kw, pair)
            if k is None:
                rep.unsure(KIND, key, "converted by unknown code")
            elif k == want:
                rep.ok(KIND, key, k)
            else:
                rep.violation(KIND, key, f"raytools.cli.{nm}: option {opt} documents {want} but the declaration gives {k}")
    rep.need("declared options and arguments", n, 36)
    rep.need("defaults of options", nd, 20)
    rep.count("options", n)
    # positive examples for the rules that expect nothing
    t = ast.parse("@g.command()\n@click.option('--a/--no-a')\n@click.option('-b', default=4)\ndef f(ctx, **k):\n  pass").body[0]
    got = [declared(mod, d) for d in t.decorator_list[1:]]
    rep.need("positive examples", sum((name_of(got[0][1])[:2] == ("a", True), kind_of(mod, got[1][1], got[1][2], False) == "int",
                                      name_of(["--no-x/--x", "x"])[2])), 3)
