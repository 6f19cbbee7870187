"""C06: every metric name offered anywhere is in the table of the set that
computes it, and every table of every metric set class names members of it"""
import ast
import re

from ..interp import Interp, State
from ..terms import Cls, Node, cval
from ..values import program
from .c16 import const, declared, iscommand, name_of, value

MEMBER = "table names members"
HELP = "offered names are in the table"
MEMBER_TEXT = ("every name in allmetrics, defaultmetrics and safe2sum of every metric set class resolves, along the class's bases, to a "
               "member; defaults and safe2sum are part of allmetrics")
HELP_TEXT = ("every name the help of -metrics offers (and its default) is in the table of the set the command computes with, or is one "
             "of the two names the command takes out of the list itself")
OWN = {"gss", "gssnb"}


def table(prog, c, name):
    """names in a class level table, through the interpreter"""
    it = Interp(prog)
    st = State()
    v = it.getattr(st, Cls(c), name)
    out = []
    for x in it.items(st, v) or ():
        if not (isinstance(x, Node) and x.op == "const" and isinstance(cval(x), str)):
            return None
        out.append(cval(x))
    return out


def offered(text):
    m = re.search(r"choices:\s*\[(.*?)\]", text, re.S)
    return re.findall(r'"(\w+)"', m.group(1)) if m else None


def run(rep):
    rep.rule(MEMBER, MEMBER_TEXT)
    rep.rule(HELP, HELP_TEXT)
    prog = program(rep.root)
    sets = [c for c in prog.classes() if c.mod.name.startswith("raytools") and prog.lookup(c, "allmetrics")]
    for c in sets:
        t = {}
        for nm in ("allmetrics", "defaultmetrics", "safe2sum"):
            try:
                t[nm] = table(prog, c, nm)
            except Exception as x:
                t[nm] = None
            if t[nm] is None:
                rep.unsure(MEMBER, f"{c.name}.{nm}", "not a table of constant names")
        for nm, names in t.items():
            for n in sorted(set(names or ())):
                lk = prog.lookup(c, n)
                own = assigned(prog, c, n)
                if lk is None and not own:
                    rep.violation(MEMBER, f"{c.name}.{nm}: {n}", f"{c.qual} has no member {n}")
                elif t["allmetrics"] is not None and n not in t["allmetrics"]:
                    rep.violation(MEMBER, f"{c.name}.{nm}: {n}", f"{n} is in {nm} of {c.qual} but not advertised in allmetrics")
                else:
                    rep.ok(MEMBER, f"{c.name}.{nm}: {n}", "member")
    rep.need("metric set classes", len(sets), 3)
    # the command line
    mod = prog.modules.get("raytools.cli")
    table_of = {c.name: table(prog, c, "allmetrics") for c in sets}
    full = set()
    for v in table_of.values():
        full |= set(v or ())
    n = 0
    for nm, e in sorted(mod.names.items()):
        if e[0] != "func" or not any(iscommand(d) for d in e[1].decorator_list):
            continue
        for d in e[1].decorator_list:
            c = declared(mod, d)
            if c is None or c[1] is None or c[0] != "option" or name_of(c[1])[0] != "metrics":
                continue
            text = value(mod, c[2].get("help"))
            names = offered(text) if isinstance(text, str) else None
            dflt = value(mod, c[2].get("default")) if "default" in c[2] else ...
            if names is None:
                rep.unsure(HELP, nm, "the help offers no list of names")
                names = []
            if isinstance(dflt, str):
                names = names + dflt.split()
            for x in sorted(set(names)):
                n += 1
                if x in full or x in OWN:
                    rep.ok(HELP, f"{nm}: {x}", "in the table")
                else:
                    rep.violation(HELP, f"{nm}: {x}", f"raytools.cli.{nm} offers the metric {x}, which no metric set advertises")
    rep.need("offered names", n, 15)
    rep.need("positive examples", sum((offered('choices: ["a", "b" (RGB)]') == ["a", "b"], assigned(prog, sets[0], "view_area"),
                                      not assigned(prog, sets[0], "nosuch"))), 3)


def assigned(prog, c, name):
    """is self.<name> assigned in a method of the class"""
    for k in prog.mro(c):
        for fn in list(k.methods.values()) + list(k.setters.values()):
            me = fn.args.args[0].arg if fn.args.args else None
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                        and x.value.id == me:
                    return True
    return False
