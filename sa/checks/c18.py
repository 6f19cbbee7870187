"""C18: no source of randomness is reached while jitter is off"""
import ast

from ..values import program
from ..whole import Whole
from ..terms import FALSE, show, Node

RULE = "randomness"
TEXT = ("effect analysis of every public function and method with its jitter option off: no random draw, clock, process "
        "identity, object identity or directory order is read, and no result takes its order from a set")
SOURCES = {"os.urandom": 1, "uuid.uuid1": 1, "uuid.uuid4": 1, "os.getpid": 1, "builtins.id": 1, "builtins.hash": 1,
           "os.listdir": 1, "os.scandir": 1, "glob.glob": 1, "os.times": 1, "threading.get_ident": 1}
PREFIX = ("numpy.random.", "random.", "secrets.", "time.", "datetime.")
ORDERED = {"builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.enumerate", "builtins.zip"}
HARMLESS = {"time.sleep", "numpy.random.Generator", "numpy.random.seed", "random.seed"}


def run(rep):
    rep.rule(RULE, TEXT)
    prog = program(rep.root)
    w = Whole(prog, fixed=lambda fn, p: FALSE if p == "jitter" else None)
    n = draws = 0
    for r in w.roots():
        w.run(r)
        n += 1
        if r.error:
            rep.unsure(RULE, r.qual, r.error)
        bad = {}
        for e in r.effects:
            if e.kind != "ext":
                continue
            nm = e.data[0]
            if (nm in SOURCES or nm.startswith(PREFIX)) and nm not in HARMLESS:
                bad[(e.loc[2], nm)] = e.loc[1]
            elif nm in ORDERED and e.data[3]:
                t = e.data[3][0]
                if isinstance(t, Node) and t.op == "call" and t.args[0] in ("builtins.set", "builtins.frozenset"):
                    bad[(e.loc[2], "order of a set")] = e.loc[1]
        for (f, nm), line in sorted(bad.items()):
            rep.violation(RULE, f"{f}: {nm}", f"{r.qual} reaches {nm} in {f} line {line} with jitter off")
        if not bad and not r.error:
            rep.ok(RULE, r.qual, f"{len(r.effects)} effects")
    rep.need("public functions and methods", n, 200)
    # positive control: with jitter on the same analysis must see the draws
    w = Whole(prog)
    for r in w.roots():
        if r.fn.name in ("idx2uv", "pixels"):
            w.run(r)
            draws += sum(1 for e in r.effects if e.kind in ("ext", "method") and
                         ("random" in str(e.data[0]) or e.data[0] == "uniform"))
    rep.need("random draws seen with jitter on", draws, 2)
    for q, fn, mod, cls in prog.functions():
        if not mod.name.startswith("raytools"):
            continue
        setloops(rep, q, fn)


def setloops(rep, q, fn):
    sets = set()
    def isset(e):
        return isinstance(e, (ast.Set, ast.SetComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ("set", "frozenset") or isinstance(e, ast.Name) and e.id in sets or \
            isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and \
            (isset(e.left) or isset(e.right))
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and isset(x.value):
            sets |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    hit = False
    for x in ast.walk(fn):
        its = []
        if isinstance(x, ast.For):
            if any(isinstance(y, (ast.AugAssign, ast.Yield)) or isinstance(y, ast.Attribute) and
                   y.attr in ("append", "extend", "insert", "write") for b in x.body for y in ast.walk(b)):
                its = [x.iter]
        elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            its = [g.iter for g in x.generators]
        elif isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate") or
                                          isinstance(x.func, ast.Attribute) and x.func.attr in ("join", "array", "fromiter")):
            its = x.args[:1]
        for i in its:
            if isset(i) and not folded(fn, x):
                hit = True
                rep.violation(RULE, f"{q}: order of a set",
                              f"{q} line {i.lineno} takes the order of {ast.unparse(i)[:60]}, which is not determined")
    if sets and not hit:
        rep.ok(RULE, q + ": sets", "membership only")


def folded(fn, x):
    """consumed by an order-insensitive function"""
    for c in ast.walk(fn):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                c.func.id in ("sorted", "set", "frozenset", "sum", "any", "all", "len", "min", "max") and x in c.args:
            return True
    return False
