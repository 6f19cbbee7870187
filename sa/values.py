"""value-graph obligations of one property -> report"""
import ast
import os
import time

from . import sizes
from .oblig import load, drivers, brief, SPECDIR

RULE = ("value graph of the code and of the reference formula compared by value "
        "number, else by random interpretation of both graphs over the declared "
        "domain; an alarm needs separating valuations")


def specs():
    return sorted(f[:-3] for f in os.listdir(SPECDIR)
                  if f.endswith(".py") and not f.startswith("_"))


# valuations on which an exception has to leave a driver before it is reported
LEAVING = 3

_prog = {}


def program(root):
    if root not in _prog:
        _prog[root] = load(root, specs())
    return _prog[root]


def run(prop, rep, only=None):
    prog = program(rep.root)
    trials = {"quick": 24, "thorough": 400}[rep.tier]
    n = 0
    seen = []
    end = time.process_time() + 600
    for s in specs():
        for d in drivers(prog, s, prop, rep.seed):
            n += 1
            if time.process_time() > end:
                rep.unsure("values", d.name, "time budget of the check is used up")
                continue
            rule = "values"
            rep.rule(rule, RULE)
            d.build()
            gates = d.decide(trials, *{"quick": (40, 4), "thorough": (400, 40)}[rep.tier])
            seen.append((s, d))
            rep.count("comparisons crossed", getattr(d, "crossings", 0))
            rep.count("drivers")
            rep.count("functions analysed", 0)
            rep.counts["functions analysed"] = 0
            rep.vis = getattr(rep, "vis", set()) | d.it.visited
            rep.counts["functions analysed"] = len(rep.vis)
            gone = [(k, v) for k, v in d.leaves.items() if len(v) >= LEAVING]
            if d.refused and not any(o.status == "differ" for o in d.obligs):
                x, src = d.refused
                rep.violation(rule, d.name + ":result", f"raises {x} on every path where a result is required; raised at "
                              f"{src[2]}:{src[1]}", {"raised at": list(src)})
            elif gone and not d.it.handed:
                (x, at), envs = max(gone, key=lambda g: len(g[1]))
                rep.violation(rule, d.name + ":result", f"raises {x} at {at[2]}:{at[1]} and no caller catches it, for "
                              f"{len(envs)} members of the domain a result is required on",
                              {"raised at": list(at), "valuation": {k: brief(v) for k, v in envs[0].items()}})
            elif d.error:
                rep.unsure(rule, d.name, d.error)
            if os.environ.get("LEAVES"):
                for pc, x in d.lost:
                    print("LOST", d.name, x, x.src, x.at, x.sure, len(pc))
            both = sum(1 for g in gates.values() if len(g) > 1)
            rep.count("gates seen", len(gates))
            rep.count("gates seen on both sides", both)
            for o in d.obligs:
                name = o.label
                if o.status == "same":
                    rep.count("equal value numbers")
                    rep.ok(rule, name, "equal value numbers")
                elif o.status == "agree":
                    rep.count("agreeing under random interpretation")
                    rep.count("valuations compared", o.conclusive)
                    rep.ok(rule, name, f"{o.conclusive} valuations agree, {o.skipped} outside the assumptions")
                elif o.status == "differ" and d.it.handed:
                    rep.unsure(rule, name, f"objects handed to unknown code: {d.it.handed[0]}")
                elif o.status == "differ":
                    cs = d.constructs(o)
                    rep.violation(rule, name,
                                  "computed value differs from the required one; computed at " +
                                  ("; ".join(cs) or "?"), o.witness)
                else:
                    rep.unsure(rule, name, o.why or f"{o.skipped}/{o.trials} valuations outside the assumptions")
    borders(prop, rep, prog, seen, min(end, time.process_time() + 150))
    single(prop, rep, prog, seen, min(end, time.process_time() + 90))
    return n


SINGLERULE = "drivers over a number of rays, vectors or samples are decided for a single one as well"
PER = 4              # choices of one driver decided for a single element


def single(prop, rep, prog, seen, end):
    names = {}
    for s in sorted({s for s, _ in seen}):
        t = {a.targets[0].id: a.value for a in prog.modules["spec_" + s].tree.body
             if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name)}
        if "SINGLE" in t:
            names[s] = (t["SINGLE"].value, [e.value for e in t["SEVERAL"].elts] if "SEVERAL" in t else [])
    if not names:
        return
    p = load(rep.root, specs())
    for s, (n, _) in names.items():
        for a in p.modules["spec_" + s].tree.body:
            if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and a.targets[0].id == n:
                a.value.value = 1
    rep.rule("single", SINGLERULE)
    good = {d.name for _, d in seen if not d.error and all(o.status in ("same", "agree") for o in d.obligs)}
    for s, (n, several) in names.items():
        groups = {}
        for d in drivers(p, s, prop, rep.seed):
            if d.fn.name not in several and d.name in good and any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(d.fn)):
                groups.setdefault(d.fn.name, []).append(d)
        for ds in groups.values():
            for d in ds[::max(1, -(-len(ds) // PER))]:
                if time.process_time() > end:
                    rep.unsure("single", d.name + ":single", "time budget of the check is used up")
                    continue
                d.build()
                d.decide(12)
                rep.count("drivers with a single element")
                if d.refused:
                    x, src = d.refused
                    rep.violation("single", d.name + ":single:result", f"raises {x} for a single element where a result is required; "
                                  f"raised at {src[2]}:{src[1]}", {"raised at": list(src)})
                elif d.error:
                    rep.unsure("single", d.name + ":single", d.error)
                for o in d.obligs:
                    if o.status == "differ" and not d.it.handed:
                        rep.violation("single", f"{o.label}:single", "computed value differs from the required one for a single element; "
                                      "computed at " + ("; ".join(d.constructs(o)) or "?"), o.witness)
                    elif o.status in ("same", "agree"):
                        rep.ok("single", f"{o.label}:single", "holds for a single element")
                    else:
                        # averages over the rest of nothing are not defined
                        rep.count("single: not defined for one element")


SIZERULE = ("a constant that separates large from small inputs is outside the sizes of the drivers: the drivers reaching "
            "it are decided again with the constant made small")


def borders(prop, rep, prog, seen, end):
    found = sizes.find(prog)
    rep.rule("sizes", SIZERULE)
    rep.count("size borders", len(found))
    fns = {f for f, _, _ in found for f in f}
    use = [(s, d) for s, d in seen if d.it.visited & fns
           and not d.error and all(o.status in ("same", "agree") for o in d.obligs)]
    if not use:
        return
    # the first choice of every driver before the second
    rank = {}
    for s, d in use:
        rank.setdefault(d.fn.name, []).append((s, d))
    use = [x for k in range(max(map(len, rank.values()))) for l in rank.values() for x in l[k:k + 1]]
    for k in sizes.SMALL:
        p = load(rep.root, specs())
        for _, _, places in found:
            sizes.scale(p, places, k)
        mine = {}
        for s, d in use:
            if time.process_time() > end:
                rep.unsure("sizes", f"{d.name}:large inputs", "time budget of the check is used up")
                break
            if s not in mine:
                mine[s] = {x.name: x for x in drivers(p, s, prop, rep.seed)}
            x = mine[s].get(d.name)
            if x is None:
                continue
            x.build()
            x.decide(8)
            rep.count("drivers with size borders made small")
            if x.error:
                rep.unsure("sizes", f"{d.name}:large inputs", x.error)
            at = [f"{v} in {', '.join(f)}" for f, v, _ in found if x.it.visited & set(f)]
            for o in x.obligs:
                if o.status == "differ" and not x.it.handed and not x.error:
                    rep.violation("sizes", f"{o.label}:large inputs",
                                  f"computed value differs from the required one once an input exceeds a size the code sets apart "
                                  f"({'; '.join(at)}; decided with {k} in its place); computed at " + ("; ".join(x.constructs(o)) or "?"),
                                  o.witness)
                elif o.status in ("same", "agree"):
                    rep.ok("sizes", f"{o.label}:large inputs, border at {k}", "holds wherever the border is")
                elif not x.error:
                    rep.unsure("sizes", f"{o.label}:large inputs", o.why or "outside the assumptions")
