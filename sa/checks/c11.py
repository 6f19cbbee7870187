"""C11: every path and header line is exactly one argument of the program"""
import itertools
import numpy as np

from ..values import program
from ..whole import Whole
from ..terms import Node, walk, children, show, is_const, cval, TRUE
from ..evalr import Ev, Undef, Raised
from ..oblig import quiet

RULE = "argument vectors"
TEXT = ("taint analysis of the argument vector of every program start reached from any public function: each element is "
        "either free of path and header text or is exactly that path or line (decided by evaluating the argument vector's "
        "value graph for texts made of separators, quotes, shell, pipe and format characters); no shell is involved")
START = {"subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output",
         "subprocess.getoutput", "subprocess.getstatusoutput", "os.system", "os.popen", "os.spawnvp", "os.execvp",
         "os.posix_spawn", "clasp.script_tools.pipeline", "clasp.script_tools.pipeline"}
WEIRD = ["a b/c d.hdr", "it's \"q\".hdr", "x|y;z&w.hdr", "$HOME `id` $(id).hdr", "!cmd -x.hdr", "t\\n{0}%s {}.hdr",
         "*?[a]~#.hdr", " lead\ttrail .hdr", "é=ü:.hdr", "a=b: c = d.HDR", "~/a${HOME}.hdr"]
PATHS = ("imgf", "img", "outf", "view", "file", "path", "fname", "dataf")
LINES = ("header", "headers", "lines")


class Programs(Ev):
    """stands in for what other programs answered; only argument texts matter"""

    def n_mcall(self, n):
        if n.args[0] == "communicate":
            return (b"#?RADIANCE\nVIEW= -vta -vh 180 -vv 180\nsome line\n", b"")
        if n.args[0] == "readline":
            return b"-Y 3 +X 4\n"
        if n.args[0] == "read":
            return np.zeros(36, "<f4").tobytes()
        return super().n_mcall(n)

    def n_loopout(self, n):
        return self.ev(n.args[-1])


def direct(*roots):
    """subterms not computed from what a program answered"""
    seen, stack = set(), list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "mcall" and n.args[0] in ("communicate", "read", "readline", "readlines", "wait"):
            continue
        yield n
        # the condition of a choice selects, it does not flow
        stack.extend(list(children(n))[1:] if n.op == "phi" else children(n))


def kinds(name):
    if name in PATHS or name.endswith(("imgf", "outf", "_file", "_path")):
        return "path"
    if name in LINES:
        return "lines"
    return None


def run(rep):
    rep.rule(RULE, TEXT)
    prog = program(rep.root)
    w = Whole(prog)
    starts, roots, reached = set(), 0, set()
    done, open_ = set(), {}
    for r in w.roots():
        w.run(r)
        roots += 1
        if r.error:
            rep.unsure(RULE, r.qual, r.error)
        for e in r.effects[r.setup if r.fn.name != "__init__" else 0:]:
            if e.kind != "ext" or e.data[0] not in START and not e.data[0].startswith(("subprocess.", "clasp.")):
                continue
            if e.data[0] in ("subprocess.PIPE", "subprocess.STDOUT", "subprocess.DEVNULL"):
                continue
            if e.data[0].startswith("clasp.") and e.data[0].split(".")[-1] not in ("pipeline", "Popen", "run"):
                continue
            starts.add(e.loc)
            # one start may be reached along several paths of the function:
            # those no text selects (other branches of it) decide nothing
            left = judge(rep, r, e, reached)
            if left is None:
                open_.pop((r.qual, e.loc), None)
                done.add((r.qual, e.loc))
            elif (r.qual, e.loc) not in done:
                open_[r.qual, e.loc] = left
    for args in open_.values():
        rep.unsure(RULE, *args)
    rep.need("functions analysed", roots, 200)
    rep.need("program starts", len(starts), 6)
    rep.need("path parameters reaching a program", len({k for k in reached if k[1] == "path"}), 6)
    rep.need("header parameters reaching a program", len({k for k in reached if k[1] == "lines"}), 2)


def judge(rep, r, e, reached):
    where = f"{e.loc[2]}: {e.data[0]}"
    kw = dict(e.data[4])
    if e.data[0] in ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput") or \
            kw.get("shell") is TRUE:
        argv = e.data[3][0] if e.data[3] else kw.get("args")
        if argv is not None and any(n.op == "sym" and kinds(n.args[0]) for n in walk(argv)):
            rep.violation(RULE, where, f"{r.qual} hands text to a shell in {e.loc[2]} line {e.loc[1]}")
        return
    argv = e.data[3][0] if e.data[3] else kw.get("args")
    if argv is None:
        return where, "no argument vector"
    syms = sorted({n.args[0] for n in direct(argv) if n.op == "sym"} - {"pi", "e"})
    texts = [s for s in syms if kinds(s)]
    if not texts:
        rep.ok(RULE, f"{r.qual} -> {where}", "no path or header text in the argument vector")
        return
    decided = 0
    why = None
    pcs = [(c, p) for c, p in e.pc]
    allsyms = set(syms) | {n.args[0] for c, _ in pcs for n in walk(c) if n.op == "sym"} | {
        n.args[0] for n in walk(argv) if n.op == "sym"}
    for i, x in enumerate(WEIRD):
        env = {}
        for s in allsyms:
            k = kinds(s)
            if k == "path":
                env[s] = x
            elif k == "lines":
                env[s] = [x, WEIRD[(i + 3) % len(WEIRD)]]
            elif s in ("ar", "imarray", "lum", "l"):
                env[s] = np.ones((4, 3))
            elif s in ("stdin", "items", "vlambda", "vm", "outf"):
                env[s] = None
            else:
                env[s] = False
        ev = Programs(env)
        try:
            with quiet():
                got = ev.ev(argv)
        except Raised as u:
            if all(kinds(s) for s in syms):
                for s in texts:
                    reached.add((f"{r.qual}:{s}", kinds(s)))
                rep.violation(RULE, f"{where} ({','.join(texts)})",
                              f"text {x!r} of {r.qual} makes {e.loc[2]} line {e.loc[1]} fail: {u}")
                return
            why = str(u)
            continue
        except Undef as u:
            why = str(u)
            continue
        feasible = True
        for c, p in pcs:
            if not all(kinds(n.args[0]) for n in walk(c) if n.op == "sym"):
                continue
            try:
                with quiet():
                    if bool(ev.cond(c)) != p:
                        feasible = False
            except Undef:
                pass
        if not feasible:
            continue
        if isinstance(got, str):
            got = [got]
        # lines that went through the header cleaner are not verbatim by design
        want = []
        for s in texts:
            want += [(s, t) for t in (env[s] if kinds(s) == "lines" else [env[s]]) if isinstance(t, str)]
        allowed = {t for _, t in want}
        decided += 1
        for s, t in want:
            reached.add((f"{r.qual}:{s}", kinds(s)))
            if list(got).count(t) < 1:
                rep.violation(RULE, f"{where} ({s})",
                              f"{s} = {t!r} of {r.qual} does not arrive as one argument in {e.loc[2]} line {e.loc[1]}",
                              {"argv": [str(g) for g in got]})
                return
    if decided:
        rep.ok(RULE, f"{r.qual} -> {where}", f"{decided} texts for {','.join(texts)}")
    else:
        return f"{r.qual} -> {where}", why or "not reached"
