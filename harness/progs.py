"""Small programs as node code, and what the code reports when it runs."""
import copy, os, shutil
import gen, stagelab
from lab import *
from nxt.nxt_node import INTERNAL_ATTRS as IA
from nxt.runtime import GraphError, InvalidNodeError, ExitGraph, ExitNode

import vtrace
from vtrace import EVENTS, NAMES, enc


def render(prog):
    out = []
    for s in prog:
        k, a, v = s["k"], s["a"], s["v"]
        if k == "set":
            out.append("self.%s = '%s'" % (a, v))
        elif k == "cat":
            out.append("self.%s = str(self.%s) + '%s'" % (a, a, v))
        elif k == "ref":
            out.append("self.%s = __import__('vtrace').fix('${%s.%s}')" % (a, s["ps"][0], v))
        elif k == "mk":
            out.append("self.%s = [%s]" % (a, v))
        elif k == "app":
            out.append("__import__('vtrace').app(self, '%s', %s)" % (a, v))
        elif k == "del":
            out.append("del self.%s" % a)
        elif k == "see":
            out.append("__import__('vtrace').see(self, '${_nxtpath}')")
        elif k == "probe":
            out.append("__import__('vtrace').probe(globals(), '${_nxtpath}')")
        elif k == "local":
            out.append("%s = '%s'" % (a, v))
        elif k == "global":
            out.append("global %s; %s = '%s'" % (", ".join(s["gs"]), a, v))
        elif k == "exitnode":
            out.append("raise ExitNode('x')")
        elif k == "exitgraph":
            out.append("raise ExitGraph('x')")
        elif k == "raise":
            out.append("raise ValueError('no')")
        elif k == "sysexit":
            out.append("raise SystemExit(3)")
        elif k == "syntax":
            out.append("this is ( no code")
        elif k == "exec":
            c = "execute(start=%r%s)" if s["start"] else "execute(%r%s)"
            c %= (s["start"] or s["ps"], ", parameters=%r" % {x["p"] + "." + x["a"]: x["v"] for x in s["pr"]} if s["pr"] else "")
            if s["safe"]:
                out += ["try:", "    " + c, "except Exception:", "    pass"]
            else:
                out.append(c)
    return "\n".join(out)


def S(k, a="", v="", ps=(), pr=(), safe=False, gs=(), start=""):
    return dict(k=k, a=a, v=v, ps=list(ps), pr=list(pr), safe=safe, gs=list(gs), start=start)


ATTR = ["x", "y", "z"]


def rand_prog(r, paths, names, depth):
    w = [("see", 5), ("set", 4), ("cat", 2), ("mk", 1.2), ("app", 1.8), ("ref", 2), ("del", .3), ("local", 1), ("global", 1), ("probe", 1.2),
         ("exitnode", .8), ("exitgraph", .25), ("raise", .25), ("sysexit", .1), ("syntax", .08), ("exec", .9 if depth else 0)]
    prog = []
    if r.random() < .8:
        prog.append(S("see"))
    for _ in range(r.randint(0, 4)):
        k = r.choices([x for x, _ in w], [y for _, y in w])[0]
        a = r.choice(ATTR)
        if k in ("set", "cat"):
            prog.append(S(k, a, "n%d" % r.randint(0, 99)))
        elif k in ("mk", "app"):
            prog.append(S(k, a, str(r.randint(10, 9999))))
        elif k == "ref":
            prog.append(S(k, a, r.choice(ATTR), ps=[r.choice(paths)]))
        elif k == "del":
            prog.append(S(k, a))
        elif k == "local":
            prog.append(S(k, r.choice(NAMES), "k%d" % r.randint(0, 9)))
        elif k == "global":
            gs = r.sample(NAMES, r.randint(1, 2))
            prog.append(S(k, r.choice(gs + gs + [r.choice(NAMES)]), "k%d" % r.randint(0, 9), gs=gs))
        elif k == "exec":
            pr = [dict(p=r.choice(paths), a=r.choice(ATTR), v="p%d" % r.randint(0, 9))] if r.random() < .2 else []
            safe = r.random() < .4
            if r.random() < .3:
                prog.append(S(k, start=r.choice(paths), safe=safe, pr=pr))
            else:
                prog.append(S(k, ps=[r.choice(paths) for _ in range(r.randint(1, 2))], safe=safe, pr=pr))
        else:
            prog.append(S(k))
    # a global statement may not come after a use of the name
    seen = []
    for s in prog:
        if s["k"] == "global" and any(x in seen for x in s["gs"]):
            s["k"] = "local"
            s["gs"] = []
        seen += s["gs"] + [s["a"]]
    return prog


def outcome(fn):
    """(what came of it, runtime layer or None)"""
    try:
        with limit(20):
            return "done", fn(), ""
    except CallTimeout:
        return "Timeout", None, ""
    except InvalidNodeError as e:
        return "Missing", None, str(e)
    except GraphError as e:
        return "Error", None, str(e)
    except ExitGraph as e:
        return "ExitGraph", e.runtime_layer, ""
    except ExitNode:
        return "ExitNode", None, ""
    except Exception as e:
        return type(e).__name__, None, str(e)


def times(layer, paths):
    res = []
    for p, runs in layer.cache_layer.node_time_map.items():
        ok = all(len(r) == 2 and r[1] is not None and r[1] >= r[0] for r in runs)
        res.append(dict(p=p, n=len(runs), ok=ok))
    return res


def vals(stage, layer, paths):
    res = []
    for p in paths:
        n = layer.lookup(p)
        if n is None:
            continue
        names = [a for a in sorted(dir(n)) if not a.startswith("_") and not a.endswith("__nxt")]
        names = [a for a in names if a not in IA.PROTECTED]
        f = [dict(n=a, v=enc(getattr(n, a))) for a in names]
        r = [dict(n=a, v=str(stage.get_node_attr_value(n, a, layer, resolved=True))) for a in names]
        res.append(dict(p=p, f=f, r=r))
    return res


def globs(layer):
    g = layer._console.globals
    return [dict(n=n, v=str(g[n])) for n in NAMES if n in g]


def fill_starts(comp, progs, calls):
    """Nested executions from a start: the nodes are those of the order."""
    for pr in progs:
        for s in pr:
            if s["k"] == "exec" and s["start"]:
                if comp.lookup(s["start"]) is None or s["start"] == "/":
                    s["start"] = ""
                else:
                    s["ps"] = comp.get_exec_order(s["start"])
            if s["k"] == "exec" and not s["start"] and not s["ps"]:
                s["ps"] = ["/a"]


def prepare(ls, progs, refs, calls, d):
    """Layers whose nodes' code is an index into progs (or "none") as files in
    d: (stage, composite, paths, the graph for the trace), None if unusable."""
    shutil.rmtree(d, ignore_errors=True)
    bare = copy.deepcopy(ls)
    for l in bare:
        for n in l["nodes"]:
            n["code"] = "none"
    fl, extra = gen.files(bare)
    st, comp = call(lambda: stagelab.load(d, fl, extra).build_stage())
    if st != "ok" or comp.failure:
        return
    st, _ = call(fill_starts, comp, progs, calls)
    if st != "ok":
        return
    texts = [render(p) for p in progs]
    for l in ls:
        for n in l["nodes"]:
            if n["code"] != "none":
                n["code"] = texts[n["code"]]
    fl, extra = gen.files(ls)
    stage = stagelab.load(d, fl, extra)
    comp = stage.build_stage()
    paths = sorted(comp._nodes_path_as_key)
    # nodes that run others are not run by others: no endless recursion
    busy = {p for p in paths if any("execute(" in x for x in getattr(comp.lookup(p), IA.COMPUTE))}
    if any(busy & set(s["ps"]) for pr in progs for s in pr if s["k"] == "exec"):
        return
    return stage, comp, paths, dict(op="graph", layers=ls, nodes=paths, refs=refs,
                                    progs=[dict(n=t, prog=p) for t, p in zip(texts, progs)] + [dict(n="", prog=[])])


def rand_case(r):
    ls = gen.layers(r, nl=(1, 2), nn=(2, 5), names=["a", "b", "c"], depth=2, world=.5, pinst=.25, poff=.2, pexec=.2, pattr=.5)
    pool = sorted({gen.text(n["p"]) for l in ls for n in l["nodes"]} | {"/a", "/b"})
    real = [p for p in pool if p != "/"]
    mess = real + real + ["/" + r.choice("abc"), "/zz"]
    refs = []
    progs = []
    # nodes executed by node code have programs that execute nothing
    for l in ls:
        for n in l["nodes"]:
            n["attrs"] = [dict(n=a, v="v%d L%s%s" % (r.randint(0, 99), l["id"], gen.text(n["p"])), t="none", c="none")
                          for a in ATTR if r.random() < .5]
            n["code"] = "none"
            for a in n["attrs"]:
                if a["n"] == "x" and r.random() < .3:
                    to = r.choice(pool[:2] + ["/a"])
                    b = r.choice("yz")
                    lit = r.choice(["", "pre "])
                    a["v"] = lit + "${%s.%s}" % (to, b)
                    refs.append(dict(n=a["v"], lit=lit, p=to, a=b))
                elif r.random() < .2:
                    a["v"] = "[%d]" % r.randint(10, 9999)
                if r.random() < .04:
                    a["v"] = "none"
            if r.random() < .8:
                n["code"] = len(progs)
                progs.append((n["p"], [s for s in rand_prog(r, mess, NAMES, False) if n["p"] or s["k"] not in ("del", "cat", "app")]))
    # a few nodes run others; they are not run by anybody else
    if r.random() < .5:
        p, prog = r.choice(progs) if progs else ([], [])
        if progs:
            prog.insert(r.randint(0, len(prog)), rand_exec(r, real, mess, p))
            if r.random() < .5:
                prog += [S("see"), S("set", r.choice(ATTR), "after%d" % r.randint(0, 9)), S("see")]
    progs = [q for _, q in progs]
    uniq = {x["n"]: x for x in refs}
    calls = []
    for _ in range(r.randint(1, 3)):
        c = dict(fresh=r.random() < .3, start="", nolayer=r.random() < .5, nodes=[], params=[])
        k = r.random()
        if k < .3:
            c["start"] = r.choice(real)
        elif k < .45:
            pass
        else:
            c["nodes"] = [r.choice(mess if r.random() < .1 else real) for _ in range(r.randint(1, 5))]
            r.random()
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            q = dict(p=r.choice(mess + ["/"]), a=r.choice(ATTR + ["new"]), v="p%d" % r.randint(0, 99))
            if r.random() < .05:
                q["a"] = ""
            if q["p"] + q["a"] not in [x["p"] + x["a"] for x in c["params"]]:
                c["params"].append(q)
        calls.append(c)
    return ls, progs, sorted(uniq.values(), key=lambda x: x["n"]), calls


def rand_exec(r, real, mess, own):
    own = gen.text(own)
    # neither itself nor something above or below it, directly or by instance
    others = [p for p in real if p != own]
    pr = [dict(p=r.choice(mess), a=r.choice(ATTR), v="p%d" % r.randint(0, 9))] if r.random() < .3 else []
    ps = [r.choice(others) for _ in range(r.randint(1, 3))] if others else ["/zz"]
    if r.random() < .1:
        ps.append("/zz")
    return S("exec", ps=ps, pr=pr, safe=r.random() < .4)
