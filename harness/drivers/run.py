"""Graphs whose node code is generated from small programs, executed through
the Stage API; what the code sees is reported by the code itself."""
from lab import *
import os, re
from progs import *


def one(ls, progs, refs, calls):
    """ls: layers whose nodes' code is an index into progs (or "none")."""
    rec.begin([ls, progs, calls])
    made = prepare(ls, progs, refs, calls, os.path.join(WORK, "g"))
    if made is None:
        return
    stage, comp, paths, graph = made
    ops = [graph]
    rt = None
    for c in calls:
        fresh = c["fresh"] or rt is None
        del EVENTS[:]
        pr = {x["p"] + "." + x["a"] if x["a"] else x["p"]: x["v"] for x in c["params"]} or None
        layer = comp if fresh else rt
        nodes = c["nodes"]
        if c["start"]:
            if comp.lookup(c["start"]) is None or c["start"] == "/":
                continue
            nodes = comp.get_exec_order(c["start"])
            out, got, msg = outcome(lambda: stage.execute(c["start"], layer=None if fresh and c["nolayer"] else layer, parameters=pr))
        else:
            out, got, msg = outcome(lambda: stage.execute_nodes(nodes, layer, parameters=pr))
        ops.append(dict(op="call", fresh=fresh, params=c["params"], nodes=nodes))
        ops += [dict(e) for e in EVENTS]
        if got is not None or fresh:
            rt = got
        top = re.match(r'.*?line -?\d+, in (\S+)', msg, re.S)
        names = re.findall(r"(?:in |\n)(/\S*)", msg)
        end = dict(op="end", out=out, names=names, top=top.group(1) if top and out == "Error" else "", layer=rt is not None,
                   times=[], cached=[], glob=[], vals=[])
        if rt is not None:
            # "/" is created on the fly for runs: judged only when it is a node
            end.update(times=times(rt, paths), cached=sorted(rt.cache_layer.nodes), glob=globs(rt), vals=vals(stage, rt, paths))
        ops.append(end)
    rec.case(ops)


for s in scenarios():
    one(s["layers"], s["progs"], s.get("refs", []), s["calls"])
for k in range(args.n):
    one(*rand_case(rng))
rec.close()
