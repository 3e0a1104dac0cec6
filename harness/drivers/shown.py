"""Composites built before an edit and read after it.
--part attrs: attribute edits of any layer of any graph, several composites
--part plain: one layer without instances; nodes are added to and deleted from
the layer together with the composite shown."""
from lab import *
import gen, stagelab, observe
import os, shutil
from nxt import nxt_node
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA
PLAIN = args.part.startswith("plain")
enc = observe.enc


def inst_of(v):
    if v is None:
        return dict(k="none", s=[])
    if v == "":
        return dict(k="empty", s=[])
    return dict(k="abs" if v.startswith("/") else "rel", s=[x for x in v.split("/") if x])


def layer_now(stage, layer):
    """A layer as it is in memory, in the terms of the composition model."""
    nodes = []
    for p, n in sorted(layer._nodes_path_as_key.items()):
        attrs = [dict(n=a, v=enc(getattr(n, a)), t=enc(n.__dict__.get(a + MA.TYPE)), c=enc(n.__dict__.get(a + MA.COMMENT)))
                 for a in sorted(n.__dict__) if a not in IA.PROTECTED and not a.endswith(MA._suffix)]
        nodes.append(dict(p=observe.ns(p), inst=inst_of(getattr(n, IA.INSTANCE_PATH)), code=enc(getattr(n, IA.COMPUTE)),
                          comment=enc(getattr(n, IA.COMMENT)), enabled=enc(getattr(n, IA.ENABLED)),
                          exec=enc(getattr(n, IA.EXECUTE_IN)), start=enc(getattr(n, IA.START_POINT)), attrs=attrs,
                          co=[] if p == "/" else list(getattr(n, IA.CHILD_ORDER))))
    return dict(id=observe.lid(layer.real_path), mute=bool(layer.get_muted(local=False)), solo=bool(layer.get_soloed(local=False)), nodes=nodes)


def read(stage, comp, frm, ops):
    paths = sorted(comp._nodes_path_as_key)
    ops.append(dict(op="build", layers=[layer_now(stage, l) for l in stage._sub_layers[frm:]]))
    ops.append(dict(op="set", nodes=paths, failure=str(comp.failure or "")[:80], crash=""))
    if ops[-1]["failure"]:
        return False

    def one(fn, *a):
        s, v = call(fn, *a)
        ops.append(v if s == "ok" else dict(op="crash", err=v, at=str(a[-1])))
    for p in paths:
        one(observe.node_op, stage, comp, p)
        if PLAIN:
            one(observe.kids_op, comp, p)
            if p != "/":
                one(observe.exec_op, call, comp, p)
    return True


def do(stage, layer, comp, o):
    n = layer.lookup(o["p"]) if o["do"] != "add" else None
    d = o["do"]
    if d == "set":
        stage.node_setattr_data(n, o["a"], layer, True, comp_layer=comp, value=o["v"])
    elif d == "note":
        stage.node_setattr_data(n, o["a"], layer, True, comp_layer=comp, comment=o["v"])
    elif d == "new":
        stage.add_node_attr(n, o["a"], dict({"value": o["v"]}, **({"type": "int", "comment": "n"} if o["v"] == "2" else {})), layer)
    elif d == "del":
        stage.delete_node_attr(n, o["a"])
    elif d == "ren":
        stage.rename_node_attr(n, o["a"], o["b"], layer)
    elif d == "add":
        data = {"attrs": {a: {"value": v} for a, v in o["attrs"]}}
        stage.add_node(name=o["name"], data=data, parent=o["p"], layer=layer, fix_names=o["fix"], comp_layer=comp)
    elif d == "delete":
        stage.delete_node(n, layer, comp_layer=comp, delete_descendants=o["desc"])
    elif d == "enable":
        stage.node_setattr_data(n, IA.ENABLED, layer, False, comp_layer=comp,
                                value={"true": True, "false": False, "none": None}[o["v"]])
    elif d == "code":
        stage.set_node_code_lines(n, o["v"], comp)


def rand_attr(r, stage, layer):
    ps = sorted(layer._nodes_path_as_key)
    if not ps:
        return None
    p = r.choice(ps)
    mine = [a for a in sorted(layer.lookup(p).__dict__) if a not in IA.PROTECTED and not a.endswith(MA._suffix)]
    d = r.choice(["set", "set", "new", "note", "del", "ren"])
    a = r.choice(mine) if mine and (d in ("del", "ren") or r.random() < .6) else r.choice(["x", "y", "xx", "w"])
    if d in ("del", "ren", "note") and a not in mine:
        return None
    return dict(do=d, p=p, a=a, b=r.choice(["x", "m", "w"]), v=r.choice(["1", "2", "t%d" % r.randint(0, 9), "[1]", "${x} q"]))


def rand_plain(r, stage, layer, comp):
    k = r.random()
    ps = [p for p in sorted(layer._nodes_path_as_key) if p != "/"]
    if k < .4 or not ps:
        par = r.choice(ps + ["/"])
        if par.count("/") > 3:
            return None
        return dict(do="add", p=par, name=r.choice(["a", "b", "c", "a b", "d"]), fix=True,
                    attrs=[[a, "n%d" % r.randint(0, 9)] for a in ("x", "y") if r.random() < .3])
    p = r.choice(ps)
    if k < .6:
        leaf = not layer.children(p)
        return dict(do="delete", p=p, desc=True if not leaf else r.random() < .5)
    if k < .7:
        return dict(do="enable", p=p, v=r.choice(["true", "false", "none"]))
    if k < .8:
        return dict(do="code", p=p, v=["s = %d" % r.randint(0, 9)] if r.random() < .7 else [])
    return rand_attr(r, stage, layer)


def one(ls, edits, r=None, n=0, few=0):
    rec.begin([ls, edits])
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    fl, extra = gen.files(ls)
    st, stage = call(stagelab.load, d, fl, extra)
    if st != "ok":
        return
    froms = [0] if PLAIN or len(ls) == 1 else [0, r.randrange(1, len(ls))] if r else list(range(min(2, len(ls))))
    comps = []
    for f in froms:
        st, c = call(stage.build_stage, f)
        if st == "ok" and not c.failure:
            comps.append((f, c))
    if not comps:
        return
    ops = []
    did = []
    for k in range(len(edits) if edits is not None else n):
        if edits is not None:
            o = dict(edits[k])
            layer = stage._sub_layers[o["l"]]
            if o["do"] != "add" and layer.lookup(o["p"]) is None:
                break
        else:
            l = r.randrange(len(stage._sub_layers))
            layer = stage._sub_layers[l]
            o = rand_plain(r, stage, layer, comps[0][1]) if PLAIN else rand_attr(r, stage, layer)
            if o is None:
                continue
            o["l"] = l
        did.append(o)
        st, v = call(do, stage, layer, comps[0][1], o)
        if st != "ok":
            # performing edits is judged elsewhere: here nothing may come of it
            ops.append(dict(op="build", layers=[layer_now(stage, l) for l in stage._sub_layers]))
            ops.append(dict(op="crash", err=str(v), at=o["do"]))
            break
        # what is shown after some of the edits is read
        if edits is None and k + 1 < n and r.random() < .4:
            continue
        if not all([read(stage, c, f, ops) for f, c in comps]):
            break
    rec.case(ops, edits=did)


for s in scenarios():
    one(s["layers"], s["edits"])
for k in range(args.n):
    if PLAIN:
        ls = gen.layers(rng, nl=(1, 1), nn=(1, 6), names=["a", "b", "c"], depth=3, world=.3, pinst=0, pattr=.25, pcode=.3, pco=.3)
        have = {tuple(x["p"]) for x in ls[0]["nodes"]}
        for p in sorted({p[:j] for p in have for j in range(1, len(p))} - have):
            ls[0]["nodes"].append(gen.node(rng, list(p), ["a", "b", "c"], ["x"], pinst=0, pattr=.3))
        one(ls, None, rng, rng.randint(2, 6))
    else:
        one(gen.layers(rng, nl=(1, 3), nn=(1, 4), depth=2, pinst=.35, pattr=.35, pcode=.05, pco=.05, pexec=.05,
                       flags=.2 if rng.random() < .3 else 0), None, rng, rng.randint(2, 5))
rec.close()
