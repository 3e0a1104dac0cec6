"""Composites of model-generated and random graphs, read back in full.
--part selects what is read: core, kids, exec, dirty."""
from lab import *
import gen, stagelab, observe
import copy, os, shutil
PART, _, PROFILE = args.part.partition(":")


def one(ls, frm=0):
    rec.begin(ls)
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    fl, extra = gen.files(ls)
    ops = [dict(op="build", layers=ls[frm:])]
    st, stage = call(stagelab.load, d, fl, extra)
    if st == "ok":
        st, comp = call(stage.build_stage, frm)
    if st != "ok":
        ops.append(dict(op="set", nodes=[], failure="", crash=str(stage if "comp" not in locals() else comp)))
        rec.case(ops)
        return
    paths = sorted(comp._nodes_path_as_key)
    ops.append(dict(op="set", nodes=paths, failure=str(comp.failure or "").strip().split("\n")[-1][:80], crash=""))
    if ops[-1]["failure"]:
        rec.case(ops)
        return

    def read(fn, *a):
        s, v = call(fn, *a)
        ops.append(v if s == "ok" else dict(op="crash", err=v, at=str(a[-1])))
    for p in paths:
        if PART == "core":
            read(observe.node_op, stage, comp, p)
        if PART == "kids":
            read(observe.kids_op, comp, p)
        if PART == "exec" and p != "/":
            read(observe.exec_op, call, comp, p)
        if PART == "dirty":
            read(dirty_op, comp, p)
    if PART == "kids":
        implied = sorted({"/" + "/".join(p.split("/")[1:k]) for p in paths for k in range(2, p.count("/") + 1)}
                         - set(paths) - {"/"})
        for p in implied + ([] if "/" in paths else ["/"]):
            read(observe.kids_op, comp, p)
    if PART == "dirty":
        edits(ls, d, comp, paths, ops)
    if PART == "lower":
        lower(ls, stage, comp, ops)
    rec.case(ops)


def data(stage, comp):
    res = {}
    for p in comp._nodes_path_as_key:
        o = observe.node_op(stage, comp, p, hist=False)
        for k in ("layer", "proxy"):
            o.pop(k)
        res[p] = o
    return res


def edits(ls, d, comp, paths, ops):
    """One opinion changed, everything built anew: which nodes differ, and
    which ones the impact map of the composite before names."""
    before = None
    for _ in range(2):
        new = copy.deepcopy(ls)
        l = rng.choice(new)
        if not l["nodes"]:
            continue
        n = rng.choice(l["nodes"])
        k = rng.random()
        if k < .6 and n["attrs"]:
            a = rng.choice(n["attrs"])
            a[rng.choice("vvtc")] = rng.choice(["changed", "none"])
        elif k < .7:
            n["attrs"] = n["attrs"][1:]
        elif k < .8:
            n["attrs"] = n["attrs"] + [dict(n="new", v="new", t="none", c="none")]
        else:
            n[rng.choice(["code", "comment", "enabled"])] = rng.choice(["true", "none"])
        p = gen.text(n["p"])
        fl, extra = gen.files(new)

        def again():
            s = stagelab.load(d, fl, extra)
            return s, s.build_stage()
        st, v = call(again)
        if st != "ok":
            ops.append(dict(op="crash", err=str(v), at=p))
            continue
        stage2, comp2 = v
        if before is None:
            fl0, extra0 = gen.files(ls)
            s0 = stagelab.load(d, fl0, extra0)
            before = data(s0, s0.build_stage())
        after = data(stage2, comp2)
        changed = sorted(q for q in set(before) | set(after) if before.get(q) != after.get(q))
        named = {p}
        while True:
            more = set(named)
            for q in named:
                more.update(comp.get_node_dirties(q))
                more.update(x for x in paths if x.startswith(q if q == "/" else q + "/"))
            if more == named:
                break
            named = more
        ops.append(dict(op="edit", p=n["p"], at=p, changed=changed, named=sorted(named)))


def lower(ls, stage, comp, ops):
    """The composite seen from weaker layers, inferred and built."""
    for depth in range(1, len(ls)):
        built = dict(op="build", layers=ls[depth:])
        st, low = call(stage.build_stage, depth)
        if st != "ok":
            ops.append(dict(op="crash", err=str(low), at=str(depth)))
            continue
        paths = sorted(low._nodes_path_as_key)
        ops.append(built)
        ops.append(dict(op="set", nodes=paths, failure=str(low.failure or "")[:80], crash=""))
        for p in paths:
            st, v = call(stage.infer_lower_comp, comp.lookup(p), comp, depth=depth) if comp.lookup(p) else ("no", 0)
            if st == "err":
                ops.append(dict(op="crash", err=str(v), at=p))
            elif st == "ok":
                ops.append(dict(op="inferred", p=observe.ns(p), at=p, none=v is None,
                                attrs=[] if v is None else [dict(n=a, v=observe.enc(getattr(v, a)))
                                                            for a in sorted(stage.get_node_attr_names(v))]))


def dirty_op(comp, p):
    return dict(op="dirty", p=observe.ns(p), dirty=list(comp.get_node_dirties(p)))


for s in scenarios():
    one(s)
KW = {"core": dict(), "kids": dict(pattr=.1, pco=.6, pcode=0.05), "exec": dict(pattr=.05, pexec=.7, poff=.3, pco=.5, pcode=.0),
      "dirty": dict(pinst=.6, pattr=.1), "inst": dict(pinst=.55), "chain": dict(pinst=.75, pattr=.6, nl=(1, 2), nn=(3, 6), depth=2, pcode=.15, names=["a", "b", "c"]), "below": dict(), "lower": dict(pinst=0, pattr=.7), "flags": dict(pinst=.15, pattr=.7)}
for k in range(args.n):
    kw = dict(KW[PROFILE or PART])
    ls = gen.layers(rng, flags=.3 if PROFILE == "flags" else .1 if rng.random() < .3 else 0, **kw)
    one(ls, rng.randrange(len(ls)) if PROFILE == "below" else 0)
rec.close()
