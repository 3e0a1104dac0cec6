"""Histories of building, reading and executing; after every step the data
every layer would save and everything each composite in use shows is digested
and compared (by the specification) with what the same layers give when loaded
and built on their own."""
from lab import *
import gen, stagelab, observe
from progs import *
import copy, hashlib, os, shutil
from nxt.nxt_node import INTERNAL_ATTRS as IA
from nxt.nxt_layer import LayerReturnTypes as RT
from nxt.stage import CompArc, Stage, DATA_STATE, get_historical_opinions
from nxt import nxt_node, nxt_layer
from nxt.runtime import ExitGraph

SHOW = bool(os.environ.get("PURE_SHOW"))


def dig(x):
    s = json.dumps(x, sort_keys=True, default=str)
    return s if SHOW else hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:12]


def dump(stage, comp):
    res = [str(comp.failure or "")[:60], comp.positions, comp.collapse]
    for p in sorted(comp._nodes_path_as_key):
        if p == "/" and comp.runtime:
            continue
        for fn in (lambda: observe.node_op(stage, comp, p), lambda: observe.kid_forms(comp, p),
                   lambda: observe.exec_op(call, comp, p) if p != "/" else 0, lambda: sorted(comp.get_node_dirties(p))):
            try:
                r = fn()
            except Exception as e:
                r = type(e).__name__
            res.append(r)
    return dig(res)


def saved(stage):
    return [dig(l.get_save_data()) for l in stage._sub_layers]


def pristine(d, stage_datas):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, data in enumerate(stage_datas):
        with open(os.path.join(d, "l%d.nxt" % k), "w") as f:
            json.dump(data, f)
    res = []
    for k in range(len(stage_datas)):
        s = Stage.load_from_filepath(os.path.join(d, "l0.nxt"))
        res.append(dump(s, s.build_stage(k)))
    return res


def reads(stage, comp):
    """(name, thunk) of everything there is to read."""
    res = []
    paths = sorted(comp._nodes_path_as_key)

    def add(fn, *a, **kw):
        res.append((fn, a, kw))
    for p in paths:
        n = comp.lookup(p)
        add(stage.get_node_data, n, comp, include_inherit=rng.random() < .5)
        for ds in (DATA_STATE.RAW, DATA_STATE.RESOLVED, DATA_STATE.CACHED):
            add(stage.get_node_code_lines, n, comp, ds)
            add(stage.get_node_code_string, n, comp, ds)
        add(stage.get_node_code, n, comp)
        add(stage.get_node_inherited_attr_names, n, comp)
        add(stage.get_node_instanced_attr_names, n, comp)
        add(stage.get_node_local_attrs_data, n)
        add(stage.get_node_code_external_sources, n, comp)
        add(stage.get_instance_sources, n, [], comp)
        add(stage.get_instance_targets, p, [], comp)
        add(stage.safe_get_node_instance, n, comp)
        add(stage.get_top_node, n, comp)
        add(CompArc.get_bases_arc_dict, n, comp)
        add(stage.get_node_child_order, n)
        add(stage.get_node_source_layer, n)
        add(stage.infer_lower_comp, n, comp)
        add(stage.get_unique_node_name, rng.choice("abc"), comp, p)
        add(stage.get_unique_attr_name, p, rng.choice(stage._sub_layers))
        add(stage.get_layers_with_opinion, p)
        add(nxt_node.get_node_as_dict, n)
        add(stage.resolve, n, "${x} ${.y} ${path::a} ${file::b} ${contents::c} ${/a.x} ${_nxtpath}", comp)
        add(stage.get_reverted_child_order, p, rng.choice(stage._sub_layers), comp)
        for a in stage.get_node_attr_names(n):
            for r in (True, False):
                add(stage.get_node_attr_value, n, a, comp, resolved=r)
            add(stage.get_node_attr_data, n, a, comp)
            add(stage.get_node_attr_external_sources, n, a, comp)
            add(stage.get_attr_as_real_data_type, n, a, comp)
            add(get_historical_opinions, n, a, comp, include_local=rng.random() < .5)
            add(stage.get_uncomped_opinion, n, a)
        for order in (True, False):
            for rt in (RT.Path, RT.Node, RT.NodeTable, RT.NameDict, RT.Boolean):
                add(comp.children, p, rt, order, rng.random() < .5)
        add(comp.get_exec_order, p)
        add(comp.get_exec_in, p)
    for l in stage._sub_layers:
        add(l.get_save_data)
        add(l.get_muted)
        add(l.get_alias)
        add(l.get_color)
        add(l.get_locked)
        add(stage.get_stash_data, l)
        for p in sorted(l._nodes_path_as_key):
            add(stage.get_node_data, l.lookup(p), l)
            add(l.children, p, RT.Path, True)
            add(l.descendants, p)
            add(l.get_exec_order, p)
    add(stage.get_layer_start_nodes, comp)
    add(stage.save_to_temp, comp, os.path.join(WORK, "temp"))
    add(nxt_layer.get_active_layers, stage._sub_layers)
    return res


def execute(stage, comp, how, texts):
    paths = [p for p in comp._nodes_path_as_key if p != "/"]
    try:
        with limit(20):
            if how == "setup":
                return stage.setup_runtime_layer(None if not comp.runtime else stage.build_stage(comp._layer_range[0]))
            if how == "custom":
                code = "\n".join([rng.choice(texts or ["pass"]), "self.x = 'custom'", "g = 3"])
                rt = stage.execute_nodes([], comp)
                stage.execute_custom_code(code, rng.choice(sorted(paths) or ["/"]), rt)
                return rt
            if how == "start" and paths:
                return stage.execute(rng.choice(sorted(paths)), layer=comp)
            return stage.execute_nodes([rng.choice(sorted(paths)) for _ in range(3)] if paths else [], comp,
                                       parameters={rng.choice(sorted(paths)) + ".x": "param"} if paths and rng.random() < .5 else None)
    except ExitGraph as e:
        return e.runtime_layer
    except CallTimeout:
        raise
    except Exception:
        return None


def one(ls, acts, texts):
    rec.begin([ls, acts])
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    fl, extra = gen.files(ls)
    for f in fl:
        for nd in f.values():
            for a in nd.get("attrs", {}).values():
                k = rng.random()
                if k < .2:
                    a["value"] = rng.choice(["[1, 2]", "{'a': [1]}", "${/a.x}", "${y} ${path::f}"])
                elif k < .3:
                    a["value"] = rng.choice([[1, 2], {"a": [1]}, 3])
    for k in range(len(fl)):
        meta = {}
        for key in ("positions", "collapse", "note"):
            if rng.random() < .5:
                meta[key] = {p: [rng.randint(0, 9), k] if key == "positions" else rng.random() < .5
                             for p in fl[k] if rng.random() < .7}
        if k == 0 and rng.random() < .3:
            meta.update(aliases={"l1.nxt": "other"}, colors={"l1.nxt": "#fff000"})
        extra[k].update(meta_data={x: v for x, v in meta.items() if v})
        if rng.random() < .2:
            extra[k].update(color="#00%02d00" % k, alias="al%d" % k)
        if len(fl) > 1 and rng.random() < .15:
            extra[k].update(mute=rng.random() < .5, solo=rng.random() < .5)
    st, stage = call(stagelab.load, d, fl, extra)
    if st != "ok":
        return
    os.makedirs(os.path.join(WORK, "temp"), exist_ok=True)

    def disk():
        res = {}
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f)) as fh:
                res[f] = fh.read()
        return res
    files = disk()
    ref = pristine(os.path.join(WORK, "p"), [l.get_save_data() for l in stage._sub_layers])
    if saved(stage) != saved(Stage.load_from_filepath(os.path.join(WORK, "p", "l0.nxt"))):
        return          # what loading and saving lose is judged elsewhere
    ops = [dict(do="load", saved=saved(stage), ref=ref)]
    held = []
    for a in acts:
        op = dict(do=a["do"], k=a["k"], how=a["how"], crash="", lost=False, after="")
        if a["do"] in ("read", "run", "drop") and a["k"] > len(held):
            continue
        if a["do"] == "build":
            op["k"] = min(a["k"], len(stage._sub_layers) - 1)
            st, c = call(stage.build_stage, op["k"])
            if st != "ok":
                op["crash"] = c
            else:
                held.append(c)
        elif a["do"] == "read":
            rs = reads(stage, held[a["k"] - 1])
            if a["how"] != "readall":
                rs = [rng.choice(rs) for _ in range(40)]
            for fn, x, kw in rs:
                call(fn, *x, **kw)
        elif a["do"] == "run":
            c = held[a["k"] - 1]
            st, rt = call(execute, stage, c, a["how"], texts)
            if st != "ok":
                break
            if c.runtime and a["how"] == "setup":
                continue
            if rt is None and not c.runtime:
                op["lost"] = True
            else:
                if not c.runtime:
                    held.append(rt)
                op["after"] = dump(stage, c if c.runtime else rt)
        elif a["do"] == "drop":
            del held[a["k"] - 1]
        elif a["do"] == "edit":
            held = []
            k = min(a["k"], len(stage._sub_layers))
            l = stage._sub_layers[k - 1]
            ps = sorted(l._nodes_path_as_key)
            if not ps:
                continue
            n = l.lookup(rng.choice(ps))
            stage.node_setattr_data(n, "x", l, True, value="edited%d" % rng.randint(0, 99))
            op["k"] = k
            op["ref"] = pristine(os.path.join(WORK, "p"), [x.get_save_data() for x in stage._sub_layers])
        op["saved"] = saved(stage)
        op["files"] = disk() == files
        op["shows"] = [dump(stage, c) for c in held]
        ops.append(op)
    rec.case(ops)


EXTRA = ["self.x = (self.x if isinstance(self.x, list) else []) + [3]", "try:\n    self.x.append(9)\nexcept Exception:\n    pass",
         "try:\n    self.x['b'] = 1\nexcept Exception:\n    pass", "self.y = 'ran'", "y = 4\nglobal q; q = 5",
         "try:\n    STAGE.x.append(1)\nexcept Exception:\n    pass", "raise ExitNode()"]


def graph(r):
    ls = gen.layers(r, nl=(1, 3), nn=(1, 4), world=.4, pinst=.3, pco=.3)
    texts = []
    for l in ls:
        for n in l["nodes"]:
            if r.random() < .75:
                n["code"] = "\n".join([render(rand_prog(r, ["/a", "/b"], NAMES, False)) if r.random() < .4 else "", r.choice(EXTRA)]).strip()
                texts.append(n["code"])
    return ls, texts


def acts(r):
    res = [dict(do="build", k=0, how="")]
    held = 1
    for _ in range(r.randint(2, 7)):
        k = r.random()
        if k < .25:
            res.append(dict(do="build", k=r.randint(0, 2), how=""))
            held += 1
        elif k < .5:
            res.append(dict(do="read", k=r.randint(1, held), how=r.choice(["read", "readall"])))
        elif k < .9:
            res.append(dict(do="run", k=r.randint(1, held), how=r.choice(["start", "list", "custom", "setup"])))
            held += 1
        elif k < .95:
            res.append(dict(do="drop", k=r.randint(1, held), how=""))
        else:
            res.append(dict(do="edit", k=r.randint(1, 3), how=""))
            held = 1
            res.append(dict(do="build", k=0, how=""))
    return res


for s in scenarios():
    ls, texts = graph(rng)
    one(ls, s, texts)
for k in range(args.n):
    ls, texts = graph(rng)
    one(ls, acts(rng), texts)
rec.close()
