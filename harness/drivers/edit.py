"""Edit histories through the Stage API on layers of a graph, with and without
the composite shown to the user.  After every edit: every layer's content and
lookups (--part layers), or what the composite kept up to date shows next to
one built anew (--part comp)."""
from lab import *
import gen, stagelab, observe
from layerdata import *
import ast, copy, os, shutil
from nxt import nxt_path
from nxt.nxt_layer import LayerReturnTypes as RT
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA

PLAIN = "plain" in args.part
NAMES = ["a", "b", "c"]
WEIRD = ["9x", "a b", "__name__", "node", "a1"]


def ns(p):
    return [x for x in p.split("/") if x]


def view(layer):
    """Content and lookups of a layer."""
    o = from_layer(layer)
    nodes = []
    for n in o["nodes"]:
        co = [] if n["p"] == "/" else n["co"]
        node = layer._nodes_path_as_key[n["p"]]
        name, parent = getattr(node, IA.NAME), getattr(node, IA.PARENT_PATH)
        nodes.append(dict(p=ns(n["p"]), f=n["f"], co=co, attrs=n["attrs"], own=[name, parent],
                          path=str(layer.get_node_path(node)), kids=sorted(layer.children(n["p"], RT.Path))))
    meta = {m["k"]: m["v"] for m in o["meta"]}
    pos, col = layer.positions, layer.collapse
    imp = sorted({"/".join(p.split("/")[:k]) for p in layer._nodes_path_as_key for k in range(2, p.count("/") + 1)}
                 - set(layer._nodes_path_as_key))
    return dict(nodes=nodes, implied=[dict(p=ns(p), kids=sorted(layer.children(p, RT.Path))) for p in imp], top=o["top"], meta=[m for m in o["meta"] if m["k"] not in ("positions", "collapse")],
                pos=[dict(p=ns(p), v=js(v)) for p, v in sorted(pos.items())],
                col=[dict(p=ns(p), v=js(v)) for p, v in sorted(col.items())],
                bynode=sorted(layer._nodes_node_as_key.values()),
                spec=sorted(str(layer.get_node_path(n)) for n in layer.spec_list),
                table=sorted("/" + "/".join(x for x in t[0] if x != "/") for t in layer._node_table))


def typ(v):
    try:
        return type(ast.literal_eval(v)).__name__
    except (ValueError, NameError, SyntaxError):
        return "raw"


def key(k):
    return dict(code="code", comment="comment", enabled="enabled", start="start_point", exec="execute_in", inst="instance")[k]


class Lab(object):
    def __init__(self, stage, with_comp):
        self.stage = stage
        self.layers = stage._sub_layers
        self.comp = stage.build_stage() if with_comp else None

    def there(self, l):
        return set(self.stage.build_stage()._nodes_path_as_key) | set(self.layers[l]._nodes_path_as_key)

    def free(self, l, there, p, q):
        """Nothing is at q, nor where it would put what p takes along."""
        p, q = p and gen.text(p), gen.text(q)
        below = [x for x in self.layers[l]._nodes_path_as_key if p and x.startswith(p + "/")]
        return q not in there and not any(q + x[len(p):] in there for x in below)

    def do(self, o):
        """Performs edit o; returns the paths that came about.  With a
        composite shown, edits that keep it up to date are given it, and after
        others it is built anew, as the editor does."""
        s, L, c = self.stage, self.layers[o["l"]], self.comp
        d = o["do"]
        node = L.lookup(gen.text(o["p"])) if o["p"] is not None else None
        kept = True
        new = []
        if d == "add":
            data = {}
            if o["inst"] != "none":
                data["instance"] = o["inst"]
            if o["data"]:
                data.update(attributes_of(o["data"]))
            parent = o["parent"]
            ps = gen.text(parent)
            if o["bynode"] and L.lookup(ps) is not None:
                ps = L.lookup(ps)
            n, _ = s.add_node(name=o["name"] or None, data=data, parent=ps, layer=L if o["byidx"] == "no" else o["l"],
                              fix_names=o["fix"], comp_layer=c)
            new = [L.get_node_path(n[0])]
        elif d == "delete":
            s.delete_node(node, L, comp_layer=c, delete_descendants=o["desc"])
        elif d == "rename":
            s.set_node_name(node, o["name"], L, force=not o["fix"], comp_layer=c)
            new = [L.get_node_path(node)]
            kept = False
        elif d == "parent":
            nodes = [L.lookup(gen.text(p)) for p in o["ps"]]
            s.parent_nodes(nodes, gen.text(o["parent"]), L, check_names=o["fix"])
            new = [L.get_node_path(n) for n in nodes]
            kept = False
        elif d == "duplicate":
            src = L
            if o["from"] != o["l"]:
                node = self.layers[o["from"]].lookup(gen.text(o["p"]))
            n, _ = s.duplicate_node(node, L, descendants=o["desc"])
            new = [L.get_node_path(x) for x in n]
            kept = False
        elif d == "setattr":
            kw = {str(o["sub"]): o["v"]}
            s.node_setattr_data(node, o["a"], L, True, comp_layer=c, **kw)
        elif d == "addattr":
            s.add_node_attr(node, o["a"], {"value": o["v"]}, L)
            kept = True
        elif d == "delattr":
            s.delete_node_attr(node, o["a"])
        elif d == "renattr":
            s.rename_node_attr(node, o["a"], o["b"], L)
        elif d == "set":
            k, v = o["k"], json.loads(o["v"])
            if k == "code":
                s.set_node_code_lines(node, v, c)
            elif k == "comment":
                s.set_node_comment(node, v, L)
                kept = False
            elif k == "enabled":
                s.node_setattr_data(node, IA.ENABLED, L, False, comp_layer=c, value=v)
            elif k == "start":
                s.node_setattr_data(node, IA.START_POINT, L, False, comp_layer=c, value=v)
                kept = False
            elif k == "exec":
                if o["how"]:
                    s.set_node_exec_in(node, v, L)
                else:
                    s.node_setattr_data(node, IA.EXECUTE_IN, L, False, comp_layer=c, value=v)
                kept = False
            elif k == "inst":
                s.set_node_instance_path(node, v, L, comp_layer=c)
        elif d == "order":
            s.set_node_child_order(node, list(o["co"]), L, comp_layer=c)
        if c is not None and (not kept or args.part == "layers"):
            self.comp = s.build_stage()
        return kept, new


def attributes_of(data):
    return {"attrs": {a["n"]: {"value": a["v"]} for a in data}}


def used(layer, path):
    p = gen.text(path)
    return any(x == p or x.startswith(p + "/") for x in layer._nodes_path_as_key)


def blank(do, l):
    return dict({"from": l}, do=do, l=l, p=None, parent=[], ps=[], name="", fix=True, desc=False, inst="none", data=[], bynode=False, byidx="no",
                a="", b="", v="", sub="value", k="", co=[], how=False)


def rand_edit(r, lab):
    ks = range(len(lab.layers))
    l = r.choice(ks)
    L = lab.layers[l]
    paths = sorted(p for p in L._nodes_path_as_key if p != "/")
    pool = sorted({p for x in lab.layers for p in x._nodes_path_as_key if p != "/"})
    implied = sorted({"/".join(p.split("/")[:k]) for p in pool for k in range(2, p.count("/") + 1)})
    w = [("add", 4), ("delete", 2), ("rename", 2), ("parent", 2), ("duplicate", 1.5), ("setattr", 2.5), ("addattr", .4), ("delattr", .6),
         ("renattr", .6), ("set", 3), ("order", 1)]
    do = r.choices([x for x, _ in w], [y for _, y in w])[0]
    o = blank(do, l)
    if do == "add":
        o["name"] = r.choice(WEIRD) if r.random() < .15 else r.choice(NAMES)
        o["parent"] = ns(r.choice(["/"] + paths + paths + pool + implied))
        o["fix"] = r.random() < .75
        if r.random() < .3 and not PLAIN:
            o["inst"] = r.choice(pool + ["/zz", "../" + r.choice(NAMES)]) if pool else "/zz"
        if r.random() < .3:
            o["data"] = [dict(n="x", v="d%d" % r.randint(0, 9))]
        o["bynode"] = r.random() < .3
        o["byidx"] = "yes" if r.random() < .2 else "no"
        if not o["fix"]:
            o["name"] = r.choice(NAMES)
            if L.lookup(gen.text(o["parent"] + [o["name"]])) is not None:
                return None
        return o
    if do == "duplicate" and r.random() < .25:
        o["from"] = r.choice(ks)
    else:
        o["from"] = l
    src = sorted(p for p in lab.layers[o["from"]]._nodes_path_as_key if p != "/") if do == "duplicate" else paths
    if not src:
        return None
    o["p"] = ns(r.choice(src))
    if do in ("setattr", "addattr", "set", "delattr", "renattr") and r.random() < .1 and L.lookup("/") is not None:
        o["p"] = []
    here = gen.text(o["p"])
    node = L.lookup(here)
    if do == "delete":
        o["desc"] = r.random() < .5
    elif do == "rename":
        o["name"] = r.choice(WEIRD) if r.random() < .2 else r.choice(NAMES + ["d"])
        o["fix"] = r.random() < .75
        if not o["fix"]:
            o["name"] = r.choice(NAMES + ["d"])
            if used(L, o["p"][:-1] + [o["name"]]):
                return None
        if o["name"] == o["p"][-1]:
            return None
    elif do == "parent":
        k = r.choice([1, 1, 1, 2])
        ps = [here] + [p for p in r.sample(paths, min(len(paths), k)) if p != here][:k - 1]
        o["parent"] = ns(r.choice(["/"] + paths + pool + implied))
        o["fix"] = r.random() < .75
        # only nodes that are elsewhere, do not hold each other or the target
        t = o["parent"]
        for p in ps:
            q = ns(p)
            if q[:-1] == t or t[:len(q)] == q or any(x != p and (x + "/").startswith(p + "/") for x in ps):
                return None
            if not o["fix"] and used(L, t + [q[-1]]):
                return None
        if not o["fix"] and len({ns(p)[-1] for p in ps}) < len(ps):
            return None
        o["ps"] = [ns(p) for p in ps]
    elif do == "duplicate":
        # what lies below is duplicated from the layer given
        o["desc"] = r.random() < .7 and o["from"] == l
    elif do == "setattr":
        o["a"] = r.choice("xyz")
        has = [a["n"] for n in view(L)["nodes"] if n["p"] == o["p"] for a in n["attrs"]]
        o["sub"] = r.choice(["value", "value", "comment"]) if o["a"] in has else "value"
        o["v"] = r.choice(["1", "", "v%d" % r.randint(0, 99), "[1, 'a']", "${x}", "\"q\""])
    elif do == "addattr":
        o["a"] = "n%d" % r.randint(0, 99)
        o["v"] = "1"
    elif do in ("delattr", "renattr"):
        names = [a["n"] for n in view(L)["nodes"] if n["p"] == o["p"] for a in n["attrs"]]
        if not names:
            return None
        o["a"] = r.choice(names)
        o["b"] = r.choice(["m1", "m2", "x"])
        if do == "renattr" and o["b"] in names:
            return None
    elif do == "set":
        o["k"] = r.choice(["code", "comment", "enabled", "start", "exec", "inst", "inst", "code", "enabled"])
        if PLAIN and o["k"] == "inst":
            return None
        if o["k"] in ("code", "enabled") and (lab.comp is None or lab.comp.lookup(here) is None):
            return None
        if o["k"] == "start" and not o["p"]:
            return None
        o["v"] = js({"code": [["s = %d" % r.randint(0, 9)], [], ["a", "b"]], "comment": ["", "c", "x y"],
                     "enabled": [True, False, None], "start": [True, False], "exec": pool + ["/zz"],
                     "inst": pool + pool + ["", "/zz", "../a", "../b", None]}[o["k"]][0:] and
                    r.choice({"code": [["s = %d" % r.randint(0, 9)], [], ["a", "b"]], "comment": ["", "c", "x y"],
                              "enabled": [True, False, None], "start": [True, False], "exec": pool + ["/zz"],
                              "inst": pool + pool + ["", "/zz", "../a", "../b", None]}[o["k"]]))
        if o["k"] in ("inst", "exec", "enabled") and not o["p"]:
            return None
        o["how"] = r.random() < .5
    elif do == "order":
        co = [n for n in NAMES if r.random() < .7]
        r.shuffle(co)
        o["co"] = co
    return o


def digest(stage, comp):
    """What a composite shows, per node."""
    res = {}
    for p in sorted(comp._nodes_path_as_key):
        rows = {}
        for k, fn in (("node", lambda: observe.node_op(stage, comp, p, hist=False)), ("kids", lambda: kids(comp, p)),
                      ("exec", lambda: comp.get_exec_order(p) if p != "/" else 0)):
            try:
                rows[k] = fn()
            except Exception as e:
                rows[k] = type(e).__name__
        res[p] = rows
    return res


def kids(comp, p):
    g = comp.get_node_path
    n = comp.lookup(p)
    return dict(paths=sorted(comp.children(p, RT.Path)), nodes=sorted(g(x) for x in comp.children(p, RT.Node)),
                implied=sorted(comp.children(p, RT.Path, include_implied=True)),
                desc=sorted(comp.descendants(p)), ordered=comp.children(p, RT.Path, ordered=True) if p != "/" else [],
                co=list(getattr(n, IA.CHILD_ORDER)))


def differences(a, b):
    """[path, aspect] where two digests differ."""
    res = []
    for p in sorted(set(a) | set(b)):
        if p not in b:
            res.append([p, "extra"])
        elif p not in a:
            res.append([p, "missing"])
        else:
            for k in a[p]:
                x, y = a[p][k], b[p][k]
                if x == y:
                    continue
                if isinstance(x, dict) and isinstance(y, dict):
                    res += [[p, k + ":" + j] for j in sorted(set(x) | set(y)) if x.get(j) != y.get(j)]
                else:
                    res.append([p, k])
    return res


def one(ls, edits, with_comp, r, n=0):
    rec.begin([ls, edits])
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    fl, extra = gen.files(ls)
    for k in range(len(fl)):
        roots = [p for p in fl[k] if p.count("/") == 1 and p != "/"]
        extra[k]["meta_data"] = {"positions": {p: [r.randint(0, 99), 0] for p in roots if r.random() < .5},
                                 "collapse": {p: True for p in fl[k] if r.random() < .4 and p != "/"}}
    st, stage = call(stagelab.load, d, fl, extra)
    if st != "ok":
        return
    st, lab = call(Lab, stage, with_comp)
    if st != "ok" or (with_comp and lab.comp.failure):
        return
    ops = []
    if args.part == "layers":
        ops.append(dict(op="load", layers=[view(l) for l in lab.layers]))
    done = 0
    tries = 0
    while (done < len(edits)) if edits is not None else (done < n and tries < n * 4):
        tries += 1
        o = edits[done] if edits is not None else rand_edit(r, lab)
        if o is None:
            continue
        # a name may have been settled otherwise than the model had it
        if edits is not None and o["p"] is not None and lab.layers[o["l"]].lookup(gen.text(o["p"])) is None:
            break
        done += 1
        o = dict(o)
        # what is there, seen from all layers or from the one edited
        there = lab.there(o["l"]) if args.part == "layers" and o["do"] in ("add", "rename", "parent", "duplicate") else set()
        if o["do"] in ("add", "rename"):
            base = o["parent"] if o["do"] == "add" else o["p"][:-1]
            o["free"] = lab.free(o["l"], there, o["p"] if o["do"] == "rename" else None, base + [o["name"]])
        free = [lab.free(o["l"], there, p, o["parent"] + [p[-1]]) for p in o["ps"]]
        st, v = call(lab.do, o)
        kept, new = v if st == "ok" else (False, [])
        if o["do"] == "parent":
            o["free"] = free and [f and gen.text(o["parent"] + [p[-1]]) not in new[:k] for k, (f, p) in enumerate(zip(free, o["ps"]))]
        o["taken"] = [p in there | set(new[:k]) for k, p in enumerate(new)]
        o["jv"] = js(o["v"])
        o["jinst"] = "absent" if o["inst"] == "none" else js(o["inst"])
        o["data"] = [dict(n=a["n"], j=js(a["v"])) for a in o["data"]]
        o["typ"] = js(typ(o["v"]))
        o["crash"] = "" if st == "ok" else str(v)
        o["new"] = [ns(p) for p in new]
        if o["p"] is None:
            o["p"] = []
        o["op"] = "edit"
        o["comp"] = bool(with_comp)
        if args.part == "layers":
            o["layers"] = [view(l) for l in lab.layers]
            ops.append(o)
            if o["crash"]:
                break
        else:
            o["diff"] = []
            if lab.comp is not None and kept and st == "ok":
                f = stage.build_stage()
                if f.failure or lab.comp.failure:
                    break
                o["diff"] = differences(digest(stage, lab.comp), digest(stage, f))
            ops.append(o)
            if o["crash"] or o["diff"]:
                break
    rec.case(ops, before=ls if args.part != "layers" else [])


for s in scenarios():
    one(s["layers"], s["edits"], s["comp"], rng)
for k in range(args.n):
    ls = gen.layers(rng, nl=(1, 3), nn=(1, 5), names=NAMES, depth=3, world=.3, pinst=0 if PLAIN else .3, pattr=.25, pcode=.3, pco=.4,
                    flags=.1 if rng.random() < .3 else 0)
    one(ls, None, True if args.part != "layers" else rng.random() < .4, rng, rng.randint(3, 9))
rec.close()
