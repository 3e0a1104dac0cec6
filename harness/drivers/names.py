"""Names made up by a graph, and histories of edits of attributes whose names
resemble each other."""
from lab import *
import gen, stagelab
from layerdata import *
import os, shutil
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA

NODE_NAMES = ["", "9", "9x", "a b", "a.b", "__name__", "a", "a", "a1", "a2", "a9", "a09", "b", "\u00e9", "x-y", "1", "_", "a/b", "\n", "${x}",
              "a1b", "A", "node", "a b"]
ATTR_NAMES = ["", "a", "a", "ab", "a1", "a2", "a9", "a10", "a 1", "9", "_name", "_code", "_child_order", "_cached_code", "__doc__", "__name__",
              "__bases__", "a" + MA.COMMENT, "a" + MA.TYPE, "a__nxt", "b", "\u00e9", "x.y", "A"]
RESERVED = sorted(set(IA.PROTECTED) | {"__name__", "__bases__", "__mro__", "__qualname__"}
                  | {a + m for a in ATTR_NAMES for m in MA.ALL} | {"a__nxt"})


def plain(s):
    """Text as the specification can take it in; other signs are open."""
    return "".join(c if " " <= c <= "~" else "\u00a7" for c in s)


def ns(p):
    return [x for x in p.split("/") if x]


def state(lab):
    s, ls = lab["stage"], lab["stage"]._sub_layers
    return dict(layers=[[dict(p=n["p"], attrs=n["attrs"]) for n in from_layer(l)["nodes"]] for l in ls],
                on=[not l.get_muted() and (l.get_soloed() or not any(x.get_soloed() for x in ls)) for l in ls],
                comp=sorted(s.build_stage()._nodes_path_as_key))


BLANK = dict(do="", l=0, p="", a="", b="", v="absent", t="absent", c="absent", out="", none=False, crash="", where="", par="", pick=0, typ="")


def jv(o, k):
    return {} if o[k] == "absent" else {dict(v="value", t="type", c="comment")[k]: o[k]}


def do(lab, o):
    s = lab["stage"]
    L = s._sub_layers[o["l"]]
    d = o["do"]
    node = L.lookup(o["p"])
    sub = dict(jv(o, "v"), **dict(jv(o, "t"), **jv(o, "c")))
    if d == "legal":
        return s.legalize_name(o["a"])
    if d == "nodename":
        kw = {}
        lay = L
        if o["where"] == "layer":
            kw["layer_only"] = True
        elif o["where"] == "comp":
            lay = s.build_stage()
        elif o["where"] == "both":
            lay, kw["target_layer"] = s.build_stage(), L
        return s.get_unique_node_name(None if o["none"] else o["a"], lay, parent_path=o["p"], **kw)
    if d == "attrname":
        lay = s.build_stage() if o["where"] == "comp" else L
        return s.get_unique_attr_name(o["p"], lay, **({} if o["none"] else dict(attr_name=o["a"])))
    if d == "addnode":
        n, _ = s.add_node(name=o["a"], parent=o["p"], layer=L)
        return ns(L.get_node_path(n[0]))[-1]
    if d == "rename":
        s.set_node_name(node, o["a"], L)
        return ns(L.get_node_path(node))[-1]
    if d == "parent":
        s.parent_nodes([node], o["par"], L)
        return ns(L.get_node_path(node))[-1]
    if d == "duplicate":
        n, _ = s.duplicate_node(node, L, descendants=False)
        return ns(L.get_node_path(n[-1]))[-1]
    if d == "add":
        return s.add_node_attr(node, o["a"], sub, L)
    if d == "ren":
        s.rename_node_attr(node, o["a"], o["b"], L)
    elif d == "del":
        return "yes" if s.delete_node_attr(node, o["a"]) else "no"
    elif d == "set":
        if set(sub) == {"comment"} and o["pick"]:
            s.node_setattr_comment(node, o["a"], L, comment=o["c"], create=True)
        else:
            s.node_setattr_data(node, o["a"], L, True, **sub)
    return ""


def perform(lab, o, ops):
    o = dict(BLANK, **o)
    st, v = call(do, lab, o)
    o["crash"] = "" if st == "ok" else str(v)
    o["out"] = (v if isinstance(v, str) else repr(v)) if st == "ok" else ""
    o["op"] = "do"
    how, seen = call(state, lab)
    x = dict(o, **(seen if how == "ok" else dict(layers=[], on=[], comp=[])))
    if how != "ok":
        x["crash"] = str(seen)
    for k in "vtc":
        if o[k] != "absent":
            x[k] = js(o[k])
    x["reserved"] = RESERVED
    x["pp"] = ns(o["p"])
    x["upp"] = ns(o["par"])
    for k in ("a", "b", "out"):
        x[k] = plain(x[k])
    for l in x["layers"]:
        for n in l:
            n["attrs"] = [dict(a, n=plain(a["n"])) for a in n["attrs"]]
    ops.append(x)


def one(files, extra, edits, r=None, n=0):
    rec.begin([files, edits])
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    st, stage = call(stagelab.load, d, files, extra)
    if st != "ok":
        raise RuntimeError(stage)
    lab = dict(stage=stage)
    ops = [dict(state(lab), op="load", crash="")]
    k = 0
    while k < (n if edits is None else len(edits)):
        o = edits[k] if edits is not None else rand(r, lab)
        k += 1
        perform(lab, o, ops)
        if ops[-1]["crash"]:
            break
    # what the file says in the end is what the layers hold
    if not ops[-1]["crash"]:
        got = []
        for l in stage._sub_layers:
            st, v = call(l.save, os.path.join(d, "saved.nxt"))
            if st == "ok":
                f = from_file(os.path.join(d, "saved.nxt"))
                got.append([dict(p=x["p"], attrs=[dict(a, n=plain(a["n"])) for a in x["attrs"]]) for x in f["nodes"]])
        ops.append(dict(op="saved", layers=got, crash="" if st == "ok" else str(v)))
    rec.case(ops, before=[files, edits or []])


def rand(r, lab):
    s = lab["stage"]
    l = r.randrange(len(s._sub_layers))
    L = s._sub_layers[l]
    paths = sorted(L._nodes_path_as_key)
    pool = sorted({p for x in s._sub_layers for p in x._nodes_path_as_key})
    kind = r.choices(["legal", "nodename", "attrname", "addnode", "rename", "parent", "duplicate", "add", "ren", "del", "set"],
                     [1, 4, 3, 2, 2, 2, 1, 4, 4, 3, 5])[0]
    p = r.choice(paths)
    o = dict(BLANK, do=kind, l=l, p=p, pick=r.randint(0, 1))
    if kind in ("legal", "nodename", "addnode", "rename"):
        o["a"] = r.choice(NODE_NAMES)
        if r.random() < .2:
            o["a"] = "".join(r.choice("ab19_ .-/:~") for _ in range(r.randint(0, 4)))
    if kind == "nodename":
        o["p"] = r.choice(pool)
        o["where"] = r.choice(["layer", "all", "comp", "both"])
        o["none"] = r.random() < .1
    elif kind == "addnode":
        o["p"] = r.choice(paths)
    elif kind == "rename":
        free = [q for q in paths if q != "/" and not q.endswith("/" + o["a"])]
        if not free:
            return dict(o, do="legal")
        o["p"] = r.choice(free)
    elif kind == "parent":
        pairs = [(q, t) for q in paths for t in paths if q != "/" and (q.rsplit("/", 1)[0] or "/") != t and t != q and not t.startswith(q + "/")]
        if not pairs:
            return dict(o, do="legal")
        o["p"], o["par"] = r.choice(pairs)
        o["a"] = ns(o["p"])[-1]
    elif kind == "duplicate":
        free = [q for q in paths if q != "/" and (q.count("/") == 1 or q.rsplit("/", 1)[0] in paths)]
        if not free:
            return dict(o, do="legal")
        o["p"] = r.choice(free)
        o["a"] = ns(o["p"])[-1]
    elif kind == "attrname":
        o["p"] = r.choice(pool)
        o["where"] = r.choice(["layer", "comp"])
        o["none"] = r.random() < .1
        o["a"] = r.choice(ATTR_NAMES)
    elif kind in ("add", "ren", "del", "set"):
        own = [x["n"] for n in from_layer(L)["nodes"] if n["p"] == p for x in n["attrs"]]
        o["a"] = r.choice(own) if own and kind != "add" and r.random() < .8 else r.choice(ATTR_NAMES)
        o["b"] = r.choice(ATTR_NAMES)
        if kind == "set" and o["a"] not in own and not o["a"].isidentifier():
            o["a"] = "ab"
        if kind == "set" and o["a"] not in own and (o["a"] in RESERVED or "__" in o["a"]):
            o["a"] = "a1"
        if kind in ("add", "set"):
            for k in r.choice(["v", "v", "c", "vc", "vtc", "tv", "t" if kind == "add" else "c"]):
                o[k] = r.choice(["1", "x", "[1]", "${a}", "\u00e9", "w%d" % r.randint(0, 99)])
    return o


for s in scenarios():
    attrs = lambda names: {"attrs": {n: {"value": "v-" + n, "type": "t-" + n, "comment": "c-" + n} for n in names}}
    files = [{"/n": attrs(s["top"])}, {"/n": attrs(s["own"]), "/m": attrs(s["own"])}]
    one(files, None, [dict(e, l=1, p="/n", pick=k % 2) for k, e in enumerate(s["edits"])])
for k in range(args.n):
    ls = gen.layers(rng, nl=(1, 3), nn=(1, 4), names=["a", "a1", "b", "a2"][:rng.randint(2, 4)], depth=2, world=.2, pinst=.25, pcode=.1, pco=.2, flags=.1)
    files, extra = gen.files(ls)
    for f in files:
        for p, n in f.items():
            n["attrs"] = {a: {"value": "v-" + a, "type": "str", "comment": "c-" + a} for a in ["a", "ab", "a1", "a2", "b"] if rng.random() < .35}
    one(files, extra, None, rng, rng.randint(4, 10))
rec.close()
