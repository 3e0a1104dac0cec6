"""Layer contents written to files by us, loaded, edited and saved by the code,
and the files read back by us."""
from lab import *
import copy, os, shutil
from nxt import nxt_io
from nxt.nxt_layer import SpecLayer
from nxt.stage import Stage
from nxt.session import Session
from nxt.constants import GRAPH_VERSION
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA
from layerdata import *

def data(f):
    with open(f, "rb") as fh:
        return fh.read()


def write(d, content):
    p = os.path.join(d, "l.nxt")
    with open(p, "w") as f:
        json.dump(content, f)
    return p


WORDS = ["", "v", "caf\u00e9 \u4e2d", "line\nline", "\"quoted\"", "0", "None", "\U0001f600", "a\\b", "${x}"]
VALUES = WORDS + [0, 1, 2.5, False, True, None, [], {}, [1, "a"], {"k": [None, 0]}, [[]], "\t"]


def edit(layer, stage, r):
    """One edit; True when it makes the layer impossible to write."""
    paths = sorted(layer._nodes_path_as_key)
    n = layer.lookup(r.choice(paths)) if paths else None
    k = r.randint(0, 15)
    if n is not None and k == 0:
        stage.node_setattr_data(n, r.choice("xyz"), layer, True, value=r.choice(VALUES))
    elif n is not None and k == 1:
        stage.node_setattr_data(n, r.choice("xy"), layer, True, comment=r.choice(WORDS))
    elif n is not None and k == 2:
        stage.set_node_comment(n, r.choice(WORDS), layer)
    elif n is not None and k == 3:
        setattr(n, IA.ENABLED, r.choice([True, False, None]))
    elif n is not None and k == 4:
        setattr(n, IA.COMPUTE, r.choice([[], [""], ["a = 1", ""], ["x", "  y"]]))
    elif n is not None and k == 5 and layer.get_node_path(n) != "/":
        setattr(n, IA.START_POINT, r.choice([True, False]))
    elif k == 6:
        layer.positions[r.choice(["/a", "/b"])] = [r.randint(0, 9), 0]
    elif k == 7:
        layer.positions.clear()
    elif k == 8:
        layer.set_alias(r.choice(["nick", "l", "caf\u00e9"]))
    elif k == 9:
        layer.set_muted(r.random() < .5)
        layer.set_soloed(r.random() < .5)
        layer.set_locked(r.random() < .5)
    elif k == 10:
        layer.collapse["/a"] = r.random() < .5
    elif k == 11:
        layer.set_mute_over("x/y.nxt", r.choice([True, False]))
    elif k == 12:
        layer.color = r.choice([None, "#00ff00"])
    elif k == 13:
        layer.add_reference("r%d.nxt" % r.randint(0, 3), insert_idx=r.choice([None, 0]))
    elif k == 14:
        layer.color = r.choice(["#fff", "red"])
    elif k == 15:
        layer.positions = {}
        layer.collapse = {}
    return False


def spoil(layer, r):
    """Something that can not be written; returns how to undo it."""
    paths = sorted(layer._nodes_path_as_key)
    n = layer.lookup(r.choice(paths)) if paths else None
    ring = []
    ring.append(ring)
    bad = r.choice([object(), {1, 2}, ring, b"bytes", {(1, 2): 3}])
    if n is not None and r.random() < .6:
        a = r.choice([IA.COMMENT, IA.COMPUTE])
        old = getattr(n, a)
        setattr(n, a, [bad] if a == IA.COMPUTE else bad)
        return lambda: setattr(n, a, old)
    if r.random() < .5:
        layer._input_metadata["bad"] = bad
        return lambda: layer._input_metadata.pop("bad")
    old = layer.color
    layer.color = bad

    def undo():
        layer.color = old
    return undo


def one(content, steps):
    rec.begin(content)
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    path = write(d, content)
    ops = [dict(op="write", c=from_file(path))]
    name = js("l.nxt")
    stage = Stage()

    def load(op, p):
        st, layer = call(SpecLayer.load_from_filepath, p)
        ops.append(dict(op=op, crash="" if st == "ok" else str(layer), name=name, c=from_layer(layer) if st == "ok" else {}))
        return layer if st == "ok" else None

    def save(layer, p, how):
        others = {f: data(os.path.join(d, f)) for f in os.listdir(d) if f != os.path.basename(p)}
        if how == "layer":
            st, v = call(layer.save, *([p] if p != layer.real_path else []))
        elif how == "session":
            st, v = call(Session().save_layer, layer, p)
        else:
            st, v = call(nxt_io.save_file_data, layer.get_save_data(), p)
        ok = st == "ok" and os.path.exists(p)
        op = dict(op="save", crash="" if ok else "failed " + str(v), name=name,
                  stem="" if how == "io" else js(os.path.splitext(os.path.basename(p))[0]))
        if ok:
            st, c = call(from_file, p)
            if st != "ok":
                op["crash"] = "unreadable " + str(c)
            else:
                op.update(c=c, others=all(data(os.path.join(d, f)) == x for f, x in others.items()),
                          where=how == "io" or os.path.samefile(layer.real_path, p))
        ops.append(op)
        return not op["crash"]
    layer = load("load", path)
    if layer is None:
        rec.case(ops)
        return
    n = 0
    for s in steps:
        if s == "edit":
            for _ in range(rng.randint(1, 4)):
                edit(layer, stage, rng)
            ops.append(dict(op="edit", c=from_layer(layer)))
        elif s in ("save", "saveas", "session", "io"):
            p = layer.real_path
            if s == "saveas":
                n += 1
                p = os.path.join(d, "copy%d.nxt" % n)
            if not save(layer, p, s if s in ("session", "io") else "layer"):
                break
            path = p
            first = data(p)
            again = SpecLayer.load_from_filepath(p)
            p2 = os.path.join(WORK, "again", os.path.basename(p))
            os.makedirs(os.path.dirname(p2), exist_ok=True)
            if s == "io":
                call(nxt_io.save_file_data, again.get_save_data(), p2)
            else:
                call(again.save, p2)
            ops.append(dict(op="again", same=os.path.exists(p2) and data(p2) == first))
            if os.path.exists(p2):
                os.unlink(p2)
        elif s == "load":
            layer = load("reload", path)
            if layer is None:
                break
        elif s == "fail":
            undo = spoil(layer, rng)
            before = {f: data(os.path.join(d, f)) for f in sorted(os.listdir(d))}
            how = rng.choice(["layer", "io"])
            if how == "io":
                st, v = call(lambda: nxt_io.save_file_data(layer.get_save_data(), path))
            else:
                st, v = call(layer.save)
            ops.append(dict(op="failed", stem="" if how == "io" else js(os.path.splitext(os.path.basename(layer.real_path))[0]), same=before == {f: data(os.path.join(d, f)) for f in sorted(os.listdir(d))}))
            undo()
    rec.case(ops)


def rand_content(r):
    c = dict(version=GRAPH_VERSION.VERSION_STR)
    for k, vs in (("alias", ["l", "other", "caf\u00e9", "untitled"]), ("color", ["#991c24", None]), ("mute", [True, False]), ("solo", [True, False]),
                  ("lock", [True, False]), ("references", [[], ["r1.nxt", "sub/r2.nxt"], ["r1.nxt", "r1.nxt"]]),
                  ("comp_overrides", [{}, {"r1.nxt": {"mute": True, "solo": False}}, {"r1.nxt": {}, "x": {"mute": False}}])):
        if r.random() < .5:
            c[k] = r.choice(vs)
    if r.random() < .6:
        c["meta_data"] = {k: r.choice(v) for k, v in (("positions", [{}, {"/a": [1.5, 2]}]), ("collapse", [{}, {"/a": True, "/b": False}]),
                          ("aliases", [{}, {"r1.nxt": "nick"}]), ("colors", [{"r1.nxt": "#fff"}]), ("locks", [{"r1.nxt": True}, {}]),
                          ("custom", [{"k": [1, None]}, "text", 0, "", None, []]), ("z", [3])) if r.random() < .4}
    nodes = {}
    for _ in range(r.randint(0, 6)):
        p = "/" + "/".join(r.choice(["a", "b", "ab", "_c"]) for _ in range(r.randint(1, 3)))
        nodes[p] = {}
    if r.random() < .3:
        nodes["/"] = {}
    for p, n in nodes.items():
        for k, vs in (("start_point", [True, False]), ("instance", ["", "/b", "../b", "/zz"]), ("execute_in", ["/a", "", "/zz"]),
                      ("enabled", [True, False, None]), ("comment", WORDS), ("code", [[], [""], ["a = 1", ""], ["caf\u00e9", "", ""]]),
                      ("child_order", [["a", "b"], ["zz", "a"], ["b", "b", "a"], []])):
            if r.random() < .35 and not (p == "/" and k not in ("comment", "code")):
                n[k] = r.choice(vs)
        for a in "xyz":
            if r.random() < .4:
                n.setdefault("attrs", {})[a] = x = {}
                for k, vs in (("value", VALUES), ("type", ["str", "raw", "", "int"]), ("comment", WORDS)):
                    if r.random() < .6:
                        x[k] = r.choice(vs)
    c["nodes"] = nodes
    if r.random() < .1:
        c.pop("nodes")
    return c


def scenario(s):
    c = dict(version=GRAPH_VERSION.VERSION_STR, nodes={})
    for k, v in s["top"].items() if s["top"] else ():
        c[k] = json.loads(v)
    if s["meta"]:
        c["meta_data"] = {k: json.loads(v) for k, v in s["meta"].items()}
    for p, n in s["nodes"].items():
        d = c["nodes"][p] = {k: json.loads(v) for k, v in (n["f"] or {}).items()}
        if n["co"]:
            d["child_order"] = n["co"]
        if n["attrs"]:
            d["attrs"] = {a: {k: json.loads(x[j]) for k, j in (("value", "v"), ("type", "t"), ("comment", "c")) if x[j] != "absent"}
                          for a, x in n["attrs"].items()}
    return c


for s in scenarios():
    one(scenario(s), ["save", "load", "save", "fail"])
for k in range(args.n):
    steps = [rng.choice(["edit", "save", "save", "load", "saveas", "session", "io", "fail"]) for _ in range(rng.randint(2, 7))]
    # loading again is compared with what was saved: save first
    out = []
    for s in steps:
        if s == "load" and (not out or out[-1] not in ("save", "saveas", "session", "io")):
            out.append("save")
        out.append(s)
    one(rand_content(rng), out)
rec.close()
