"""Graphs whose layers stand in different directories, with texts that name
files: resolved on nodes of composites."""
from lab import *
import gen, stagelab, observe
import copy, shutil
from nxt.stage import Stage
from nxt import DATA_STATE
from nxt.constants import GRAPH_VERSION

ROOT = os.path.join(os.path.realpath(WORK), "w")
KINDS = [("${filelist::", "FileList"), ("${path::", "PathToken"), ("${file::", "FirstExisting")]


def kind(t):
    for k, n in KINDS:
        if k in t:
            return n
    return "Resolved"


def write(w, layers):
    """layers: strong to weak, with a dir each; the first references the others."""
    shutil.rmtree(ROOT, ignore_errors=True)
    for d in w["dirs"] + [l["at"] for l in layers]:
        os.makedirs(os.path.join(ROOT, d), exist_ok=True)
    for f in w["files"]:
        p = os.path.join(ROOT, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(w["text"].get(f, "x"))
    for f, to in sorted(w["links"].items()):
        p = os.path.join(ROOT, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink(to, p)
    for k, l in enumerate(layers):
        d = {"version": GRAPH_VERSION.VERSION_STR, "alias": "l%d" % k, "mute": l["mute"], "solo": l["solo"],
             "nodes": {gen.text(n["p"]): gen.node_json(n) for n in l["nodes"]}}
        if l.get("cwd"):
            d["cwd"] = os.path.join(ROOT, l["cwd"])
        if k == 0:
            d["references"] = [os.path.relpath(os.path.join(ROOT, x["at"], x["id"]), os.path.join(ROOT, l["at"])) for x in layers[1:]]
        with open(os.path.join(ROOT, l["at"], l["id"]), "w") as fh:
            json.dump(d, fh)
    for k in list(os.environ):
        if k.startswith("FV_"):
            del os.environ[k]
    os.environ.update(w["env"])
    os.environ["HOME"] = os.path.join(ROOT, "h")
    os.environ.pop("NXT_FILE_ROOTS", None)


def state(stage, comp):
    return [json.dumps(l.get_save_data(), default=str) for l in stage._sub_layers] + \
           sorted(repr((p, sorted((k, repr(v)) for k, v in n.__dict__.items() if not k.startswith("__")))) for p, n in comp._nodes_path_as_key.items()) + \
           [os.getcwd()]


def outcome(fn):
    st, v = call(fn, _limit=10)
    if st == "ok" and not isinstance(v, str):
        v = "" if v is None else repr(type(v))
    return dict(crash="", res=v) if st == "ok" else dict(crash=v, res="")


def one(w, layers, frm, texts, per_node=None):
    rec.begin([w, layers, frm])
    write(w, layers)
    st, stage = call(Stage.load_from_filepath, os.path.join(ROOT, layers[0]["at"], layers[0]["id"]))
    if st != "ok" or len(stage._sub_layers) != len(layers):
        raise RuntimeError("graph not loaded")
    if w["roots"]:
        os.environ["NXT_FILE_ROOTS"] = os.pathsep.join(os.path.join(ROOT, r) for r in w["roots"])
    st, comp = call(stage.build_stage, frm)
    if st != "ok" or comp.failure:
        return
    before = state(stage, comp)
    ops = []
    for p, n in sorted(comp._nodes_path_as_key.items()):
        q = observe.ns(p)
        for a in sorted(stage.get_node_attr_names(n)):
            raw = stage.get_node_attr_value(n, a, comp, resolved=False)
            ops.append(dict(op="value", p=q, a=a, t=str(raw), kind=kind(str(raw)),
                            **outcome(lambda: stage.get_node_attr_value(n, a, comp))))
        for t in texts + (per_node(q) if per_node else []):
            ops.append(dict(op="resolve", p=q, t=t, kind=kind(t), **outcome(lambda: stage.resolve(n, t, comp))))
            if "\n" not in t and rng.random() < .2:
                ops.append(dict(op="resolve", p=q, t=t, kind=kind(t), **outcome(lambda: stage.resolve(n, t, comp))))
    ops.append(dict(op="after", crash="", same=state(stage, comp) == before))
    ex = []
    for d, ds, fs in os.walk(ROOT):
        ex.append(d)
        ex += [os.path.join(d, f) for f in fs if not os.path.islink(os.path.join(d, f)) or os.path.exists(os.path.join(d, f))]
    rec.case(ops, layers=[dict(id=l["id"], mute=l["mute"], solo=l["solo"], nodes=l["nodes"],
                               dir=os.path.join(ROOT, l.get("cwd") or l["at"])) for l in layers],
             **{"from": frm, "w": dict(ex=sorted(ex), links=[dict(f=os.path.join(ROOT, f), to=t) for f, t in sorted(w["links"].items()) if os.path.exists(os.path.join(ROOT, f))],
                                       env=dict(w["env"], **{"FV_NONE_": ""}), home=os.environ["HOME"], roots=[os.path.join(ROOT, r) for r in w["roots"]],
                                       cwd=os.getcwd(), texts=[dict(f=os.path.join(ROOT, f), t=w["text"].get(f, "x")) for f in sorted(w["files"])])})


NO = dict(k="none", s=[])


def nd(p, attrs, **kw):
    d = dict(p=p, inst=NO, code="none", comment="none", enabled="none", exec="none", start="none", co=[],
             attrs=[dict(n=a, v=v, t="none", c="none") for a, v in sorted(attrs.items())])
    d.update(kw)
    return d


for s in scenarios():
    # layers of two nodes each; a value "-" is no opinion
    ls = []
    for k, l in enumerate(s["layers"]):
        ls.append(dict(id="l%d.nxt" % k, at="d%d" % k, mute=l["mute"], solo=l["solo"],
                       nodes=[nd(["n"], {a: v for a, v in (("f", l["f"]), ("g", l["g"])) if v != "-"})] +
                             ([nd(["m"], {"g": l["h"]})] if l["h"] != "-" else []) ))
    ls[-1]["nodes"].append(nd(["i"], {}, inst=dict(k="abs", s=["n"])))
    one(dict(files=s["files"], links={}, dirs=["r1", "r2"], roots=s["roots"], env={}, text={}), ls, s["from"], s["texts"])

DIRS = ["d0", "d1", "d0/sub", "r1", "r2", "gone", "d0/../d1"]
NAMES = ["x", "y.txt", "sub/x", "sub", "z"]


def ref(r, here, paths, attrs, depth):
    a = r.choice(attrs) if r.random() < .9 else "zz"
    if depth < 2 and r.random() < .08:
        a = "${" + ref(r, here, paths, attrs, depth + 1) + "}"
    k = r.random()
    if k < .45:
        return a
    if k < .75:
        return gen.text(r.choice(paths)) + "." + a
    if k < .9:
        return "/".join([".."] * r.randint(1, 2) + r.choice(paths)[-1:]) + "." + a
    return "." * r.randint(1, 2) + a


def path_text(r, here, paths, attrs, depth):
    """A text that is meant as a path."""
    k = r.random()
    if k < .4:
        t = r.choice(NAMES)
    elif k < .75:
        t = "${" + ref(r, here, paths, attrs, depth + 1) + "}"
        if r.random() < .3:
            t = r.choice(["sub/", "./", ""]) + t + r.choice(["", ".txt", "/x"])
    elif k < .82:
        t = r.choice(["../d1/", "../d0/", "../r1/", "./"]) + r.choice(NAMES)
    elif k < .87:
        t = r.choice(["$FV_A/x", "%FV_B%", "~/x", "~", "$FV_C"])
    elif k < .92:
        t = os.path.join(ROOT, r.choice(["d0", "d1", "r1", "h"]), r.choice(NAMES))
    elif k < .96 and depth < 2:
        t = "${file::" + path_text(r, here, paths, attrs, depth + 1) + "}"
    else:
        t = ""
    return t


def rtext(r, here, paths, attrs, depth=0):
    k = r.random()
    pt = path_text(r, here, paths, attrs, depth)
    if k < .25:
        return pt
    if k < .6:
        t = "${file::" + pt + "}"
    elif k < .75:
        t = "${filelist::" + pt + "}"
    elif k < .85:
        t = "${path::" + pt + "}"
    elif k < .9:
        t = "${contents::${file::" + pt + "}}"
    elif k < .95:
        t = "${" + ref(r, here, paths, attrs, depth) + "}"
    else:
        t = r.choice(["${_nxtpath}", "${ex::" + pt + "}", "${ex::${file::" + pt + "}}"])
    if r.random() < .12:
        t = r.choice(["a ", "", "{", "é"]) + t + r.choice([" b", "", "}", t])
    return t.replace("${}", "")


for k in range(args.n):
    r = rng
    ls = gen.layers(r, nl=(1, 4), nn=(2, 4), depth=2, pinst=0, pattr=.7, pcode=0, poff=0, flags=.12)
    names = sorted({x for l in ls for n in l["nodes"] for x in n["p"]}) or ["a"]
    paths = [n["p"] for l in ls for n in l["nodes"]]
    attrs = sorted({a["n"] for l in ls for n in l["nodes"] for a in n["attrs"]}) or ["x"]
    if r.random() < .4 and not ls[-1]["mute"]:
        # instances are stated where they hold at every depth
        for n in ls[-1]["nodes"]:
            if n["p"] and r.random() < .6:
                n["inst"] = dict(k="abs", s=list(r.choice(paths)) or ["a"])
    for j, l in enumerate(ls):
        l["at"] = r.choice(["d0", "d1", "d0/sub", "d2"])
        if r.random() < .08:
            l["cwd"] = r.choice(["r1", "d1", "nowhere"])
        for n in l["nodes"]:
            n["attrs"] = [dict(a, v=a["v"] if a["v"] == "none" or r.random() < .05 else rtext(r, n["p"], paths, attrs)) for a in n["attrs"]]
    fs = []
    for d in ["d0", "d1", "d2", "d0/sub", "r1", "r2", "h"]:
        for f in NAMES:
            if f != "sub" and r.random() < .3:
                fs.append(d + "/" + f)
    links = {}
    if r.random() < .3:
        f, to = r.choice(["d0/z", "r1/z", "d1/z"]), r.choice(["../d1/x", "../r1/y.txt", "x"])
        fs = [x for x in fs if x != f]
        if os.path.normpath(os.path.dirname(f) + "/" + to) in fs:
            links[f] = to
    w = dict(files=sorted(set(fs)), links=links, dirs=["h", "r1"] + (["d1/sub"] if r.random() < .5 else []),
             roots=r.sample(["r1", "r2", "d1", "gone"], r.choice([0, 0, 0, 1, 2, 3])),
             env={"FV_A": "sub", "FV_B": "x", "FV_C": os.path.join(ROOT, "r1", "x")},
             text={f: r.choice(["x", "${" + ref(r, [], paths, attrs, 1) + "}", "${file::x}"]) for f in fs})
    frm = r.choice([0, 0, 0, 1]) if len(ls) > 1 else 0
    one(w, ls, frm, [], lambda p: [rtext(r, p, paths, attrs) for _ in range(2)])
