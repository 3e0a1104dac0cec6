"""Files of older format versions, written by us, loaded and converted by the
code."""
from lab import *
import shutil
from nxt import nxt_io, legacy
from nxt.nxt_layer import SpecLayer
from nxt.stage import Stage
from nxt.session import Session
from nxt.constants import GRAPH_VERSION as GV
from layerdata import *

VERSIONS = dict(
    tree=["0.39.0", "0.45.6", "0.45", "0.40.2", "0.99.1"],
    refdicts=["1.0.0", "1.9.2", "1.9", "1.5.0", "1.1"],
    flat=["1.10.0", "1.14", "1.12.3", "1.11"],
    plain=["1.15.0", "1.15"],
    now=["1.16", "1.16.2"] + ["1.%d" % GV.MINOR, GV.VERSION_STR + ".4"],
    tooold=["0.38.9", "0.1", "0.0.1", "0.10.0"],
    toonew=["1.%d" % (GV.MINOR + 1), "2.0", "2.17.1", "1.99.0", "10.1", "2.%d" % GV.MINOR, "3.0.0"])


def fn(x):
    return x or {}


def val(t):
    return json.loads(t)


def content(x, version):
    """the JSON of the old file x"""
    c = dict(version=version)
    c.update({k: val(v) for k, v in fn(x["top"]).items()})
    meta = {k: val(v) for k, v in fn(x["meta"]).items()}
    if x["era"] in ("tree", "refdicts"):
        c["references"] = [dict({"path": val(r["path"])}, **{k: val(r[k]) for k in ("mute", "solo", "alias", "color") if r[k] != "absent"})
                           for r in x["refs"]]
    attrs = lambda n: {a: {k: val(y[j]) for k, j in (("value", "v"), ("type", "t"), ("comment", "c")) if y[j] != "absent"}
                       for a, y in fn(n["attrs"]).items()}
    if x["era"] == "tree":
        if x["starts"]:
            meta["start_nodes"] = list(x["starts"])
        c["data"] = meta
        made = {"": []}
        for p, n in sorted(fn(x["nodes"]).items()):
            up, name = p.rsplit("/", 1)
            f = {k: val(v) for k, v in fn(n["f"]).items()}
            d = {"name": name, "data": {k: f[k] for k in ("instance", "enabled", "compute", "widget_type") if k in f}}
            if fn(n["attrs"]):
                d["data"]["attributes"] = attrs(n)
            for k in ("execute_in", "comment"):
                if k in f:
                    d[k] = f[k]
            d["execute_order"] = list(n["co"])
            made[p] = []
            made[up].append(d)
            d["_p"] = p

        def nest(d):
            p = d.pop("_p")
            if made[p]:
                d["children"] = [nest(k) for k in made[p]]
            return d
        c["children"] = [nest(d) for d in made[""]]
    else:
        if meta:
            c["meta_data"] = meta
        c["nodes"] = {}
        for p, n in fn(x["nodes"]).items():
            d = {k: val(v) for k, v in fn(n["f"]).items()}
            if n["co"]:
                d["child_order"] = list(n["co"])
            if fn(n["attrs"]):
                d["attrs"] = attrs(n)
            c["nodes"][p] = d
    return c


def lists(x):
    kvs = lambda d: [dict(k=k, v=v) for k, v in sorted(fn(d).items())]
    nodes = fn(x["nodes"])
    return dict(era=x["era"], top=kvs(x["top"]), refs=x["refs"], by=x["by"], meta=kvs(x["meta"]), starts=list(x["starts"]),
                nodes=[dict(p=p, f=kvs(n["f"]), co=list(n["co"]),
                            kids=sorted(q.rsplit("/", 1)[1] for q in nodes if q != "/" and (q.rsplit("/", 1)[0] or "/") == p and p != "/"),
                            attrs=[dict(n=a, v=y["v"], t=y["t"], c=y["c"]) for a, y in sorted(fn(n["attrs"]).items())])
                       for p, n in sorted(nodes.items())])


def read(p):
    with open(p, "rb") as f:
        return f.read()


EMPTY = dict(top=[], meta=[], nodes=[])


def one(x, version=None):
    version = version or rng.choice(VERSIONS[x["era"]])
    maj, mnr = [int(k) for k in version.split(".")[:2]]
    form = x if x["era"] in ("tree", "refdicts", "flat", "plain", "now") else None
    rec.begin(dict(x=x, version=version))
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    path = os.path.join(d, "l.nxt")
    with open(path, "w") as f:
        json.dump(content(x, version), f)
    before = read(path)
    ops = []

    def note(kind, st, v, got=None, **kw):
        ops.append(dict(dict(op=kind, crash="" if st == "ok" else v, c=got if got is not None else EMPTY, name=js("l.nxt")), **kw))
        return st == "ok"
    # loaded, in one of the ways there are
    how = rng.choice(["layer", "stage", "session"])
    session = Session()
    if how == "layer":
        st, layer = call(SpecLayer.load_from_filepath, path)
    elif how == "stage":
        st, layer = call(Stage.load_from_filepath, path)
    else:
        st, layer = call(session.load_file, path)
    if how != "layer" and st == "ok":
        layer = layer.top_layer
    got = None
    if st == "ok":
        st2, got = call(from_layer, layer)
        if st2 != "ok":
            st, layer = st2, got
    note("load", st, layer, got if st == "ok" else None, clean=not session.loaded_files or st == "ok", same=read(path) == before)
    # written again in the current version
    if st == "ok":
        st, v = call(layer.save, os.path.join(d, "saved.nxt"))
        st, c = call(from_file, os.path.join(d, "saved.nxt")) if st == "ok" else (st, v)
        note("save", st, c, c if st == "ok" else None, name=js("l.nxt"))
    # converted, beside the file and in its place
    out = os.path.join(d, "l_CONVERTED.nxt")
    st, v = call(legacy.cli_file_convert, path)
    c, ver, again = None, "", True
    if st == "ok":
        st, c = call(from_file, out)
        if st == "ok":
            ver = json.loads(read(out).decode()).get("version", "")
            st, v = call(legacy.cli_file_convert, out)
            again = st == "ok" and read(os.path.join(d, "l_CONVERTED_CONVERTED.nxt")) == read(out)
            st = "ok"
        else:
            v = c
    note("convert", st, v, c if st == "ok" else None, version=ver, again=again, same=read(path) == before,
         files=sorted(f for f in os.listdir(d) if "CONVERTED" in f))
    inplace = os.path.join(d, "inplace.nxt")
    shutil.copy(path, inplace)
    st2, v2 = call(legacy.cli_file_convert, inplace, True)
    ok2 = read(inplace) == (read(out) if st == "ok" else before)
    note("replace", st2, v2, same=ok2)
    st, v = call(lambda: legacy.FileConverter.get_converted_data(json.loads(before.decode())))
    if st == "ok":
        st3, v3 = call(lambda: legacy.FileConverter.get_converted_data(json.loads(json.dumps(v))))
        note("again", st3, v3, same=st3 == "ok" and json.dumps(v) == json.dumps(v3))
    rec.case(ops, maj=maj, min=mnr, cur=GV.MINOR, old=lists(x), curver=GV.VERSION_STR)


for s in scenarios():
    one(s)

WORDS = ["", "v", "caf\u00e9", "two\nlines", "0", "${x}", "None"]
VALUES = [js(v) for v in WORDS] + ["0", "1", "2.5", "false", "true", "[]", "{}", "[1, \"a\"]", "absent"]
PATHS = ["b.nxt", "sub/a.nxt", "$X/c.nxt", "../d.nxt", "a.nxt"]


def maybe(*vs):
    return rng.choice(vs) if rng.random() < .5 else "absent"


def setk(d, k, v):
    if v != "absent":
        d[k] = v


def rand_old(era):
    e = era if era in ("tree", "refdicts", "flat", "plain", "now") else rng.choice(["tree", "refdicts", "flat", "now"])
    x = dict(era=e, top={}, refs=[], by=[], meta={}, starts=[], nodes={})
    for k, vs in (("alias", ['"l"', '"other"', '"caf\\u00e9"']), ("color", ['"#991c24"']), ("mute", ["true", "false"]), ("solo", ["true", "false"])):
        setk(x["top"], k, maybe(*vs))
    paths = rng.sample(PATHS, rng.randint(0, 3))
    dicts = e in ("tree", "refdicts")
    if dicts:
        x["refs"] = [dict(path=js(p), mute=maybe("true", "false"), solo=maybe("true", "false"), alias=maybe('"nick"', '"n2"'),
                          color=maybe('"#fff000"')) for p in paths]
        x["by"] = [paths.index(p) + 1 for p in sorted(paths)]
    else:
        if paths or rng.random() < .2:
            x["top"]["references"] = js(paths)
        setk(x["top"], "comp_overrides", maybe('{}', '{"a.nxt": {"mute": true, "solo": false}, "x": {}}'))
        setk(x["meta"], "aliases", maybe('{}', '{"a.nxt": "nick"}'))
        setk(x["meta"], "colors", maybe('{"a.nxt": "#fff"}'))
        if rng.random() < .2:
            x["meta"]["custom"] = '{"k": [1]}'
    setk(x["meta"], "position_data" if dicts else "positions", maybe('{"/a": [1.5, 2], "/b": [0, 0]}', "{}"))
    setk(x["meta"], "collapse_data" if dicts else "collapse", maybe('{"/a": true, "/b": false}', "{}"))
    nodes = x["nodes"]
    for _ in range(rng.randint(0, 6)):
        p = ""
        for name in [rng.choice(["a", "b", "ab", "_c", "a_b"]) for _ in range(rng.randint(1, 4))]:
            p += "/" + name
            # an old tree has every node on the way
            if e == "tree" or p.count("/") == 1 or rng.random() < .7:
                nodes.setdefault(p, dict(f={}, co=[], attrs={}))
    if e != "tree" and rng.random() < .3:
        nodes["/"] = dict(f={}, co=[], attrs={})
    for p, n in nodes.items():
        f = n["f"]
        world = p == "/"
        setk(f, "compute" if e == "tree" else "code", maybe('["a = 1", ""]', '[""]', '["x", "  y", "caf\\u00e9"]'))
        setk(f, "comment", maybe(*[js(w) for w in WORDS if w]))
        if not world:
            setk(f, "instance", maybe('"/b"', '"../a"', '"/zz"'))
            setk(f, "execute_in", maybe('"/a"', '"/zz"'))
            setk(f, "enabled", maybe("true", "false"))
            if e != "tree" and rng.random() < .2:
                f["start_point"] = "true"
            if e == "tree" and rng.random() < .2:
                x["starts"].append(p)
        for a in rng.sample(["x", "y", "name", "version", "data"], rng.randint(0, 2)) if rng.random() < .5 else []:
            n["attrs"][a] = dict(v=rng.choice(VALUES), t=maybe('"str"', '"int"', '"raw"'), c=maybe('"say"', '"caf\\u00e9"'))
        if not world:
            kids = [q.rsplit("/", 1)[1] for q in nodes if q.rsplit("/", 1)[0] == p]
            rng.shuffle(kids)
            # nodes of old trees are listed by their parents
            if e != "tree":
                kids = kids[:rng.randint(0, len(kids))]
            for _ in range(rng.choice([0, 0, 1])):
                kids.insert(rng.randint(0, len(kids)), rng.choice(["z", "zz"]))
            n["co"] = list(dict.fromkeys(kids))
    return x


for _ in range(args.n):
    era = rng.choice(["tree", "tree", "refdicts", "refdicts", "flat", "plain", "now", "tooold", "toonew"])
    one(rand_old(era), rng.choice(VERSIONS[era]))
rec.close()
