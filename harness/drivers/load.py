"""Worlds of files that reference each other: loaded, edited by adding and
removing sub layers, saved and loaded again."""
from lab import *
import shutil
from nxt import nxt_io
from nxt.stage import Stage
from nxt.constants import GRAPH_VERSION

ROOT = os.path.join(os.path.realpath(WORK), "w")
CWD = os.path.realpath(WORK)
CONTENT = dict(corrupt='{"version": "1.17", "nodes": {', newer=None, badversion=None, notdict="[1]", empty="",
               nodots=None, numversion=None)


def disk(p):
    return ROOT + (p if p != "/" else "")


def text(t):
    return ROOT + t if t.startswith("/") else t


def shown(t):
    t = t.replace(os.sep, "/")
    return (t[len(ROOT):] or "/") if t == ROOT or t.startswith(ROOT + "/") else t


def write(w):
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    for d in w["roots"] + w.get("dirs", []) + [w["home"]]:
        os.makedirs(disk(d), exist_ok=True)
    for p, f in sorted(w["files"].items()):
        os.makedirs(os.path.dirname(disk(p)), exist_ok=True)
    for p, f in sorted(w["files"].items()):
        st = f["st"]
        if st == "dir":
            os.makedirs(disk(p))
            continue
        if st == "link":
            os.symlink(f["to"], disk(p))
            continue
        data = dict(version=GRAPH_VERSION.VERSION_STR, references=[text(r) for r in f["refs"]], nodes={"/n": {}})
        if not f["refs"]:
            del data["references"]
        if st == "binary":
            with open(disk(p), "wb") as fh:
                fh.write(b"\xff\xfe\x00\x01")
            continue
        if st == "newer":
            data["version"] = rng.choice(["%d.%d" % (GRAPH_VERSION.MAJOR, GRAPH_VERSION.MINOR + 1), "9.0", "2.0.1"])
        if st == "badversion":
            data["version"] = rng.choice(["1.x", "new.old", "."])
        if st == "nodots":
            data["version"] = "1"
        if st == "numversion":
            data["version"] = 1.17
        with open(disk(p), "w") as fh:
            fh.write(CONTENT.get(st) if CONTENT.get(st) is not None else json.dumps(data))
    for k in list(os.environ):
        if k.startswith("LV_") or k in used_env:
            del os.environ[k]
    for k, v in w["env"].items():
        used_env.add(k)
        os.environ[k] = text(v)
    os.environ["HOME"] = disk(w["home"])
    os.environ.pop("NXT_FILE_ROOTS", None)
    if w["roots"]:
        os.environ["NXT_FILE_ROOTS"] = os.pathsep.join(disk(r) for r in w["roots"])


used_env = set()


def seen(stage):
    ls = stage._sub_layers
    at = {id(l): i + 1 for i, l in enumerate(ls)}
    return [dict(f=shown(os.path.realpath(l.real_path)), par=at.get(id(l.parent_layer), 0) if l.parent_layer is not None else 0,
                 refs=[shown(r) for r in l.get_references()], idx=l.layer_idx()) for l in ls]


def op(stage, o):
    if o["do"] == "remove":
        stage.remove_sublayer(o["k"] - 1 if o.get("byidx") else stage._sub_layers[o["k"] - 1])
    elif o["do"] == "add":
        parent = stage._sub_layers[o["k"] - 1]
        os.chdir(os.path.dirname(parent.real_path))
        try:
            data = nxt_io.load_file_data(text(o["ref"]))
        finally:
            os.chdir(CWD)
        data["parent_layer"] = parent
        stage.new_sublayer(layer_data=data, idx=o["k"])
    elif o["do"] == "top":
        stage.new_sublayer(layer_data=nxt_io.load_file_data(disk("/" + o["ref"])), idx=0)


def one(w, ops, build=False):
    rec.begin(dict(w=w, ops=[o if isinstance(o, dict) else '' for o in ops]))
    write(w)
    os.chdir(CWD)
    res = []
    pre = dict((p, os.path.getmtime(disk(p))) for p, f in w["files"].items() if f["st"] != "link")

    def note(do, k=0, ref="", st="ok", v=None, layers=()):
        o = dict(op=do, k=k, ref=ref, crash="" if st == "ok" else v, same_cwd=os.getcwd() == CWD, layers=list(layers))
        os.chdir(CWD)
        res.append(o)
        return st == "ok"

    st, stage = call(Stage.load_from_filepath, disk(w["top"]))
    ok = note("load", st=st, v=stage, layers=seen(stage) if st == "ok" else [])
    for o in ops if ok else ():
        if build:
            call(stage.build_stage)
        if callable(o):
            o = o(stage)
            if o is None:
                continue
        st, v = call(op, stage, o)
        if not note(o["do"], o["k"], o["ref"], st, v, seen(stage)):
            ok = False
            break
    if ok:
        def save():
            for l in stage._sub_layers:
                l.save()
            return Stage.load_from_filepath(stage._sub_layers[0].real_path)
        st, v = call(save)
        note("reload", st=st, v=v, layers=seen(v) if st == "ok" else [])
    rec.case(res, w=w)


for sc in scenarios():
    if isinstance(sc["w"]["files"], list):
        continue
    one(dict(sc["w"], env=sc["w"]["env"] or {}), sc["ops"], build=rng.random() < .3)

DIRS = ["", "/d", "/d/e", "/r1", "/r2/s", "/r2"]
NAMES = ["a", "b", "c"]


def relref(w, frm, to):
    """a text, in a file of directory frm, for the file to"""
    rel = os.path.relpath(to, frm or "/")
    x = rng.random()
    if x < .5:
        return rel
    if x < .6:
        return to
    if x < .65:
        return "./" + rel
    if x < .7:
        return "d/../" + rel
    if x < .75 and w["home"] != "/" and to.startswith(w["home"] + "/"):
        return "~" + to[len(w["home"]):]
    d, b = os.path.split(to)
    if x < .85:
        n = rng.choice(["D", "LV_1", "Lv"])
        v = w["env"].setdefault(n, d.rstrip("/") or "/.")
        if v == d:
            return rng.choice(["$%s/%s", "${%s}/%s"]) % (n, b) if n == "LV_1" else rng.choice(["$%s/%s", "${%s}/%s", "%%%s%%/%s"]) % (n, b)
    if x < .9:
        n = rng.choice(["FN", "Fm"])
        v = w["env"].setdefault(n, b)
        if v == b:
            return os.path.join(os.path.relpath(d, frm or "/"), "$" + n)
    return rng.choice([rel, b, "$NOPE/" + b, "%NOPE%/" + b, "gone/" + b, b + "x", "${D}" + b])


def world():
    w = dict(files={}, env={}, home=rng.choice(["/", "/d", "/r2"]), roots=[], dirs=["/d/e"], top="/t.nxt")
    if rng.random() < .4:
        w["roots"] = rng.sample(["/r1", "/r2", "/r2/s"], rng.randint(1, 2))
    ps = set()
    for _ in range(rng.randint(2, 6)):
        ps.add("%s/%s%s" % (rng.choice(DIRS), rng.choice(NAMES), ".nxt" if rng.random() < .95 else rng.choice([".nxtb", ".json", ""])))
    ps = sorted(ps)
    for p in ps:
        ext = os.path.splitext(p)[1]
        st = "ok" if rng.random() < .8 else rng.choice(["corrupt", "newer", "badversion", "notdict", "empty", "nodots", "numversion", "binary", "dir"])
        if ext not in (".nxt", ".nxtb"):
            st = "ext"
        # a directory would be found in a root where a file is looked for
        if st == "dir" and p.startswith("/r"):
            st = "empty"
        w["files"][p] = dict(st=st, refs=[], to="")
    targets = ps + ["/t.nxt"]
    if rng.random() < .3:
        to = rng.choice(ps)
        d = rng.choice(DIRS)
        lp = d + "/l.nxt"
        if w["files"][to]["st"] != "dir" and os.path.splitext(to)[1] == ".nxt":
            w["files"][lp] = dict(st="link", refs=[], to=os.path.relpath(to, d or "/"))
            targets.append(lp)
    w["files"]["/t.nxt"] = dict(st="ok" if rng.random() < .95 else rng.choice(["corrupt", "newer", "empty", "notdict"]), refs=[], to="")
    w["files"]["/n.nxt"] = dict(st="ok", refs=[], to="")
    for p, f in sorted(w["files"].items()):
        if f["st"] in ("link", "dir"):
            continue
        n = rng.choice([0, 1, 1, 2, 2, 3]) if p != "/t.nxt" else rng.randint(1, 4)
        f["refs"] = []
        for _ in range(n):
            r = relref(w, os.path.dirname(p).rstrip("/"), rng.choice(targets if p != "/n.nxt" else ps))
            if r not in f["refs"]:
                f["refs"].append(r)
    return w


def adder(w):
    def go(stage):
        ls = stage._sub_layers
        if len(ls) > 25:
            return None
        for _ in range(8):
            k = rng.randint(1, len(ls))
            parent = ls[k - 1]
            ref = relref(w, shown(os.path.dirname(parent.real_path)), rng.choice(sorted(w["files"])))
            if text(ref) in parent.get_references() or ref in parent.get_references():
                continue
            # only files that can be read and are not above the place
            os.chdir(os.path.dirname(parent.real_path))
            st, data = call(nxt_io.load_file_data, text(ref))
            os.chdir(CWD)
            if st != "ok":
                continue
            up, above = parent, []
            while up is not None:
                above.append(os.path.realpath(up.real_path))
                up = up.parent_layer
            if os.path.realpath(data["real_path"]) in above or data["real_path"].endswith("/n.nxt"):
                continue
            return dict(do="add", k=k, ref=ref)
    return go


def remover(stage):
    n = len(stage._sub_layers)
    return dict(do="remove", k=rng.randint(2, n), ref="", byidx=rng.random() < .3) if n > 1 else None


def topper(stage):
    if any(l.real_path.endswith("/n.nxt") for l in stage._sub_layers):
        return None
    return dict(do="top", k=0, ref="n.nxt")


for _ in range(args.n):
    w = world()
    ops = [rng.choice([adder(w), adder(w), remover, remover, topper]) for _ in range(rng.randint(0, 5))]
    w["env"] = dict(w["env"], LV_UNUSED="x")
    one(w, ops, build=rng.random() < .5)
rec.close()
