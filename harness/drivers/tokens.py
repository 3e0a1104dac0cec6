"""Texts with tokens: scanned by the token functions and resolved on nodes of
composites."""
from lab import *
import gen, stagelab, observe
import os, shutil
from nxt import tokens as T, DATA_STATE
from nxt.nxt_node import INTERNAL_ATTRS as IA

TYPES = dict(path=T.TOKENTYPE.PATH, contents=T.TOKENTYPE.CONTENTS, attr=T.TOKENTYPE.ATTR)


def scan_op(t):
    def go():
        toks = T.get_standalone_tokens(t)
        kinds = [dict(prefix=k.prefix, tokens=T.get_standalone_tokens(t, token_types=[k])) for k in TYPES.values()]
        cont = [T.get_token_content(x) for x in toks]
        return dict(tokens=toks, kinds=kinds, atomic=sorted(T.get_atomic_tokens(t)), contents=cont,
                    made=[T.make_token_str(c) for c in cont])
    st, v = call(go)
    o = dict(op="scan", t=t, crash="" if st == "ok" else v)
    o.update(v if st == "ok" else {})
    return o


def txt(v):
    return "" if v is None else str(v)


def attrs_of(stage, comp, n):
    return [dict(n=a, v=txt(getattr(n, a))) for a in sorted(stage.get_node_attr_names(n))]


def state(stage, comp):
    return [json.dumps(l.get_save_data(), default=str) for l in stage._sub_layers] + \
           sorted(repr((p, sorted((k, repr(v)) for k, v in n.__dict__.items() if not k.startswith("__")))) for p, n in comp._nodes_path_as_key.items())


def outcome(fn):
    st, v = call(fn, _limit=10)
    return dict(crash="", res=v) if st == "ok" else dict(crash=v, res="")


def one(layers, files, per_node, spec=False):
    """per_node: (stage, comp, path, attrs) -> texts"""
    rec.begin([layers, files])
    d = os.path.join(WORK, "g")
    shutil.rmtree(d, ignore_errors=True)
    st, stage = call(stagelab.load, d, layers)
    if st != "ok":
        return
    st, comp = call(stage.build_stage)
    if st != "ok" or comp.failure:
        return
    if spec:
        comp = stage.top_layer
    for f in files:
        with open(f["f"], "w") as fh:
            fh.write(f["t"])
    nodes, ops, lines = [], [], {}
    for p, n in sorted(comp._nodes_path_as_key.items()):
        nodes.append(dict(p=observe.ns(p), attrs=attrs_of(stage, comp, n)))
    before = state(stage, comp)
    for nd in nodes:
        p = gen.text(nd["p"])
        n = comp.lookup(p)
        for t in per_node(nd, nodes):
            ops.append(scan_op(t))
            ops.append(dict(op="resolve", p=nd["p"], t=t, **outcome(lambda: stage.resolve(n, t, comp))))
        for a in nd["attrs"]:
            raw = txt(stage.get_node_attr_value(n, a["n"], comp, resolved=False))
            ops.append(dict(op="value", p=nd["p"], a=a["n"], raw=raw,
                            **outcome(lambda: stage.get_node_attr_value(n, a["n"], comp))))
        raw = stage.get_node_code_lines(n, comp, DATA_STATE.RAW)
        if raw:
            o = outcome(lambda: stage.get_node_code_string(n, comp, DATA_STATE.RESOLVED))
            st, ls = call(stage.get_node_code_lines, n, comp, DATA_STATE.RESOLVED)
            ops.append(dict(op="code", p=nd["p"], lines=raw, reslines=ls if st == "ok" else [], **o))
    ops.append(dict(op="after", same=state(stage, comp) == before))
    rec.case(ops, nodes=nodes, files=files)


for s in scenarios():
    one([{"/a": {"attrs": {"x": {"value": s["x"]}, "y": {"value": s["y"]}}},
          "/a/b": {"attrs": {"x": {"value": "${...y}"}, "y": {"value": "u"}}}}], [],
        lambda nd, nodes: s["texts"] if nd["p"] else [])

PIECES = ["${", "}", "x", "y", "a", "b", "/", ".", "..", "/a", "/a.", " ", "$", "{", "\\", "'", "\"", "é", "🙂", "\n", "_nxtpath", "contents::", "::", "xx"]


def ref(r, nodes, here, files, depth=0):
    """A mostly meaningful reference."""
    k = r.random()
    at = r.choice(nodes)
    names = [a["n"] for a in at["attrs"]]
    a = r.choice(names) if names and r.random() < .85 else r.choice(["x", "zz", "y"])
    if depth < 2 and r.random() < .15:
        a = "${" + ref(r, nodes, here, files, depth + 1) + "}"
    if k < .35:
        return a
    if k < .65:
        return gen.text(at["p"]) + "." + a
    if k < .8:
        return "/".join([".."] * r.randint(1, 2) + at["p"][-1:]) + "." + a
    if k < .85:
        return "." * r.randint(1, 3) + a
    if k < .9:
        return "_nxtpath"
    if k < .96 and files:
        return "contents::" + (r.choice(files)["f"] if r.random() < .7 else "${" + ref(r, nodes, here, files, depth + 1) + "}")
    return "".join(r.choice(PIECES) for _ in range(r.randint(1, 3)))


def rtext(r, nodes, here, files):
    k = r.random()
    if k < .2:
        t = "".join(r.choice(PIECES) for _ in range(r.randint(0, 7)))
    else:
        t = ""
        for _ in range(r.randint(1, 3)):
            t += r.choice(["", " ", "t", "{", "}", "$", "=", "{x}", "é"]) if r.random() < .6 else ""
            t += "${" + ref(r, nodes, here, files) + "}"
        if r.random() < .12:
            c = r.randint(0, len(t))
            t = t[:c] + r.choice(["${", "}", "$", "{"]) + t[c:]
    # a token without content means nothing in particular
    while "${}" in t:
        t = t.replace("${}", "")
    return t


for k in range(args.n):
    ls = gen.layers(rng, nl=(1, 2), nn=(2, 5), depth=3, pinst=.15, pattr=.8, pcode=.3, poff=0)
    files = [dict(f=os.path.join(WORK, "c%d.txt" % j), t="") for j in range(rng.choice([0, 0, 1, 2]))]
    proto = [dict(p=n["p"], attrs=n["attrs"]) for l in ls for n in l["nodes"]]
    for f in files:
        f["t"] = rtext(rng, proto, [], files).replace("\r", "")
    for l in ls:
        for n in l["nodes"]:
            for a in n["attrs"]:
                if a["v"] != "none" and rng.random() < .75:
                    a["v"] = files[0]["f"] if files and rng.random() < .1 else rtext(rng, proto, n["p"], files)
            if n["code"] != "none":
                n["code"] = "\n".join(rtext(rng, proto, n["p"], files) for _ in range(rng.randint(1, 3)))
    fl, _ = gen.files(ls)
    for l in fl:
        for n in l.values():
            for a in n.get("attrs", {}).values():
                if "value" in a and rng.random() < .06:
                    a["value"] = rng.choice([0, False, 3, [1, "${x}"], {"k": "${y} é"}, [], 2.5, True, ""])
    one(fl, files, lambda nd, nodes: [rtext(rng, nodes, nd["p"], files) for _ in range(2)], spec=rng.random() < .2)
rec.close()
