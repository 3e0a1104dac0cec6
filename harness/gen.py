"""Seeded random graphs for the drivers (dicts in the model's own terms)."""

NAMES = ["a", "b", "ab", "c"]
ATTRS = ["x", "y", "xx", "z"]


def rpath(r, names, lo=1, hi=3):
    return [r.choice(names) for _ in range(r.randint(lo, hi))]


def inst_ref(r, names, at):
    k = r.random()
    if k < .62:
        return dict(k="abs", s=rpath(r, names, 1, 3 if r.random() < .3 else 2))
    if k < .92:
        ups = [".."] * r.randint(0, 3)
        if r.random() < .2:
            ups = ["."] + ups
        return dict(k="rel", s=ups + rpath(r, names, 0 if ups else 1, 2))
    return dict(k="empty", s=[])


NO = dict(k="none", s=[])


def node(r, p, names, attrs, pinst=.3, pattr=.5, pcode=.3, pexec=.2, pco=.3, poff=.15, tag=""):
    d = dict(p=p, inst=NO, code="none", comment="none", enabled="none", exec="none", start="none",
             attrs=[], co=[])
    d["inst"] = dict(NO)
    if p and r.random() < pinst:
        d["inst"] = inst_ref(r, names, p)
    if r.random() < pcode:
        d["code"] = "\n".join("%s = %d" % (r.choice(attrs), r.randint(0, 99)) for _ in range(r.randint(1, 2)))
        d["code"] += "  # " + tag
    if r.random() < .2:
        d["comment"] = "c%d %s" % (r.randint(0, 9), tag)
    if p:
        if r.random() < poff:
            d["enabled"] = r.choice(["false", "false", "true"])
        if len(p) == 1 and r.random() < pexec:
            d["exec"] = "/" + r.choice(names)
        if r.random() < .1:
            d["start"] = r.choice(["true", "false"])
        if r.random() < pco:
            k = r.sample(names, r.randint(1, len(names)))
            d["co"] = k + ([r.choice(k)] if r.random() < .15 else [])
    for a in attrs:
        if r.random() < pattr:
            d["attrs"].append(dict(n=a, v="none" if r.random() < .06 else "v%d %s" % (r.randint(0, 99), tag),
                                   t=r.choice(["none", "raw", "str", "int"]),
                                   c=r.choice(["none", "none", "why " + tag])))
    return d


def layers(r, nl=(1, 4), nn=(1, 5), names=None, depth=3, world=.25, flags=.0, **kw):
    names = names or r.sample(NAMES, r.randint(2, 4))
    attrs = r.sample(ATTRS, r.randint(1, 3))
    # a few paths shared between the layers
    pool = [rpath(r, names, 1, depth) for _ in range(r.randint(2, 8))]
    for p in list(pool):
        if r.random() < .4:
            pool.append(p[:-1] or p)
    res = []
    for k in range(r.randint(*nl)):
        ps = []
        for _ in range(r.randint(*nn)):
            p = r.choice(pool)
            if p not in ps:
                ps.append(p)
        if r.random() < world:
            ps.append([])
        nodes = [node(r, p, names, attrs, tag="L%d/%s" % (k, "/".join(p)), **kw) for p in ps]
        for n in nodes:  # most instances are of nodes that are there
            if n["inst"]["k"] == "abs" and r.random() < .6:
                n["inst"]["s"] = list(r.choice(pool))
        res.append(dict(id="l%d.nxt" % k, mute=r.random() < flags, solo=r.random() < flags,
                        nodes=nodes))
    return res


def text(p):
    return "/" + "/".join(p)


def node_json(n):
    d = {}
    i = n["inst"]
    if i["k"] == "empty":
        d["instance"] = ""
    elif i["k"] != "none":
        d["instance"] = ("/" if i["k"] == "abs" else "") + "/".join(i["s"])
    for f in ("comment",):
        if n[f] != "none":
            d[f] = n[f]
    if n["code"] != "none":
        d["code"] = n["code"].split("\n")
    for f in ("enabled", "start"):
        if n[f] != "none":
            d["start_point" if f == "start" else f] = n[f] == "true"
    if n["exec"] != "none":
        d["execute_in"] = n["exec"]
    if n["co"]:
        d["child_order"] = list(n["co"])
    if n["attrs"]:
        d["attrs"] = {}
        for a in n["attrs"]:
            x = d["attrs"][a["n"]] = {}
            if a["v"] != "none":
                x["value"] = a["v"]
            if a["t"] != "none":
                x["type"] = a["t"]
            if a["c"] != "none":
                x["comment"] = a["c"]
    return d


def files(ls):
    """(layers for stagelab.write_layers, extra per-layer data)"""
    return ([{text(n["p"]): node_json(n) for n in l["nodes"]} for l in ls],
            {k: dict(mute=l["mute"], solo=l["solo"]) for k, l in enumerate(ls)})
