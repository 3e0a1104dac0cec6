from comp_common import sample

BARE = dict(code="none", enabled="none", exec="none", start="none", inst=dict(k="none", s=[]))


def node(path, co, edited):
    attrs = [dict(n="x", v="1", t="none", c="none")] if edited and path == "/a" else []
    return dict(BARE, p=[x for x in path.split("/") if x], comment=path, co=co, attrs=attrs)


def scenario(s, k):
    """A history of the model in the driver's terms."""
    ls = [[node(p, co, True) for p, co in sorted(s["nodes"].items())]]
    if s["top"]:
        ls.insert(0, [node(p, [], False) for p in sorted(s["top"])])
    l = len(ls) - 1
    edits = []
    for e in s["edits"]:
        o = {"from": l}
        o.update(e, l=l, fix=True, inst="none", data=[], bynode=False, byidx="no", sub="value", how=False)
        if e["do"] == "add":
            o["p"] = None
        edits.append(o)
    return dict(layers=[dict(id="l%d.nxt" % j, mute=False, solo=False, nodes=ns) for j, ns in enumerate(ls)],
                edits=edits, comp=bool(k % 2))


def run(chk):
    out, _ = chk.model("MCEdit")
    scn = [scenario(s, k) for k, s in enumerate(sample(chk, chk.printed(out, "SCN"), 1800, 12000))]
    cases = chk.drive("edit", name="edit_model", args=["--part", "layers"], scenarios=scn)
    chk.validate("TraceEdit", cases, name="TraceEdit_model", chunk=2500)
    cases = chk.drive("edit", name="edit_random", args=["--part", "layers", "--n", 8000 if chk.thorough else 900])
    chk.validate("TraceEdit", cases, name="TraceEdit_random", chunk=2000)
