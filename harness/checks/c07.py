import json
from comp_common import sample


def scenarios(out, chk, n):
    res = []
    for s in sample(chk, chk.printed(out, "SCN"), n):
        progs, idx = [], {}
        for key in "wabc":
            progs.append(s[key])
        for nd in s["layers"][0]["nodes"]:
            nd["code"] = "wabc".index(nd["code"][0])
        calls = [dict(fresh=True, start="", nolayer=False, nodes=s["lists"][0], params=[dict(p="/c", a="x", v="pc")]),
                 dict(fresh=False, start="", nolayer=False, nodes=s["lists"][1], params=[])]
        res.append(dict(layers=s["layers"], progs=progs, calls=calls,
                        refs=[dict(n="${/a.x}", lit="", p="/a", a="x")]))
    return res


def runs(chk, n, quick, thorough):
    out, _ = chk.model("MCRun")
    cases = chk.drive("run", name="run_model", scenarios=scenarios(out, chk, n))
    chk.validate("TraceRun", cases, name="TraceRun_model")
    cases = chk.drive("run", name="run_random", args=["--part", chk.prop, "--n", thorough if chk.thorough else quick])
    chk.validate("TraceRun", cases, name="TraceRun_random", chunk=10000)


def run(chk):
    runs(chk, 1500, 1500, 12000)
