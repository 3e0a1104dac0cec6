import json
from comp_common import sample


def scenarios(out, chk, n):
    res = {}
    every = chk.printed(out, "SCN")
    # runs of every kind, and not only those that are refused
    kinds = [[s for s in every if s["k"] == "sub"], [s for s in every if s["k"] == "cli" and s["out"] == "Refused"],
             [s for s in every if s["k"] == "cli" and s["out"] != "Refused"]]
    for s in [x for k in kinds for x in sample(chk, k, n // 3)]:
        key = json.dumps(s["layers"])
        if key not in res:
            codes = ["w", "a", "b"]
            for nd in s["layers"][0]["nodes"]:
                nd["code"] = codes.index(nd["code"][0]) if nd["code"] != "none" else "none"
            res[key] = dict(layers=s["layers"], progs=[s["w"], s["a"], s["b"]], calls=[])
        res[key]["calls"].append({k: s[k] for k in ("k", "args", "start", "sub")})
    # cases of a few calls each
    cases = []
    for x in res.values():
        for k in range(0, len(x["calls"]), 12):
            cases.append(dict(layers=json.loads(json.dumps(x["layers"])), progs=x["progs"], calls=x["calls"][k:k + 12]))
    return cases


def run(chk):
    out, _ = chk.model("MCHeadless")
    cases = chk.drive("headless", name="headless_model", scenarios=scenarios(out, chk, 4000 if chk.thorough else 900))
    chk.validate("TraceHeadless", cases, name="TraceHeadless_model")
    cases = chk.drive("headless", name="headless_random", args=["--part", "random", "--n", 6000 if chk.thorough else 900])
    chk.validate("TraceHeadless", cases, name="TraceHeadless_random")
    cases = chk.drive("headless", name="headless_real", args=["--part", "real", "--n", 15 if chk.thorough else 4])
    chk.validate("TraceHeadless", cases, name="TraceHeadless_real")
