import random


def run(chk):
    out, _ = chk.model("MCTokens", "MCTokens_deep" if chk.thorough else None)
    texts = sorted(t["t"] for t in chk.printed(out, "TXT") if "${}" not in t["t"])
    r = random.Random(chk.seed)
    scn = []
    for x in ["v", "", "${y}", "x", "$"]:
        for y in ["w", "x", "${x}", "}${", "${/a/b.x}", "${${x}}"]:
            scn.append(dict(x=x, y=y, texts=texts if chk.thorough else r.sample(texts, 150)))
    cases = chk.drive("tokens", name="tokens_model", scenarios=scn)
    chk.validate("TraceTokens", cases, name="TraceTokens_model")
    cases = chk.drive("tokens", name="tokens_random", args=["--n", 20000 if chk.thorough else 2500])
    chk.validate("TraceTokens", cases, name="TraceTokens_random", chunk=2000)
