from comp_common import sample


def run(chk):
    deep = "_deep" if chk.thorough else ""
    for part in ("attrs", "plain"):
        out, _ = chk.model("MCShown", "MCShown_%s%s" % (part, deep))
        scn = sample(chk, chk.printed(out, "SCN"), 500, 6000)
        cases = chk.drive("shown", name="shown_model_" + part, args=["--part", part], scenarios=scn)
        chk.validate("TraceComp", cases, name="TraceComp_model_" + part)
        n = {"attrs": 700, "plain": 500}[part]
        cases = chk.drive("shown", name="shown_random_" + part, args=["--part", part, "--n", n * 8 if chk.thorough else n])
        chk.validate("TraceComp", cases, name="TraceComp_random_" + part)
