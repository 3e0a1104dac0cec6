from comp_common import sample


def run(chk):
    out, _ = chk.model("MCLoad")
    scn = sample(chk, chk.printed(out, "SCN"), 1500, 12000)
    cases = chk.drive("load", name="load_model", scenarios=scn)
    chk.validate("TraceLoad", cases, name="TraceLoad_model", chunk=20000)
    cases = chk.drive("load", name="load_random", args=["--n", 20000 if chk.thorough else 2500])
    chk.validate("TraceLoad", cases, name="TraceLoad_random", chunk=10000)
