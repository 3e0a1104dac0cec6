from comp_common import sample


def run(chk):
    out, _ = chk.model("MCFallback")
    scn = sample(chk, chk.printed(out, "SCN"), 1200, 10000)
    cases = chk.drive("fallback", name="fallback_model", scenarios=scn)
    chk.validate("TraceFallback", cases, name="TraceFallback_model", chunk=1000)
    cases = chk.drive("fallback", name="fallback_random", args=["--n", 12000 if chk.thorough else 1200])
    chk.validate("TraceFallback", cases, name="TraceFallback_random", chunk=1000)
