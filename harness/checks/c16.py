from comp_common import sample


def run(chk):
    out, _ = chk.model("MCLegacy")
    scn = sample(chk, chk.printed(out, "SCN"), 1500)
    cases = chk.drive("legacy", name="legacy_model", scenarios=scn)
    chk.validate("TraceLegacy", cases, name="TraceLegacy_model", chunk=20000)
    cases = chk.drive("legacy", name="legacy_random", args=["--n", 20000 if chk.thorough else 1800])
    chk.validate("TraceLegacy", cases, name="TraceLegacy_random", chunk=10000)
