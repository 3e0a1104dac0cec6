import comp_common
def run(chk):
    out, _ = chk.model("MCFlags")
    scn = comp_common.sample(chk, chk.printed(out, "SCN"), 700)
    cases = chk.drive("c02", scenarios=scn, args=["--n", 3000 if chk.thorough else 400])
    chk.validate("TraceFlags", cases)
    comp_common.composites(chk, "core", {"flags": 1700}, {"flags": (400, 3000)})
