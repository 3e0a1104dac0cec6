def run(chk):
    out, _ = chk.model("MCPath")
    scn = chk.printed(out, "SCN")
    cases = chk.drive("c14", scenarios=scn)
    chk.validate("TracePath", cases)
