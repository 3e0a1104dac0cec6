from comp_common import sample


def run(chk):
    out, _ = chk.model("MCPure")
    scn = sample(chk, chk.printed(out, "SCN"), 400)
    cases = chk.drive("pure", name="pure_model", scenarios=scn)
    chk.validate("TracePure", cases, name="TracePure_model")
    cases = chk.drive("pure", name="pure_random", args=["--n", 4000 if chk.thorough else 600])
    chk.validate("TracePure", cases, name="TracePure_random", chunk=1000)
