from comp_common import sample


def run(chk):
    out, _ = chk.model("MCNames", "MCNames_deep" if chk.thorough else None)
    scn = sample(chk, chk.printed(out, "SCN"), 1500, 20000)
    cases = chk.drive("names", name="names_model", scenarios=scn)
    chk.validate("TraceNames", cases, name="TraceNames_model", chunk=5000)
    cases = chk.drive("names", name="names_random", args=["--n", 6000 if chk.thorough else 700])
    chk.validate("TraceNames", cases, name="TraceNames_random", chunk=2000)
