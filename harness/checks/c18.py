from comp_common import sample


def run(chk):
    for part, n in (("runs", 1500), ("files", 600)):
        out, _ = chk.model("MCSession", "MCSession_" + part, name="MCSession_" + part)
        scn = sample(chk, chk.printed(out, "SCN"), n, 60000)
        cases = chk.drive("session", name="session_model_" + part, scenarios=scn)
        chk.validate("TraceSession", cases, name="TraceSession_model_" + part, chunk=20000)
        cases = chk.drive("session", name="session_random_" + part, args=["--part", part, "--n", 20000 if chk.thorough else 300])
        chk.validate("TraceSession", cases, name="TraceSession_random_" + part, chunk=20000)
    cases = chk.drive("session", name="session_real", args=["--part", "real"])
    chk.validate("TraceSession", cases, name="TraceSession_real")
