from comp_common import sample


def run(chk):
    out, _ = chk.model("MCFile")
    scn = sample(chk, chk.printed(out, "SCN"), 1500)
    cases = chk.drive("files", name="files_model", scenarios=scn)
    chk.validate("TraceFile", cases, name="TraceFile_model", chunk=20000)
    cases = chk.drive("files", name="files_random", args=["--n", 20000 if chk.thorough else 2000])
    chk.validate("TraceFile", cases, name="TraceFile_random", chunk=10000)
