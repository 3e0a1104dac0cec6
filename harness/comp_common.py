"""Composites: graphs of the composition model and random ones, built by the
implementation and read back."""
import random


def sample(chk, xs, n, most=10**9):
    """n of xs in the quick tier, as many as `most` in the thorough one."""
    n = most if chk.thorough else n
    if len(xs) <= n:
        return xs
    # scenarios are printed by parallel workers: order them first
    import json
    xs = sorted(xs, key=lambda x: json.dumps(x, sort_keys=True))
    return random.Random(chk.seed).sample(xs, n)


def composites(chk, part, profiles, randoms, timeout=800):
    """profiles: {model profile: scenarios in the quick tier};
    randoms: {driver profile: (quick, thorough) number of random graphs}"""
    for prof, n in profiles.items():
        cfg = "MCComp_" + prof
        if chk.thorough and prof == "deep3":
            cfg = "MCComp_deep"
        out, _ = chk.model("MCComp", cfg, name=cfg)
        scn = sample(chk, chk.printed(out, "SCN"), n)
        cases = chk.drive("comp", name="comp_%s_%s" % (part, prof), args=["--part", part], scenarios=scn, timeout=timeout)
        chk.validate("TraceComp", cases, name="TraceComp_%s_%s" % (part, prof), chunk=20000)
    for prof, (q, t) in randoms.items():
        p = part + (":" + prof if prof else "")
        cases = chk.drive("comp", name="comp_%s_random_%s" % (part, prof or "all"),
                          args=["--part", p, "--n", t if chk.thorough else q], timeout=timeout)
        chk.validate("TraceComp", cases, name="TraceComp_%s_random_%s" % (part, prof or "all"), chunk=10000)
