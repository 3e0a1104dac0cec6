import comp_common


def run(chk):
    comp_common.composites(chk, "core", {"inst": 1500, "deep3": 1500}, {"inst": (900, 10000), "chain": (500, 5000)})
