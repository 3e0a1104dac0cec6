import comp_common


def run(chk):
    comp_common.composites(chk, "kids", {"kids": 2000}, {"": (800, 8000), "inst": (300, 4000)})
