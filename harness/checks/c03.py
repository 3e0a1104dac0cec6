import comp_common


def run(chk):
    comp_common.composites(chk, "core", {"value": 1500, "inst": 500}, {"": (400, 8000), "inst": (300, 4000), "chain": (600, 6000)})
