import comp_common


def run(chk):
    comp_common.composites(chk, "core", {"value": 1500, "flags": 500}, {"": (600, 8000), "below": (300, 4000)})
