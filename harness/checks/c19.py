import comp_common


def run(chk):
    comp_common.composites(chk, "dirty", {"inst": 1200, "value": 800}, {"": (500, 5000)})
    comp_common.composites(chk, "lower", {}, {"lower": (500, 6000)})
    comp_common.composites(chk, "core", {"value": 600}, {"below": (400, 4000)})
