import comp_common


def run(chk):
    comp_common.composites(chk, "exec", {"exec": 2500}, {"": (1000, 10000)})
