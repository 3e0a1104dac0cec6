from checks import c07


def run(chk):
    c07.runs(chk, 1200, 1800, 14000)
