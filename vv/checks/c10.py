from . import design, randoms


def run(chk):
    design(chk, "MCUnits", ["Compatible", "GivenReplace", "NoDuplicates", "KnownUnit"])
    randoms(chk, 350, 6000, "units", units=1.0, p_badunit=0.35, nodes=8, overlays=(0, 1), p_include=0.2,
            p_instances=0.2, p_delete=0.1)
