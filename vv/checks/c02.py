from . import design, randoms


def run(chk):
    design(chk, "MCInclude", ["FirstMatchWins", "PrefixesCompose", "NotFoundFails", "IncludedOverrides"])
    randoms(chk, 350, 6000, "include graphs", p_include=1.0, overlays=(0, 2), nodes=12, depth=4, p_ext=0.2)
