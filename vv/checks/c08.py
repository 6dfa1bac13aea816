from . import design, randoms


def run(chk):
    design(chk, "MCValues", ["LimitsDecide", "ArraysNeedLists", "MinMaxXorAllowed", "DefaultIsAllowed", "SizeFits"])
    randoms(chk, 350, 6000, "value constraints", p_constraints=0.9, p_bad=0.5, nodes=10, words="odd", types=0.2,
            p_instances=0.2, overlays=(0, 1), ovl_hard=0.5)
