from . import design, randoms


def run(chk):
    design(chk, "MCSpecial", ["OverridesOnlyGiven", "NewOnlyHere", "OthersUntouched", "ZUntouched", "AllInstances",
                              "MergedMaps"])
    randoms(chk, 350, 6000, "instance-specific definitions", p_instances=0.7, p_special=1.0, p_ext=0.4, p_null=0.2,
            overlays=(0, 2), nodes=10, p_notinst=0.2)
