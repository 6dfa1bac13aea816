from . import design, randoms


def run(chk):
    design(chk, "MCInst", ["ExactProduct", "RangeFails", "InstancesGone", "CopiesEqual", "OtherUntouched"])
    randoms(chk, 350, 6000, "instance definitions", p_instances=0.8, p_notinst=0.3, nodes=10, depth=4, overlays=(0, 1),
            p_ovl_inst=0.5)
