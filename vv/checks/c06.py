from . import design, randoms


def run(chk):
    design(chk, "MCDelete", ["ExactlyMarked", "NeverFails"])
    randoms(chk, 350, 6000, "delete marks", p_delete=0.5, p_instances=0.4, p_special=0.7, overlays=(0, 3), nodes=12,
            depth=4, p_bad=0.05)
