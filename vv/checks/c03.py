from . import design, randoms


def run(chk):
    design(chk, "MCTree", ["AcceptedIffRooted", "PrefixClosed", "NothingLost"])
    randoms(chk, 350, 6000, "tree shapes", p_missing=0.4, p_shuffle=1.0, p_include=0.3, overlays=(0, 2), nodes=12,
            depth=5, p_instances=0.15, p_special=0.5, p_delete=0.2, p_roots=0.15)
