from . import design, randoms


def run(chk):
    design(chk, "MCMerge", ["LastWriter", "NullGone", "Kept"])
    randoms(chk, 350, 6000, "overlay stacks", overlays=(1, 5), p_ext=0.6, p_null=0.5, ovl_hard=0.5, p_include=0.3,
            p_instances=0.15, types=0.3, p_ovl_new=0.4, words="wide")
