from . import design, randoms


def run(chk):
    design(chk, "MCTypes", ["ResolvedOrRejected", "FullNameShown"])
    randoms(chk, 350, 6000, "struct references", types=1.0, p_struct_ref=0.8, p_shuffle=0.8, nodes=6, p_instances=0.2,
            p_badref=0.15, overlays=(0, 1), p_include=0.2)
