from . import design, randoms


def run(chk):
    design(chk, "MCPlace", ["AcceptedIffPlaced"])
    randoms(chk, 350, 6000, "placement", p_misplace=0.5, types=0.5, p_delete=0.3, p_instances=0.3, nodes=10, depth=4,
            overlays=(0, 1))
