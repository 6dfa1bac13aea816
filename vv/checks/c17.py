from .. import validate


def run(chk):
    validate.catalogue(chk, 300)
    validate.randoms(chk, 400, 8000, nodes=7, types=0.2, p_instances=0.2, overlays=(0, 1), p_meta=0.5, p_delete=0.05, goodnames=True)
