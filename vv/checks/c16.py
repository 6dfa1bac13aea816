from . import design_cases, exports


def run(chk):
    for cs in ("FALSE", "TRUE"):
        design_cases(chk, "MCId", ["UidShape"], props=["UidFollowsIdentity"], consts={"CaseSens": cs}, view="EditView", cap=600)
    exports(chk, 500, 10000, "static identifiers", ["id"], types=0.3, p_instances=0.4, words="odd", p_constraints=0.8,
            overlays=(0, 1), p_delete=0.2, p_meta=0.6, p_special=0.2)
