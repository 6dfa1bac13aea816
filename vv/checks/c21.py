from . import design_cases, exports


def run(chk):
    design_cases(chk, "MCGo", ["AlwaysDone", "ReferenceGood", "DamagedBad"], cap=500)
    exports(chk, 600, 12000, "go", ["go"], types=0.5, p_instances=0.4, p_special=0.4, p_delete=0.1, overlays=(0, 1),
            goodnames=True, p_struct_ref=0.6)
