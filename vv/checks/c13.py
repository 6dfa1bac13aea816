from . import design_cases, exports

INV = ["AlwaysDone", "EachNodeOnce", "TypesOnce", "ExtraExactly", "CoreExactly", "TypedRefs"]


def pretty(n, tool, s, opt):
    opt["pretty"] = n % 3 == 0


def run(chk):
    for fam in ("listing", "csv"):
        design_cases(chk, "MCExport", INV, consts={"Fam": f'"{fam}"'}, tweak=pretty, cap=400)
    exports(chk, 700, 12000, "listing exporters", ["json", "yaml", "csv", "yaml"], types=0.4, p_instances=0.3, p_ext=0.4,
            p_null=0.3, words="wide", overlays=(0, 2), p_special=0.2, p_delete=0.2, p_constraints=0.6)
