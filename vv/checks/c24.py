from . import design_cases, exports


def unexpanded(rng, tool, s, opt):
    s["expand"] = rng.random() < 0.1


def run(chk):
    design_cases(chk, "MCExport", ["AlwaysDone", "KeepsDefinition", "ExpandedShowsNone", "EachNodeOnce"],
                 consts={"Fam": '"noexpand"'})
    exports(chk, 600, 10000, "without expansion", ["json", "yaml", "csv", "id"], tweak=unexpanded, types=0.2,
            p_instances=0.7, overlays=(0, 2), p_delete=0.2, p_include=0.2, p_ext=0.2, p_ovl_inst=0.4)
