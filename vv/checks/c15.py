from . import design_cases, exports


def some_uuid(rng, tool, s, opt):
    s["uuid"] = rng.random() < 0.85


def run(chk):
    design_cases(chk, "MCExport", ["AlwaysDone", "UuidsIffAsked", "UuidOfRoot", "EachNodeOnce"],
                 consts={"Fam": '"uuid"'}, cap=250)
    exports(chk, 400, 8000, "uuids", ["json", "yaml", "csv"], tweak=some_uuid, types=0.3, p_instances=0.4,
            overlays=(0, 2), p_special=0.3, p_delete=0.2, p_include=0.3)
