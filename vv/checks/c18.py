from .. import gen
from . import design_cases, exports

INV = ["AlwaysDone", "EveryFieldResolves", "OneFieldPerChild", "NumbersUnique", "ImportsExist"]


def static_uids(rng, tool, s, opt):
    """options of the exporter; with --static-uid most nodes get a static UID, now and then one that does not fit"""
    opt["addopt"] = rng.random() < 0.4
    opt["typesout"] = bool(s["types"]) and rng.random() < 0.7
    opt["staticuid"] = rng.random() < 0.5
    if not opt["staticuid"]:
        return
    s["exts"] = sorted(set(s["exts"]) | {"staticUID"})
    odd = rng.random() < 0.3
    for f in s["files"]:
        if f["name"].endswith(".vspec"):
            for e in f["entries"]:
                u = rng.randrange(2**32) if rng.random() < 0.8 else rng.randrange(8, 400)
                if odd and rng.random() < 0.2:
                    u = rng.choice([0, 7, 8, 0xF, 19000 * 8 - 1, 19000 * 8, 20000 * 8 - 1, 20000 * 8, 2**32 - 1])
                if not (odd and rng.random() < 0.05):
                    e["v"]["d"] = [a for a in e["v"]["d"] if a["n"] != "staticUID"] + gen.enc_attrs(
                        {"staticUID": f"0x{u:08X}" if rng.random() < 0.7 else f"0x{u:x}"})


def run(chk):
    for fam in ("shapes", "types", "uids"):
        design_cases(chk, "MCProto", INV, consts={"Fam": f'"{fam}"'}, cap=450)
    exports(chk, 600, 12000, "protobuf", ["protobuf"], tweak=static_uids, types=0.6, p_instances=0.2, overlays=(0, 1),
            goodnames=True, p_delete=0.1, p_struct_ref=0.6, p_oddinst=0.0)
