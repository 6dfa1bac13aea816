from . import design_cases, exports

INV = ["AlwaysDone", "InstanceProduct", "SplitKeeps", "Nested", "SelectedOnly", "OneVersion"]


def tweak(rng, tool, s, opt):
    opt["namespace"] = rng.choice(["com.covesa.vss.spec", "com.covesa.vss.spec", "org.x"])
    opt["split"] = rng.random() < 0.7
    opt["depth"] = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.35:
        paths = [".".join(e["p"]) for e in s["files"][0]["entries"] if len(e["p"]) > 1] or ["V"]
        sel = rng.sample(paths, rng.randint(1, min(3, len(paths))))
        if rng.random() < 0.4:        # part of a name, a node that is not there, an empty line
            sel.insert(rng.randint(0, len(sel)), rng.choice([rng.choice(paths)[:-1], rng.choice(paths) + "X", rng.choice(paths) + ".X", ""]))
        opt["signals"] = sel


def run(chk):
    for fam, cap in (("instances", 200), ("values", 300), ("select", 300), ("version", 60)):
        design_cases(chk, "MCSamm", INV, cap=cap, consts={"Fam": f'"{fam}"'})
    exports(chk, 300, 3000, "aspect models", ["samm"], tweak=tweak, p_instances=0.3, p_notinst=0, p_oddinst=0, inst_depth=1,
            overlays=(0, 1), values=False, p_delete=0.1, unique=True, goodnames=True, p_echo=0, p_far=0)
