import random

from .. import exporters, gen, mc, repeat
from ..tools import SEED, THOROUGH

TOOLS = ["json", "yaml", "csv", "id", "jsonschema", "franca", "protobuf", "ddsidl", "graphql", "go", "tree", "binary", "apigear", "samm"]


def models(rng, tool):
    """two models the exporter accepts, both with types or none"""
    typed = tool in exporters.TYPES and rng.random() < 0.5
    out = {}
    while len(out) < 2:
        s = gen.Gen(rng, types=1.0 if typed else 0.0, p_instances=0.4, p_ext=0.5, words=tool != "samm", p_constraints=0.6, overlays=(0, 2),
                    p_include=0.3, p_meta=0.5, p_special=0.2, goodnames=True, nodes=10, p_delete=0.1).scenario()
        if bool(s["types"]) == typed:
            out[len(out) + 1] = s
    return out


def run(chk):
    calls = [c[0] for c in mc.explore_histories(chk, "MCRepeat", ["LastWins"], props=["OthersKept"], consts={"Runs": 4 if THOROUGH else 3})]
    random.Random(SEED).shuffle(calls)
    n = 6000 if THOROUGH else 700
    for at in range(0, n, 1000):
        hists = []
        for i in range(at, min(n, at + 1000)):
            rng = random.Random(f"C23/{SEED}/{i}")
            tool = TOOLS[i % len(TOOLS)]
            opt = exporters.options()
            both = models(rng, tool)
            for s in both.values():
                gen.export_options(rng, tool, s, opt)
                if tool == "protobuf":
                    opt["typesout"] = True
                exporters.fit(tool, s, opt)
            hists.append({"tool": tool, "opt": opt, "models": both, "runs": calls[i % len(calls)]})
        repeat.judge(chk, hists, "history")
        if chk.violations:
            return
