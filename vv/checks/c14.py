import random

from .. import chain, gen, mc
from ..tools import SEED, THOROUGH


def run(chk):
    items = mc.explore_cases(chk, "MCReload", ["Fixpoint", "Unexpanded", "Valid"])
    for which in (0, 1):
        scs = [s for n, s, _ in items if (n == 4) == (which == 1)]
        if not THOROUGH:
            scs = random.Random(SEED).sample(scs, min(len(scs), 120))
        for k in range(0, len(scs), 800):
            chain.judge(chk, scs[k:k + 800], which, "catalogue")
    n = 5000 if THOROUGH else 350
    for done in range(0, n, 500):
        scs = []
        for i in range(done, min(done + 500, n)):
            rng = random.Random(f"chain/{SEED}/{i}")
            s = gen.Gen(rng, types=0.4, p_instances=0.4, p_ext=0.3, p_null=0.2, words="wide", overlays=(0, 2), p_special=0.2,
                        p_notinst=0.1, p_delete=0.05, p_include=0.2, p_constraints=0.6).scenario()
            gen.export_options(rng, "yaml", s, {})
            s["uuid"] = False
            scs.append(s)
        chain.judge(chk, scs, None, "random model")
        chk.note("random_scenarios", len(scs))
        if chk.violations:
            return
