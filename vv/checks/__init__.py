"""One module per property; each has run(chk)."""
import random

from .. import exporters, gen, mc, modelcheck
from ..tools import SEED, THOROUGH


def design(chk, module, invariants, cap=None, **kw):
    """Check the design exhaustively and replay what TLC explored into the tool."""
    return mc.explore_and_replay(chk, module, invariants, cap=None if THOROUGH else cap, **kw)


def design_cases(chk, module, invariants, cap=None, **kw):
    """Check an exporter's design exhaustively and let TLC judge what the real exporter writes for every case."""
    return mc.explore_and_judge(chk, module, invariants, cap=None if THOROUGH else cap, **kw)


def randoms(chk, quick, thorough, label, exporter="json", batch=1500, **features):
    """Seeded random models: run the tool, let TLC validate every run."""
    n = thorough if THOROUGH else quick
    done = 0
    while done < n:
        k = min(batch, n - done)
        scs = [gen.Gen(random.Random(f"{label}/{SEED}/{done + i}"), **features).scenario() for i in range(k)]
        modelcheck.judge(chk, scs, exporter=exporter, label=label)
        done += k
        chk.note("random_scenarios", k)
        if chk.violations:
            return


def exports(chk, quick, thorough, label, tools, tweak=None, batch=800, **features):
    """Seeded random models and options, each run through one of the exporters; TLC validates what was written."""
    n = thorough if THOROUGH else quick
    done = 0
    while done < n:
        items = []
        for i in range(done, min(done + batch, n)):
            rng = random.Random(f"{label}/{SEED}/{i}")
            s = gen.Gen(rng, **features).scenario()
            tool = tools[i % len(tools)]
            opt = exporters.options()
            gen.export_options(rng, tool, s, opt)
            if tweak:
                tweak(rng, tool, s, opt)
            exporters.fit(tool, s, opt)
            items.append((tool, s, opt))
        exporters.judge(chk, items, label)
        done += len(items)
        chk.note("random_scenarios", len(items))
        if chk.violations:
            return
