"""C05: see properties.jsonl and DESIGN.md."""
import opcheck
import ops as O

NAMES = ['copy', 'scatter', 'gather', 'copy_intersection', 'transpose']
ASSUMPTIONS = ["CPU codelets only (no CUDA device in the sandbox)",
               "sizes beyond the enumerated bound behave like the enumerated ones"]


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def cases(tier):
    return opcheck.cases(NAMES, tier, O.HUGE_AXES)


def run(env, case):
    return opcheck.run_case(env, case, tier=TIER)


def run_real(env, case):
    return opcheck.run_case(env, case, flavours=("py", "core", "tile"), tier=TIER, explore=False)
