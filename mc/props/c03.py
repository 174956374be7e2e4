"""C03: see properties.jsonl and DESIGN.md."""
import opcheck
import ops as O

NAMES = ['sum_slice', 'norm_slice', 'sum_fiber', 'sumprod_slice', 'sumprod_fiber', 'nrm2', 'nrm2_tile', 'sumnorm', 'sumnorm_tile', 'normalize', 'add_slice', 'add_slice3', 'add_fiber', 'prod_slice', 'prod_fiber', 'prod_fiber3', 'total_sum_accum', 'subtract_indexed_outputs']
ASSUMPTIONS = ["CPU codelets only (no CUDA device in the sandbox)",
               "sizes beyond the enumerated bound behave like the enumerated ones"]


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def cases(tier):
    return opcheck.cases(NAMES, tier, O.HUGE_AXES)


def run(env, case):
    return opcheck.run_case(env, case, tier=TIER)


def run_real(env, case):
    return opcheck.run_case(env, case, flavours=("py", "core", "tile"), tier=TIER, explore=False)
