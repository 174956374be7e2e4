"""C12: see properties.jsonl and DESIGN.md."""
import itertools
import opcheck

NAMES = ['flash_maxsumexp', 'flash_softmax_gemm', 'flash_softmax_gemm_backward']
ASSUMPTIONS = ["CPU codelets only (no CUDA device in the sandbox); with fp32_fast_tf32 the task body is that of fp32",
               "sizes beyond the enumerated bound behave like the enumerated ones"]


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def cases(tier):
    yield from opcheck.cases(NAMES, tier)
    # every sixth (third) instance also with TF32 products
    yield from itertools.islice(opcheck.cases([n + "_tf32" for n in NAMES], tier), 0, None, 6 if tier == "quick" else 3)


def run(env, case):
    if case[0].endswith("_tf32"):
        with opcheck.StandIns(env) as ok:
            return opcheck.run_case(env, case, tier=TIER) if ok else {}
    return opcheck.run_case(env, case, tier=TIER)


def run_real(env, case):
    if case[0].endswith("_tf32"):
        with opcheck.StandIns(env) as ok:
            return opcheck.run_case(env, case, flavours=("py", "core", "tile"), tier=TIER, explore=False) if ok else {}
    return opcheck.run_case(env, case, flavours=("py", "core", "tile"), tier=TIER, explore=False)
