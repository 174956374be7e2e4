"""C04: see properties.jsonl and DESIGN.md."""
import itertools
import opcheck

NAMES = ['gemm']
ASSUMPTIONS = ["CPU codelets only (no CUDA device in the sandbox); the product with TF32 cores is explored with its task body replaced by a plain loop",
               "sizes beyond the enumerated bound behave like the enumerated ones"]


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def cases(tier):
    yield from opcheck.cases(NAMES, tier)
    # every fifth (third) instance also with TF32 cores
    yield from itertools.islice(opcheck.cases(["gemm_ex"], tier), 0, None, 5 if tier == "quick" else 3)


def run(env, case):
    if case[0] == "gemm_ex":
        with opcheck.StandIns(env) as ok:
            return opcheck.run_case(env, case, tier=TIER) if ok else {}
    return opcheck.run_case(env, case, tier=TIER)


def run_real(env, case):
    if case[0] == "gemm_ex":
        with opcheck.StandIns(env) as ok:
            return opcheck.run_case(env, case, flavours=("py", "core", "tile"), tier=TIER, explore=False) if ok else {}
    return opcheck.run_case(env, case, flavours=("py", "core", "tile"), tier=TIER, explore=False)
