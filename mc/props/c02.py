"""C02: see properties.jsonl and DESIGN.md."""
import opcheck
import ops as O

NAMES = ['relu', 'drelu', 'relu_forward', 'relu_backward', 'fill', 'clear', 'prod', 'maximum', 'add', 'axpy', 'axpy_tensor', 'scal', 'scal_inplace', 'add_scalar', 'hypot', 'hypot_scalar_inverse', 'pow', 'sqrt', 'sqrt_inplace', 'addcdiv', 'gelu', 'dgelu', 'gelutanh', 'gelutanh_inplace', 'dgelutanh', 'gelu_backward', 'gelutanh_backward', 'mask_scalar']
ASSUMPTIONS = ["CPU codelets only (no CUDA device in the sandbox)",
               "sizes beyond the enumerated bound behave like the enumerated ones"]


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def cases(tier):
    return opcheck.cases(NAMES, tier, O.HUGE_FLAT)


def run(env, case):
    return opcheck.run_case(env, case, tier=TIER)


def run_real(env, case):
    return opcheck.run_case(env, case, flavours=("py", "core", "tile"), tier=TIER, explore=False)
