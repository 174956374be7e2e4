"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = {
 "C02": ("exhaustive enumeration of bounded operation instances executed on the real code under a model of the StarPU runtime, all task interleavings of each instance",
         "every shape/tiling/scalar/entry point in the bound on the real kernels and submission code; not larger sizes, not CUDA"),
 "C03": ("exhaustive enumeration of bounded operation instances executed on the real code under a model of the StarPU runtime, all task interleavings of each instance",
         "every shape/axis/batch/tiling/scalar in the bound; not larger sizes, not CUDA"),
 "C04": ("exhaustive enumeration of bounded contractions executed on the real code under a model of the StarPU runtime, all task interleavings",
         "all transpositions, ranks, tilings in the bound; not larger sizes, not CUDA"),
 "C05": ("exhaustive enumeration of pairs of tilings and offsets executed on the real code under a model of the StarPU runtime, all task interleavings",
         "all tilings/offsets in the bound"),
}
CL["C01"] = ("exhaustive enumeration of legal task interleavings and submission/execution interleavings of multi-operation programs, on the real code under a model of the StarPU runtime",
         "all legal schedules of each bounded program (bounded number of deviations for the largest ones)")
CL["C11"] = ("exhaustive enumeration of index assignments and tilings executed on the real code under a model of the StarPU runtime, all task interleavings",
         "every index assignment/tiling/axis in the bound")
CL["C13"] = ("exhaustive enumeration of boundary values along short axes and of accumulation orders / merge trees, executed on the real code under a model of the StarPU runtime",
         "every assignment of the boundary alphabet to axes of length <=3 (4), tilings, orders and merge trees")
CL["C22"] = ("exhaustive enumeration of execution orders, replica assignments and merge trees of reductions, executed on the real code under a model of the StarPU runtime",
         "every distinct outcome of every order/replica/merge tree in the bound")
CL["C09"] = ("exhaustive enumeration of enclosing shapes, sub-boxes and tilings executed on the real code under a model of the StarPU runtime, all task interleavings, against an independent generator",
         "every sub-box and tiling of every enclosing shape in the bound, offsets up to 2^62, six seeds")
CL["C07"] = ("exhaustive enumeration of bounded operation instances, monitoring every memory access of every task of the instrumented real code under a model of the StarPU runtime",
         "every access of every task of every instance in the bound; accesses inside BLAS by its interface contract")
CL["C08"] = ("exhaustive enumeration of all single perturbations of valid operand lists, executed on the real code under a model of the StarPU runtime",
         "every single perturbation (all roles subsets sharing a shape) of the base instances in the bound")
CL["C06"] = ("exhaustive enumeration of bounded shapes, tile shapes, indices (valid and invalid), process grids and ranks, executed on the real code against counting-based references",
         "every shape, tiling, index and process grid in the bound, plus shapes beyond 32-bit at their corner indices")
CL["C10"] = ("exhaustive enumeration of training histories (words of step, zero, restore, new gradient) and option combinations executed on the real code under a model of the StarPU runtime",
         "every word up to the stated length for every option combination and tiling in the bound, against a double precision reference validated with torch.optim")
CL["C16"] = ("exhaustive enumeration of layer configurations, tilings, gradient-requirement subsets and words of forward/backward passes executed on the real code under a model of the StarPU runtime, with exploration of commute and reduction orders",
         "every configuration in the bound; the quick tier thins the words and subsets of the largest families")
CL["C12"] = ("exhaustive enumeration of head sizes, sequence lengths, tilings, batches and masks executed on the real code under a model of the StarPU runtime, all task interleavings of small instances",
         "every geometry, mask pattern and tiling in the bound")
CL["C17"] = ("exhaustive enumeration of layer configurations, tilings, masks and words of forward/backward passes executed on the real code under a model of the StarPU runtime, with exploration of commute and reduction orders",
         "every configuration in the bound; the quick tier thins the words of the largest families")
CL["C18"] = ("exhaustive enumeration of loss configurations, tilings, labels, magnitudes and words of evaluations executed on the real code under a model of the StarPU runtime, with exploration of task and reduction orders",
         "every configuration in the bound, none thinned")
CL["C19"] = ("exhaustive enumeration of layer sequences up to a depth, model configurations, tilings, words of passes and training histories executed on the real code under a model of the StarPU runtime, with exploration of task and reduction orders",
         "all layer sequences of length up to 3 (4 in the thorough tier), provided models, imports from PyTorch; the quick tier thins the largest families")
CL["C15"] = ("exhaustive enumeration of shapes, tilings, element types, array layouts, mismatches and words of puts, gets and submitted operations up to a depth, executed on the real bindings under a model of the StarPU runtime with schedule exploration",
         "ranks up to 4 (5 in the thorough tier), words up to length 4 (5)")
CL["C20"] = ("exhaustive enumeration of the argument space (every sign and exponent with a grid of mantissas; in the thorough tier every single-precision pattern where the function is neither constant nor linear) executed on the real kernels, against extended-precision references",
             "every exponent of both precisions; mantissas on a grid in the quick tier")
CL["C21"] = ("exhaustive enumeration of words of initialisation, restriction and restoring, globally and per operation, up to a depth on the real codelets given a second kind of worker, every codelet compared after every action and every submitted task's placement after every word",
             "words of length 2 over all pairs of operations, 3 to 4 over two operations, globals to length 4; no CUDA device: the second kind of worker runs the CPU function")
CL["C14"] = ("exhaustive enumeration of words of submissions, blocking transfers, holds, invalidations, releases and waits up to a depth, and of release orders of operands, layers, models, losses and optimizers before and after their tasks ran, executed on the real code under a model of the StarPU runtime with schedule exploration",
             "words of length up to 4 (5 in the thorough tier), every subset of operands of every operation, all release orders of layers in a list; memory balance by repeated execution")
CL["C24"] = ("exhaustive enumeration of words of creating, shutting down and destroying configurations, registering, submitting, waiting, reading, pausing and resuming up to a depth, executed on the real code under a model of the StarPU runtime that counts initialisations, and replayed on the real runtime",
             "every word of length up to 6 (7 in the thorough tier) over two configurations; for every operation in four calling forms, layer, model, loss and optimizer a few pairs of uses in three successive sessions")
CL["C25"] = ("exhaustive enumeration of operation instances and bounded layer, model, loss and optimizer histories called while the model runtime executes nothing, with exploration of task orders after resuming; blocking forms checked for tasks left over",
             "a spread of instances of every operation in every calling form; histories: an evenly thinned subset of the spaces of C10 and C16-C19")
CL["C26"] = ("exhaustive enumeration of layer and model configurations, tilings and words of initialisation and passes executed on the real code under a model of the StarPU runtime, with exploration of task orders, against an independent generator",
             "every configuration in the bound; the quick tier thins the largest families")
CL["C27"] = ("exhaustive enumeration of assignments of boundary magnitudes to short axes with prior contents, tilings, layouts and reduction modes, executed on the real code under a model of the StarPU runtime with schedule exploration, against extended-precision references",
             "every assignment of the magnitude alphabet to axes of length <=3 (4); long axes by structured patterns, not exhaustively")
CL["C29"] = ("exhaustive enumeration of words of imports, exports, forward passes and parameter changes of bounded models, executed on the real code under a model of the StarPU runtime with element-wise identification of parameters",
         "every bounded model with all words up to length two and a stride of the longer ones (thorough: every word up to five actions)")
CL["C28"] = ("exhaustive fault injection: every request of a call to the runtime refused in turn, alone and with all later ones, on the real code under a model of the StarPU runtime, with snapshot, repetition and comparison with the reference; refused submissions repeated on the real StarPU",
             "every fault point of every operation instance of bounded size; passes with more than 16 (400) requests at an even subset of their fault points")
CL["C23"] = ("exhaustive enumeration of half-precision values, shapes, tilings and bounded conversion and product programs, all task interleavings, executed on the real code under a model of the StarPU runtime, with stand-ins for the task bodies that exist for CUDA only",
             "every half-precision number and rounding boundary; every shape and tiling in the bound; the conversion kernels are the library's CPU sources compiled against a stand-in for CUDA's header, the half-precision product is a plain loop")
NA = {}
TODO = "check not built yet"


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    na = []
    for p in props:
        i = p["id"]
        if i in CL:
            t, n = CL[i]
            checks.append({"property": i, "quick_cmd": "python3 mc/run.py %s quick" % i,
                           "thorough_cmd": "python3 mc/run.py %s thorough" % i,
                           "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, TODO)})
    m = {"version": 1, "setup_cmd": "python3 mc/build.py plain mon", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Checks build /repo's working tree into /verif/.build and run it on a model of the StarPU runtime (mc/mcstarpu.cc)."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
