"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


TESTED = "The unit tests run a few hand-picked shapes, tilings and scalars, mostly for one tile of each operand, in one schedule; "

p("C01", "Asynchronous programs give the sequential result in every schedule",
  "Any program of asynchronous tensor operations ends with the same tensor contents as executing its operations one after another in submission order, whatever order and on whatever workers the runtime executes the tasks. This holds although the library declares some accesses as commutative or as reductions.",
  ["schedules", "programs"],
  "every legal schedule (order, worker placement, reduction tree) of every bounded sequence of tensor operations sharing operands, for every tiling in the bound",
  "Tests run each operation alone and blocking, on one arbitrary schedule; an access mode that is too weak (a read declared for an update, commute where order matters) shows only in particular interleavings of particular operation sequences.",
  ["src/starpu/*.cc", "src/tensor/*.cc", "include/nntile/starpu/config.hh"],
  [("access modes passed at task submission", "src/starpu/*.cc submit()"), ("commutative read-write mode", "include/nntile/starpu/config.hh"),
   ("reduction methods of a handle", "include/nntile/tensor/tensor.hh set_reduction_*")],
  ["tensor contents after waiting for all tasks"])

p("C02", "Elementwise operations compute their definition for every tiling",
  "Every elementwise operation (add, axpy, scal, prod, maximum, hypot, pow, sqrt, relu, gelu and their gradients, fill, clear, addcdiv, mask and so on) gives, for each element, the value of its mathematical definition of the scalars and of the corresponding input elements, for every shape, every tiling and every value of the scalars including zero. No other operand and no other element changes, and the Python, C++ tensor and C++ tile entry points agree.",
  ["inputs", "configurations"],
  "all shapes, tilings and scalar arguments within the bound, for each precision and each entry point",
  TESTED + "special scalars (0, 1, negative), partial last tiles, higher ranks and the Python dispatch are mostly unvisited, and hypot, scal, pow, adam and several gradients have no effective test.",
  ["src/kernel/*/cpu.cc", "src/starpu/*.cc", "src/tile/*.cc", "src/tensor/*.cc", "wrappers/python/nntile/tensor.py"],
  [("kernels", "src/kernel/*/cpu.cc"), ("special-casing of scalars at submission", "src/starpu/add.cc and others"),
   ("loop over tiles", "src/tensor/*.cc"), ("dispatch by type", "wrappers/python/nntile/tensor.py")])

p("C03", "Reductions, norms and broadcasts along axes match their definition",
  "Sums, norms, sums of products, total sums, normalization statistics along a slice or fiber, and the broadcasting additions and products of a slice or fiber into a tensor, equal their mathematical definition with their scaling factors, for every shape, axis, batch arrangement and tiling. Destination content is ignored when its factor is zero and accumulated otherwise, and inputs are left unchanged.",
  ["inputs", "configurations"],
  "all shapes, axes, batch dimensions, tilings and scalar arguments within the bound, in each precision",
  TESTED + "results accumulated over several tiles along the reduced axis, partial tiles, batch dimensions and zero factors are combinations the samples do not cross.",
  ["src/kernel/sum_slice/cpu.cc", "src/kernel/norm_slice/cpu.cc", "src/tensor/sum_slice.cc", "src/tensor/sum_fiber.cc", "src/tensor/add_fiber.cc", "src/tensor/add_slice.cc", "src/tensor/sumprod_slice.cc", "src/tensor/nrm2.cc", "src/tensor/sumnorm.cc", "src/tensor/normalize.cc"],
  [("beta applied by the first tile only, later tiles accumulate", "src/tensor/sum_slice.cc and alike"), ("m, n, k flattening of a tile", "src/tile/traits.cc matrix_shape"), ("mapping of destination tile to source tiles", "src/tensor/*.cc")])

p("C04", "Tiled matrix multiplication equals the contraction it denotes",
  "Matrix multiplication of tensors equals alpha times the contraction of the two operands over the given number of dimensions for each batch index, plus beta times the previous destination, for every combination of transpositions, contracted dimensions, batch dimensions, shapes and tilings. With beta equal to zero the previous content of the destination has no influence, and the operands are unchanged.",
  ["inputs", "configurations"],
  "all m, n, k sizes and tilings, transposition flags, contraction ranks, batch ranks and scalars within the bound, with and without parallel reduction",
  TESTED + "the 4 transposition cases times multi-dimensional rows/columns/contractions times batch times tilings that do not divide are sampled at a handful of points.",
  ["src/tensor/gemm.cc", "src/tile/gemm.cc", "src/starpu/gemm.cc"],
  [("tile loops over m, n, k, batch", "src/tensor/gemm.cc"), ("beta for the first k only", "src/tensor/gemm.cc"), ("leading dimensions and batch strides", "src/starpu/gemm.cc cpu()")])

p("C05", "Copies between tilings and transposition move every element exactly once",
  "Scattering, gathering, copying, copying the intersection of two tensors placed at offsets, and cyclic transposition put every source element at its one proper place of the destination for all tilings on both sides. Destination elements outside the intersection keep their values and the source never changes.",
  ["inputs", "configurations"],
  "all pairs of shapes, tilings and offsets within the bound, for floating point, integer and boolean tensors",
  TESTED + "two unrelated tilings with offsets, empty and touching intersections and partial last tiles give a product of cases far beyond the tested ones.",
  ["src/tensor/copy_intersection.cc", "src/tensor/scatter.cc", "src/tensor/gather.cc", "src/tensor/copy.cc", "src/tensor/transpose.cc", "src/kernel/subcopy/cpu.cc", "src/kernel/transpose/cpu.cc"],
  [("intersection arithmetic per tile pair", "src/tensor/copy_intersection.cc"), ("strided copy", "src/kernel/subcopy/cpu.cc"), ("tile index rotation", "src/tensor/transpose.cc")])

p("C06", "Tilings partition index space and block-cyclic placement is a function",
  "For every shape and tile shape the tiles partition the tensor: each element lies in exactly one tile, tile shapes sum to the tensor shape with only last tiles partial, and conversions between linear and multi-dimensional indices are inverse to each other in column-major order. Out-of-range indices and invalid shapes are rejected, and block-cyclic distribution assigns every tile the one rank its cyclic grid position prescribes.",
  ["inputs", "configurations"],
  "all shapes, tile shapes, indices, process grids, start ranks and communicator sizes within the bound",
  "Tests check a few shapes; partition, inverse and rejection are statements over all shapes and all indices.",
  ["src/tensor/traits.cc", "src/tile/traits.cc", "include/nntile/tensor/traits.hh", "include/nntile/tile/traits.hh", "src/tensor/distributions.cc"],
  [("grid and leftover computation", "src/tensor/traits.cc"), ("strides", "src/tile/traits.cc"), ("block_cyclic", "src/tensor/distributions.cc")])

p("C07", "A task touches only the data it declared, in the way it declared it",
  "While a task of any operation runs it writes only to buffers it declared for writing, within their bounds, never reads a write-only or scratch buffer before writing it, and reads declared buffers only within their bounds. It keeps no hidden state that a later task depends on.",
  ["schedules", "inputs", "configurations"],
  "every task submitted by every operation over the bounded argument space, every memory access of each",
  "The runtime does not check this, and tests pass as long as the values come out right in the one schedule that happened; a stray read or write is a race only in other schedules.",
  ["src/starpu/*.cc", "src/kernel/*/cpu.cc"],
  [("access modes declared in submit()", "src/starpu/*.cc"), ("buffer unpacking in cpu()", "src/starpu/*.cc"), ("kernel loops", "src/kernel/*/cpu.cc")])

p("C08", "Incompatible arguments are rejected before anything happens",
  "An operation whose operands have incompatible ranks, shapes or tile shapes, or whose axis or batch count is out of range, raises an error. When it raises, no task has been submitted and every tensor keeps its content; when it does not raise, the operands are compatible with the operation's definition. The builders of layers and models likewise refuse what they do not support (an unknown side or activation, heads that do not divide the embedding, too few layers, keys or values shaped or tiled unlike the queries) and leave nothing behind.",
  ["inputs", "configurations"],
  "for every operation, all single perturbations of valid operand shapes, tile shapes, ranks, axes and batch counts within the bound",
  "Tests check a few wrong shapes of single-tile operands; a missing comparison lets tasks run out of bounds or on wrong tiles only for the specific mismatch.",
  ["src/tensor/*.cc", "src/tile/*.cc"],
  [("argument checks at the start of each operation", "src/tensor/*.cc *_async"), ("argument checks of the builders", "wrappers/python/nntile/layer/*.py, wrappers/python/nntile/model/*.py")])

p("C09", "Random fill depends only on seed and global position",
  "The random normal fill gives each element a value that depends only on the seed, the mean, the deviation and the element's position in the enclosing index space, so any tiling and any sub-tensor produce the same numbers as one whole tensor. Values scale as mean plus deviation times a standard value, differ between seeds, are finite for every seed, and repeated calls repeat them.",
  ["inputs", "configurations", "schedules"],
  "all shapes, tilings, offsets and enclosing shapes within the bound, several seeds, in every task order",
  TESTED + "the jump-ahead of the generator for partial tiles at nonzero offsets in several dimensions is exercised at few points.",
  ["src/tensor/randn.cc", "src/tile/randn.cc", "src/starpu/randn.cc", "src/kernel/randn/cpu.cc", "external/random.h"],
  [("jump-ahead by linear offset", "src/kernel/randn/cpu.cc"), ("per-tile start index", "src/tensor/randn.cc")])

p("C10", "Optimizers follow their update rule over whole training histories",
  "SGD (with momentum, Nesterov, weight decay and damping), Adam, AdamW and their fused variants update parameters exactly by their published rules (as PyTorch implements them) at every step of a training history, independently of tiling. Saving the state and loading it in a fresh optimizer continues the history as if uninterrupted.",
  ["histories", "configurations"],
  "all option combinations and all histories of steps (with a save/restore at every position) up to the bound, every tiling in the bound",
  "Tests run at most a few steps of one configuration; bias correction, first-step special cases, stale moments and save/restore differ only along histories.",
  ["wrappers/python/nntile/optimizer/*.py", "src/kernel/adam_step/cpu.cc", "src/kernel/adamw_step/cpu.cc", "src/tensor/adam_step.cc", "src/tensor/adamw_step.cc"],
  [("step counters and moment initialisation on the first iteration", "wrappers/python/nntile/optimizer/*.py"), ("fused kernels", "src/kernel/adam*_step/cpu.cc")])

p("C11", "Embedding looks up and accumulates exactly the indexed vectors",
  "The embedding of an index tensor contains at each position the vocabulary vector of the index there, placed along the chosen axis, for every tiling of indices, vocabulary and result. Its gradient adds to each vocabulary vector the sum of the output gradients at all positions holding that index, repeated indices included, and changes nothing else.",
  ["inputs", "schedules", "configurations"],
  "all index patterns, shapes, tilings, axes within the bound, with commutative and with reduction accumulation, in every schedule",
  "Tests use one random index tensor; repeated indices across tiles and tiles of embedding that split vocabulary tiles are not crossed with axes and schedules.",
  ["src/tensor/embedding.cc", "src/tensor/embedding_backward.cc", "src/starpu/embedding.cc", "src/starpu/embedding_backward.cc", "src/kernel/embedding/cpu.cc", "src/kernel/embedding_backward/cpu.cc"],
  [("k_start/k_size split of embedding tiles", "src/tensor/embedding.cc"), ("accumulating access", "src/starpu/embedding_backward.cc")])

p("C12", "Flash attention equals the standard attention it replaces",
  "The blocked (flash) computation of the softmax statistics, of the attention output and of the gradients of queries, keys and values equals the unblocked attention formula with masking, for every division of sequence, head and batch dimensions into equal tiles; operands that do not fit together or have partial tiles are rejected. Nothing but the declared outputs changes.",
  ["inputs", "configurations", "schedules"],
  "all head sizes, sequence lengths, tilings, batch arrangements and mask patterns within the bound, in every explored schedule",
  "The tests of these operations use one mask and few tilings, and are not among the stable tests; partial tiles and fully masked blocks change the accumulation path.",
  ["src/tensor/flash_maxsumexp.cc", "src/tensor/flash_softmax_gemm.cc", "src/tensor/flash_softmax_gemm_backward.cc", "src/starpu/flash_*.cc"],
  [("running max and sum per block", "src/starpu/flash_maxsumexp.cc"), ("recomputation of probabilities", "src/starpu/flash_softmax_gemm*.cc")])

p("C13", "Softmax statistics are exact and overflow-safe for any blocking",
  "The running maximum and sum of exponents over any division of an axis into tiles, in any order of accumulation, equals the true maximum and the true sum of exponents relative to it, and softmax and log-sum-exp derived from it are correct, for arguments of any magnitude including ones whose exponent overflows and masked (minus infinity) entries. Finite inputs never produce NaN or infinity.",
  ["inputs", "schedules", "configurations"],
  "all assignments of boundary values to the elements of small axes, all tilings, all accumulation orders and reduction trees within the bound",
  "Tests use moderate random numbers in one order; overflow, masked blocks, initial states and merges of partial states depend on particular value/blocking/order combinations.",
  ["src/kernel/maxsumexp/cpu.cc", "src/kernel/softmax/cpu.cc", "src/kernel/softmax_inplace/cpu.cc", "src/kernel/logsumexp/cpu.cc", "src/kernel/accumulate_maxsumexp/cpu.cc", "src/tensor/maxsumexp.cc", "src/tensor/softmax.cc"],
  [("update of (max, sum) pairs", "src/kernel/maxsumexp/cpu.cc"), ("merge of partial pairs", "src/kernel/accumulate_maxsumexp/cpu.cc")])

p("C14", "Data lives exactly as long as tasks need it and is released after",
  "Releasing or invalidating a tensor, synchronously or by submission, never takes data away from tasks submitted before and never lets later reads see stale content; waiting returns only when all submitted work is done. Every operation, layer and model gives back all data it allocated, a second release is harmless, and no sequence of operations, waits and releases hangs.",
  ["histories", "schedules", "programs"],
  "all sequences of submit, acquire, release, invalidate, unregister and wait operations up to the depth bound, in every schedule",
  "Tests release at the end of a synchronous program; premature release, a forgotten release of an acquired tile or a leak of an internal buffer shows only for other orders or over time.",
  ["include/nntile/starpu/config.hh", "include/nntile/tensor/tensor.hh", "wrappers/python/nntile/nntile_core.cc", "wrappers/python/nntile/tensor.py", "wrappers/python/nntile/layer/base_layer.py", "wrappers/python/nntile/model/base_model.py"],
  [("Handle ownership and deleters", "include/nntile/starpu/config.hh"), ("unregister/invalidate_submit/wont_use of tensors", "include/nntile/tensor/tensor.hh"), ("release of layer and model data", "wrappers/python/nntile/layer/base_layer.py, model/base_model.py")])

p("C15", "NumPy arrays survive the round trip through tensors",
  "An array put into a tensor or tile from Python comes back equal, for every supported type, rank, shape and memory layout of the array, and the value seen is the one after all operations submitted before. Arrays of a different rank or shape are rejected, and the given array is never modified.",
  ["inputs", "configurations", "histories"],
  "all ranks, shapes, array memory orders and types within the bound, with operations pending before the transfer",
  "Tests transfer Fortran-ordered arrays of matching type only.",
  ["wrappers/python/nntile/nntile_core.cc", "wrappers/python/nntile/tensor.py"],
  [("from_array/to_array", "wrappers/python/nntile/nntile_core.cc"), ("acquire and release around the copy", "wrappers/python/nntile/nntile_core.cc")])

p("C16", "Dense layers compute the right outputs and the right gradients",
  "The Linear (with transpositions, multi-dimensional features, with and without bias), activation, addition, slice addition, embedding, global average pooling and mixer MLP layers compute in the forward pass their mathematical function, and in the backward pass add the exact gradients to whatever the gradient tensors already contain. This holds for every tiling, for repeated forward/backward passes, and for any subset of gradients being required.",
  ["configurations", "inputs", "histories"],
  "all layer configurations, tilings, input sides, gradient-requirement subsets and pass counts within the bound",
  "Tests compare one configuration per layer with PyTorch, mostly with single passes and zeroed gradients.",
  ["wrappers/python/nntile/layer/linear.py", "wrappers/python/nntile/layer/act.py", "wrappers/python/nntile/layer/add.py", "wrappers/python/nntile/layer/add_slice.py", "wrappers/python/nntile/layer/embedding.py", "wrappers/python/nntile/layer/mixer.py"],
  [("forward_async/backward_async", "wrappers/python/nntile/layer/*.py"), ("gradient accumulation factors", "wrappers/python/nntile/layer/*.py")])

p("C17", "LayerNorm and attention layers compute exact outputs and gradients",
  "Layer normalization and multi-head attention (plain, with and without mask, and flash, with mask; with and without bias) give in the forward pass their mathematical function and in the backward pass add the exact gradients of all parameters and of the inputs that require them to the gradient tensors. This holds for every tiling of every dimension, normalized axis, cross- and self-attention sizes, and for repeated passes.",
  ["configurations", "inputs", "histories"],
  "all layer configurations, tilings, masks and pass counts within the bound",
  "Tests compare a few configurations with PyTorch; partial tiles of heads, sequences and batch, repeated passes with leftover temporaries and accumulation into nonzero gradients are not crossed.",
  ["wrappers/python/nntile/layer/layer_norm.py", "wrappers/python/nntile/layer/attention.py", "wrappers/python/nntile/layer/flash_attention.py"],
  [("reuse of temporaries between passes", "wrappers/python/nntile/layer/attention.py"), ("forward/backward task sequences", "wrappers/python/nntile/layer/*.py")])

p("C18", "Losses return the exact value and gradient",
  "The cross entropy loss adds to the loss value the scaled sum of the negative log-probabilities of the labels, and the Frobenius loss half the squared norm of the difference to the target; each writes the exact gradient with respect to the model output when it is required. This holds for all tilings (of all axes but that of the classes), labels, magnitudes of the model output and repeated evaluations.",
  ["inputs", "configurations", "histories"],
  "all label assignments, tilings, logit magnitudes and evaluation counts within the bound",
  "Tests use one random logit tensor; accumulation over calls and tilings and extreme logits are not covered.",
  ["wrappers/python/nntile/loss/crossentropy.py", "wrappers/python/nntile/loss/frob.py", "src/kernel/total_sum_accum/cpu.cc", "src/kernel/subtract_indexed_outputs/cpu.cc"],
  [("calc_async", "wrappers/python/nntile/loss/*.py")])

p("C19", "Models and training pipelines accumulate gradients and train as specified",
  "A model composes its layers so that forward gives the composition of their functions and backward the gradients of the composition; a training pipeline applies, per batch, one optimizer step with the sum of the gradients of all its microbatches and reports the accumulated loss. Training for several epochs equals the reference training computed step by step, and parameters imported from a PyTorch model give that model's outputs.",
  ["histories", "configurations", "programs"],
  "all bounded model depths, tilings, numbers of microbatches, batches and epochs",
  "Tests run a single forward/backward of fixed models; accumulation over microbatches, clearing between batches and the sequence of epochs is not checked.",
  ["wrappers/python/nntile/model/*.py", "wrappers/python/nntile/pipeline.py"],
  [("clear_gradients / forward / loss / backward / step sequence", "wrappers/python/nntile/pipeline.py"), ("activations and parameters lists", "wrappers/python/nntile/model/base_model.py")])

p("C20", "Activations and their derivatives are accurate over the whole float range",
  "Relu, gelu, tanh-gelu, square root, inverse hypotenuse, power and their derivatives and backward forms return, for every representable finite argument in their domain, the correctly signed value of the mathematical function within a few units of precision (a few tens for the derivative of tanh-gelu), and the backward forms add that value times the incoming gradient. Finite arguments, however large or small, never give NaN, and zeros and extreme arguments give the limits of the function.",
  ["inputs"],
  "every exponent and sign with a grid of mantissas of single precision (all single-precision bit patterns in the thorough tier for unary kernels), and every exponent of double precision",
  "Tests use small moderate values; overflow of an intermediate exponent or cancellation happens only far from them.",
  ["src/kernel/gelu/cpu.cc", "src/kernel/dgelu/cpu.cc", "src/kernel/gelutanh/cpu.cc", "src/kernel/dgelutanh/cpu.cc", "src/kernel/gelu_backward/cpu.cc", "src/kernel/gelutanh_backward/cpu.cc", "src/kernel/relu/cpu.cc", "src/kernel/hypot_scalar_inverse/cpu.cc", "src/kernel/pow/cpu.cc", "src/kernel/sqrt/cpu.cc"],
  [("formulas", "src/kernel/*/cpu.cc")])

p("C21", "Restricting where tasks may run and restoring it works in any sequence",
  "After restricting operations to a kind of worker every operation runs only on such workers, after restoring it runs where it could originally, for every sequence of restrict and restore calls, globally or per operation. Restricting never removes a kind of worker permanently or affects another operation.",
  ["histories"],
  "all sequences of init, restrict and restore calls on any operations up to the depth bound, followed by a task of every operation",
  "Tests call each of these once at most; lost original settings show only after repeated restriction.",
  ["include/nntile/starpu/config.hh", "src/starpu/*.cc", "include/nntile/starpu.hh"],
  [("saved original placement", "include/nntile/starpu/config.hh Codelet::restrict_where/restore_where"), ("lists over all operations", "include/nntile/starpu.hh")])

p("C22", "Parallel reduction mode gives the same results as sequential accumulation",
  "Operations asked to accumulate by parallel reduction (sums, norms, sums of products, softmax statistics, matrix products, embedding gradients) give the same result as without it, for every assignment of contributions to workers, every tree of merges, and every previous content of the destination. The neutral element and the merge of each kind of reduction are consistent with the accumulation itself.",
  ["schedules", "configurations", "inputs"],
  "all partitions of the contributions over workers and all merge trees within the bound, in every order, for each reduction kind",
  "Reduction mode is used by no stable test with several workers contributing, and the runtime chooses partitions and merge order nondeterministically.",
  ["src/starpu/sum_slice.cc", "src/starpu/accumulate.cc", "src/starpu/accumulate_hypot.cc", "src/starpu/accumulate_maxsumexp.cc", "src/starpu/clear.cc", "src/kernel/accumulate_maxsumexp/cpu.cc", "include/nntile/tensor/tensor.hh"],
  [("reduction and init codelets", "src/starpu/accumulate*.cc, clear.cc"), ("REDUX access selected for the accumulating tasks", "src/starpu/*.cc submit()")])

p("C23", "Mixed precision: conversion to half precision and back, and products in between, are exact up to rounding for every tiling",
  "Converting a single precision tensor to half precision rounds every element to the nearest half-precision number (ties to even) and keeps it in its place; converting back gives exactly that number; for every shape and tiling and every legal schedule, also when the half-precision tensor is reused or its source changes afterwards. Products of half-precision tensors converted this way follow the definition of the contraction. Tensors that differ in shape or tiling are refused, with nothing submitted or changed. The blocking forms return with the result in place.",
  ["inputs", "configurations", "schedules"],
  "all half-precision values and their rounding boundaries, all shapes and tilings within the bound, all schedules",
  "Half precision has task bodies for CUDA only, so that without a device no test executes any of it.",
  ["src/kernel/fp16_to_fp32/cpu.cc", "src/kernel/fp32_to_fp16/cpu.cc", "src/starpu/fp16_to_fp32.cc", "src/starpu/fp32_to_fp16.cc", "src/tile/fp16_to_fp32.cc", "src/tile/fp32_to_fp16.cc", "src/tensor/fp16_to_fp32.cc", "src/tensor/fp32_to_fp16.cc", "src/tensor/gemm.cc"],
  [("conversion kernels", "src/kernel/fp16_to_fp32, fp32_to_fp16"), ("tile loops and checks", "src/tensor/fp16_to_fp32.cc, fp32_to_fp16.cc")])

p("C24", "The runtime starts, pauses, resumes and stops exactly as asked, in any sequence",
  "A configuration object starts the runtime with the number of workers it names and stops it exactly once, at its explicit shutdown or when it goes away, whichever is first. Any sequence of creating, shutting down (also repeatedly) and destroying configurations, of registering codelets again, of pausing and resuming, waiting, submitting and reading leaves the runtime running exactly while a configuration is in force, loses no submitted work, and allows a fresh start afterwards, in which every operation, layer, model, loss and optimizer works as in the first session.",
  ["histories", "configurations"],
  "all words up to the depth bound over two configurations with different numbers of workers, registration, submission, waiting, reading, pause and resume",
  "Every test creates one configuration and ends with the process; repeated shutdown, restart and pausing occur in no test.",
  ["include/nntile/starpu/config.hh", "include/nntile/starpu.hh", "wrappers/python/nntile/nntile_core.cc"],
  [("construction, shutdown, destruction", "include/nntile/starpu/config.hh Config"), ("pause, resume, wait_for_all, init", "wrappers/python/nntile/nntile_core.cc def_mod_starpu")])

p("C25", "Asynchronous calls only submit, blocking calls return when their work is done",
  "Every asynchronous operation on tensors and tiles, every asynchronous pass of a layer or model, loss evaluation, optimizer step and clearing of gradients returns without waiting for any unfinished task, so that it completes even while execution is paused, and the work takes effect after resuming exactly as if it had not been paused. Every blocking form, and waiting for all, returns only when no task submitted before is unfinished.",
  ["schedules", "histories", "configurations"],
  "every operation in every calling form over a spread of shapes, tilings and scalars, and bounded histories of layers, models, losses and optimizers, called while nothing executes and tasks are pending, with exploration of task orders after resuming",
  "Tests never pause execution and wait right after every call, so an accidental wait inside an asynchronous call, or a missing one in a blocking call, changes no test result.",
  ["src/tensor/*.cc", "src/tile/*.cc", "wrappers/python/nntile/nntile_core.cc", "wrappers/python/nntile/layer/*.py", "wrappers/python/nntile/optimizer/*.py", "wrappers/python/nntile/loss/*.py", "wrappers/python/nntile/model/*.py"],
  [("asynchronous and blocking forms", "src/tensor/*.cc *_async and blocking wrappers"), ("wait_for_all", "wrappers/python/nntile/nntile_core.cc")])

p("C26", "Random initialisation of layers and models fills every parameter, deterministically",
  "The random initialisation of a layer fills each of its parameters, bias included, with the values that the random fill of the library gives for the fixed seed, zero mean and deviation one over the square root of the number of elements, and nothing else; a model's initialisation does this for every linear layer it consists of. The result depends neither on the tiling, nor on the previous content, nor on the other work submitted before or after, and passes submitted afterwards use the new values.",
  ["configurations", "histories", "schedules"],
  "every layer and model with an initialisation, all tilings of the bounded configurations, words of passes around it, with exploration of task orders",
  "No test calls the initialisation of a layer and looks at the result for another tiling, or in the middle of a history; a parameter that is left out keeps plausible numbers.",
  ["wrappers/python/nntile/layer/*.py", "wrappers/python/nntile/model/*.py", "src/tensor/randn.cc", "src/kernel/randn/cpu.cc"],
  [("init_randn_async of layers and models", "wrappers/python/nntile/layer/*.py, wrappers/python/nntile/model/base_model.py")])

p("C27", "Sums, norms and normalisation stay accurate for any magnitude and length",
  "Norms, hypotenuses, normalisation of slices, layer normalisation and the moments of the fused optimizers give the result rounded to working precision for finite arguments of any magnitude, zero and subnormal ones included, whenever that result is representable: squares of large or small arguments neither overflow nor vanish, and slices that are zero, constant or tiny give finite normalised values when the regularisation is positive. Sums over slices and fibers, sums of products over slices, total sums and sums of exponents are compensated: within a tile their error stays a few units of precision of the sum of magnitudes however many elements are added.",
  ["inputs", "configurations", "schedules"],
  "every assignment of boundary magnitudes to short axes with every prior content, tiling and reduction mode, and structured long axes of up to 70001 (10^6 in the thorough tier) elements",
  "Tests use a few moderate random values of short axes, for which squaring, plain summation and a division by a zero norm go unnoticed.",
  ["src/kernel/norm_slice/cpu.cc", "src/kernel/sumnorm/cpu.cc", "src/kernel/normalize/cpu.cc", "src/kernel/hypot/cpu.cc", "src/kernel/sum_slice/cpu.cc", "src/kernel/sum_fiber/cpu.cc", "src/kernel/sumprod_slice/cpu.cc", "src/kernel/total_sum_accum/cpu.cc", "src/kernel/maxsumexp/cpu.cc", "src/kernel/adam_step/cpu.cc", "src/kernel/adamw_step/cpu.cc", "wrappers/python/nntile/layer/layer_norm.py"],
  [("scaled norms and compensated sums", "src/kernel/{norm_slice,sumnorm,sum_slice,sum_fiber,sumprod_slice,total_sum_accum}/cpu.cc"), ("root of the second moment", "src/kernel/adam_step/cpu.cc")])

p("C28", "Whatever the runtime refuses is reported and can be recovered from",
  "When the runtime refuses a request of a call (to submit a task or a copy, to give access to data, to start), the call raises an error instead of returning as if its work had been done. Work submitted before still completes and nothing hangs, operands that the call only reads keep their content, data allocated internally by the call is given back, and once the cause is gone the same call repeated from the same contents gives the right result. This holds for every operation, every pass of a layer, model, loss or optimizer, every transfer to or from an array and the creation of a configuration, whichever of its requests is refused.",
  ["faults", "schedules", "inputs"],
  "every request of every call refused in turn, alone and with all later ones",
  "Tests never make the runtime refuse anything: the error branches after submissions are never executed by them.",
  ["src/starpu/gemm.cc.in", "src/starpu/subcopy.cc", "src/tensor/copy_intersection.cc", "src/tile/copy.cc", "include/nntile/starpu/config.hh", "wrappers/python/nntile/nntile_core.cc"],
  [("checks of submissions", "src/starpu/*.cc: if(ret != 0) throw"), ("access to data", "include/nntile/starpu/config.hh: HandleLocalData::acquire"), ("start", "include/nntile/starpu/config.hh: Config::Config")])

p("C29", "Models imported from and exported to PyTorch keep every parameter in its place",
  "Importing a PyTorch model takes every element of every of its parameters to exactly one place of the NNTile model, the one where it has the same role, so the imported model computes the function of the original for any parameter values (nonzero biases included); export takes each element back to where it came from. Through any sequence of imports, exports, forward passes and changes of the parameters of either model, for any tiling, number of heads and layers, the two models never share memory, import leaves the PyTorch model as it was, export leaves the NNTile model as it was, and releasing imported models leaves nothing behind.",
  ["configurations", "histories", "inputs"],
  "all bounded models (DeepReLU, MLP mixer, GPT-2 and its MLP) with all words of up to five actions over import, change, export and forward",
  "Tests import freshly initialised models, whose biases are all zero, once, and compare one output; exports are not compared element by element.",
  ["wrappers/python/nntile/model/gpt2.py", "wrappers/python/nntile/model/mlp_mixer.py", "wrappers/python/nntile/model/deep_relu.py"],
  [("from_torch and to_torch", "wrappers/python/nntile/model/{gpt2,mlp_mixer,deep_relu}.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
