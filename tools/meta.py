"""Regenerates properties.jsonl and MANIFEST.json (the single place where titles, statements and anchors are edited)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT, UT = "singd/optim/optimizer.py", "singd/optim/utils.py"
ST = "singd/structures/"
SUITE = "test/optim compares a handful of small fixed networks, seeds, batch sizes and hyper-parameter values"
SSUITE = "test/structures samples a few seeds and dimensions (10, 5, 3) per structure"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note="", state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), note=note,
                  state=list(state)))


def m(name, where):
    return dict(name=name, where=where)


prop("P01", "Parameter update follows the documented structured natural-gradient rule",
     "In every step that is not skipped, each trained Linear/Conv2d parameter changes by exactly minus lr times its update direction, which is the natural "
     "gradient plus weight_decay times the parameter's value before the step, passed (if momentum is non-zero) through a momentum buffer that becomes "
     "momentum * old buffer + direction. "
     "The natural gradient is C C^T G K K^T, where G is the layer's loss gradient in matrix form (convolution kernels flattened per output channel, the bias "
     "as last column, divided by the gradient scale in use) and K, C are the layer's pre-conditioner factors after this step's pre-conditioner update. "
     "The result is written to weight and bias in their own shapes and holds with and without bias, for the first and all later steps, "
     "and whatever order or number of layers the model has.",
     ["inputs", "histories", "configurations"],
     "All layer sizes, gradients, factor values, momentum buffers, hyper-parameter values (including zero momentum / weight decay) and step counts.",
     SUITE + "; zero momentum, re-ordered layers, non-default hyper-parameters late in training and their combinations are not sampled.",
     [OPT], [m("natural gradient", OPT + ": _compute_natural_gradient"), m("update loop", OPT + ": _step")],
     ["parameter tensors and momentum buffers after step()"])
prop("P02", "Pre-conditioner update follows the documented rule",
     "In a step at which the pre-conditioner is updated, with normalised statistics H_K, H_C accumulated for the step, both factors' momenta become "
     "alpha1 * old momentum + one half of the documented Riemannian direction (built from Tr(H) weights, damping times Tr(C^T C) or Tr(K^T K), and the identity; "
     "the factors' own damping-free weights with kfac_like), and each factor becomes factor @ (identity - effective lr_cov * new momentum). "
     "The effective lr_cov is the given number, the value of the given schedule at the current step, or with normalize_lr_cov at most that divided by the larger of one and the momentum's norm as documented. "
     "The same holds on the first update and on every later one.",
     ["inputs", "histories", "configurations"],
     "All dimensions, statistics, factor and momentum values, damping, alpha1, lr_cov (number or schedule), kfac_like and normalize_lr_cov settings.",
     SUITE + "; a wrong coefficient that only matters for unequal dimensions, non-zero damping with trace terms, or later steps can pass.",
     [OPT], [m("pre-conditioner update", OPT + ": _update_preconditioner")], ["factors and momenta after step()"])
P.pop()
prop("P02", "Pre-conditioner update follows the documented rule",
     "When the pre-conditioner of a layer is updated, the direction for K is half of t(H_C) H_K + damping t(C^T C) K^T K - I and the one for C half of "
     "t(H_K) H_C + damping t(K^T K) C^T C - I, where t is the average of the diagonal (replaced by 1 everywhere with kfac_like), H_K, H_C are the step's accumulated statistics without gradient "
     "scale and all old factors enter in their chosen structure. "
     "With alpha1 non-zero, alpha1 times the previous momentum is added (and with normalize_lr_cov the direction is first weighted with 1 - alpha1) and the sum is the new momentum; "
     "then each factor becomes factor - b * factor @ (that sum), both using only the other factor's old value. "
     "Here b is lr_cov, or the value of the given schedule at the current step number, divided with normalize_lr_cov by max(1, largest absolute entry of the sum); it holds at the first and every later update.",
     ["inputs", "histories", "configurations"],
     "All dimensions, statistics, factor and momentum values, damping, alpha1, lr_cov (number or schedule), kfac_like and normalize_lr_cov settings.",
     SUITE + "; a wrong coefficient that only matters for unequal dimensions, non-zero damping with trace terms, or later steps can pass.",
     [OPT], [m("pre-conditioner update", OPT + ": _update_preconditioner")], ["factors and momenta after step()"])
prop("P03", "Input-side statistics equal the KFAC definition for every layer geometry",
     "For each supported layer and mini-batch the input statistics added for K equal the K-structured part of K^T A^T A K, where the rows of A are the layer's inputs "
     "(convolution inputs unfolded to patches for every stride, padding incl. 'same'/'valid', dilation and group count, patches averaged over groups; a column of ones appended if there is a bias). "
     "With 'expand' A has one row per sample and shared position and A^T A is divided by their number; with 'reduce' the rows are averaged over all shared positions of a sample and divided by the batch size only, "
     "for any number of shared dimensions including none.",
     ["inputs", "configurations"],
     "All batch, sequence, image, channel and kernel sizes, strides, paddings, dilations, groups, numbers of shared dimensions, loss averages and structures; zero padding; input entries symbolic.",
     "test/optim/test_utils.py checks some fixed convolution geometries and one shared axis.",
     [UT, OPT], [m("input processing", UT + ": process_input, conv2d_process_input, linear_process_input"), m("accumulation", OPT + ": _accumulate_H_terms")])
prop("P04", "Gradient-side statistics equal the KFAC definition and undo the loss average",
     "For each supported layer and mini-batch the statistics added for C equal the C-structured part of C^T B^T B C where the rows of B are gradients of the loss with respect to the layer's output, "
     "one per sample and shared position with 'expand' and summed over all shared positions of a sample with 'reduce'. "
     "To undo the averaging of the loss, the statistics are multiplied by the batch size for 'batch', by batch size times number of shared positions for 'batch+sequence', and by one for a summed loss (None). "
     "This holds for linear layers with any number of shared dimensions and for convolutions.",
     ["inputs", "configurations"],
     "All batch, sequence, image and channel sizes, numbers of shared dimensions, loss averages, approximations and structures.",
     "test/optim/test_utils.py checks a few fixed shapes.",
     [UT, OPT], [m("gradient processing", UT + ": process_grad_output, conv2d_process_grad_output, linear_process_grad_output"), m("accumulation", OPT + ": _accumulate_H_terms")])
prop("P05", "Training with a gradient scale equals training without it",
     "If each step's gradients are multiplied by that step's scale, told to the optimizer by a gradient scaler or by setting the current scale before step(), then parameters, momentum buffers, pre-conditioner factors "
     "and their momenta after the step are exactly (in real arithmetic) those of unscaled training. "
     "This holds for any scales, changing from step to step, for any initial scale guess, and wherever in the update frequency's cycle the step lies.",
     ["inputs", "histories", "configurations"],
     "All scale sequences, initial scales, states and step counters; default update, thorough tier also kfac_like and normalize_lr_cov; the accumulation of several backward passes of one step under the same scale.",
     "test/optim/test_grad_scaler.py runs a few steps with one scaler and fixed scales.",
     [OPT], [m("scale book-keeping", OPT + ": set_current_grad_scale, _get_grad_scale, _remove_used_grad_scales, step"), m("un-scaling", OPT + ": _accumulate_H_terms, _update_preconditioner, _compute_natural_gradient")],
     state=[dict(name="_grad_scales", meaning="scales of the previous and current step", where=OPT)])
prop("P06", "A step with infinite gradients changes nothing but the step count",
     "If a gradient scaler reports infs, step() warns and leaves all parameters, momentum buffers, pre-conditioner factors and their momenta unchanged, drops the statistics gathered for that step, and still advances the step count "
     "and keeps the scale needed by the next step. "
     "A warning is issued every time, the user's global warning filters stay as they were, and training continues afterwards as if the skipped mini-batch's data had never been seen.",
     ["fault_sequences", "histories", "inputs"],
     "Overflow at every kind of step (at or off the update frequency, first or later), all values of state, scale and statistics, and the step that follows.",
     "test/optim/test_grad_scaler.py provokes one overflow on a small net.",
     [OPT], [m("skip branch", OPT + ": step")])
prop("P07", "Statistics are gathered and consumed exactly once per scheduled step",
     "Statistics are gathered exactly in the steps whose number is a multiple of the layer's T, for every backward pass run before step() (contributions of several passes add up), and step() consumes them entirely at exactly these steps. "
     "At other steps factors and momenta stay unchanged and nothing is gathered. "
     "No statistics of one step influence a later step, and step() increases the step count by one.",
     ["schedules", "histories", "inputs"],
     "All T (also different per group), all step counts, one to three backward passes, all layers, first and later steps.",
     "Existing tests use T = 1 or one small T for a few steps.",
     [OPT], [m("gate of the hooks", OPT + ": _register_tensor_hook_on_output_to_accumulate_H_terms"), m("gate of the update", OPT + ": _update_preconditioner"), m("accumulators", OPT + ": _accumulate_H_terms")])
prop("P08", "The optimizer only observes forward and backward passes",
     "Installing the optimizer and running forward or backward passes never changes layer inputs, outputs, output gradients, parameters, parameter gradients, buffers or the caller's warning filters. "
     "Forward passes without gradients, and forward passes that are never followed by a backward pass, leave the optimizer's state as it was. "
     "step() writes nothing to the gradients or to any tensor of the user's except the trained parameters.",
     ["programs", "schedules", "inputs"],
     "All inputs, gradients and states; forward with gradients disabled, forward without backward, several passes.",
     "The tests compare final parameters only.",
     [OPT, UT], [m("hooks", OPT + ": _register_tensor_hook_on_output_to_accumulate_H_terms, _accumulate_H_terms"), m("processing", UT), m("natural gradient", OPT + ": _compute_natural_gradient")])
prop("P09", "Only the passed, supported parameters are trained",
     "Without explicit parameters exactly the parameters of Linear and Conv2d layers are trained and, if requested, a warning names every other parameter of the model; with explicit parameters (list, generator or groups) exactly those are trained, each with the options of its own group. "
     "Parameters of other layers or not passed are never modified and get no pre-conditioner or optimizer state. "
     "This holds for every model composition, including nested modules and layers of which only the weight is passed.",
     ["programs", "configurations", "inputs"],
     "All layer sizes, states and hyper-parameter values of a model mixing supported and other layers, nested modules, and five ways of passing parameters.",
     "Tests build two or three concrete models.",
     [OPT], [m("selection", OPT + ": _get_trainable_parameters, _install_hooks, _check_param_groups, _step")])
prop("P10", "Hyper-parameters are read per group at the time they are used",
     "Each layer is treated with the options of the parameter group that holds its parameters, whatever other groups say. "
     "Changing lr, momentum, weight_decay, damping, lr_cov, T, alpha1 (from a non-zero value), loss_average, kfac_approx, kfac_like or normalize_lr_cov in a group between iterations (as learning-rate schedulers do) takes effect from then on for this group's layers and for no other.",
     ["configurations", "histories"],
     "All values of the per-group options before and after the change, two groups, at every step count.",
     "Tests use constant options with one or two groups; no scheduler test covers all options.",
     [OPT], [m("lookup", OPT + ": _get_param_group_entry")])
prop("P11", "Restoring a checkpoint resumes training exactly; loading has no side effects",
     "A newly constructed optimizer of a model with the same structure that loads the saved state continues exactly as the original would have: every later update of parameters, factors and momenta is the same, "
     "for checkpoints taken between iterations, between backward passes and step(), and before or after any number of steps. "
     "Loading does not change the dictionary given to it (it can be loaded again), and saving does not change the optimizer.",
     ["crash_points", "histories"],
     "Checkpoint after any number of steps (any state), between steps or with statistics already gathered; all option values; following iteration compared.",
     "test/optim/test_checkpoint.py compares one run at one point.",
     [OPT], [m("saved attributes", OPT + ": STATE_ATTRIBUTES, state_dict, load_state_dict")])
prop("P12", "Distributed: same collectives on every process, correct reductions",
     "With torch.distributed initialised, all processes run the same sequence of all-reduces with the same operation and shapes, whatever their local data, in every mode and at every step. "
     "Input statistics are averaged over processes; gradient statistics and natural gradients are averaged when the loss is a mean and summed when it is a sum, each exactly once before use, so that every process ends with the same parameters and factors. "
     "No tensor is used before its reduction has finished.",
     ["schedules", "inputs", "configurations"],
     "All local data of the processes, all states and options, overflow flags, several backward passes.",
     "The distributed tests need several processes and compare one seed on two processes.",
     [OPT, ST + "base.py"], [m("reductions", OPT + ": _accumulate_H_terms, _compute_natural_gradient"), m("structure reduction", ST + "base.py: StructuredMatrix.all_reduce")])
prop("P13", "Invalid configurations are rejected when the optimizer is constructed",
     "Constructing the optimizer raises ValueError for a negative (int or float) lr, lr_cov, alpha1, momentum or weight_decay, for an unknown kfac_approx or loss_average given globally or in any group, and when one layer's parameters are spread over several groups, "
     "and TypeError for models wrapped in DataParallel or DistributedDataParallel; valid values of these options are accepted. "
     "kfac_like together with non-zero alpha1 warns and turns alpha1 to zero for that group; a closure given to step() raises NotImplementedError before anything changes.",
     ["configurations"],
     "All negative values of each number (symbolic), invalid option values at each place they can be given.",
     "Tests try a few concrete invalid values.",
     [OPT], [m("validation", OPT + ": __init__, _check_param_groups, step")])
prop("P14", "Every documented structure and layer option is dispatched to its own class",
     "For each documented structure name, given globally or per group and for either factor, the factors and momenta are created in that structure (documented pattern of entries) with the dimensions of the layer: number of inputs per output (plus one for a bias) for K, number of outputs for C, "
     "starting at the identity for the factors and zero for momenta, and they keep this structure over updates. "
     "Unknown names are rejected at construction.",
     ["configurations"],
     "Every documented name at either side, globally or per group, symbolic layer sizes of linear and convolutional layers.",
     "The suite runs some combinations on one architecture.",
     [OPT], [m("dispatch", OPT + ": SUPPORTED_STRUCTURES, _initialize_buffers, preconditioner_dims")])
prop("P15", "State and updates keep the requested data types and devices",
     "Factors, their momenta and gathered statistics always have the requested pre-conditioner data type (or the weight's own type where none is requested) and live on the weight's device, from construction and after any number of updates; "
     "trained parameters and their momentum buffers keep their type and device. "
     "No operation mixes data types or devices in a way that raises an error, whatever mixture of parameter, activation and pre-conditioner types is used (such as autocast's half-precision activations).",
     ["configurations", "histories"],
     "Eight combinations of weight, pre-conditioner and activation types on a GPU device, with momentum / kfac_like / normalisation / convolution variants, over construction and two iterations plus generalised state.",
     "CPU-only tests exercise one or two types; CUDA-only paths are skipped in the suite.",
     [OPT, ST + "utils.py"], [m("type selection", OPT + ": _get_preconditioner_dtypes_and_device"), m("casts", OPT + ": _accumulate_H_terms, _compute_natural_gradient")])
prop("P16", "State stays bounded and never holds on to autograd graphs",
     "The set of tensors kept by the optimizer, and the number of hooks, is the same after every complete iteration from the second on: nothing accumulates over iterations, statistics and old gradient scales are released. "
     "No stored tensor and no updated parameter is attached to an autograd graph, even when the backward pass itself builds a graph, so no past iteration's activations stay alive. "
     "Each forward pass registers at most one hook per supported layer on that pass's output.",
     ["histories", "schedules"],
     "Any state after two iterations (generalised), any following iteration, backward with and without graph construction, one or two backward passes.",
     "Leaks do not change results; no test measures the state's size.",
     [OPT], [m("detaching", OPT + ": _accumulate_H_terms, _step"), m("release", OPT + ": _update_preconditioner (pop), _remove_used_grad_scales")])
prop("P17", "Training is inverse-free and structured factors are never turned dense",
     "No step or backward pass inverts, decomposes or solves with a matrix. "
     "For diagonal, block-diagonal and hierarchical factors (all operations) and triangular Toeplitz factors (all but extraction of inner products), no operation used in training creates a tensor whose size grows quadratically in the factor's dimension.",
     ["inputs", "configurations"],
     "All factor dimensions (symbolic), every operation the optimizer uses, all optimizer steps.",
     "Tests compare values, not sizes of intermediates or which kernels are called.",
     [OPT, ST + "diagonal.py", ST + "blockdiagonal.py", ST + "hierarchical.py", ST + "triltoeplitz.py", ST + "triutoeplitz.py"],
     [m("structured implementations", ST), m("updates", OPT + ": _update_preconditioner, _compute_natural_gradient")])

prop("S01", "Structured matrix products equal dense products",
     "For every structured matrix class, A @ B with B of the same class and A @ X with a dense matrix X equal the product of the dense representations, entry by entry, for every dimension (multiples of block sizes or not, smaller than blocks, one) and number of columns. "
     "The product of two matrices of one class is again of that class.",
     ["inputs"], "All dimensions, block counts, remainders, numbers of columns and entries; twelve shipped classes and seven user-defined instances of the templates.",
     SSUITE + ".", [ST], [m("products", ST + "*: __matmul__")])
prop("S02", "Transposed products and inner-product extraction equal the structured projection",
     "rmatmat(X) equals A^T X. "
     "from_inner(X), from_inner(), from_inner2(S) and from_mat_inner(X) equal the class's projection of A^T X X^T A, A^T A, A^T S A (symmetric S) and X X^T, where the projection is that of the class's own conversion from a dense symmetric matrix. "
     "This holds for all dimensions and numbers of columns.",
     ["inputs"], "All dimensions, block counts, remainders, columns and entries; shipped classes and user-defined template instances.",
     SSUITE + ".", [ST], [m("inner products", ST + "*: rmatmat, from_inner, from_inner2, from_mat_inner")])
prop("S03", "Structured sums, scalings, traces and norms equal the dense ones",
     "A + B, A * s, and the in-place mul_, add_ (with and without factor) and diag_add_ give the dense result in the same class; average_trace is the mean of the diagonal; "
     "frobenius_norm and infinity_vector_norm are the root of the sum of squares and the largest absolute value of all dense entries. "
     "This holds for all dimensions.",
     ["inputs"], "All dimensions, block counts, remainders, scalars and entries; shipped classes and user-defined template instances.",
     SSUITE + ".", [ST], [m("arithmetic", ST + "*: __add__, __mul__, mul_, add_, diag_add_, average_trace, frobenius_norm, infinity_vector_norm")])
prop("S04", "Conversion between dense and structured form follows the documented projection",
     "Converting a symmetric dense matrix keeps exactly the entries of the structure's pattern with documented weights: unchanged on diagonals and diagonal blocks, doubled in one-sided off-diagonal parts, and for triangular Toeplitz the mean of each diagonal, doubled off the main one. "
     "The dense form has zeros outside the pattern, and zeros(d), eye(d) are the zero and identity matrix of dimension d in each class.",
     ["inputs"], "All dimensions, block counts, remainders and entries; shipped classes and user-defined template instances.",
     SSUITE + ".", [ST], [m("conversion", ST + "*: from_dense, to_dense, zeros, eye")])
prop("S05", "In-place and out-of-place operations never corrupt operands",
     "Operations without trailing underscore never change their operands' values, and the matrices they return (conversions from/to a dense tensor aside) share no memory with operands, so a later in-place change of the result leaves the operands intact; no two entries of a result share memory. "
     "In-place operations change only their own matrix and return it.",
     ["inputs", "histories"], "Every operation of every class on all dimensions; results are updated in place afterwards.",
     "The suite mostly compares values of single calls and does not reuse operands after changing results.", [ST], [m("storage of results", ST + "*")])
prop("S06", "A structured matrix lists all its tensors and all-reduce reaches each of them",
     "The tensors listed by a structured matrix (including nested ones) are exactly those its dense form depends on, each once and under a unique name. "
     "After an all-reduce (average by default, or the given operation, in the given process group) the matrix holds the reduced value in every entry even if stored tensors are not contiguous; the asynchronous form returns handles for all reductions it started, after waiting for which the result is in place.",
     ["inputs", "schedules", "configurations"], "All classes, dimensions, contiguity patterns of stored tensors, operations, blocking and asynchronous.",
     "Distributed tests use contiguous tensors in one process group.", [ST + "base.py", ST + "recursive.py"], [m("registration", ST + "base.py: register_tensor, named_tensors, all_reduce"), m("nesting", ST + "recursive.py: register_substructure, named_tensors")])
prop("S07", "Structured operations keep data type and device of their operands",
     "All operations of all classes produce results of their operands' data type on their operands' device, and zeros and eye honour the requested ones, also in half precision and on non-default devices; no operation silently creates operands on the default device or in the default type.",
     ["configurations", "inputs"], "Every operation of every class in bfloat16 on a second GPU and float16 on the CPU (thorough: more), all dimensions.",
     "The suite runs on the CPU mostly in float32.", [ST], [m("creation of tensors", ST + "*: zeros, eye, to_dense")])
prop("S08", "Structured matrices reject inconsistent parts and partition dimensions correctly",
     "Constructing a block-diagonal, hierarchical or recursive matrix from parts succeeds if and only if the parts' shapes, dimensions and classes fit the documented partition, and raises ValueError otherwise; names of stored tensors cannot be registered twice; conversion of a non-square matrix raises an error in the partitioned classes. "
     "For every total dimension d, zeros, eye and from_dense partition the matrix into the documented parts.",
     ["inputs", "programs"], "All shapes of every part (symbolic), all dimensions.",
     "The suite tries few invalid shapes.", [ST + "blockdiagonal.py", ST + "hierarchical.py", ST + "recursive.py", ST + "base.py"], [m("validation", ST + "*: __init__, register_tensor"), m("partition", ST + "hierarchical.py: _compute_block_dims; recursive.py: _get_boundary; blockdiagonal.py: zeros, from_dense")])
prop("S09", "Naive dense fallbacks are announced by name and can be silenced",
     "For a user-defined structured matrix class that implements only the required conversions, each inherited dense fallback of a product, sum, scaling, trace, norm, extraction, zeros and eye issues a warning naming the class and that operation. "
     "No warning appears for operations the class has excepted or if the class switches the warnings off, and none during the operations the shipped training structures use.",
     ["programs", "configurations"], "Every inherited operation for classes with warnings on, off or excepted; the six structures of the optimizer.",
     "No test checks the warning texts of every operation.", [ST + "base.py"], [m("announcement", ST + "base.py: _warn_naive_implementation")])
prop("S10", "Structure helper functions are correct for all arguments",
     "The sums along all diagonals of an n x m matrix, the product of a Toeplitz matrix given by its coefficients with a matrix, the identity in any data type and device, and the addition of a scalar to a square matrix's diagonal equal their dense definitions for all sizes and do not change other arguments. "
     "Mismatching dimensions raise RuntimeError (Toeplitz product) or ValueError (diagonal addition). "
     "The lowest of several precisions is the smallest of float16 < bfloat16 < float32 in any order of arguments; other types raise NotImplementedError.",
     ["inputs"], "All sizes n, m and entries; all lists of up to three of the supported data types.",
     SSUITE + ".", [ST + "utils.py"], [m("helpers", ST + "utils.py")])

NA = [
    ("N01", "Numerical stability in low precision",
     "Training with half-precision pre-conditioners stays finite and does not diverge where single precision does not.",
     ["inputs", "histories"], "All data, precisions and step counts.",
     "Bounds on rounding errors and on the trajectory of the factors are runtime quantities: no sound static argument in reach bounds the factors' norm over arbitrary data and step counts."),
    ("N02", "Agreement with KFAC within the theorem's error",
     "The kfac_like update stays within O(lr_cov^2) of the KFAC pre-conditioner over training.",
     ["inputs", "histories"], "All data and learning rates.",
     "A quantitative statement about inverses over whole trajectories; the static domain is purely algebraic and has no notion of approximation error (the per-step rule it is derived from is P02)."),
    ("N03", "Run time and memory cost relative to first-order optimizers",
     "A training step costs only a small multiple of the time and memory of a first-order step.",
     ["inputs", "configurations"], "All models.",
     "Run time is a measurement; the part with a static counterpart (no inverse, no quadratic intermediates, no growth of state) is claimed as P16 and P17."),
]

PROPERTIES = [dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                   anchors=dict(files=p["files"], mechanism=p["mech"], **({"state": p["state"]} if p["state"] else {}),
                                **({"observe_at": p["observe"]} if p["observe"] else {}), hook_needed=None)) for p in P]
for id, title, st, over, text, why in NA:
    PROPERTIES.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant="Out of reach of tests and of this technique: " + why,
                           anchors=dict(files=[OPT], mechanism=[m("optimizer", OPT)])))

TECH = {"P": "interprocedural abstract interpretation of the source (algebraic value numbering, alias/effect/typestate domains, inductive state invariant)",
        "S": "abstract interpretation of the structure classes with symbolic dimensions (algebraic normal forms, alias/effect domain)"}
SPECIAL = {
    "P12": "abstract interpretation with collective-matching analysis (sequence of all-reduces per partition, taint of rank-local data on the deciding conditions)",
    "P13": "abstract interpretation of the constructor with interval facts on symbolic arguments (exception/effect analysis)",
    "P15": "abstract interpretation with a data type / device lattice", "P16": "abstract interpretation with an autograd-attachment and state-shape domain",
    "P17": "effect analysis (forbidden kernels) and allocation-size degree analysis over symbolic dimensions",
    "S06": "abstract interpretation with collective typestate (started / waited / written back)", "S07": "abstract interpretation with a data type / device lattice",
    "S08": "abstract interpretation of constructors with linear facts on symbolic shapes", "S09": "effect analysis of warnings on every inherited operation",
}
NOTE = ("Every obligation is decided from the source in /repo on each run, for all symbolic sizes and values within the listed scenarios; not a mechanised proof. "
        "Trusted: the analyzer and its models of PyTorch, einops, einconv and Python builtins; real arithmetic. Code that the analyzer cannot decide ends the check with exit code 2 (no verdict).")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPERTIES:
            fh.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="python3 -m compileall -q singdlint >/dev/null 2>&1 || true",
               checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
                            technique="static analysis: " + SPECIAL.get(p["id"], TECH[p["id"][0]]), level="other",
                            level_note=(p["note"] + " " if p["note"] else "") + NOTE) for p in P],
               not_applicable=[dict(property=x[0], reason=x[5]) for x in NA],
               notes="Findings: known_findings.txt. Analyzer: singdlint/. Both files are generated by tools/meta.py.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
