"""Property table: which scenarios and rules decide which property."""
from fractions import Fraction

from . import structs
from .torchmodel import TorchModel

PROPS = {}
ALL = []


def prop(pid, jobs, rules, text):
    PROPS[pid] = dict(jobs=jobs, rules=set(rules), text=text)
    ALL.append(pid)


def resolve(kind, name, kw):
    """-> (scenario function, model factory, partition limit)"""
    if kind == "struct":
        return structs.op_scenario(name, **kw), None, 4000
    if kind == "extra":
        return structs.extra(name, **kw), None, 4000
    if kind == "memory":
        return structs.op_memory(name, **kw), None, 4000
    if kind == "structs":
        f = getattr(structs, "S_" + name)
        return (lambda i: f(i, **kw)), None, 4000
    if kind == "opt":
        from . import optim, scenarios

        f = getattr(scenarios, "S_" + name, None) or getattr(optim, "S_" + name)

        def go(i):
            f(i, **kw)

        return go, optim.model, 4000
    raise KeyError(kind)


def jobs(pid, tier):
    p = PROPS[pid]
    js = p["jobs"]
    if callable(js):
        js = js(tier)
    out = []
    for kind, name, kw in js:
        key = f"{kind}:{name}(" + ",".join(f"{k}={v}" for k, v in kw.items()) + ")"
        out.append((key, kind, name, kw))
    return out, lambda key: p["rules"]


# fewer discharged obligations than this mean that the scenarios became vacuous (about a third of the number on the pinned tree)
MINIMUM = {
    "P01": {"P01": 111},
    "P02": {"P02": 116},
    "P03": {"P03": 16},
    "P04": {"P04": 16},
    "P05": {"P01": 1036, "P02": 384},
    "P06": {"P06": 1795},
    "P07": {"P02": 33, "P07": 67},
    "P08": {"P08": 314},
    "P09": {"P09": 81},
    "P10": {"P01": 155, "P10": 16, "P07": 86, "P02": 57},
    "P11": {"P11": 468},
    "P12": {"P01": 194, "P12": 31, "P02": 57},
    "P13": {"P13": 20},
    "P14": {"P14": 112},
    "P15": {"P15": 362},
    "P16": {"P16": 408},
    "P17": {"P17": 440},
    "S01": {"S01": 35},
    "S02": {"S02": 105},
    "S03": {"S03": 128},
    "S04": {"S04": 81},
    "S05": {"S05": 1344},
    "S06": {"S06": 7925},
    "S07": {"S07": 1110},
    "S08": {"S04": 23, "S08": 96},
    "S09": {"S09": 71},
    "S10": {"S10": 21},
}


def minimum(pid):
    return MINIMUM.get(pid, {})


def explanation(pid):
    return PROPS[pid]["text"]


ASSUMPTIONS = [
    "Scalars are exact reals; floating-point rounding is outside the analysis.",
    "The library models in singdlint (torchops.py, torchmodel.py, nnmodel.py, pylib.py) describe PyTorch, einops, einconv and "
    "the Python builtins used by the package.",
]


EVERY = [*structs.FAMILIES, *structs.USER_FAMILIES]


def S(ops, fams=None, **kw):
    return [("struct", f, dict(op=o, **kw)) for f in (fams or EVERY) for o in ops]


def O(name, /, **kw):
    return ("opt", name, kw)


S_TEXT = ("Abstract interpretation of the structured-matrix classes over every dimension, cut position and operand "
          "(dimensions, block counts and entries are symbolic): each partition of each operation yields an algebraic normal form "
          "of the result that is compared with the specified dense expression; mutations and storage sharing are tracked by an "
          "alias/effect domain.")
prop("S01", S(["matmul_structured", "matmul_matrix"]), {"S01"}, S_TEXT)
prop("S02", S(["rmatmat", "from_inner", "from_inner_X", "from_mat_inner", "from_inner2"]), {"S02"}, S_TEXT)
prop("S03", S(["add", "mul", "mul_", "add_", "diag_add_", "average_trace", "infinity_vector_norm", "frobenius_norm"]),
     {"S03"}, S_TEXT)
prop("S04", S(["zeros", "eye", "from_dense", "to_dense"]), {"S04"}, S_TEXT)
prop("S05", S(list(structs.OPS)), {"S05"}, S_TEXT)


def s06(tier):
    js = [("extra", n, dict(op="named")) for n in EVERY]
    for n in EVERY:
        for asy in (False, True):
            for contig in (False, True):
                js += [("extra", n, dict(op="all_reduce", red=r, asy=asy, contig=contig)) for r in ("default", "SUM")]
    return js


def s07(tier):
    js = []
    for dt, dev in (("bfloat16", "cuda:1"), ("float16", "cpu")) + ((("float64", "cuda:0"), ("bfloat16", "cpu")) if tier == "thorough" else ()):
        js += S(list(structs.OPS), dtype=dt, device=dev)
    return js


def s08(tier):
    js = []
    for n in EVERY:
        fam = {**structs.FAMILIES, **structs.USER_FAMILIES}[n]
        cases = {"block": ["ndim", "blocks", "last"], "hier": ["ndim", "dims", "A", "B", "D", "E"], "rec": ["size", "B", "cls"]}.get(fam[0], [])
        js += [("structs", "validate", dict(name=n, case=c)) for c in cases]
        js += [("structs", "duplicate", dict(name=n))]
        if fam[0] in ("hier", "rec"):
            js.append(("structs", "square", dict(name=n)))
        if fam[0] in ("block", "hier", "rec"):
            js += [("extra", n, dict(op="partition", how=h)) for h in ("zeros", "eye", "from_dense")]
    return js + S(["zeros"])


OWN = ("DenseMatrix", "DiagonalMatrix", "Block30DiagonalMatrix", "Hierarchical15_15Matrix", "TrilToeplitzMatrix", "TriuToeplitzMatrix")


def s09(tier):
    js = [("structs", "naive", dict(name=n, op=o)) for n in structs.PROBES for o in structs.NAIVE]
    for o, n in structs.NAIVE.items():
        js += [("structs", "naive", dict(name=f"User{w}_{n.strip('_')}_Matrix", op=o)) for w in ("Only", "AllBut")]
    js += [("structs", "silent", dict(name=n, op=o)) for n in OWN for o in (
        "matmul_structured", "matmul_matrix", "rmatmat", "from_inner", "from_inner_X", "add_", "mul_", "diag_add_", "average_trace", "zeros", "eye",
        "infinity_vector_norm")]
    return js


UTILS = (("all_traces", ""), ("toeplitz_matmul", "ok"), ("toeplitz_matmul", "bad"), ("toeplitz_matmul", "even"), ("diag_add_", "square"), ("diag_add_", "other"),
         ("supported_eye", ""), ("lowest_precision", ""), ("is_half_precision", ""))
prop("S06", s06, {"S06"}, S_TEXT)
prop("S07", s07, {"S07"}, S_TEXT)
prop("S08", s08, {"S08", "S04"}, S_TEXT)
prop("S09", s09, {"S09"}, S_TEXT)
prop("S10", [("structs", "util", dict(name=n, case=c)) for n, c in UTILS], {"S10"}, S_TEXT)

O_TEXT = ("Abstract interpretation of the optimizer over a symbolic model: layer sizes, inputs, gradients, hyper-parameters, the "
          "iteration counter and the complete optimizer state are arbitrary (after two iterations from construction the state is "
          "generalised and shown invariant, which is the induction step over the history). Every partition of every scenario yields "
          "normal forms of the new state that are compared with the documented update. ")
STD = ["none", "scaler", "manual"]


def p01(tier):
    js = [O("natgrad"), O("natgrad", conv=True), O("order"), O("early", steps=2)]
    if tier == "thorough":
        js += [O("order", conv=True), O("early", steps=3), O("natgrad", avg=None), O("natgrad", avg="batch+sequence"), O("precond")]
    return js


def p02(tier):
    js = [O("precond"), O("precond", normalize=True), O("precond", kfac_like=True), O("precond", alpha=False),
          O("precond", sched=True), O("early", steps=2)]
    if tier == "thorough":
        js += [O("precond", kfac_like=True, normalize=True), O("precond", alpha=False, normalize=True), O("early", steps=3),
               O("early", steps=3, alpha=False), O("precond", batches=2), O("precond", avg=None), O("precond", avg="batch+sequence"),
               O("order"), O("order", conv=True)]
    return js


def stats(tier):
    js = []
    for approx in ("expand", "reduce"):
        for avg in (None, "batch", "batch+sequence"):
            for share in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                js.append(O("stats", kind="linear", share=share, approx=approx, avg=avg))
            js.append(O("stats", kind="linear", share=1, approx=approx, avg=avg, bias=False))
            js.append(O("stats", kind="conv", approx=approx, avg=avg))
            js.append(O("stats", kind="conv", approx=approx, avg=avg, bias=False))
            for pad in ("same", "valid"):
                js.append(O("stats", kind="conv", approx=approx, avg=avg, padding=pad))
    from .scenarios import DOCUMENTED

    for n in DOCUMENTED:
        js.append(O("stats", kind="linear", share=1, structures=(n, n)))
        if tier == "thorough":
            js += [O("stats", kind="conv", structures=(n, n)), O("stats", kind="conv", structures=(n, n), approx="reduce")]
    return js


def p05(tier):
    js = [O("natgrad", scale=s) for s in STD[1:]] + [O("precond", scale=s) for s in STD[1:]] + [O("order", scale=s) for s in STD[1:]]
    js += [O("precond", scale="early"), O("natgrad", scale="early")]
    if tier == "thorough":
        js += [O("precond", scale="scaler", kfac_like=True), O("precond", scale="scaler", normalize=True), O("precond", scale="manual", batches=2),
               O("natgrad", scale="scaler", conv=True), O("order", scale="scaler", conv=True)]
    return js


def p06(tier):
    return [O("inf", scale=s) for s in STD]


def p07(tier):
    js = [O("early", steps=3), O("precond", batches=2), O("natgrad"), O("modes", case="nograd")]
    if tier == "thorough":
        js += [O("early", steps=4), O("early", steps=3, alpha=False), O("precond", batches=3), O("precond", batches=2, kfac_like=True),
               O("modes", case="nobackward"), O("order")]
    return js


def p08(tier):
    js = [O("modes", case="nograd"), O("modes", case="nobackward"), O("natgrad"), O("order", conv=True, two=False), O("natgrad", scale="manual")]
    if tier == "thorough":
        js += [O("precond"), O("precond", batches=2), O("inf", scale="scaler")]
    return js


def p09(tier):
    js = [O("params", case=c) for c in ("none", "list", "generator", "weights", "groups")] + [O("params", case="none", warn=False)]
    return js


def p10(tier):
    js = [O("flags", flag=f) for f in ("kfac_approx", "loss_average", "loss_average2", "normalize_lr_cov", "kfac_like")]
    js += [O("natgrad"), O("precond"), O("precond", sched=True)]
    if tier == "thorough":
        js += [O("precond", normalize=True), O("precond", kfac_like=True), O("order")]
    return js


def p11(tier):
    js = [O("ckpt", case=c) for c in ("rest", "pending", "accumulate")] + [O("ckpt", case="pending", scale="manual")]
    if tier == "thorough":
        js += [O("ckpt", case="rest", scale="scaler"), O("ckpt", case="rest", scale="manual"), O("ckpt", case="rest", kfac_like=True)]
    return js


def p12(tier):
    js = [O("coll"), O("coll", part="grads"), O("coll", found=True), O("coll", normalize=True), O("coll", alpha=Fraction(1, 2)), O("coll", kfac_like=True),
          O("coll", batches=2), O("coll", scale="manual"), O("natgrad", dist=True, avg=None), O("precond", dist=True), O("precond", dist=True, avg=None),
          O("natgrad", dist=True, avg="batch+sequence"), O("precond", dist=True, avg="batch+sequence")]
    if tier == "thorough":
        js += [O("precond", dist=True, batches=2), O("precond", dist=True, kfac_like=True), O("coll", scale="scaler", found=True),
               O("coll", normalize=True, found=True)]
    return js


def p13(tier):
    js = []
    for n in ("lr", "lr_cov", "alpha1", "momentum", "weight_decay"):
        for k in ("float", "int"):
            js.append(O("invalid", case="negative", name=n, kind=k))
    for where in ("ctor", 0, 1):
        for n, vs in (("kfac_approx", ["Expand", "expandreduce", "", "sum", None]), ("loss_average", ["sum", "mean", "batch+seq", "bat", ""])):
            for v in vs:
                js.append(O("invalid", case="option", name=n, value=v, where=where))
    js += [O("invalid", case="split", where=w) for w in (0, 1)]
    js += [O("invalid", case="wrapper", name=n) for n in ("DataParallel", "DistributedDataParallel")]
    js += [O("invalid", case="closure")] + [O("invalid", case="kfac_like", where=w) for w in ("ctor", "group")]
    for n, vs in (("kfac_approx", ["expand", "reduce"]), ("loss_average", [None, "batch", "batch+sequence"])):
        js += [O("invalid", case="valid", name=n, value=v) for v in vs]
    return js


def p14(tier):
    from .scenarios import DOCUMENTED

    js = []
    for n in DOCUMENTED:
        for where in ("ctor", "group"):
            js += [O("dispatch", K=n, C="dense", where=where), O("dispatch", K="dense", C=n, where=where)]
            if tier == "thorough":
                js += [O("dispatch", K=n, C=k, where=where) for k in DOCUMENTED if k != "dense"]
    for side in (0, 1):
        for where in ("ctor", "group"):
            js += [O("unknown", side=side, name=n, where=where) for n in ("bogus", "Dense", "", "diag")]
    return js


def p15(tier):
    js = []
    for wt, pre, inp in (("float32", (None, None), None), ("float32", ("bfloat16", "bfloat16"), None), ("float32", ("bfloat16", "float16"), "bfloat16"),
                         ("bfloat16", (None, None), None), ("bfloat16", ("float32", None), None), ("float32", (None, "float16"), "bfloat16"),
                         ("float16", ("float32", "float32"), None), ("float32", (None, None), "bfloat16")):
        js += [O("dtype", weight=wt, pre=pre, inp=inp), O("dtype", weight=wt, pre=pre, inp=inp, kfac_like=True, alpha=False),
               O("dtype", weight=wt, pre=pre, inp=inp, conv=True, normalize=True)]
        if tier == "thorough":
            js += [O("dtype", weight=wt, pre=pre, inp=inp, where="group"), O("dtype", weight=wt, pre=pre, inp=inp, scale="scaler")]
    js += [O("dtype", weight="float32", pre=("bfloat16", None), where="group"), O("dtype", weight="float32", pre=("bfloat16", "bfloat16"), scale="scaler"),
           O("dtype", weight="float32", pre=("bfloat16", "float32"), scale="manual")]
    return js


prop("P01", p01, {"P01"}, O_TEXT)
prop("P02", p02, {"P02"}, O_TEXT)
prop("P03", stats, {"P03"}, O_TEXT)
prop("P04", stats, {"P04"}, O_TEXT)
prop("P05", p05, {"P01", "P02"}, O_TEXT)
prop("P06", p06, {"P06"}, O_TEXT)
prop("P07", p07, {"P07", "P02"}, O_TEXT)
prop("P08", p08, {"P08"}, O_TEXT)
prop("P09", p09, {"P09"}, O_TEXT)
prop("P10", p10, {"P10", "P01", "P02", "P07"}, O_TEXT)
prop("P11", p11, {"P11"}, O_TEXT)
prop("P12", p12, {"P12", "P01", "P02"}, O_TEXT)
prop("P13", p13, {"P13"}, O_TEXT)
prop("P14", p14, {"P14"}, O_TEXT)
prop("P15", p15, {"P15"}, O_TEXT)


def p16(tier):
    js = [O("graph"), O("graph", kfac_like=True), O("graph", normalize=True), O("graph", alpha=False), O("graph", batches=2), O("graph", conv=True),
          O("natgrad"), O("early", steps=3)]
    if tier == "thorough":
        js += [O("graph", scale="scaler"), O("graph", scale="manual", batches=2), O("graph", structures=True), O("precond"), O("order"),
               O("order", conv=True), O("early", steps=4), O("precond", batches=2)]
    return js


LEAN = ("DiagonalMatrix", "Block30DiagonalMatrix", "Block3DiagonalMatrix", "Hierarchical15_15Matrix", "Hierarchical3_2Matrix", "TrilToeplitzMatrix",
        "TriuToeplitzMatrix")


def p17(tier):
    js = [("memory", n, dict(op=o)) for n in LEAN for o in (
        "matmul_structured", "matmul_matrix", "rmatmat", "from_inner", "from_inner_X", "add", "mul", "add_", "mul_", "diag_add_", "average_trace",
        "frobenius_norm", "zeros", "eye", "infinity_vector_norm") if not ("Toeplitz" in n and o.startswith("from_inner"))]
    js += [O("precond"), O("natgrad"), O("order"), O("precond", kfac_like=True), O("precond", normalize=True)]
    if tier == "thorough":
        js += [O("precond", batches=2), O("order", conv=True), O("early", steps=3), O("natgrad", conv=True)]
    return js


prop("P16", p16, {"P16"}, O_TEXT)
prop("P17", p17, {"P17"}, O_TEXT)
