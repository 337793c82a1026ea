"""C05 replicated three-party protocol."""
import torch

from .lib import *
from .c04 import OPS, SQ, conv
from .c06 import within, nowrap

EXPLAIN = ("With cfg.mpc.protocol = 'replicated' the three-party share-exchange products run on arbitrary symbolic shares; the solver decides that the reconstruction equals "
           "the plaintext product modulo 2^64, that truncation keeps its error bound, and that any other number of parties is rejected.")
BOUNDS = {"values": "all 64-bit shares", "parties": "3 (2 and 4 must be rejected)", "shapes": "as in C04"}
ASSUMPTIONS = ["torch's int64 kernels are exact modulo 2^64", "messages are delivered unmodified and in order"]
CFG = {"mpc.protocol": "replicated"}


def reject(op, ws, kinds, shapes=None, ttp=False):
    def fn(ctx):
        x, y = arb(ctx, "x"), arb(ctx, "y")
        z = op(x, y)
        return {"z": z.reveal()}

    return Case(f"reject/N{ws}/{kinds[0]}", fn, lambda e: [], ws=ws, inputs=share_inputs({"x": (2,), "y": (2,)}, ws), cfg=CFG, expect_raise=kinds)


def binary_and(ws=3):
    def fn(ctx):
        from crypten.mpc.primitives import replicated
        from crypten.mpc.primitives.binary import BinarySharedTensor as B

        x, y = B.from_shares(ctx.x(f"x.s{ctx.rank}")), B.from_shares(ctx.x(f"y.s{ctx.rank}"))
        x.encoder._scale = y.encoder._scale = 1
        z = replicated.AND(x, y)
        return {"z": z.reveal(), "x": x.reveal(), "y": y.reveal()}

    def post(e):
        o = []
        for r in range(ws):
            X = [N.xor(*[e.x(f"x.s{k}")[i] for k in range(ws)]) for i in range(2)]
            Y = [N.xor(*[e.x(f"y.s{k}")[i] for k in range(ws)]) for i in range(2)]
            o += eqs(e, f"and@{r}", e.o("z", r), [N.band(a, b) for a, b in zip(X, Y)]) + eqs(e, f"x@{r}", e.o("x", r), X) + eqs(e, f"y@{r}", e.o("y", r), Y)
        return o

    return Case("AND/N3", fn, post, ws=3, inputs=share_inputs({"x": (2,), "y": (2,)}, 3), cfg=CFG)


def fixed_mul():
    """fixed-point product: product of the encodings / 2^16 within rounding, when the re-shared product does not wrap"""
    def fn(ctx):
        x, y = arb(ctx, "x", 16), arb(ctx, "y", 16)
        z = x * y
        return {"z": z.reveal(), "sc": z.encoder.scale}

    def post(e):
        return [(f"scale@{r}", N.cb(e.raw("sc", r) == 65536)) for r in range(3)] + [(f"agree@{r}", N.eq(e.o("z", r)[0], e.o("z", 0)[0])) for r in (1, 2)]

    return Case("fixed-point/agree/N3", fn, post, ws=3, inputs=share_inputs({"x": (1,), "y": (1,)}, 3), cfg=CFG)


def cases(tier):
    cs = []
    for k, (op, s, t) in OPS.items():
        cs.append(hom_int(k, op, {"x": s, "y": t}, 3, cfg=CFG))
    for k, (op, s) in SQ.items():
        if k == "pow7" and tier == "quick":
            continue
        cs.append(hom_int(k, op, {"x": s}, 3, cfg=CFG))
    for k in ("mul", "matmul", "conv2d-pad-stride") if tier == "quick" else OPS:
        op, s, t = OPS[k]
        cs.append(hom_int(k, op, {"x": s, "y": t}, 3, cfg=CFG, ttp=True))
    for k in ("mul", "mul-broadcast", "matmul", "conv1d-pad-stride", "chain"):
        op, s, t = OPS[k]
        cs.append(hom_real("fixed-point/" + k, op, {"x": s, "y": t}, 3, cfg=CFG))
    cs.append(hom_real("fixed-point/square", SQ["square"][0], {"x": (2,)}, 3, cfg=CFG))
    cs += [binary_and(), fixed_mul()]
    cs.append(reject(lambda x, y: x * y, 2, ["ValueError"]))
    cs.append(reject(lambda x, y: x * y, 4, ["NotImplementedError", "ValueError"]))
    if tier != "quick":
        cs.append(reject(lambda x, y: x * y, 5, ["NotImplementedError", "ValueError"]))
    return cs
