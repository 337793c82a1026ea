"""C04 private multiplication family (Beaver)."""
import torch

from .lib import *

EXPLAIN = ("Private x private products run the real Beaver protocol (real tuple providers, real message exchange) with every share of every operand and every random draw "
           "(triples, masks, seeds' outputs) symbolic; the solver decides that the reconstruction equals the plaintext product modulo 2^64 for every draw. "
           "The fixed-point forms run with exact reals in place of truncation.")
BOUNDS = {"values": "all 64-bit shares, all random draws", "parties": "1..3 quick, 1..5 thorough", "shapes": "up to 4-d, at most 18 elements per operand", "providers": "TrustedFirstParty, TrustedThirdParty"}
ASSUMPTIONS = ["torch's int64 kernels are exact modulo 2^64", "fixed-point forms: rounding abstracted (bounded separately in C06)", "messages are delivered unmodified and in order"]

PT = torch.Tensor


def T(m, t):
    """same op on MPC tensor (method m) and on torch (function t)"""
    return lambda x, y: t(x, y) if isinstance(x, PT) else m(x, y)


def conv(fn, **kw):
    return lambda x, y: getattr(torch, fn)(x, y, **kw) if isinstance(x, PT) else getattr(x, fn)(y, **kw)


OPS = {
    "mul": (lambda x, y: x * y, (2, 2), (2, 2)),
    "mul-method": (lambda x, y: x.mul(y), (3,), (3,)),
    "mul-broadcast": (lambda x, y: x * y, (2, 1), (1, 3)),
    "mul-expand-left": (lambda x, y: x * y, (3,), (2, 3)),
    "mul-expand-right": (lambda x, y: x * y, (2, 3), (3,)),
    "mul-scalar": (lambda x, y: x * y, (), (2, 2)),
    "mul-1": (lambda x, y: x * y, (1,), (1,)),
    "mul-3d": (lambda x, y: x * y, (2, 1, 2), (1, 2, 1)),
    "matmul": (lambda x, y: x.matmul(y), (2, 2), (2, 2)),
    "matmul-rect": (lambda x, y: x.matmul(y), (2, 3), (3, 1)),
    "matmul-op": (lambda x, y: x @ y, (1, 2), (2, 2)),
    "matmul-vec": (lambda x, y: x.matmul(y), (2, 3), (3,)),
    "matmul-vecvec": (lambda x, y: x.matmul(y), (3,), (3,)),
    "matmul-batch": (lambda x, y: x.matmul(y), (2, 2, 2), (2, 2, 1)),
    "matmul-batch-broadcast": (lambda x, y: x.matmul(y), (2, 1, 2), (2, 2)),
    "dot": (lambda x, y: x.dot(y), (3,), (3,)),
    "ger": (lambda x, y: x.ger(y), (2,), (3,)),
    "product-then-sum": (lambda x, y: (x * y).sum(0) - x[0] * y[0], (2, 2), (2, 2)),
    "chain": (lambda x, y: (x * y) * (x - y), (2,), (2,)),
    "self-alias": (lambda x, y: x * x + y * y, (2,), (2,)),
    "conv1d": (conv("conv1d"), (1, 1, 4), (1, 1, 2)),
    "conv1d-pad-stride": (conv("conv1d", padding=1, stride=2), (2, 1, 4), (1, 1, 3)),
    "conv1d-groups": (conv("conv1d", groups=2), (1, 2, 3), (2, 1, 2)),
    "conv1d-dilation": (conv("conv1d", dilation=2), (1, 1, 5), (1, 1, 2)),
    "conv1d-channels": (conv("conv1d"), (1, 2, 3), (2, 2, 2)),
    "conv2d": (conv("conv2d"), (1, 1, 3, 3), (1, 1, 2, 2)),
    "conv2d-pad-stride": (conv("conv2d", padding=(1, 0), stride=(1, 2)), (1, 1, 3, 3), (1, 1, 2, 2)),
    "conv2d-groups": (conv("conv2d", groups=2), (1, 2, 2, 2), (2, 1, 2, 1)),
    "conv2d-dilation": (conv("conv2d", dilation=2), (1, 1, 3, 3), (1, 1, 2, 2)),
    "conv2d-batch": (conv("conv2d"), (2, 1, 2, 2), (2, 1, 2, 2)),
    "convT1d": (conv("conv_transpose1d"), (1, 1, 3), (1, 1, 2)),
    "convT1d-stride": (conv("conv_transpose1d", stride=2, padding=1, output_padding=1), (1, 1, 3), (1, 2, 2)),
    "convT2d": (conv("conv_transpose2d"), (1, 1, 2, 2), (1, 1, 2, 2)),
    "convT2d-stride": (conv("conv_transpose2d", stride=2, padding=1), (1, 1, 2, 2), (1, 1, 2, 2)),
    "convT2d-groups": (conv("conv_transpose2d", groups=2), (1, 2, 2, 2), (2, 1, 1, 2)),
}
SQ = {
    "square": (lambda x: x * x if isinstance(x, PT) else x.square(), (2, 2)),
    "square-1d": (lambda x: x * x if isinstance(x, PT) else x.square(), (3,)),
    "pow2": (lambda x: x * x if isinstance(x, PT) else x.pow(2), (2,)),
    "pow3": (lambda x: x * x * x if isinstance(x, PT) else x.pow(3), (2,)),
    "pow5": (lambda x: x.pow(5) if not isinstance(x, PT) else x * x * x * x * x, (1,)),
    "pow4": (lambda x: x.pow(4) if not isinstance(x, PT) else x * x * x * x, (1,)),
    "pow6": (lambda x: x.pow(6) if not isinstance(x, PT) else x * x * x * x * x * x, (1,)),
    "pow7": (lambda x: x.pow(7) if not isinstance(x, PT) else x * x * x * x * x * x * x, (1,)),
    "prod": (lambda x: x.prod(), (3,)),
    "prod4": (lambda x: x.prod(), (4,)),
    "prod-dim": (lambda x: x.prod(1), (2, 3)),
    "prod-dim0-keep": (lambda x: x.prod(0, keepdim=True), (2, 2)),
}


def scales(p, q, ws):
    """product of operands at scales 2^p and 2^q, one of them 1: no truncation, result carries the other scale"""
    def fn(ctx):
        x, y = arb(ctx, "x", p), arb(ctx, "y", q)
        z = x * y
        return {"z": z.reveal(), "s": z.encoder.scale, "w": total(ctx, "x") * total(ctx, "y"), "ks": [x.encoder.scale, y.encoder.scale]}

    def post(e):
        o = []
        for r in range(ws):
            o += [(f"scale@{r}", N.cb(e.raw("s", r) == 2 ** max(p, q))), (f"operand-scales@{r}", N.cb(list(e.raw("ks", r)) == [2**p, 2**q]))]
            o += eqs(e, f"value@{r}", e.o("z", r), e.o("w", r))
        return o

    return Case(f"scales/{p}x{q}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (2,), "y": (2,)}, ws))


def inplace(ws, op):
    def fn(ctx):
        x, y = arb(ctx, "x"), arb(ctx, "y")
        if op == "mul_":
            z = x.mul_(y) if hasattr(x, "mul_") else x
            w = total(ctx, "x") * total(ctx, "y")
        else:
            a = x._tensor
            z = x
            a.square_()
            w = total(ctx, "x") * total(ctx, "x")
        return {"z": x.reveal(), "w": w, "y": y.reveal(), "yw": total(ctx, "y")}

    def post(e):
        o = []
        for r in range(ws):
            o += eqs(e, f"value@{r}", e.o("z", r), e.o("w", r)) + eqs(e, f"other@{r}", e.o("y", r), e.o("yw", r))
        return o

    return Case(f"inplace/{op}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (2,), "y": (2,)}, ws))


def reuse(ws, ttp=False):
    """several products in sequence: every product is right, whatever was drawn before"""
    def op(x, y):
        a = x * y
        b = x.matmul(y)
        c = a * a if isinstance(x, PT) else a.square()
        return [a, b, c, b * a]

    return hom_int("sequence", op, {"x": (2, 2), "y": (2, 2)}, ws, ttp=ttp)


def tampered(ws, which, op="mul", shapes=((1,), (1,)), ttp=False):
    """a party that adds d to its share of a, b or c is noticed, unless the opened coefficient makes the test vanish modulo 2^64"""
    def fn(ctx):
        import crypten
        from crypten.mpc.primitives import ArithmeticSharedTensor as AST

        x, y = arb(ctx, "x"), arb(ctx, "y")
        prov = crypten.mpc.get_default_provider()
        deal, prss, seen, coef = prov.generate_additive_triple, AST.PRSS, [], []

        def bad(*a, **k):
            t = deal(*a, **k)
            if not seen and ctx.rank == ws - 1:
                t[which].share += ctx.x("d")
            seen.append(t)
            return t

        def watch(*a, **k):
            coef.append(prss(*a, **k))
            return coef[-1]

        prov.generate_additive_triple, AST.PRSS = bad, watch
        try:
            getattr(x, op)(y)
            ok = 1
        except ValueError:
            ok = 0
        finally:
            del prov.generate_additive_triple
            AST.PRSS = prss
        others = [t.reveal() for t in seen[0]]
        return {"ok": ok, "T": coef[0].reveal(), "a": others[0], "b": others[1]}

    def post(e):
        o, ok = [], e.raw("ok")
        for r in range(ws):
            o.append((f"verdict@{r}", N.cb(e.raw("ok", r) == ok)))
        t, d = e.o("T")[0], e.x("d")
        gap = N.mul(t, d[0])
        if which == 0:
            gap = N.mul(N.mul(t, d[0]), e.o("b")[0])
        if which == 1:
            gap = N.mul(N.mul(t, d[0]), e.o("a")[0])
        same = N.eq(gap, N.ci(0))
        o.append(("accepted only if undetectable" if ok else "rejected only if tampered", same if ok else N.bnot(same)))
        return o

    return Case(f"active-security/tampered-{'abc'[which]}/{op}/{'TTP' if ttp else 'TFP'}/N{ws}", fn, post, ws=ws, ttp=ttp, cfg={"mpc.active_security": True},
                inputs={**share_inputs({"x": shapes[0], "y": shapes[1]}, ws), "d": I(shapes[1] if which == 1 else shapes[0])})


REAL = ["mul", "mul-broadcast", "mul-expand-left", "mul-scalar", "matmul", "matmul-rect", "matmul-vec", "matmul-batch", "dot", "ger", "chain", "conv1d-pad-stride", "conv1d-groups",
        "conv2d-pad-stride", "conv2d-groups", "conv2d-dilation", "convT1d-stride", "convT2d-stride", "convT2d-groups"]


def cases(tier):
    cs = []
    for ws in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for k, (op, s, t) in OPS.items():
            if tier == "quick" and ws == 3 and k in ("matmul-batch", "conv1d-channels", "conv2d-batch", "mul-3d"):
                continue
            cs.append(hom_int(k, op, {"x": s, "y": t}, ws))
        for k, (op, s) in SQ.items():
            cs.append(hom_int(k, op, {"x": s}, ws))
        cs += [scales(0, 16, ws), scales(16, 0, ws), scales(0, 0, ws), inplace(ws, "mul_"), inplace(ws, "square_"), reuse(ws)]
    for ws in (2, 3) if tier == "quick" else (1, 2, 3, 4):
        for k in ("mul", "mul-broadcast", "matmul", "conv1d", "conv2d-pad-stride", "convT1d-stride", "convT2d") if tier == "quick" else OPS:
            op, s, t = OPS[k]
            cs.append(hom_int(k, op, {"x": s, "y": t}, ws, ttp=True))
        for k in ("square", "pow3"):
            cs.append(hom_int(k, SQ[k][0], {"x": SQ[k][1]}, ws, ttp=True))
        cs.append(reuse(ws, True))
    for k in REAL if tier == "quick" else OPS:
        op, s, t = OPS[k]
        for ws in (1, 2):
            cs.append(hom_real("fixed-point/" + k, op, {"x": s, "y": t}, ws))
            if ws == 1:
                cs.append(hom_real("fixed-point-public/" + k, op, {"x": s}, ws, pub={"y": R(t)}))
    for k, (op, s) in SQ.items():
        cs.append(hom_real("fixed-point/" + k, op, {"x": s}, 2, rng=(-2, 2)))
    for ws in (2, 3):
        for which in (0, 1, 2) if ws == 2 else (2,):
            if which == 2 or tier == "thorough":
                cs += [tampered(ws, which), tampered(ws, which, "matmul", ((1, 1), (1, 1)))]
            if tier == "thorough":
                cs.append(tampered(ws, which, ttp=True))
    for ws, ttp in ((2, False), (3, False), (2, True)) if tier == "quick" else ((1, False), (2, False), (3, False), (4, False), (2, True), (3, True)):
        for k, (op, s, t) in OPS.items():
            cs.append(hom_int("active-security/" + k, op, {"x": s, "y": t}, ws, ttp=ttp, cfg={"mpc.active_security": True}))
    for p, q in ((8, 16), (16, 8), (16, 0), (0, 16), (20, 16)):
        cs.append(hom_real(f"fixed-point/mul-mixed-{p}-{q}", lambda x, y: x * y, {"x": (2,), "y": (2,)}, 2, prec={"x": p, "y": q}, tol=0.1))
        cs.append(hom_real(f"fixed-point/matmul-mixed-{p}-{q}", lambda x, y: x.matmul(y), {"x": (2, 2), "y": (2, 2)}, 1, prec={"x": p, "y": q}, tol=0.1))
    return cs
