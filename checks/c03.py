"""C03 linear operations."""
import torch

from .lib import *

EXPLAIN = ("Every party's share of every encrypted operand is an independent symbolic 64-bit integer, public operands are symbolic too; the real "
           "linear operations run on them and the solver decides that the reconstruction equals the plaintext operation modulo 2^64 in every party, and that operands keep their value.")
BOUNDS = {"values": "all 64-bit shares and public operands", "parties": "1..4", "shapes": "up to 3-d, at most 16 elements, listed per scenario", "scales": "1, 2^8, 2^16, 2^20 and mixtures"}
ASSUMPTIONS = ["torch's int64 kernels are exact modulo 2^64", "messages are delivered unmodified and in order (torch.distributed)"]


def priv2():
    """name -> (op, shapes)"""
    a, b = "x", "y"
    d = {
        "add": (lambda x, y: x + y, (2, 2), (2, 2)),
        "sub": (lambda x, y: x - y, (2, 2), (2, 2)),
        "add-method": (lambda x, y: x.add(y), (3,), (3,)),
        "sub-method": (lambda x, y: x.sub(y), (3,), (3,)),
        "add-broadcast-rows": (lambda x, y: x + y, (2, 1), (1, 3)),
        "sub-broadcast-rows": (lambda x, y: x - y, (2, 1), (1, 3)),
        "sub-broadcast-left": (lambda x, y: x - y, (3,), (2, 3)),
        "add-broadcast-right": (lambda x, y: x + y, (2, 3), (3,)),
        "add-scalar-tensor": (lambda x, y: x + y, (), (2, 3)),
        "sub-singleton": (lambda x, y: x - y, (1,), (1,)),
        "chain": (lambda x, y: (x + y) - (y - x) + x - (-y), (2,), (2,)),
        "alias": (lambda x, y: (x + x) - y - y, (2,), (2,)),
        "cat-sum": (lambda x, y: x.sum() + y.sum(), (2, 2), (3,)),
    }
    return {k: (op, {a: s, b: t}) for k, (op, s, t) in d.items()}


UNARY = {
    "neg": (lambda x: -x, (2, 2)),
    "neg-method": (lambda x: x.neg(), (3,)),
    "sum": (lambda x: x.sum(), (2, 3)),
    "sum-dim0": (lambda x: x.sum(0), (2, 3)),
    "sum-dim1-keep": (lambda x: x.sum(1, keepdim=True), (2, 3)),
    "sum-dims": (lambda x: x.sum(dim=(0, 2)), (2, 2, 2)),
    "sum-neg-dim": (lambda x: x.sum(-1), (2, 2, 2)),
    "cumsum": (lambda x: x.cumsum(0), (3, 2)),
    "cumsum1": (lambda x: x.cumsum(1), (2, 3)),
    "trace": (lambda x: x.trace(), (3, 3)),
    "pos": (lambda x: x + 0, (2,)),
    "minus-self": (lambda x: x - x, (2,)),
    "int-mul": (lambda x: x * 3, (2,)),
    "int-rmul": (lambda x: -7 * x, (2,)),
    "int-mul-big": (lambda x: x * (2**40 + 1), (2,)),
}


def inplace(name, f, pub=False, prec=0, ws=2, scale_pub=1):
    """in-place forms: the receiver takes the new value and keeps being the same object"""
    def fn(ctx):
        x = arb(ctx, "x", prec)
        y = ctx.x("y").clone() if pub else arb(ctx, "y", prec)
        z = f(x, y)
        return {"same": z is x, "x": x.reveal(), "y": y if pub else y.reveal(), "w": f(total(ctx, "x"), ctx.x("y") * scale_pub if pub else total(ctx, "y")),
                "yw": ctx.x("y") if pub else total(ctx, "y")}

    def post(e):
        o = []
        for r in range(ws):
            o += [(f"same-object@{r}", N.cb(e.raw("same", r)))] + eqs(e, f"value@{r}", e.o("x", r), e.o("w", r)) + eqs(e, f"other@{r}", e.o("y", r), e.o("yw", r))
        return o

    inputs = share_inputs({"x": (2, 2)}, ws)
    inputs.update({"y": I((2,), -(2**40), 2**40)} if pub else share_inputs({"y": (2,)}, ws))
    return Case(f"inplace/{name}/{'public' if pub else 'private'}/p{prec}/N{ws}", fn, post, ws=ws, inputs=inputs)


def public(name, op, xs, ys, prec, ws, ref=None, lim=2**40):
    """one public symbolic tensor operand; at scale 2^p a public integer tensor y stands for y * 2^p"""
    s = 2**prec
    ref = ref or op

    def r(x, y):
        return ref(x, y * s)

    return hom_int(f"public/{name}/p{prec}", op, {"x": xs}, ws, ref=r, pub={"y": I(ys, -lim, lim)}, prec=prec)


def mixed(p, q, ws, f, name):
    """operands at different scales: the result has the larger scale and the exact value"""
    def fn(ctx):
        x, y = arb(ctx, "x", p), arb(ctx, "y", q)
        z = f(x, y)
        return {"z": z.reveal(), "s": z.encoder.scale, "x": x.reveal(), "xs": x.encoder.scale, "y": y.reveal(), "ys": y.encoder.scale}

    def post(e):
        m = max(p, q)
        o = []
        for r in range(ws):
            X = [N.lincomb([(e.x(f"x.s{k}")[i], 1) for k in range(ws)]) for i in range(2)]
            Y = [N.lincomb([(e.x(f"y.s{k}")[i], 1) for k in range(ws)]) for i in range(2)]
            sg = 1 if name == "add" else -1
            o.append((f"scale@{r}", N.cb(e.raw("s", r) == 2**m)))
            o += eqs(e, f"value@{r}", e.o("z", r), [N.lincomb([(a, 2 ** (m - p)), (b, sg * 2 ** (m - q))]) for a, b in zip(X, Y)])
            # the operands still mean the same number (their scale may have been raised)
            for k, v, pp in (("x", X, p), ("y", Y, q)):
                sc = e.raw(k + "s", r)
                ok = sc % (2**pp) == 0
                o.append((f"{k}-scale@{r}", N.cb(ok)))
                if ok:
                    o += eqs(e, f"{k}-value@{r}", e.o(k, r), [N.mul(t, N.ci(sc // 2**pp)) for t in v])
        return o

    return Case(f"mixed-scale/{name}/{p}and{q}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (2,), "y": (2,)}, ws))


def scalar(name, f, c, prec, ws):
    """python number operands"""
    raw = int(c * 2**prec)
    return hom_int(f"scalar/{name}/{c}/p{prec}", lambda x: f(x, c), {"x": (2, 2)}, ws, ref=lambda x: f(x, raw), prec=prec)


def fraction(name, op, ref, xs, ys, ws, const=None):
    """integer-encoded tensor with a public operand that has some non-integer element: no fraction is lost. ref(X, Y, one) with X the integers,
    Y the operand in units of 2^-16 and one = 2^16"""
    def fn(ctx):
        x = arb(ctx, "x", 0)
        y = ctx.x("y").clone() if const is None else const
        z = op(x, y)
        X = total(ctx, "x")
        Y = (ctx.x("y").double() * 2**16).long() if const is None else torch.tensor(int(const * 2**16))
        return {"z": z.reveal(), "s": z.encoder.scale, "w": ref(X, Y, 2**16), "x": x.reveal(), "X": X}

    def post(e):
        o = []
        for r in range(ws):
            sc = e.raw("s", r)
            o += [(f"scale@{r}", N.cb(sc in (1, 2**16))), (f"shape@{r}", N.cb(e.shape("z", r) == e.shape("w", r)))]
            o += eqs(e, f"value@{r}", [N.mul(z, N.ci(2**16 // sc)) for z in e.o("z", r)], e.o("w", r))
            o += eqs(e, f"operand@{r}", e.o("x", r), e.o("X", r))
        return o

    inputs = share_inputs({"x": xs}, ws)
    if const is None:
        inputs["y"] = I(ys, -(2**20), 2**20, kind="fx")
    some = (lambda e: [N.bnot(N.conj(*[N.eq(N.band(v, N.ci(2**16 - 1)), N.ci(0)) for v in e.x("y")]))]) if const is None else None
    return Case(f"fraction/{name}{'' if const is None else '/' + str(const)}/N{ws}", fn, post, ws=ws, inputs=inputs, pre=some)


def poolsum(k, st, pad, shp, ws):
    return hom_int(f"sum-pool/k{k}s{st}p{pad}", lambda x: x._tensor._sum_pool2d(k, stride=st, padding=pad), {"x": shp}, ws,
                   ref=lambda x: torch.nn.functional.avg_pool2d(x, k, stride=st, padding=pad, divisor_override=1))


def cases(tier):
    cs = []
    parties = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    for ws in parties:
        for k, (op, s) in priv2().items():
            cs.append(hom_int(f"private/{k}/p0", op, s, ws))
            if ws > 1 and (tier != "quick" or ws == 2):
                cs.append(hom_int(f"private/{k}/p16", op, s, ws, prec=16))
        for k, (op, s) in UNARY.items():
            cs.append(hom_int(f"unary/{k}/p0", op, {"x": s}, ws))
            if ws == 2:
                cs.append(hom_int(f"unary/{k}/p16", op, {"x": s}, ws, prec=16) if k != "pos" else hom_int("unary/pos/p16", lambda x: x + 0, {"x": s}, ws, prec=16))
        for prec in (0, 16):
            for k, f in {"add": lambda x, y: x + y, "radd": lambda x, y: x.__radd__(y), "sub": lambda x, y: x - y, "rsub": lambda x, y: x.__rsub__(y) if not isinstance(x, torch.Tensor) else y - x}.items():
                ref = (lambda x, y: x + y) if k == "radd" else None
                cs.append(public(k, f, (2, 2), (2, 2), prec, ws, ref))
                cs.append(public(k + "-broadcast", f, (2, 1), (3,), prec, ws, ref))
                cs.append(public(k + "-expand", f, (3,), (2, 3), prec, ws, ref))
        cs.append(public("mul", lambda x, y: x * y, (2, 2), (2, 2), 0, ws))
        cs.append(public("rmul", lambda x, y: x.__rmul__(y), (2, 2), (2,), 0, ws, lambda x, y: x * y))
        cs.append(public("matmul", lambda x, y: x.matmul(y), (2, 3), (3, 2), 0, ws))
        cs.append(public("matmul-vec", lambda x, y: x.matmul(y), (2, 3), (3,), 0, ws))
        cs.append(public("matmul-batch", lambda x, y: x.matmul(y), (2, 1, 2), (2, 2), 0, ws))
        cs.append(public("matmul-op", lambda x, y: x @ y, (2, 2), (2, 2), 0, ws))
        cs.append(public("dot", lambda x, y: x.dot(y), (3,), (3,), 0, ws))
        cs.append(public("ger", lambda x, y: x.ger(y), (2,), (3,), 0, ws))
        cs.append(public("conv1d", lambda x, y: x.conv1d(y, padding=1) if not isinstance(x, torch.Tensor) else torch.conv1d(x, y, padding=1), (1, 1, 4), (1, 1, 2), 0, ws))
        cs.append(public("conv2d", lambda x, y: x.conv2d(y, stride=2) if not isinstance(x, torch.Tensor) else torch.conv2d(x, y, stride=2), (1, 1, 3, 3), (2, 1, 2, 2), 0, ws))
        cs.append(public("conv_transpose1d", lambda x, y: x.conv_transpose1d(y, stride=2) if not isinstance(x, torch.Tensor) else torch.conv_transpose1d(x, y, stride=2), (1, 1, 3), (1, 1, 2), 0, ws))
        cs.append(public("conv_transpose2d", lambda x, y: x.conv_transpose2d(y) if not isinstance(x, torch.Tensor) else torch.conv_transpose2d(x, y), (1, 1, 2, 2), (1, 1, 2, 2), 0, ws))
        for prec in (0, 16):
            for c in (1, -3) if prec == 0 else (1, -3, 0.5, -2.25):
                cs.append(scalar("add", lambda x, y: x + y, c, prec, ws))
                cs.append(scalar("radd", lambda x, y: y + x, c, prec, ws))
                cs.append(scalar("sub", lambda x, y: x - y, c, prec, ws))
                cs.append(scalar("rsub", lambda x, y: y - x, c, prec, ws))
        for prec in (0, 16):
            cs.append(inplace("iadd", lambda x, y: x.add_(y), False, prec, ws))
            cs.append(inplace("isub", lambda x, y: x.sub_(y), False, prec, ws))
            cs.append(inplace("iadd", lambda x, y: x.add_(y), True, prec, ws, 2**prec))
            cs.append(inplace("isub", lambda x, y: x.sub_(y), True, prec, ws, 2**prec))
        cs.append(inplace("imul", lambda x, y: x.mul_(y), True, 0, ws))
        for p, q in ((0, 16), (16, 0), (8, 16), (16, 8), (20, 16)):
            cs.append(mixed(p, q, ws, lambda x, y: x + y, "add"))
            cs.append(mixed(p, q, ws, lambda x, y: x - y, "sub"))
        mv = lambda X, Y, one: X * Y
        for c in (None, 0.5, -2.25, 3.0):
            k = "" if c is None else "-number"
            cs.append(fraction("mul" + k, lambda x, y: x * y, mv, (2,), (2,), ws, c))
            cs.append(fraction("rmul" + k, lambda x, y: x.__rmul__(y), mv, (2,), (1,), ws, c))
            cs.append(fraction("add" + k, lambda x, y: x + y, lambda X, Y, one: X * one + Y, (2,), (2,), ws, c))
            cs.append(fraction("sub" + k, lambda x, y: x - y, lambda X, Y, one: X * one - Y, (2, 1), (2,), ws, c))
            cs.append(fraction("imul" + k, lambda x, y: x.clone().mul_(y), mv, (2,), (2,), ws, c))
            cs.append(fraction("iadd" + k, lambda x, y: x.clone().add_(y), lambda X, Y, one: X * one + Y, (2,), (2,), ws, c))
        cs.append(fraction("matmul", lambda x, y: x.matmul(y), lambda X, Y, one: X.matmul(Y), (2, 2), (2,), ws))
        cs.append(fraction("conv1d", lambda x, y: x.conv1d(y), lambda X, Y, one: torch.conv1d(X, Y), (1, 1, 3), (1, 1, 2), ws))
        cs.append(poolsum(2, 1, 0, (1, 1, 3, 3), ws))
        cs.append(poolsum((2, 1), 2, (1, 0), (1, 1, 3, 3), ws))
        cs.append(poolsum(2, None, 0, (1, 2, 2, 4), ws))
    return cs
