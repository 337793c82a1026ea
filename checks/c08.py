"""C08 conversion between arithmetic and binary sharing."""
import torch

from .c07 import IdealAdder, xtotal
from .lib import *

EXPLAIN = ("The real A2B and B2A conversions (bit masks from the real providers, all draws symbolic) run on arbitrary symbolic shares; the solver decides that the other sharing "
           "reconstructs to the same 64-bit word, scale changes included, and that converting twice is the identity.")
BOUNDS = {"values": "all 64-bit words, all sharings, all draws", "parties": "1..2 with the real adder circuit, 3..5 with the adder replaced by its specification (C07)", "bits": "1, 2, 8, 16, 64"}
ASSUMPTIONS = ["torch's int64 kernels are exact", "messages are delivered unmodified and in order"]


def a2b(ws, p=0, ideal=False, ttp=False, n=1, api="to", oom=False):
    def fn(ctx):
        import crypten
        from crypten.mpc.primitives import BinarySharedTensor as Bt
        from crypten.mpc.primitives.converters import convert

        x = arb(ctx, "x", p)
        with IdealAdder(ctx, ideal):
            if oom:
                st = Bt.stack

                def boom(*a, **k):
                    raise RuntimeError("out of memory")

                Bt.stack = staticmethod(boom)
                Bt._verif = st
            try:
                if oom and not ctx.symbolic:
                    y = None
                y = x.to(crypten.mpc.binary) if api == "to" else x._to_ptype(crypten.mpc.binary)
            finally:
                if oom:
                    Bt.stack = st
        return {"y": y.reveal(), "x": x.reveal(), "s": (y.encoder.scale, x.encoder.scale, y.ptype == crypten.mpc.binary, x.ptype == crypten.mpc.arithmetic),
                "d": y._tensor.share}

    def post(e):
        o = []
        for r in range(ws):
            X = [N.lincomb([(e.x(f"x.s{k}")[i], 1) for k in range(ws)]) for i in range(n)]
            o += eqs(e, f"word@{r}", e.o("y", r), X) + eqs(e, f"operand@{r}", e.o("x", r), X) + [(f"scale@{r}", N.cb(list(e.raw("s", r)) == [2**p, 2**p, True, True]))]
        return o

    return Case(f"a2b/{api}/p{p}/N{ws}{'/memory-efficient' if oom else ''}{'/TTP' if ttp else ''}{'/modular' if ideal else ''}", fn, post, ws=ws, ttp=ttp, inputs=share_inputs({"x": (n,)}, ws), timeout_ms=150000)


def b2a(ws, p, q, bits=None, ttp=False, shape=(1,), kw=True):
    """binary words at scale 2^p to arithmetic at scale 2^q >= 2^p"""
    def fn(ctx):
        import crypten

        x = arb(ctx, "x", p, ptype=crypten.mpc.binary)
        k = {} if bits is None else {"bits": bits}
        if kw:
            k["precision"] = q
        y = x.to(crypten.mpc.arithmetic, **k)
        return {"y": y.reveal(), "x": x.reveal(), "s": (y.encoder.scale, x.encoder.scale, y.ptype == crypten.mpc.arithmetic), "w": xtotal(ctx, "x")}

    def post(e):
        o = []
        for r in range(ws):
            X = e.o("w", r)
            W = X if bits is None else [N.band(v, N.ci(2**bits - 1)) for v in X]
            f = 2 ** (q - p)
            o.append((f"shape@{r}", N.cb(e.shape("y", r) == shape)))
            o += eqs(e, f"word@{r}", e.o("y", r), [N.mul(v, N.ci(f)) for v in W]) + eqs(e, f"operand@{r}", e.o("x", r), X)
            o.append((f"scale@{r}", N.cb(list(e.raw("s", r)) == [2**q, 2**p, True])))
        return o

    return Case(f"b2a/p{p}to{q}/bits{bits}/{'x'.join(map(str, shape))}/N{ws}{'/TTP' if ttp else ''}{'' if kw else '/default'}", fn, post, ws=ws, ttp=ttp, inputs=share_inputs({"x": shape}, ws), timeout_ms=100000)


def there_and_back(ws, p, first, ideal):
    def fn(ctx):
        import crypten

        A, Bn = crypten.mpc.arithmetic, crypten.mpc.binary
        with IdealAdder(ctx, ideal):
            if first == "a":
                x = arb(ctx, "x", p)
                z = x.to(Bn).to(A, precision=p)
                w = total(ctx, "x")
            else:
                x = arb(ctx, "x", p, ptype=Bn)
                z = x.to(A, precision=p).to(Bn)
                w = xtotal(ctx, "x")
        return {"z": z.reveal(), "w": w, "s": z.encoder.scale}

    def post(e):
        return sum([eqs(e, f"value@{r}", e.o("z", r), e.o("w", r)) + [(f"scale@{r}", N.cb(e.raw("s", r) == 2**p))] for r in range(ws)], [])

    return Case(f"there-and-back/{first}/p{p}/N{ws}{'/modular' if ideal else ''}", fn, post, ws=ws, inputs=share_inputs({"x": (1,)}, ws), timeout_ms=150000)


def rand(ws, shape):
    """MPCTensor.rand: every sample lies in [0, 1) and equals the low bits of the joint binary draw"""
    def fn(ctx):
        import crypten
        from crypten.mpc import MPCTensor

        r = MPCTensor.rand(*shape)
        return {"r": r.reveal(), "s": r.encoder.scale, "v": r.get_plain_text() if not ctx.symbolic else r.reveal()}

    def post(e):
        o = []
        for k in range(ws):
            o.append((f"scale@{k}", N.cb(e.raw("s", k) == 65536)))
            o.append((f"shape@{k}", N.cb(e.shape("r", k) == tuple(shape))))
            o += [(f"range@{k}[{i}]", N.conj(N.sle(N.ci(0), v), N.slt(v, N.ci(65536)))) for i, v in enumerate(e.o("r", k))]
            o += eqs(e, f"agree@{k}", e.o("r", k), e.o("r", 0))
        return o

    return Case(f"rand/{'x'.join(map(str, shape))}/N{ws}", fn, post, ws=ws)


def encrypted(ws, src, x, to):
    """crypten.cryptensor with a ptype, then conversion: the plaintext survives"""
    def fn(ctx):
        import crypten

        A, Bn = crypten.mpc.arithmetic, crypten.mpc.binary
        t = ctx.x("x").clone() if ctx.rank == src else torch.zeros((1,), dtype=torch.int64)
        with IdealAdder(ctx, ws > 2):
            z = crypten.cryptensor(t, src=src, ptype=Bn if x == "b" else A, **({} if x == "b" else {"precision": 0})).to(A if to == "a" else Bn, **({"precision": 0} if to == "a" else {}))
        return {"z": z.reveal()}

    return Case(f"encrypt-{x}-then-{to}/src{src}/N{ws}", fn, lambda e: sum([eqs(e, f"value@{r}", e.o("z", r), e.x("x")) for r in range(ws)], []), ws=ws, inputs={"x": I((1,))}, timeout_ms=150000)


def cases(tier):
    q = tier == "quick"
    cs = []
    for ws in (1, 2):
        cs += [a2b(ws), a2b(ws, 16), a2b(ws, 0, api="_to_ptype")]
    cs.append(a2b(2, 0, ttp=True))
    for ws in (2, 3, 4) if q else (2, 3, 4, 5, 6):
        cs += [a2b(ws, 0, True, n=2), a2b(ws, 16, True, ttp=ws == 3), ]
    for ws in (2, 3):
        cs.append(a2b(ws, 16, True, oom=True))
    if not q:
        cs.append(a2b(3, 0))
    for ws in (1, 2, 3) if q else (1, 2, 3, 4):
        for p, k in ((0, 0), (0, 16), (16, 16), (8, 16), (20, 20)):
            cs.append(b2a(ws, p, k))
        for bits in (1, 2, 8, 16):
            cs.append(b2a(ws, 0, 0, bits))
            cs.append(b2a(ws, 0, 16, bits))
        cs.append(b2a(ws, 0, 0, 1, shape=(3, 2)))
        cs.append(b2a(ws, 0, 0, None, shape=(2, 1)))
        cs.append(b2a(ws, 0, 0, 4, shape=()))
        for shape in ((2,), (2, 2), (2, 3), (3, 2), (1, 2)):
            cs.append(b2a(ws, 0, 0, 2, shape=shape))
        cs.append(b2a(ws, 0, 16, None, kw=False))
        cs.append(b2a(ws, 16, 16, None, kw=False))
        if ws > 1:
            cs += [b2a(ws, 0, 0, ttp=True), b2a(ws, 0, 16, 1, ttp=True)]
        cs += [rand(ws, (3,)), rand(ws, (2, 2))]
        for src in range(ws):
            cs.append(encrypted(ws, src, "b", "a"))
            cs.append(encrypted(ws, src, "a", "b"))
        for first in "ab":
            for p in (0, 16):
                if q and ws > 2 and first == "a":
                    continue
                cs.append(there_and_back(ws, p, first, ws > (2 if first == "a" else 1)))
    return cs
