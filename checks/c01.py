"""C01 encrypt -> decrypt round trip."""
import torch

from .lib import *

DOUBLE = torch.float64

EXPLAIN = ("Every party runs the real crypten.init() and tensor constructors symbolically; the source's plaintext is a symbolic 64-bit "
           "value, the pseudo-random zero shares are symbolic; the solver decides that every party allowed to see the result gets exactly the source's plaintext.")
BOUNDS = {"parties": "1..4 (quick 1..4)", "source": "every rank", "shapes": ["()", "(2,)", "(2,2)", "(1,2,1)", "(0,)"], "values": "all 64-bit integers; multiples of 2^-16 in +-2^29"}
ASSUMPTIONS = ["torch kernels and torch.distributed transport mean what their documentation says", "float inputs are exact multiples of 2^-16 (other floats: C02)"]


def inputs_of(k, shape):
    return {"x": I(shape)} if k == "int" else {"x": I(shape, -(2**45), 2**45, kind="fx", k=16, dtype=DOUBLE)}


def mkcase(name, ws, src, shape, build, read, kind="int", dst=None, extra=None, allranks=True):
    def fn(ctx):
        import torch

        x = ctx.x("x")
        t = x.clone() if ctx.rank == src else torch.zeros(shape, dtype=x.dtype)
        e = build(ctx, t, src, shape)
        v = read(e)
        out = {"z": v if v is not None else torch.zeros(()), "none": v is None}
        if torch.is_tensor(t) and ctx.rank == src:
            out["in"] = t
        return out

    def post(e):
        obs = []
        for r in range(ws):
            if dst is not None and r != dst:
                continue
            obs.append((f"got@{r}", N.cb(not e.raw("none", r))))
            obs.append((f"shape@{r}", N.cb(e.shape("z", r) == tuple(shape))))
            X = e.x("x")
            if kind == "int":
                obs += eqs(e, f"value@{r}", e.o("z", r), X)
            else:
                for i, (a, b) in enumerate(zip(e.o("z", r), X)):
                    obs.append((f"value@{r}[{i}]", N.feq(tofloat(a), N.fx(b, 16))))
        X = e.x("x")
        obs += [(f"input-unchanged[{i}]", N.eq(a, b) if kind == "int" else N.feq(a, N.fx(b, 16))) for i, (a, b) in enumerate(zip(e.o("in", src), X))]
        return obs

    return Case(f"{name}/{kind}{list(shape)}/src{src}/N{ws}", fn, post, ws=ws, inputs=inputs_of(kind, shape))


def dst_only(name, ws, dst, ptype, how):
    """only the destination learns the value"""
    def fn(ctx):
        import torch
        from crypten.mpc import MPCTensor
        from crypten.mpc.ptype import ptype as P

        x = ctx.x("x")
        t = x.clone() if ctx.rank == 0 else torch.zeros(2, dtype=x.dtype)
        kw = {"precision": 0} if ptype == "arithmetic" else {}
        e = MPCTensor(t, ptype=getattr(P, ptype), src=0, **kw)
        v = getattr(e, how)(dst=dst)
        return {"none": v is None, "z": v if v is not None else torch.zeros(2, dtype=torch.int64)}

    def post(e):
        obs = [("dst-got", N.cb(not e.raw("none", dst)))] + eqs(e, "value", e.o("z", dst), e.x("x"))
        for r in range(ws):
            if r != dst:
                # the value handed to any other party never equals the plaintext for all masks: it is None
                obs.append((f"nothing@{r}", N.cb(e.raw("none", r))))
        return obs

    return Case(f"dst/{name}/{ptype}/{how}/dst{dst}/N{ws}", fn, post, ws=ws, inputs={"x": I((2,))})


def cases(tier):
    from crypten.mpc.ptype import ptype as P

    def arith(ctx, t, src, shape):
        import crypten
        return crypten.cryptensor(t, src=src, precision=0)

    def arith_fx(ctx, t, src, shape):
        import crypten
        return crypten.cryptensor(t, src=src)

    def binary(ctx, t, src, shape):
        import crypten
        return crypten.cryptensor(t, src=src, ptype=P.binary)

    def size_arg(ctx, t, src, shape):
        from crypten.mpc.primitives import ArithmeticSharedTensor
        return ArithmeticSharedTensor(t if ctx.rank == src else None, size=shape, src=src, precision=0)

    def size_arg_b(ctx, t, src, shape):
        from crypten.mpc.primitives import BinarySharedTensor
        return BinarySharedTensor(t if ctx.rank == src else None, size=shape, src=src)

    def bcast(ctx, t, src, shape):
        import torch
        from crypten.mpc import MPCTensor
        return MPCTensor(t if ctx.rank == src else torch.empty(0, dtype=torch.int64), src=src, precision=0, broadcast_size=True)

    def bcast_b(ctx, t, src, shape):
        import torch
        from crypten.mpc import MPCTensor
        return MPCTensor(t if ctx.rank == src else torch.empty(0, dtype=torch.int64), ptype=P.binary, src=src, broadcast_size=True)

    def aux(kind):
        def f(ctx, t, src, shape):
            import crypten
            e = crypten.cryptensor(t, src=src, precision=0) if kind[0] == "a" else crypten.cryptensor(t, src=src, ptype=P.binary)
            m = kind[1:]
            if m == "clone":
                return e.clone()
            if m == "shallow":
                return e.shallow_copy()
            if m == "cryptensor":
                return e.detach()
            if m == "copy_":
                import torch
                o = crypten.cryptensor(torch.zeros(shape, dtype=torch.int64), precision=0) if kind[0] == "a" else crypten.cryptensor(torch.zeros(shape, dtype=torch.int64), ptype=P.binary)
                o.copy_(e)
                return o
        return f

    rd = lambda e: e.get_plain_text()
    rv = lambda e: e.reveal()
    cs = []
    sizes = (1, 2, 3, 4)
    for n in sizes:
        for src in range(n):
            cs.append(mkcase("cryptensor", n, src, (2,), arith, rd))
            cs.append(mkcase("binary", n, src, (2,), binary, rd))
            cs.append(mkcase("fixed-point-reveal", n, src, (2,), arith_fx, lambda e: e.reveal().double() / e.encoder.scale, kind="fx"))
            if n > 1:
                cs.append(mkcase("size", n, src, (2, 1), size_arg, rd))
                cs.append(mkcase("size-binary", n, src, (2, 1), size_arg_b, rd))
                cs.append(mkcase("broadcast_size", n, src, (2, 1), bcast, rd))
                cs.append(mkcase("broadcast_size-binary", n, src, (1, 2), bcast_b, rd))
        for d in range(n):
            for how in ("get_plain_text", "reveal"):
                for pt in ("arithmetic", "binary"):
                    cs.append(dst_only("mpc", n, d, pt, how))
    for shp in ((), (2, 2), (1, 2, 1)):
        for n in (1, 3):
            cs.append(mkcase("cryptensor", n, n - 1, shp, arith, rd))
            cs.append(mkcase("binary", n, n - 1, shp, binary, rd))
    for k in ("aclone", "bclone", "ashallow", "bshallow", "acopy_", "bcopy_", "acryptensor"):
        cs.append(mkcase(k, 2, 1, (2,), aux(k), rd))
        cs.append(mkcase(k, 3, 2, (2,), aux(k), rv))

    # two encryptions in a row, from different sources, decrypted in reverse order and as a batch
    for n in (2, 3, 4):
        def fn(ctx, n=n):
            import crypten
            import torch
            from crypten.mpc.primitives import ArithmeticSharedTensor as A
            e = [crypten.cryptensor(ctx.x(f"x{i}").clone() if ctx.rank == i else torch.zeros(2, dtype=torch.int64), src=i, precision=0) for i in range(n)]
            out = {f"z{i}": e[i].get_plain_text() for i in reversed(range(n))}
            b = A.reveal_batch([t._tensor for t in e])
            for i in range(n):
                out[f"b{i}"] = b[i]
            return out

        def post(e, n=n):
            obs = []
            for r in range(n):
                for i in range(n):
                    obs += eqs(e, f"z{i}@{r}", e.o(f"z{i}", r), e.x(f"x{i}")) + eqs(e, f"batch{i}@{r}", e.o(f"b{i}", r), e.x(f"x{i}"))
            return obs
        cs.append(Case(f"many-sources/N{n}", fn, post, ws=n, inputs={f"x{i}": I((2,)) for i in range(n)}))
    # refusals: a source that does not exist
    for n in (1, 2, 3):
        for bad in (n, -2):
            def fn(ctx, bad=bad):
                import crypten
                return {"z": crypten.cryptensor(ctx.x("x"), src=bad, precision=0).get_plain_text()}
            cs.append(Case(f"bad-source/{bad}/N{n}", fn, lambda e: [], ws=n, inputs={"x": I((2,))}, expect_raise=("AssertionError", "ValueError")))
    return cs
