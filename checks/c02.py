"""C02 fixed-point codec."""
import torch

from .lib import *

EXPLAIN = ("The real encoder runs on symbolic IEEE-754 binary32 inputs (SMT floating point) and on symbolic 64-bit raw values; the solver decides the "
           "rounding contract of encode, of decode, and of encrypt-then-decrypt for every value in range.")
BOUNDS = {"values": "all finite binary32 with |x| < 2^(62-p) for encode; all raw values with |r| < 2^62 for decode", "precision p": "0..30 (listed)", "parties": "1 (codec is local) and 2"}
ASSUMPTIONS = ["torch's float32/int64 kernels follow IEEE-754 round-to-nearest-even and C conversion semantics", "python lists and scalars are read element-wise by torch.tensor"]


def enc_case(p, via):
    """encode(x) == x * 2^p rounded toward zero"""
    def fn(ctx):
        from crypten.encoder import FixedPointEncoder
        import crypten

        x = ctx.x("x")
        if via == "encoder":
            r = FixedPointEncoder(precision_bits=p).encode(x)
        elif via == "default":
            r = FixedPointEncoder().encode(x)
        elif via == "list":
            r = FixedPointEncoder(precision_bits=p).encode(x)
        else:
            r = crypten.cryptensor(x, precision=p).reveal()
        return {"r": r, "x": x}

    def post(e):
        obs = []
        for i, (r, x) in enumerate(zip(e.o("r"), e.o("x"))):
            obs.append((f"nearest-toward-zero[{i}]", N.eq(r, N.f2i(N.fmul(x, N.cf(float(2**p)))))))
        return obs

    def pre(e):
        lim = N.cf(float(2 ** (62 - p)))
        return [N.conj(N.flt(x, lim), N.flt(N.fneg(lim), x)) for x in e.x("x")]

    return Case(f"encode/{via}/p{p}", fn, post, ws=1, inputs={"x": I((2,), kind="real")}, pre=pre, fmode="fp")


def dec_case(p, via, small):
    def fn(ctx):
        from crypten.encoder import FixedPointEncoder
        from crypten.mpc import MPCTensor

        r = ctx.x("r")
        before = r.clone()
        if via == "encoder":
            d = FixedPointEncoder(precision_bits=p).decode(r)
        else:
            d = MPCTensor.from_shares(r, precision=p).get_plain_text()
        return {"d": d, "before": before, "after": r}

    def post(e):
        obs = eqs(e, "argument-unchanged", e.o("after"), e.o("before"))
        for i, (d, r) in enumerate(zip(e.o("d"), e.x("r"))):
            if p == 0:
                obs.append((f"value[{i}]", N.eq(d, r) if N.SORTS[d] == "i" else N.feq(d, N.i2f(r, 32))))
                continue
            y = N.fmul(N.i2f(r, 32), N.cf(2.0**-p))
            err = N.fsub(d, y)
            a = lambda v: N.ite(N.flt(v, N.cf(0.0)), N.fneg(v), v)
            if small:
                obs.append((f"exact[{i}]", N.feq(d, y)))
            else:
                obs.append((f"within-one-ulp[{i}]", N.fle(a(err), N.fmul(a(y), N.cf(2.0**-22)))))
        return obs

    lim = 2**24 if small else 2**62
    return Case(f"decode/{via}/p{p}/{'exact' if small else 'wide'}", fn, post, ws=1, inputs={"r": I((1,), -lim, lim)}, fmode="fp", timeout_ms=120000)


def trip(p, ws, src):
    """encrypt, decrypt: at most one unit in the last place of the encoding away (toward zero)"""
    def fn(ctx):
        import crypten

        x = ctx.x("x")
        t = x.clone() if ctx.rank == src else torch.zeros((1,))
        return {"y": crypten.cryptensor(t, src=src, precision=p).get_plain_text()}

    lim = 2.0 ** (23 - p)

    def post(e):
        obs = []
        for rk in range(ws):
            for i, (y, x) in enumerate(zip(e.o("y", rk), e.x("x"))):
                y = tofloat(y) if p else y
                d = N.fsub(x, y if N.SORTS[y] == "f" else N.i2f(y, 32))
                obs.append((f"error@{rk}[{i}]", N.conj(N.flt(d, N.cf(2.0**-p)), N.flt(N.cf(-(2.0**-p)), d))))
        return obs

    def pre(e):
        return [N.conj(N.flt(x, N.cf(lim)), N.flt(N.cf(-lim), x)) for x in e.x("x")]

    return Case(f"round-trip/p{p}/src{src}/N{ws}", fn, post, ws=ws, inputs={"x": I((1,), kind="real")}, pre=pre, fmode="fp", timeout_ms=120000)


def int_trip(p, dt, ws):
    def fn(ctx):
        import crypten

        x = ctx.x("x").to(dt)
        y = crypten.cryptensor(x, precision=p).get_plain_text()
        return {"y": y, "p": x}

    def post(e):
        return [(f"value@{r}[{i}]", N.feq(tofloat(y), tofloat(x))) for r in range(ws) for i, (y, x) in enumerate(zip(e.o("y", r), e.o("p", r)))]

    lim = {torch.int64: 2**24, torch.int32: 2**24, torch.int16: 2**15, torch.int8: 2**7, torch.uint8: 2**8}[dt]
    lo = 0 if dt == torch.uint8 else -lim
    return Case(f"integers/{str(dt)[6:]}/p{p}/N{ws}", fn, post, ws=ws, inputs={"x": I((2,), lo, lim)})


def enc_int(p, dt):
    """integer tensors of every width are widened before they are scaled"""
    def fn(ctx):
        from crypten.encoder import FixedPointEncoder

        f = FixedPointEncoder(precision_bits=p)
        x = ctx.x("x").to(dt)
        r = f.encode(x)
        return {"r": r, "x": x.long(), "d": f.decode(r)}

    def post(e):
        return eqs(e, "raw", e.o("r"), [N.mul(v, N.ci(2**p)) for v in e.o("x")]) + [(f"decoded[{i}]", N.feq(tofloat(y), tofloat(x))) for i, (y, x) in enumerate(zip(e.o("d"), e.x("x")))]

    b = {torch.int64: 40, torch.int32: 31, torch.int16: 15, torch.int8: 7, torch.uint8: 8}[dt]
    return Case(f"encode-integers/{str(dt)[6:]}/p{p}", fn, post, ws=1, inputs={"x": I((2,), 0 if dt == torch.uint8 else -(2 ** min(b, 24)), 2 ** min(b, 24))})


def numpy_case(dt, p):
    """numpy arrays: torch.from_numpy is replaced by a stand-in that yields the symbolic tensor"""
    def fn(ctx):
        import numpy as np
        from crypten.encoder import FixedPointEncoder

        x = ctx.x("x") if dt.is_floating_point else ctx.x("x").to(dt)
        if ctx.symbolic:
            arr = np.zeros(2, dtype=str(dt)[6:])
            orig, torch.from_numpy = torch.from_numpy, lambda a: x if a is arr else orig(a)
            try:
                r = FixedPointEncoder(precision_bits=p).encode(arr)
            finally:
                torch.from_numpy = orig
        else:
            r = FixedPointEncoder(precision_bits=p).encode(x.numpy())
        return {"r": r, "x": x}

    def post(e):
        if dt.is_floating_point:
            return [(f"raw[{i}]", N.eq(r, N.f2i(N.fmul(x, N.cf(float(2**p)))))) for i, (r, x) in enumerate(zip(e.o("r"), e.o("x")))]
        return [(f"raw[{i}]", N.eq(r, N.mul(x, N.ci(2**p)))) for i, (r, x) in enumerate(zip(e.o("r"), e.o("x")))]

    if dt.is_floating_point:
        return Case(f"numpy/{str(dt)[6:]}/p{p}", fn, post, ws=1, inputs={"x": I((2,), -(2**40), 2**40, kind="fx", k=20, dtype=dt if dt == torch.float64 else torch.float64)})
    return Case(f"numpy/{str(dt)[6:]}/p{p}", fn, post, ws=1, inputs={"x": I((2,), -(2**20), 2**20)})


def fixed(p):
    """python scalars and lists: representative constants (not symbolic)"""
    def fn(ctx):
        from crypten.encoder import FixedPointEncoder

        f = FixedPointEncoder(precision_bits=p)
        vals = [0, 1, -1, 3, 1000, -65537, 0.5, -0.25, 1.75, -3.0625]
        return {"s": torch.stack([f.encode(v).reshape(()) for v in vals]), "l": f.encode([float(v) for v in vals]),
                "w": torch.tensor([int(v * 2**p) for v in vals]), "sync": (f.scale, f._precision_bits)}

    def post(e):
        return eqs(e, "scalar", e.o("s"), e.o("w")) + eqs(e, "list", e.o("l"), e.o("w")) + [("scale", N.cb(list(e.raw("sync")) == [2**p, p]))]

    return Case(f"python-values/p{p}", fn, post, ws=1)


def nearest(d):
    def fn(ctx):
        from crypten.encoder import nearest_integer_division

        return {"q": nearest_integer_division(ctx.x("t"), d)}

    def post(e):
        q, t = e.o("q")[0], e.x("t")[0]
        diff = N.sub(N.mul(q, N.ci(2 * d)), N.mul(t, N.ci(2)))
        return [("half", N.conj(N.sle(diff, N.ci(d)), N.sle(N.ci(-d), diff)))]

    return Case(f"nearest-division/{d}", fn, post, ws=1, inputs={"t": I((1,), -(2**20), 2**20)})


def rescale(p, q, ws):
    """changing the encoding of a ciphertext to a finer one keeps the value exactly"""
    def fn(ctx):
        from crypten.encoder import FixedPointEncoder

        x = arb(ctx, "x", p)
        y = x._tensor.encode(FixedPointEncoder(precision_bits=q))
        return {"y": y.reveal(), "s": y.encoder.scale, "x": x.reveal(), "xs": x.encoder.scale}

    def post(e):
        X = [N.lincomb([(e.x(f"x.s{r}")[i], 1) for r in range(ws)]) for i in range(2)]
        return ([("scale", N.cb(e.raw("s") == 2**q and e.raw("xs") == 2**p))] + eqs(e, "value", e.o("y"), [N.mul(v, N.ci(2 ** (q - p))) for v in X])
                + eqs(e, "operand", e.o("x"), X))

    return Case(f"rescale/{p}to{q}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (2,)}, ws))


def cases(tier):
    cs = []
    ps = (1, 8, 16, 20, 30) if tier == "quick" else (1, 2, 4, 8, 10, 12, 16, 18, 20, 24, 28, 30)
    for p in ps:
        cs.append(enc_case(p, "encoder"))
        cs.append(enc_case(p, "tensor"))
        if p <= 20:  # beyond that dividend + remainder needs more than 24 bits
            cs.append(dec_case(p, "encoder", True))
        cs.append(numpy_case(torch.float64, p))
        cs.append(numpy_case(torch.int64, p))
        cs.append(fixed(p))
    cs.append(numpy_case(torch.int32, 16))
    cs.append(enc_case(16, "default"))
    for p in (16,) if tier == "quick" else ps:
        cs.insert(0, dec_case(p, "encoder", False))
        if tier != "quick":
            cs.insert(0, dec_case(p, "tensor", False))
        if p <= 20:
            cs.append(dec_case(p, "tensor", True))
    cs.append(dec_case(0, "encoder", False))
    cs.append(dec_case(0, "tensor", False))
    for p in (4, 10, 16):
        cs.append(trip(p, 1, 0))
    cs += [trip(16, 2, 0), trip(16, 2, 1), trip(10, 3, 1)]
    for dt in (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8):
        for p in (None, 0, 8):
            cs.append(int_trip(p, dt, 1))
            cs.append(enc_int(16 if p is None else p, dt))
    cs += [int_trip(None, torch.int64, 2), int_trip(None, torch.int64, 3)]
    for d in (1, 2, 3, 5, 8, 10):
        cs.append(nearest(d))
    for p, q in ((0, 16), (8, 16), (16, 20), (16, 16)):
        for n in (1, 2, 3):
            cs.append(rescale(p, q, n))
    return cs
