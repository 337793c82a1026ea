"""Scenario builders shared by the checks.

A scenario runs the real CrypTen code in every party and, next to it, the
plaintext reference (plain torch on the decrypted values).  Two input regimes:

  ints   every party's share of every operand is an independent symbolic 64-bit
         integer (any sharing whatsoever), scale 1, arithmetic modulo 2**64
  reals  operands are symbolic reals encrypted at the default precision, under
         the exact-arithmetic abstraction (see DESIGN.md)
"""
import sys

import torch

from symx import nodes as N
from symx import world as W
from symx.case import Case, Env, I, Rewrite, close, shape_ok, tofloat  # noqa: F401


def flat(o):
    """flatten nested results to a list of tensors / cryptensors"""
    if isinstance(o, (list, tuple)):
        r = []
        for x in o:
            r += flat(x)
        return r
    return [o]


def plain(v, how):
    import torch

    if hasattr(v, "get_plain_text"):
        return v.reveal() if how == "reveal" else v.get_plain_text()
    if isinstance(v, (bool, int, float)):
        return torch.tensor(v)
    return v


def share_inputs(ops, ws, lo=None, hi=None):
    """one independent symbolic share per party for every operand"""
    d = {}
    for k, shp in ops.items():
        for r in range(ws):
            d[f"{k}.s{r}"] = I(shp, lo, hi)
    return d


def total(ctx, k):
    t = ctx.x(f"{k}.s0")
    for r in range(1, ctx.world_size):
        t = t + ctx.x(f"{k}.s{r}")
    return t


def arb(ctx, k, precision=0, ptype=None):
    """MPCTensor whose share in each party is an unconstrained symbolic value"""
    from crypten.mpc import MPCTensor

    kw = {} if ptype is None else {"ptype": ptype}
    return MPCTensor.from_shares(ctx.x(f"{k}.s{ctx.rank}").clone(), precision=precision, **kw)


def eqs(env, label, a, b):
    if len(a) != len(b):
        return [(label + ":numel", N.cb(False))]
    return [(f"{label}[{i}]", N.eq(x, y) if N.SORTS[x] != "b" else N.iff(x, y)) for i, (x, y) in enumerate(zip(a, b))]


def hom_int(name, op, shapes, ws=2, ref=None, ttp=False, zero_local=False, keep=True, ranks=None, cfg=None, pub=None, prec=0, **kw):
    """int regime: reveal(op(enc...)) == op(plain...) mod 2**64, for every sharing of every operand.
    pub: {name: I(...)} symbolic public operands"""
    pub = pub or {}
    ref = ref or op

    def fn(ctx):
        X = {k: arb(ctx, k, prec) for k in shapes}
        P = {k: total(ctx, k) for k in shapes}
        for k in pub:
            X[k] = ctx.x(k).clone()
            P[k] = ctx.x(k).clone()
        R = [plain(v, "reveal") for v in flat(op(**X))]
        Q = [plain(v, "reveal") for v in flat(ref(**P))]
        out = {}
        for i, (a, b) in enumerate(zip(R, Q)):
            out[f"z{i}"], out[f"q{i}"] = a, b
        out["n"] = (len(R), len(Q))
        if keep:
            for k in shapes:
                out[f"k:{k}"], out[f"p:{k}"] = X[k].reveal(), total(ctx, k)
        return out

    def post(e):
        obs = []
        for r in ranks if ranks is not None else range(ws):
            n = e.raw("n", r)
            obs.append((f"arity@{r}", N.cb(n[0] == n[1])))
            for i in range(n[0]):
                obs.append((f"shape{i}@{r}", N.cb(e.shape(f"z{i}", r) == e.shape(f"q{i}", r))))
                obs += eqs(e, f"value{i}@{r}", e.o(f"z{i}", r), e.o(f"q{i}", r))
            if keep:
                for k in shapes:
                    obs += eqs(e, f"operand-{k}-unchanged@{r}", e.o(f"k:{k}", r), e.o(f"p:{k}", r))
        return obs

    inputs = share_inputs(shapes, ws)
    inputs.update(pub)
    return Case(f"{name}/N{ws}{'/TTP' if ttp else ''}", fn, post, ws=ws, inputs=inputs, ttp=ttp, zero_local=zero_local, cfg=cfg, **kw)


def hom_real(name, op, shapes, ws=1, ref=None, pub=None, keep=True, rng=(-4, 4), cfg=None, pre=None, tol=0.02, stubs=(), prec=None, out="plain", ttp=False, **kw):
    """real regime: decrypt(op(enc...)) == op(plain...) exactly (no rounding)"""
    pub = pub or {}
    ref = ref or op
    prec = prec or {}

    def fn(ctx):
        import crypten

        X = {k: crypten.cryptensor(ctx.x(k).clone(), **({"precision": prec[k]} if k in prec else {})) for k in shapes}
        P = {k: ctx.x(k).clone() for k in shapes}
        for k in pub:
            X[k] = ctx.x(k).clone()
            P[k] = ctx.x(k).clone()
        R = [plain(v, out) for v in flat(op(**X))]
        Q = [plain(v, out) for v in flat(ref(**P))]
        o = {}
        for i, (a, b) in enumerate(zip(R, Q)):
            o[f"z{i}"], o[f"q{i}"] = a, b
        o["n"] = (len(R), len(Q))
        if keep:
            for k in shapes:
                o[f"k:{k}"], o[f"p:{k}"] = X[k].get_plain_text(), ctx.x(k)
        return o

    def post(e):
        obs = []
        for r in range(ws):
            n = e.raw("n", r)
            obs.append((f"arity@{r}", N.cb(n[0] == n[1])))
            for i in range(min(n)):
                obs.append((f"shape{i}@{r}", N.cb(e.shape(f"z{i}", r) == e.shape(f"q{i}", r))))
                obs += close(e, f"value{i}@{r}", e.o(f"z{i}", r), e.o(f"q{i}", r))
            if keep:
                for k in shapes:
                    obs += close(e, f"operand-{k}-unchanged@{r}", e.o(f"k:{k}", r), e.o(f"p:{k}", r))
        return obs

    inputs = {k: I(s, kind="real", attrs=rng) for k, s in shapes.items()}
    inputs.update(pub)
    return Case(f"{name}/N{ws}{'/TTP' if ttp else ''}", fn, post, ws=ws, inputs=inputs, fmode="ring", cfg=cfg, pre=pre, tol=tol, stubs=stubs, ttp=ttp, **kw)


def R(shape, lo=-4, hi=4):
    return I(shape, kind="real", attrs=(lo, hi))


def amax(x, s):
    """adaptive max pooling by its definition: windows floor(i*n/m) .. ceil((i+1)*n/m)"""
    s = (s, s) if isinstance(s, int) else s
    h, w = [x.shape[i - 2] if s[i] is None else s[i] for i in (0, 1)]
    H, W = x.shape[-2:]
    up = lambda a, b: -(-a // b)
    rows = [torch.stack([x[..., i * H // h : up((i + 1) * H, h), j * W // w : up((j + 1) * W, w)].amax((-2, -1)) for j in range(w)], -1) for i in range(h)]
    return torch.stack(rows, -2)
