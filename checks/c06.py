"""C06 truncation, rescaling and division by public values."""
import torch

from .lib import *

EXPLAIN = ("The real truncation protocols (local for one and two parties, wrap-count based for three and more, replicated for three) run on arbitrary symbolic 64-bit shares and symbolic "
           "protocol randomness; the solver decides the error bound of the reconstructed quotient, and that count_wraps is the exact number of wrap-arounds for every list of shares.")
BOUNDS = {"values": "all 64-bit shares, except the stated no-wrap condition", "divisors": "powers of two up to 2^20 and small odd numbers", "parties": "1..3 quick, 4 thorough"}
ASSUMPTIONS = ["the known 2^-k failure of two-party local truncation (shares of a value of magnitude 2^(63-k) that wrap around) and of the wrap-count protocol (eta != 0) is excluded by an explicit precondition on the shares/randomness"]


def wraps(n):
    def fn(ctx):
        from crypten.common.util import count_wraps

        l = [ctx.x(f"s{i}") for i in range(n)]
        k = [t.clone() for t in l]
        return {"w": count_wraps(l), "a": torch.stack(l), "b": torch.stack(k)}

    def post(e):
        obs = eqs(e, "arguments-unchanged", e.o("a"), e.o("b"))
        for j in range(2):
            s = [e.x(f"s{i}")[j] for i in range(n)]
            tot = N.lincomb([(v, 1) for v in s])
            D = N.lincomb([(N.ashr(v, N.ci(3)), 1) for v in s] + [(N.ashr(tot, N.ci(3)), -1)])
            # sum(s) = total + w * 2^64  <=>  |D - w * 2^61| <= n
            d = N.sub(D, N.mul(e.o("w")[j], N.ci(2**61)))
            w = e.o("w")[j]
            obs.append((f"count[{j}]", N.conj(N.sle(d, N.ci(n)), N.sle(N.ci(-n), d), N.sle(w, N.ci(n)), N.sle(N.ci(-n), w))))
        return obs

    return Case(f"count-wraps/{n}", fn, post, ws=1, inputs={f"s{i}": I((2,)) for i in range(n)}, timeout_ms=100000, tactic="lia")


def nowrap(v):
    """sum of the list v (64-bit nodes) does not leave the signed 64-bit range, as integers"""
    acc, out = v[0], []
    for x in v[1:]:
        t = N.add(acc, x)
        z = N.ci(0)
        same = N.iff(N.slt(acc, z), N.slt(x, z))
        out.append(N.implies(same, N.iff(N.slt(t, z), N.slt(acc, z))))
        acc = t
    return N.conj(*out)


def within(q, X, y, err):
    """|q - X / y| <= err for |X| < 2^63, y a small positive constant (no overflow: q in 64 bits)"""
    t = N.tdiv(X, N.ci(y))
    d = N.sub(q, t)
    return N.conj(N.sle(d, N.ci(err)), N.sle(N.ci(-err), d))


def trunc(ws, y, err, how="div_", rng=None, pre_nowrap=True, cfg=None, timeout=100000):
    def fn(ctx):
        x = arb(ctx, "x", 0 if how != "encode" else 20)
        if how == "div_":
            z = x.div_(y)
        elif how == "div":
            z = x.div(y)
        elif how == "op":
            z = x / y
        elif how == "tensor":
            z = x.div(torch.full((1,), y, dtype=torch.int64))
        elif how == "float":
            z = x.div(float(y))
        elif how == "encode":
            from crypten.encoder import FixedPointEncoder

            z = x.clone()
            z._tensor = x._tensor.encode(FixedPointEncoder(precision_bits=20 - (y.bit_length() - 1)))
        return {"z": z.reveal(), "x": x.reveal(), "sc": z.encoder.scale}

    def post(e):
        obs = []
        for r in range(ws):
            X = N.lincomb([(e.x(f"x.s{k}")[0], 1) for k in range(ws)])
            obs.append((f"quotient@{r}", within(e.o("z", r)[0], X, y, err)))
            if how != "div_":
                obs += eqs(e, f"operand@{r}", e.o("x", r), [X])
            obs.append((f"scale@{r}", N.cb(e.raw("sc", r) == (1 if how != "encode" else 2**20 // y))))
        return obs

    def pre(e):
        s = [e.x(f"x.s{k}")[0] for k in range(ws)]
        if cfg:  # replicated: parties 1 and 2 add their shares before dividing
            s = [s[0], N.add(s[1], s[2])]
        return [nowrap(s)] if pre_nowrap and ws > 1 else []

    lo, hi = rng or (None, None)
    return Case(f"divide/{how}/by{y}/N{ws}{'/small' if rng else ''}{'/replicated' if cfg else ''}", fn, post, ws=ws, inputs=share_inputs({"x": (1,)}, ws, lo, hi), pre=pre, timeout_ms=timeout, tactic="lia", cfg=cfg)


def low_bits(y, k):
    """two parties, no precondition at all: the quotient is right modulo 2^64 / y (y = 2^k)"""
    def fn(ctx):
        return {"z": arb(ctx, "x").div(y).reveal()}

    def post(e):
        obs = []
        for r in range(2):
            X = N.add(e.x("x.s0")[0], e.x("x.s1")[0])
            d = N.sub(e.o("z", r)[0], N.ashr(X, N.ci(k)))
            d = N.ashr(N.shl(d, N.ci(k)), N.ci(k))
            obs.append((f"low@{r}", N.conj(N.sle(d, N.ci(2)), N.sle(N.ci(-2), d))))
        return obs

    return Case(f"divide-any-shares/by{y}/N2", fn, post, ws=2, inputs=share_inputs({"x": (1,)}, 2), timeout_ms=100000, tactic="lia")


def truncN(ws, y, err, ttp=False):
    """>= 3 parties: wrap-count protocol. The secret is bounded by 2^40; the shares and the mask are
    arbitrary except that secret + mask does not wrap (probability 1 - 2^-23 of failure excluded)"""
    def fn(ctx):
        import crypten

        x = arb(ctx, "x")
        prov = crypten.mpc.get_default_provider()
        box = {}
        cls = type(prov)
        real = cls.wrap_rng
        cls.wrap_rng = lambda self, *a, **k: (lambda rt: (box.update(r=rt[0]._tensor.clone()), rt)[1])(real(self, *a, **k))
        try:
            z = x.div(y)
        finally:
            cls.wrap_rng = real
        return {"z": z.reveal(), "r": box["r"]}

    def X(e):
        return N.lincomb([(e.x(f"x.s{k}")[0], 1) for k in range(ws)])

    def post(e):
        R = N.lincomb([(e.o("r", k)[0], 1) for k in range(ws)])
        ok = nowrap([X(e), R])
        return [(f"quotient@{r}", N.implies(ok, within(e.o("z", r)[0], X(e), y, err))) for r in range(ws)][:1] + \
               [(f"agree@{r}", N.eq(e.o("z", r)[0], e.o("z", 0)[0])) for r in range(1, ws)]

    def pre(e):
        return [N.sle(X(e), N.ci(2**40)), N.sle(N.ci(-(2**40)), X(e))]

    return Case(f"divide-wraps/by{y}/N{ws}{'/TTP' if ttp else ''}", fn, post, ws=ws, ttp=ttp, inputs=share_inputs({"x": (1,)}, ws), pre=pre, timeout_ms=100000, tactic="lia", run_timeout=300)


def mul16(ws, pub, op="mul"):
    """fixed-point product at precision 16 from arbitrary shares that do not wrap: the product of the
    encodings divided by 2^16, within `ws` units in the last place (two units for N=1: toward zero)"""
    def fn(ctx):
        x = arb(ctx, "x", 16)
        c = 3.25
        z = x * c if op == "mul" else x.matmul(torch.full((1, 1), c))
        return {"z": z.reveal(), "sc": z.encoder.scale, "x": x.reveal()}

    shp = (1,) if op == "mul" else (1, 1)

    def post(e):
        obs = []
        for r in range(ws):
            X = N.lincomb([(e.x(f"x.s{k}")[0], 1) for k in range(ws)])
            P = N.mul(X, N.ci(int(3.25 * 65536)))
            obs += [(f"product@{r}", within(e.o("z", r)[0], P, 65536, 0 if ws == 1 else ws)), (f"scale@{r}", N.cb(e.raw("sc", r) == 65536))] + eqs(e, f"operand@{r}", e.o("x", r), [X])
        return obs

    def pre(e):
        return [nowrap([N.mul(e.x(f"x.s{k}")[0], N.ci(int(3.25 * 65536))) for k in range(ws)])]

    L = 2**44
    return Case(f"fixed-point/{op}-public/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": shp}, ws, -L, L), pre=pre, tactic="lia")


def pooled(ws, what):
    """mean and average pooling: sum / count within rounding"""
    shp, cnt = {"mean": ((4,), 4), "mean-dim": ((2, 3), 3), "mean-keep": ((2, 3), 2), "avg_pool2d": ((1, 1, 2, 2), 4), "avg_pool2d-rect": ((1, 1, 3, 2), 3), "avg_pool2d-pad": ((1, 1, 2, 2), 4)}[what]
    f = {"mean": lambda x: x.mean(), "mean-dim": lambda x: x.mean(1), "mean-keep": lambda x: x.mean(0, keepdim=True), "avg_pool2d": lambda x: x.avg_pool2d(2),
         "avg_pool2d-rect": lambda x: x.avg_pool2d((3, 1)), "avg_pool2d-pad": lambda x: x.avg_pool2d(2, stride=1, padding=1)}[what]

    def fn(ctx):
        x = arb(ctx, "x", 16)
        z = f(x)
        S = total(ctx, "x")
        if "pool" in what:
            k = dict(stride=1, padding=1) if "pad" in what else {}
            s = torch.nn.functional.avg_pool2d(S, (3, 1) if "rect" in what else 2, divisor_override=1, **k)
        else:
            s = S.sum() if what == "mean" else S.sum(1) if what == "mean-dim" else S.sum(0, keepdim=True)
        return {"z": z.reveal(), "s": s, "sc": z.encoder.scale, "x": x.reveal(), "w": S}

    def post(e):
        obs = []
        for r in range(ws):
            obs += [(f"shape@{r}", N.cb(e.shape("z", r) == e.shape("s", r))), (f"scale@{r}", N.cb(e.raw("sc", r) == 65536))]
            obs += [(f"mean@{r}[{i}]", within(z, s, cnt, 0 if ws == 1 else ws)) for i, (z, s) in enumerate(zip(e.o("z", r), e.o("s", r)))]
            obs += eqs(e, f"operand@{r}", e.o("x", r), e.o("w", r))
        return obs

    L = 2**58
    return Case(f"{what}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": shp}, ws, -L, L), tactic="lia")


def b2a_rescale(ws, p, q):
    """changing precision through the binary sharing keeps the value"""
    def fn(ctx):
        import crypten

        x = arb(ctx, "x", p)
        z = x.to(crypten.mpc.binary).to(crypten.mpc.arithmetic, precision=q)
        return {"z": z.reveal(), "sc": z.encoder.scale}

    def post(e):
        X = e.x("x.s0")[0]
        if q >= p:
            g = N.eq(e.o("z")[0], N.mul(X, N.ci(2 ** (q - p))))
        else:
            g = within(e.o("z")[0], X, 2 ** (p - q), 0)
        return [("value", g), ("scale", N.cb(e.raw("sc") == 2**q))]

    return Case(f"conversion-rescale/{p}to{q}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (1,)}, ws, -(2**40), 2**40))


def cases(tier):
    q = tier == "quick"
    cs = [wraps(n) for n in ((2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7))]
    pows = (1, 2, 256, 65536, 2**20) if q else tuple(2**k for k in range(0, 33))
    odds = (3, 10, 7, 1000) if q else (3, 5, 6, 7, 9, 10, 11, 12, 25, 49, 100, 255, 1000, 65535, 65537, 10**6)
    for y in pows + odds:
        for how in ("div_", "div", "op", "tensor", "float"):
            cs.append(trunc(1, y, 0, how))
            cs.append(trunc(2, y, 2, how))
        if y in pows and y < 2**40:
            cs.append(low_bits(y, y.bit_length() - 1))
        # 2^64 / y is approximated by 4 * floor(2^62 / y): up to 3 more per wrap-around for other divisors
        cs.append(truncN(3, y, 5 if y in pows else 12))
        if y in (65536, 3) or not q:
            cs.append(truncN(4, y, 8 if y in pows else 20))
            if not q:
                cs.append(truncN(5, y, 12 if y in pows else 28))
    for ws in (3, 4) if q else (3, 4, 5):
        for y in (65536, 10):
            cs.append(truncN(ws, y, (12 if y in pows else 28), ttp=True))
    for p in (4, 2**10):
        cs.append(trunc(1, p, 0, "encode"))
        cs.append(trunc(2, p, 2, "encode"))
    for y in (2, 65536, 10):
        cs.append(trunc(3, y, 4, "div", cfg={"mpc.protocol": "replicated"}))
    for ws in (1, 2):
        cs += [mul16(ws, True, "mul"), mul16(ws, True, "matmul")]
        for w in ("mean", "mean-dim", "mean-keep", "avg_pool2d", "avg_pool2d-rect", "avg_pool2d-pad"):
            cs.append(pooled(ws, w))
    for p, k in ((16, 16), (8, 16), (16, 8), (20, 16)):
        cs.append(b2a_rescale(1, p, k))
    return cs
