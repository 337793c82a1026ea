"""C09 comparisons and selection."""
import torch

from .c07 import IdealAdder
from .lib import *

EXPLAIN = ("Shares of the operands are arbitrary symbolic 64-bit words; the real comparison protocols (sign-bit extraction through A2B, the two-party equality circuit, single-bit B2A) run and the solver decides "
           "that the decrypted answer is exactly 0 or 1 and equal to the plaintext comparison. Selections built on them (abs, relu, sign, where, hardtanh, ...) run in exact arithmetic on symbolic reals.")
BOUNDS = {"values": "all raw words whose difference does not overflow; reals for the selections", "scales": "1, 2^8, 2^16, 2^20 and mixtures", "parties": "1..2 with the real adder circuit; 3..4 with the adder replaced by its specification (C07)",
          "shapes": "up to 2x2 elements for the circuits"}
ASSUMPTIONS = ["torch's int64 kernels are exact", "messages are delivered unmodified and in order", "selections: rounding abstracted"]

OPS = {
    "lt": (lambda x, y: x < y), "le": (lambda x, y: x <= y), "gt": (lambda x, y: x > y), "ge": (lambda x, y: x >= y), "eq": (lambda x, y: x == y), "ne": (lambda x, y: x != y),
    "lt()": (lambda x, y: x.lt(y)), "le()": (lambda x, y: x.le(y)), "gt()": (lambda x, y: x.gt(y)), "ge()": (lambda x, y: x.ge(y)), "eq()": (lambda x, y: x.eq(y)), "ne()": (lambda x, y: x.ne(y)),
}


def fits(X, Y):
    """X - Y and Y - X do not leave the signed 64-bit range"""
    o = []
    for x, y in zip(X, Y):
        d, z = N.sub(x, y), N.ci(0)
        o.append(N.implies(N.bnot(N.iff(N.slt(x, z), N.slt(y, z))), N.iff(N.slt(d, z), N.slt(x, z))))
        o.append(N.bnot(N.eq(d, N.ci(-(2**63)))))
    return N.conj(*o)


def cmp(name, op, ws, shapes, px=16, py=None, other="private", ttp=False, const=None, ideal=None, back=False, weight=1, decode=True):
    """op(x, y) decrypts to the comparison of the values; other: private | tensor | scalar | self"""
    py = px if py is None else py
    ideal = ws > 2 if ideal is None else ideal

    def sides(ctx):
        X = total(ctx, "x") << (max(px, py) - px)
        if other == "private":
            Y = total(ctx, "y") << (max(px, py) - py)
        elif other == "tensor":
            Y = ctx.x("y") << px
        elif other == "self":
            Y = X
        else:
            Y = torch.full((), int(const * 2**px), dtype=torch.int64)
        return X, Y

    def fn(ctx):
        x = arb(ctx, "x", px)
        y = {"private": lambda: arb(ctx, "y", py), "tensor": lambda: ctx.x("y").clone(), "scalar": lambda: const, "self": lambda: x}[other]()
        with IdealAdder(ctx, ideal):
            z = op(y, x) if back else op(x, y)
            # the answer can be used in further arithmetic
            t = z * 3 + 1
        X, Y = sides(ctx)
        w = op(Y, X) if back else op(X, Y)
        o = {"z": z.get_plain_text() if decode else z.reveal(), "raw": z.reveal(), "t": t.reveal(), "w": w, "X": X, "Y": Y.expand(X.shape) if other == "scalar" else Y, "x": x.reveal(), "xt": total(ctx, "x")}
        if other == "private":
            o["y"], o["yt"] = y.reveal(), total(ctx, "y") << (max(y.encoder._precision_bits, py) - py)
        o["s"] = (z.encoder.scale, t.encoder.scale)
        return o

    def post(e):
        obs = []
        for r in range(ws):
            obs.append((f"shape@{r}", N.cb(e.shape("z", r) == e.shape("w", r))))
            sz, st = e.raw("s", r)
            if e.symbolic:
                obs += lemmas(e, r)
            for i, (z, w, raw, t) in enumerate(zip(e.o("z", r), e.o("w", r), e.o("raw", r), e.o("t", r))):
                w = N.b2i(w) if N.SORTS[w] == "b" else w
                obs.append((f"raw@{r}[{i}]", N.eq(raw, N.mul(w, N.ci(sz)))))
                obs.append((f"value@{r}[{i}]", N.feq(tofloat(z), tofloat(w))))
                obs.append((f"reuse@{r}[{i}]", N.eq(t, N.mul(N.add(N.mul(w, N.ci(3)), N.ci(1)), N.ci(st)))))
            obs += eqs(e, f"operand@{r}", e.o("x", r), e.o("xt", r))
            if other == "private":
                obs += eqs(e, f"operand-y@{r}", e.o("y", r), e.o("yt", r))
        return obs

    def lemmas(e, r):
        """answer == sign bit of the difference, wherever negating the difference does not overflow"""
        o = []
        if name.split("(")[0] not in ("lt", "le", "gt", "ge") + (("ne",) if ws != 2 else ()):
            return o
        sz, st = e.raw("s", r)
        X, Y = e.o("X", r), e.o("Y", r)
        for i, (raw, t) in enumerate(zip(e.o("raw", r), e.o("t", r))):
            if len(X) != len(Y) or len(X) != len(e.o("raw", r)):
                break
            D = N.sub(X[i], Y[i])
            if name.split("(")[0] in ("le", "gt"):
                D = N.neg(D)
            b = N.slt(D, N.ci(0))
            if name.split("(")[0] in ("ge", "le"):
                b = N.bnot(b)
            if name.split("(")[0] == "ne":
                b = N.bnot(N.eq(D, N.ci(0)))
            o.append(Rewrite(t, N.lincomb([(raw, 3 * st // sz)], st)))
            o.append(Rewrite(raw, N.ite(b, N.ci(sz), N.ci(0)), [N.bnot(N.eq(D, N.ci(-(2**63))))]))
        return o

    def tot(e, k):
        n = len(e.x(f"{k}.s0"))
        return [N.lincomb([(e.x(f"{k}.s{r}")[i], 1) for r in range(ws)]) for i in range(n)]

    def pre(e):
        X = tot(e, "x")
        m = max(px, py)
        o = []
        if m > px:
            o += [N.conj(N.slt(v, N.ci(2 ** (61 - m + px))), N.slt(N.ci(-(2 ** (61 - m + px))), v)) for v in X]
            X = [N.mul(v, N.ci(2 ** (m - px))) for v in X]
        if other == "self":
            return o
        if other == "private":
            Y = tot(e, "y")
            if m > py:
                o += [N.conj(N.slt(v, N.ci(2 ** (61 - m + py))), N.slt(N.ci(-(2 ** (61 - m + py))), v)) for v in Y]
                Y = [N.mul(v, N.ci(2 ** (m - py))) for v in Y]
        elif other == "tensor":
            Y = [N.mul(v, N.ci(2**px)) for v in e.x("y")]
        else:
            Y = [N.ci(int(const * 2**px))] * len(X)
        if other != "scalar" and shapes[0] != shapes[1]:  # broadcasting: bound both sides instead
            b = N.ci(2**61)
            return o + [N.conj(N.slt(v, b), N.slt(N.neg(b), v)) for v in X + Y]
        return o + [fits(X, Y)]

    inputs = share_inputs({"x": shapes[0]}, ws)
    if other == "private":
        inputs.update(share_inputs({"y": shapes[1]}, ws))
    elif other == "tensor":
        inputs["y"] = I(shapes[1], -(2**24), 2**24)
    tag = {"private": f"p{px}-p{py}", "tensor": f"p{px}-public", "scalar": f"p{px}-scalar{const}", "self": f"p{px}-self"}[other]
    sh = ",".join("x".join(map(str, s)) for s in shapes)
    return Case(f"{name}/{tag}/{sh}/N{ws}{'/TTP' if ttp else ''}{'/reflected' if back else ''}", fn, post, ws=ws, inputs=inputs, pre=pre, ttp=ttp, timeout_ms=150000, weight=weight)


def ltz(ws, p, ideal):
    def fn(ctx):
        x = arb(ctx, "x", p)
        with IdealAdder(ctx, ideal):
            z = x._ltz()
        return {"z": z.get_plain_text(), "w": total(ctx, "x") < 0, "x": x.reveal(), "xt": total(ctx, "x")}

    def post(e):
        return sum([[(f"value@{r}", N.feq(tofloat(e.o("z", r)[0]), tofloat(e.o("w", r)[0])))] + eqs(e, f"operand@{r}", e.o("x", r), e.o("xt", r)) for r in range(ws)], [])

    return Case(f"ltz/p{p}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (1,)}, ws), timeout_ms=150000)


def sign(ws, p, n=2):
    """sign on raw words"""
    def fn(ctx):
        import crypten

        x = arb(ctx, "x", p)
        with IdealAdder(ctx, ws > 2):
            z = x.sign()
        return {"z": z.reveal(), "s": z.encoder.scale, "w": 1 - 2 * (total(ctx, "x") < 0).long(), "x": x.reveal(), "xt": total(ctx, "x")}

    def post(e):
        o = []
        for r in range(ws):
            s = e.raw("s", r)
            o.append((f"shape@{r}", N.cb(e.shape("z", r) == e.shape("w", r))))
            for i, (z, w) in enumerate(zip(e.o("z", r), e.o("w", r))):
                o.append((f"value@{r}[{i}]", N.eq(z, N.mul(w, N.ci(s)))))
            o += eqs(e, f"operand@{r}", e.o("x", r), e.o("xt", r))
        return o

    def pre(e):
        X = [N.lincomb([(e.x(f"x.s{r}")[i], 1) for r in range(ws)]) for i in range(n)]
        return [N.conj(N.slt(v, N.ci(2**40)), N.slt(N.ci(-(2**40)), v)) for v in X]

    return Case(f"raw-sign/p{p}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (n,)}, ws), pre=pre, timeout_ms=150000)


def pick(ws):
    """where() with an encrypted condition (integer encoding) and public fixed-point alternatives"""
    def fn(ctx):
        import crypten

        c = arb(ctx, "c", 0)
        x, y = ctx.x("x").clone(), ctx.x("y").clone()
        z = crypten.where(c, x, y)
        C = total(ctx, "c")
        X, Y = (x.double() * 2**16).long(), (y.double() * 2**16).long()
        return {"z": z.reveal(), "s": z.encoder.scale, "w": C * X + (1 - C) * Y}

    def post(e):
        o = []
        for r in range(ws):
            sc = e.raw("s", r)
            o += [(f"scale@{r}", N.cb(sc in (1, 2**16)))]
            o += eqs(e, f"value@{r}", [N.mul(z, N.ci(2**16 // sc)) for z in e.o("z", r)], e.o("w", r))
        return o

    frac = lambda e, k: N.bnot(N.eq(N.band(e.x(k)[0], N.ci(2**16 - 1)), N.ci(0)))
    inputs = share_inputs({"c": (2,)}, ws)
    inputs.update({"x": I((2,), -(2**20), 2**20, kind="fx"), "y": I((2,), -(2**20), 2**20, kind="fx")})
    return Case(f"pick-public/N{ws}", fn, post, ws=ws, inputs=inputs, pre=lambda e: [frac(e, "x"), frac(e, "y")])


def W3(c, x, y):
    """plaintext where with 0/1 float conditions"""
    if not isinstance(c, torch.Tensor) or c.dtype != torch.bool:
        c = c > 0.5
    return torch.where(c, x, y)


def reals(q):
    cs = []

    def add(name, op, shapes, ref=None, **k):
        for ws in k.pop("parties", (1, 2)):
            cs.append(hom_real(f"real/{name}", op, shapes, ws=ws, ref=ref, **k))

    v = {"x": (3,)}
    xy = {"x": (2, 2), "y": (2, 2)}
    bc = {"x": (2, 1), "y": (3,)}
    for k, f in OPS.items():
        if "()" in k:
            continue
        add(k, f, xy, ref=lambda x, y, f=f: f(x, y).float(), parties=(1, 2, 3))
        add(k + "-broadcast", f, bc, ref=lambda x, y, f=f: f(x, y).float())
        add(k + "-public", f, {"x": (2, 2)}, ref=lambda x, y, f=f: f(x, y).float(), pub={"y": R((2,))}, parties=(1, 3))
        add(k + "-reflected", lambda x, f=f: f(0.5, x) if False else f(x, 0.5), v, ref=lambda x, f=f: f(x, 0.5).float())
        add(k + "-scales", f, {"x": (2,), "y": (2,)}, ref=lambda x, y, f=f: f(x, y).float(), prec={"x": 20, "y": 8})
        add(k + "-scales2", f, {"x": (2,), "y": (2,)}, ref=lambda x, y, f=f: f(x, y).float(), prec={"x": 8, "y": 20}, parties=(1, 2, 3))
    S = lambda x: torch.where(x >= 0, torch.ones_like(x), -torch.ones_like(x))
    for p in (None, 8, 20):
        pr = {} if p is None else {"x": p}
        t = "" if p is None else f"-p{p}"
        add("sign" + t, lambda x: x.sign(), v, ref=S, prec=pr)
        add("abs" + t, lambda x: x.abs(), v, prec=pr)
        add("relu" + t, lambda x: x.relu(), v, ref=torch.relu, prec=pr)
        add("hardtanh" + t, lambda x: x.hardtanh(), v, ref=lambda x: torch.nn.functional.hardtanh(x), prec=pr)
    add("relu-2d", lambda x: x.relu(), {"x": (2, 2)}, ref=torch.relu, parties=(3,))
    add("hardtanh-args", lambda x: x.hardtanh(-2, 3), v, ref=lambda x: torch.nn.functional.hardtanh(x, -2, 3))
    add("hardtanh-asym", lambda x: x.hardtanh(0.5, 1.25), v, ref=lambda x: torch.nn.functional.hardtanh(x, 0.5, 1.25))
    add("relu6", lambda x: x.relu6() if hasattr(x, "relu6") else x.hardtanh(0, 6), v, ref=lambda x: x.clamp(0, 6), rng=(-9, 9))
    # where: encrypted and public conditions, encrypted and public alternatives
    add("where", lambda x, y, c: x.where(c > 0, y), {"x": (2, 2), "y": (2, 2), "c": (2, 2)}, ref=lambda x, y, c: W3(c > 0, x, y), parties=(1, 2, 3))
    add("where-broadcast", lambda x, y, c: x.where(c > 0, y), {"x": (2, 1), "y": (2,), "c": (2, 2)}, ref=lambda x, y, c: W3(c > 0, x, y))
    add("where-y-public", lambda x, y, c: x.where(c > 0, y), {"x": (3,), "c": (3,)}, pub={"y": R((3,))}, ref=lambda x, y, c: W3(c > 0, x, y))
    cond = torch.tensor([True, False, True])
    for nm, cc in (("bool", cond), ("long", cond.long()), ("float", cond.float())):
        add(f"where-public-{nm}", lambda x, y, cc=cc: x.where(cc, y), {"x": (3,), "y": (3,)}, ref=lambda x, y: W3(cond, x, y))
        add(f"where-public-{nm}-scalar", lambda x, cc=cc: x.where(cc, 2.5), {"x": (3,)}, ref=lambda x: W3(cond, x, torch.full((3,), 2.5)))

    def cw(c, x, y):
        import crypten

        return crypten.where(c, x, y)

    add("crypten.where", lambda x, y, c: cw(c > 0, x, y), {"x": (2, 2), "y": (2, 2), "c": (2, 2)}, ref=lambda x, y, c: W3(c > 0, x, y))
    add("crypten.where-public", lambda x, y: cw(cond, x, y), {"x": (3,), "y": (3,)}, ref=lambda x, y: W3(cond, x, y))
    add("crypten.where-plain-input", lambda y, c, x: cw(c > 0, x, y), {"y": (3,), "c": (3,)}, pub={"x": R((3,))}, ref=lambda x, y, c: W3(c > 0, x, y))
    # answers in further computation
    add("count-positive", lambda x: (x > 0).sum(), {"x": (3,)}, ref=lambda x: (x > 0).float().sum())
    add("masked-sum", lambda x, y: (x * (x >= y)).sum(0), xy, ref=lambda x, y: (x * (x >= y)).sum(0))
    add("and", lambda x, y: (x > 0) * (y > 0), xy, ref=lambda x, y: ((x > 0) & (y > 0)).float())
    add("not", lambda x: 1 - (x > 0), v, ref=lambda x: (x <= 0).float())
    add("xor", lambda x, y: (x > 0).ne(y > 0), xy, ref=lambda x, y: ((x > 0) ^ (y > 0)).float())
    add("compare-twice", lambda x, y: (x > y) > (y > x), xy, ref=lambda x, y: (x > y).float())
    add("scaled-answer", lambda x: (x < 0) * 2.5 - 1, v, ref=lambda x: (x < 0).float() * 2.5 - 1)
    add("between", lambda x: (x > -1) * (x < 1.5), v, ref=lambda x: ((x > -1) & (x < 1.5)).float())
    return cs


def cases(tier):
    q = tier == "quick"
    cs = []
    scales = (0, 16, 20) if q else (0, 1, 8, 12, 16, 20)
    for ws in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        # two parties: the real adder circuit for the main forms, its specification (C07) for the variants
        idl = True if q and ws == 2 else None
        for p in scales:
            cs.append(ltz(ws, p, ws > 2))
        for k, f in OPS.items():
            if "()" in k and ws != 2:
                continue
            for p in scales if "()" not in k else (16,):
                cs.append(cmp(k, f, ws, ((1,), (1,)), p, ideal=None if p == 16 and "()" not in k else idl))
            cs.append(cmp(k, f, ws, ((1,), (1,)), 16, other="tensor", ideal=idl))
            cs.append(cmp(k, f, ws, ((1,),), 16, other="scalar", const=0, ideal=idl))
            cs.append(cmp(k, f, ws, ((1,),), 16, other="scalar", const=-1.5, ideal=idl))
            cs.append(cmp(k, f, ws, ((1,),), 16, other="self", ideal=idl))
        for k in ("lt", "eq", "ne", "ge") if q else tuple(k for k in OPS if "()" not in k):
            cs.append(cmp(k, OPS[k], ws, ((1,), (1,)), 16, 8, ideal=idl))
            cs.append(cmp(k, OPS[k], ws, ((1,), (1,)), 8, 16, ideal=idl))
        cs.append(cmp("eq", OPS["eq"], ws, ((2, 1), (2,)), 16, ideal=idl))
        cs.append(cmp("le", OPS["le"], ws, ((2,), (1,)), 0, ideal=idl))
        cs.append(cmp("eq", OPS["eq"], ws, ((1,),), 0, other="scalar", const=7, ideal=idl))
    cs.append(cmp("lt", OPS["lt"], 2, ((1,), (1,)), 16, ttp=True, ideal=True))
    cs.append(cmp("eq", OPS["eq"], 2, ((1,), (1,)), 16, ttp=True))
    cs.append(cmp("ne", OPS["ne"], 3, ((1,), (1,)), 16, ttp=True))
    for ws in (1, 2, 3):
        cs.append(pick(ws))
        for p in (0, 16, 8):
            cs.append(sign(ws, p))
    slow = [c for c in cs if c.name.startswith('ne/p16-p16/1,1/N2')]  # first: they take longest
    return slow + [c for c in cs if c not in slow] + reals(q)
