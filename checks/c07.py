"""C07 binary-shared tensors: gates and circuits."""
import torch

from .lib import *

EXPLAIN = ("XOR shares are independent symbolic 64-bit words in every party; the real gates (Beaver AND with symbolic triples), shifts, prefix circuits, comparisons, sums and selections "
           "run on them and the solver decides bit-for-bit equality with the plaintext operation on the reconstructed words.")
BOUNDS = {"values": "all 64-bit words, all sharings, all triples", "parties": "1..3 for gates (1..4 thorough), 1..2 for the prefix circuits (3 thorough)", "shapes": "up to 2-d"}
ASSUMPTIONS = ["torch's int64 bit kernels are exact", "messages are delivered unmodified and in order"]


def B(ctx, k):
    from crypten.mpc.primitives import BinarySharedTensor

    return BinarySharedTensor.from_shares(ctx.x(f"{k}.s{ctx.rank}").clone(), precision=0)


def xtotal(ctx, k):
    t = ctx.x(f"{k}.s0")
    for r in range(1, ctx.world_size):
        t = t ^ ctx.x(f"{k}.s{r}")
    return t


class IdealAdder:
    """symbolic runs of sums only: the adder is replaced by its specification, which the add scenarios establish"""

    def __init__(self, ctx, on):
        self.on = on and ctx.symbolic

    def __enter__(self):
        if self.on:
            from crypten.mpc.primitives import BinarySharedTensor as Bt

            self.saved = Bt.add, Bt.__add__, Bt.__radd__
            Bt.add = Bt.__add__ = Bt.__radd__ = lambda s, y: Bt(s.reveal() + (y.reveal() if isinstance(y, Bt) else y), src=0)

    def __exit__(self, *a):
        if self.on:
            from crypten.mpc.primitives import BinarySharedTensor as Bt

            Bt.add, Bt.__add__, Bt.__radd__ = self.saved


def gate(name, op, shapes, ws, ref=None, pub=None, ttp=False, low=None, keep=True, ideal_add=False, **kw):
    """op on BinarySharedTensors == ref (default: op) on the words"""
    pub = pub or {}
    ref = ref or op

    def fn(ctx):
        X = {k: B(ctx, k) for k in shapes}
        P = {k: xtotal(ctx, k).clone() for k in shapes}
        for k in pub:
            X[k] = ctx.x(k).clone()
            P[k] = ctx.x(k).clone()
        with IdealAdder(ctx, ideal_add):
            z = op(**X)
        q = ref(**P)
        o = {"z": z.reveal(), "q": q}
        if keep:
            for k in shapes:
                o["k:" + k], o["p:" + k] = X[k].reveal(), xtotal(ctx, k)
        return o

    def post(e):
        obs = []
        for r in range(ws):
            z, q = e.o("z", r), e.o("q", r)
            q = [N.b2i(v) if N.SORTS[v] == "b" else v for v in q]
            obs += [(f"shape@{r}", N.cb(e.shape("z", r) == e.shape("q", r)))] + eqs(e, f"value@{r}", z, q)
            if keep:
                for k in shapes:
                    obs += eqs(e, f"operand-{k}-unchanged@{r}", e.o("k:" + k, r), e.o("p:" + k, r))
        return obs

    inputs = share_inputs(shapes, ws)
    inputs.update(pub)
    return Case(f"{name}/N{ws}{'/TTP' if ttp else ''}", fn, post, ws=ws, inputs=inputs, ttp=ttp, timeout_ms=kw.pop("timeout_ms", 150000), **kw)


def L(b):
    return b.long() if isinstance(b, torch.Tensor) else b


TWO = {
    "xor": lambda x, y: x ^ y,
    "and": lambda x, y: x & y,
    "or": lambda x, y: x | y,
    "and-xor-chain": lambda x, y: ((x & y) ^ x) & (y ^ x),
}
CIRC = {
    "add": (lambda x, y: x + y, None),
    "eq": (lambda x, y: x.eq(y), lambda x, y: L(x == y)),
    "ne": (lambda x, y: x.ne(y), lambda x, y: L(x != y)),
    "lt": (lambda x, y: x.lt(y), lambda x, y: L(x < y)),
    "le": (lambda x, y: x.le(y), lambda x, y: L(x <= y)),
    "gt": (lambda x, y: x.gt(y), lambda x, y: L(x > y)),
    "ge": (lambda x, y: x.ge(y), lambda x, y: L(x >= y)),
}


def inplace(name, f, ws, pub):
    def fn(ctx):
        x = B(ctx, "x")
        y = ctx.x("y") if pub else B(ctx, "y")
        z = f(x, y)
        return {"x": x.reveal(), "w": f(xtotal(ctx, "x").clone(), ctx.x("y") if pub else xtotal(ctx, "y")), "same": z is x}

    def post(e):
        o = []
        for r in range(ws):
            o += eqs(e, f"value@{r}", e.o("x", r), e.o("w", r)) + [(f"same@{r}", N.cb(e.raw("same", r)))]
        return o

    inputs = share_inputs({"x": (2,)}, ws)
    inputs.update({"y": I((2,))} if pub else share_inputs({"y": (2,)}, ws))
    return Case(f"inplace/{name}/{'public' if pub else 'private'}/N{ws}", fn, post, ws=ws, inputs=inputs)


def ixor(x, y):
    x ^= y
    return x


def iand(x, y):
    x &= y
    return x


def ior(x, y):
    x |= y
    return x


def where(ws, pub):
    def fn(ctx):
        x, y = B(ctx, "x"), B(ctx, "y")
        if pub:
            c = ctx.x("c") & 1
            cond = c
        else:
            cc = B(ctx, "c") & 1
            c = xtotal(ctx, "c") & 1
            cond = cc
        z = x.where(cond, y)
        X, Y = xtotal(ctx, "x"), xtotal(ctx, "y")
        return {"z": z.reveal(), "w": torch.where(c == 1, X, Y)}

    inputs = share_inputs({"x": (2,), "y": (2,)}, ws)
    inputs.update({"c": I((2,))} if pub else share_inputs({"c": (2,)}, ws))
    return Case(f"where/{'public' if pub else 'private'}/N{ws}", fn, lambda e: sum([eqs(e, f"value@{r}", e.o("z", r), e.o("w", r)) for r in range(ws)], []), ws=ws, inputs=inputs, timeout_ms=100000)


def shares_of(ws, src):
    """encrypting words with binary ptype: reveal gives them back; PRZS reconstructs to zero"""
    def fn(ctx):
        import crypten
        from crypten.mpc.primitives import BinarySharedTensor

        t = ctx.x("x").clone() if ctx.rank == src else torch.zeros((2,), dtype=torch.int64)
        x = crypten.cryptensor(t, src=src, ptype=crypten.mpc.binary)
        return {"x": x.reveal(), "z": BinarySharedTensor.PRZS((2,)).reveal(), "d": BinarySharedTensor(t, src=src).reveal()}

    def post(e):
        o = []
        for r in range(ws):
            o += eqs(e, f"value@{r}", e.o("x", r), e.x("x")) + eqs(e, f"direct@{r}", e.o("d", r), e.x("x")) + eqs(e, f"zero@{r}", e.o("z", r), [N.ci(0)] * 2)
        return o

    return Case(f"encrypt/src{src}/N{ws}", fn, post, ws=ws, inputs={"x": I((2,))})


def cases(tier):
    q = tier == "quick"
    cs = []
    for ws in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for k, f in TWO.items():
            cs.append(gate(k, f, {"x": (2, 2), "y": (2, 2)}, ws))
            cs.append(gate(k + "-broadcast", f, {"x": (2, 1), "y": (3,)}, ws))
            if k != "and-xor-chain":
                cs.append(gate(k + "-expand", f, {"x": (2,), "y": (3, 2)}, ws))
                cs.append(gate(k + "-public", f, {"x": (2, 2)}, ws, pub={"y": I((2, 2))}))
                cs.append(gate(k + "-public-broadcast", f, {"x": (2, 1)}, ws, pub={"y": I((3,))}))
                cs.append(gate(k + "-int", lambda x, f=f: f(x, 6148914691236517205), {"x": (2,)}, ws))
                cs.append(gate(k + "-negint", lambda x, f=f: f(x, -3), {"x": (2,)}, ws))
        cs.append(gate("rxor-public", lambda x, y: x.__rxor__(y) if not isinstance(x, torch.Tensor) else x ^ y, {"x": (2,)}, ws, pub={"y": I((2,))}))
        cs.append(gate("rand-public", lambda x, y: x.__rand__(y) if not isinstance(x, torch.Tensor) else x & y, {"x": (2,)}, ws, pub={"y": I((2,))}))
        cs.append(gate("invert", lambda x: ~x, {"x": (2, 2)}, ws))
        for s in (0, 1, 7, 32, 63):
            cs.append(gate(f"lshift-{s}", lambda x, s=s: x << s, {"x": (2,)}, ws))
            cs.append(gate(f"rshift-{s}", lambda x, s=s: x >> s, {"x": (2,)}, ws))
        for n, f in (("ixor", ixor), ("iand", iand), ("ior", ior)):
            cs += [inplace(n, f, ws, False), inplace(n, f, ws, True)]
        for pub in (False, True):
            cs.append(where(ws, pub))
        for src in range(ws):
            cs.append(shares_of(ws, src))
        cs.append(gate("stack-cat", lambda x, y: (type(x).stack([x, y]) if not isinstance(x, torch.Tensor) else torch.stack([x, y])), {"x": (2,), "y": (2,)}, ws))
        for nm, f in {"getitem": lambda x: x[1], "slice": lambda x: x[:, 1:], "transpose": lambda x: x.transpose(0, 1), "reshape": lambda x: x.reshape(4), "unsqueeze": lambda x: x.unsqueeze(1),
                      "flip": lambda x: x.flip(0), "roll": lambda x: x.roll(1, 0), "expand": lambda x: x.expand(2, 2, 2), "index_select": lambda x: x.index_select(0, torch.tensor([1, 0, 1]))}.items():
            cs.append(gate("move-" + nm, f, {"x": (2, 2)}, ws))
    for ws in (2, 3) if q else (2, 3, 4):
        cs.append(gate("and", TWO["and"], {"x": (2,), "y": (2,)}, ws, ttp=True))
        cs.append(gate("or-broadcast", TWO["or"], {"x": (2, 1), "y": (2,)}, ws, ttp=True))
    for ws in (1, 2) if q else (1, 2, 3):
        for k, (f, r) in CIRC.items():
            cs.append(gate(k, f, {"x": (1,), "y": (1,)}, ws, ref=r, weight=2))
            cs.append(gate(k + "-public", f, {"x": (1,)}, ws, ref=r, pub={"y": I((1,))}))
        for n in (1, 2, 3, 4, 5, 7):
            cs.append(gate(f"sum-{n}", lambda x: x.sum(), {"x": (n,)}, ws, ideal_add=True))
        cs.append(gate("sum-dim0", lambda x: x.sum(dim=0), {"x": (3, 2)}, ws, ideal_add=True))
        cs.append(gate("sum-dim1", lambda x: x.sum(dim=1), {"x": (2, 5)}, ws, ideal_add=True))
        cs.append(gate("sum-mid", lambda x: x.sum(dim=1), {"x": (2, 3, 2)}, ws, ideal_add=True))
        for shp, d in (((1, 3, 1), 1), ((2, 1), 1), ((1, 2), 0), ((2, 3), -1), ((1,), 0), ((2, 1, 2), -1), ((4, 2), 0)):
            cs.append(gate(f"sum-{'x'.join(map(str, shp))}-dim{d}", lambda x, d=d: x.sum(dim=d), {"x": shp}, ws, ideal_add=True))
        for shp in ((), (1, 1), (1, 3)):
            cs.append(gate(f"sum-{'x'.join(map(str, shp))}-all", lambda x: x.sum(), {"x": shp}, ws, ideal_add=True))
        cs.append(gate("sum-all", lambda x: x.sum(), {"x": (2, 3)}, ws, ideal_add=True))
    cs.append(gate("add", CIRC["add"][0], {"x": (1,), "y": (1,)}, 2, ttp=True))
    return cs
