"""C11: data movement (indexing, reshaping, joining, scattering, copying) keeps values and layout."""
from symx import nodes as N
from symx.case import Case, I

from .lib import R, arb, eqs, hom_int, hom_real, share_inputs, total

A, B3, V = (3, 4), (2, 3, 2), (5,)


def T(*v):
    import torch

    return torch.tensor(v if len(v) != 1 else v[0])


def bm(*v):
    import torch

    return torch.tensor(v, dtype=torch.bool)


# name -> (shapes, op); op gets the tensors by name
def reads():
    g = {}

    def a(name, shape, op):
        g[name] = (shape, op)

    for n, f in {
        "int": lambda x: x[1], "neg": lambda x: x[-1], "pair": lambda x: x[2, -4], "slice": lambda x: x[1:], "step": lambda x: x[::2, 1::2], "col": lambda x: x[:, 1],
        "ellipsis": lambda x: x[..., -1], "none": lambda x: x[None, :, None], "empty": lambda x: x[1:1], "list": lambda x: x[[2, 0]], "tensor": lambda x: x[T(2, 2, 0)],
        "tensor2": lambda x: x[T(2, 0), T(-1, 1)], "tensor2d": lambda x: x[T([[0, 1], [2, 0]])], "rowtensor": lambda x: x[1, T(3, 0)], "mask": lambda x: x[bm(True, False, True)],
        "chain": lambda x: x[1:][0][2],
    }.items():
        a(f"getitem/{n}", {"x": A}, f)
    a("getitem/3d", {"x": B3}, lambda x: x[:, 1:, 0])
    a("getitem/maskfull", {"x": (2, 2)}, lambda x: x[T([[True, False], [True, True]])])
    a("reshape/flat", {"x": A}, lambda x: x.reshape(12))
    a("reshape/infer", {"x": A}, lambda x: x.reshape(2, -1))
    a("reshape/tuple", {"x": A}, lambda x: x.reshape((6, 2)))
    a("reshape/noncontig", {"x": A}, lambda x: x.t().reshape(2, 6))
    a("view/3d", {"x": A}, lambda x: x.view(2, 2, 3))
    a("view/infer", {"x": B3}, lambda x: x.view(-1, 4))
    a("flatten/all", {"x": B3}, lambda x: x.flatten())
    a("flatten/start", {"x": B3}, lambda x: x.flatten(start_dim=1))
    a("flatten/end", {"x": B3}, lambda x: x.flatten(0, 1))
    a("flatten/scalar", {"x": ()}, lambda x: x.flatten())
    a("expand/row", {"x": (1, 4)}, lambda x: x.expand(3, 4))
    a("expand/-1", {"x": (2, 1)}, lambda x: x.expand(-1, 3))
    a("expand/new", {"x": (2,)}, lambda x: x.expand(3, 2))
    a("flip/0", {"x": A}, lambda x: x.flip(0))
    a("flip/both", {"x": A}, lambda x: x.flip(0, 1))
    a("flip/list", {"x": B3}, lambda x: x.flip([-1]))
    a("roll/flat", {"x": V}, lambda x: x.roll(2))
    a("roll/dim", {"x": A}, lambda x: x.roll(1, 0))
    a("roll/neg", {"x": A}, lambda x: x.roll(-3, dims=1))
    a("roll/two", {"x": A}, lambda x: x.roll((1, 2), (0, 1)))
    a("gather/0", {"x": A}, lambda x: x.gather(0, T([[0, 1, 2, 0], [2, 2, 0, 1]])))
    a("gather/1", {"x": A}, lambda x: x.gather(1, T([[3], [0], [1]])))
    a("gather/-1", {"x": B3}, lambda x: x.gather(-1, T([[[1, 0, 0]], [[0, 0, 1]]])))
    a("index_select/0", {"x": A}, lambda x: x.index_select(0, T(2, 0, 2)))
    a("index_select/-1", {"x": A}, lambda x: x.index_select(-1, T(3, 3, 1)))
    a("narrow/0", {"x": A}, lambda x: x.narrow(0, 1, 2))
    a("narrow/1", {"x": A}, lambda x: x.narrow(1, 0, 3))
    a("narrow/-1", {"x": B3}, lambda x: x.narrow(-1, 1, 1))
    a("permute/3", {"x": B3}, lambda x: x.permute(2, 0, 1))
    a("permute/neg", {"x": B3}, lambda x: x.permute(-1, 1, 0))
    a("permute/list", {"x": B3}, lambda x: x.permute([1, 2, 0]))
    a("repeat/same", {"x": (2, 2)}, lambda x: x.repeat(2, 1))
    a("repeat/more", {"x": (2,)}, lambda x: x.repeat(2, 3))
    a("repeat/tuple", {"x": (1, 2)}, lambda x: x.repeat((3, 1, 2)))
    a("split/even", {"x": (4, 2)}, lambda x: x.split(2))
    a("split/uneven", {"x": V}, lambda x: x.split(2))
    a("split/list", {"x": A}, lambda x: x.split([1, 3], dim=1))
    a("split/zero", {"x": A}, lambda x: x.split([0, 4], dim=-1)[1:])
    a("unbind/0", {"x": A}, lambda x: x.unbind())
    a("unbind/-1", {"x": B3}, lambda x: x.unbind(dim=-1))
    a("squeeze/all", {"x": (1, 2, 1)}, lambda x: x.squeeze())
    a("squeeze/dim", {"x": (1, 2, 1)}, lambda x: x.squeeze(2))
    a("squeeze/neg", {"x": (1, 2, 1)}, lambda x: x.squeeze(-3))
    a("squeeze/noop", {"x": (1, 2, 1)}, lambda x: x.squeeze(1))
    a("unsqueeze/0", {"x": A}, lambda x: x.unsqueeze(0))
    a("unsqueeze/-1", {"x": A}, lambda x: x.unsqueeze(-1))
    a("unsqueeze/mid", {"x": A}, lambda x: x.unsqueeze(dim=1))
    a("t/2d", {"x": A}, lambda x: x.t())
    a("t/1d", {"x": V}, lambda x: x.t())
    a("transpose/01", {"x": A}, lambda x: x.transpose(0, 1))
    a("transpose/neg", {"x": B3}, lambda x: x.transpose(-1, 0))
    a("take/flat", {"x": A}, lambda x: x.take(T([[0, 11], [5, 5]])))
    a("unfold/0", {"x": V}, lambda x: x.unfold(0, 3, 1))
    a("unfold/step", {"x": A}, lambda x: x.unfold(1, 2, 2))
    a("clone", {"x": A}, lambda x: x.clone())
    a("cat/0", {"x": (2, 2), "y": (1, 2)}, lambda x, y, cat=None: cat([x, y]))
    a("cat/-1", {"x": (2, 1), "y": (2, 3)}, lambda x, y, cat=None: cat([x, y], dim=-1))
    a("cat/three", {"x": (2, 2), "y": (1, 2)}, lambda x, y, cat=None: cat([y, x, y, x[:0]], dim=0))
    a("cat/one", {"x": (2, 2)}, lambda x, cat=None: cat([x], dim=1))
    a("stack/0", {"x": (2, 2), "y": (2, 2)}, lambda x, y, stack=None: stack([x, y]))
    a("stack/-1", {"x": (2, 2), "y": (2, 2)}, lambda x, y, stack=None: stack([x, y, x], dim=-1))
    a("stack/1", {"x": (2, 2), "y": (2, 2)}, lambda x, y, stack=None: stack([y, x], dim=1))
    a("stack/one", {"x": (2, 2)}, lambda x, stack=None: stack([x], dim=1))
    return g


def take_ref(x, i, d):
    import torch

    flat = x.index_select(d, i.flatten())
    s = list(x.size())
    d %= len(s)
    return flat.reshape(s[:d] + list(i.size()) + s[d + 1:])


def writes():
    """ops that change a clone of x in place, with an encrypted operand v"""
    g = {}

    def put(i):
        def f(x, v):
            x = x.clone()
            x[i] = v
            return x
        return f

    g["setitem/row"] = ({"x": A, "v": (4,)}, put(1))
    g["setitem/elem"] = ({"x": A, "v": ()}, put((2, -1)))
    g["setitem/slice"] = ({"x": A, "v": (2, 4)}, put(slice(1, None)))
    g["setitem/bcast"] = ({"x": A, "v": (1,)}, put((slice(None), 2)))
    g["setitem/col"] = ({"x": A, "v": (3,)}, put((slice(None), 0)))
    g["setitem/step"] = ({"x": A, "v": (2, 2)}, put((slice(0, 3, 2), slice(1, None, 2))))
    g["setitem/tensor"] = ({"x": A, "v": (2, 4)}, lambda x, v: put(T(2, 0))(x, v))
    g["setitem/mask"] = ({"x": V, "v": (3,)}, lambda x, v: put(bm(True, False, True, True, False))(x, v))
    g["scatter/0"] = ({"x": A, "v": (2, 4)}, lambda x, v: x.scatter(0, T([[0, 1, 2, 0], [2, 2, 0, 1]]), v))
    g["scatter/1"] = ({"x": A, "v": (3, 2)}, lambda x, v: x.scatter(1, T([[3, 0], [1, 2], [2, 0]]), v))
    g["scatter_add/0"] = ({"x": A, "v": (2, 4)}, lambda x, v: x.scatter_add(0, T([[0, 1, 2, 0], [2, 1, 2, 1]]), v))
    g["scatter_add/1"] = ({"x": A, "v": (3, 2)}, lambda x, v: x.scatter_add(1, T([[3, 3], [1, 2], [0, 0]]), v))
    g["scatter_add/partial"] = ({"x": A, "v": A}, lambda x, v: x.scatter_add(-1, T([[3, 3], [0, 1]]), v))
    g["index_add/0"] = ({"x": A, "v": (2, 4)}, lambda x, v: x.index_add(0, T(2, 0), v))
    g["index_add/dup"] = ({"x": A, "v": (3, 4)}, lambda x, v: x.index_add(0, T(1, 1, 0), v))
    g["index_add/1"] = ({"x": A, "v": (3, 2)}, lambda x, v: x.index_add(1, T(3, 0), v))
    return g


INPLACE = {
    "scatter_/0": ({"x": A, "v": (2, 4)}, lambda x, v: x.scatter_(0, T([[0, 1, 2, 0], [2, 2, 0, 1]]), v)),
    "scatter_add_/0": ({"x": A, "v": (2, 4)}, lambda x, v: x.scatter_add_(0, T([[0, 1, 2, 0], [2, 1, 2, 1]]), v)),
    "index_add_/0": ({"x": A, "v": (3, 4)}, lambda x, v: x.index_add_(0, T(1, 1, 0), v)),
}


def joins(op, kind):
    import inspect

    n = [k for k in ("cat", "stack") if k in inspect.signature(op).parameters]

    def enc(**k):
        import crypten
        import torch

        sym = [v for v in k.values()]
        fs = {m: getattr(crypten if hasattr(sym[0], "get_plain_text") and kind == "mpc" else (type(sym[0]) if hasattr(sym[0], "reveal") else torch), m) for m in n}
        return op(**k, **fs)

    return enc if n else op


def low(name, op, shapes, ws, typ, ref=None, pub=None):
    """the same operation on ArithmeticSharedTensor / BinarySharedTensor objects"""
    binary = typ == "binary"

    def tot(c, k):
        t = c.x(f"{k}.s0").clone()
        for r in range(1, ws):
            t = (t ^ c.x(f"{k}.s{r}")) if binary else t + c.x(f"{k}.s{r}")
        return t

    def fn(c):
        from crypten.mpc.primitives import ArithmeticSharedTensor, BinarySharedTensor

        from .lib import flat, plain

        K = BinarySharedTensor if binary else ArithmeticSharedTensor
        X = {k: K.from_shares(c.x(f"{k}.s{c.rank}").clone(), precision=0) for k in shapes}
        P = {k: tot(c, k) for k in shapes}
        for k in pub or {}:
            X[k], P[k] = c.x(k).clone(), c.x(k).clone()
        Rr = [plain(v, "reveal") for v in flat(op(**X))]
        Q = flat((ref or op)(**P))
        o = {"n": (len(Rr), len(Q))}
        for i, (a, b) in enumerate(zip(Rr, Q)):
            o[f"z{i}"], o[f"q{i}"] = a, b
        for k in shapes:
            o[f"k:{k}"], o[f"p:{k}"] = X[k].reveal(), tot(c, k)
        return o

    def post(e):
        obs = []
        for r in range(ws):
            n = e.raw("n", r)
            obs.append((f"arity@{r}", N.cb(n[0] == n[1])))
            for i in range(min(n)):
                obs.append((f"shape{i}@{r}", N.cb(e.shape(f"z{i}", r) == e.shape(f"q{i}", r))))
                obs += eqs(e, f"value{i}@{r}", e.o(f"z{i}", r), e.o(f"q{i}", r))
            for k in shapes:
                obs += eqs(e, f"operand-{k}-unchanged@{r}", e.o(f"k:{k}", r), e.o(f"p:{k}", r))
        return obs

    return Case(f"{typ}/{'public/' if pub else ''}{name}/N{ws}", fn, post, ws=ws, inputs={**share_inputs(shapes, ws), **(pub or {})})


def inplace(name, op, shapes, ws):
    def fn(c):
        X = {k: arb(c, k) for k in shapes}
        P = {k: total(c, k).clone() for k in shapes}
        other = X["x"].shallow_copy()
        r = op(**X)
        op(**P)
        return {"same": r is X["x"] or r is None, "x": X["x"].reveal(), "v": X["v"].reveal(), "q": P["x"], "w": total(c, "v"), "r": r.reveal(), "other": other.reveal()}

    def post(e):
        obs = []
        for r in range(ws):
            for k, q in (("x", "q"), ("v", "w"), ("r", "q"), ("other", "q")):
                obs += eqs(e, f"{k}@{r}", e.o(k, r), e.o(q, r))
        return obs

    return Case(f"inplace/{name}/N{ws}", fn, post, ws=ws, inputs=share_inputs(shapes, ws))


def alias(name, make, ws=2, level="mpc"):
    """changing the copy leaves the source, changing the source leaves the copy"""
    def fn(c):
        import torch

        if level == "mpc":
            x = arb(c, "x")
        else:
            from crypten.mpc.primitives import ArithmeticSharedTensor, BinarySharedTensor

            x = {"arith": ArithmeticSharedTensor, "binary": BinarySharedTensor}[level].from_shares(c.x(f"x.s{c.rank}").clone(), precision=0)
        before = x.reveal()
        y = make(x)
        y0 = y.reveal()
        # in-place change of the copy
        if level == "binary":
            y ^= torch.tensor(3)
        else:
            y.share.add_(7)
        x1 = x.reveal()
        y1 = y.reveal()
        if level == "binary":
            x ^= torch.tensor(6)
        else:
            x.share.mul_(3)
        return {"before": before, "x1": x1, "y0": y0, "y1": y1, "y2": y.reveal()}

    def post(e):
        obs = []
        for r in range(ws):
            obs += eqs(e, f"copy@{r}", e.o("y0", r), e.o("before", r)) if name != "like" else []
            obs += eqs(e, f"source-kept@{r}", e.o("x1", r), e.o("before", r))
            obs += eqs(e, f"copy-kept@{r}", e.o("y2", r), e.o("y1", r))
        return obs

    return Case(f"alias/{level}/{name}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (2, 2)}, ws))


def copy_into(level, ws=2):
    def fn(c):
        from crypten.mpc.primitives import ArithmeticSharedTensor, BinarySharedTensor
        from crypten.mpc import MPCTensor
        from crypten.mpc.ptype import ptype as P

        def mk(k, prec):
            s = c.x(f"{k}.s{c.rank}").clone()
            if level == "mpc":
                return MPCTensor.from_shares(s, precision=prec)
            if level == "mpcb":
                return MPCTensor.from_shares(s, precision=prec, ptype=P.binary)
            return (BinarySharedTensor if level == "binary" else ArithmeticSharedTensor).from_shares(s, precision=prec)

        x, y = mk("x", 0), mk("y", 8)
        x.copy_(y)
        a = x.reveal()
        sc = (x.encoder.scale, y.encoder.scale)
        y.share += 1
        return {"a": a, "b": x.reveal(), "sc": sc[0] == sc[1], "w": (y.share, 0)[0], "y": mk("y", 8).reveal()}

    def post(e):
        obs = []
        for r in range(ws):
            obs += eqs(e, f"value@{r}", e.o("a", r), e.o("y", r)) + eqs(e, f"no-alias@{r}", e.o("b", r), e.o("y", r))
            obs.append((f"scale@{r}", N.cb(e.raw("sc", r))))
        return obs

    return Case(f"copy_/{level}/N{ws}", fn, post, ws=ws, inputs=share_inputs({"x": (3,), "y": (3,)}, ws))


# ---- mixed scales and public operands (exact reals) ------------------------

def mixed():
    cs = []
    W = writes()
    SC = {"same": {}, "x-fine": {"x": 16, "v": 4}, "v-fine": {"x": 4, "v": 16}, "x-int": {"x": 0, "v": 16}, "v-int": {"x": 16, "v": 0}}
    for n, (shp, op) in W.items():
        for s, prec in SC.items():
            if s == "same" or (s in ("x-fine", "v-fine") and n.split("/")[1] not in ("row", "0", "slice")):
                continue
            cs.append(hom_real(f"scale/{n}/{s}", op, shp, ws=2, prec=prec))
        # public operand
        for s, p in (("fx", {}), ("int", {"x": 0}), ("coarse", {"x": 5})):
            if s != "fx" and n.split("/")[1] not in ("row", "0", "elem"):
                continue
            cs.append(hom_real(f"public/{n}/{s}", op, {"x": shp["x"]}, ws=2, prec=p, pub={"v": R(shp["v"])}))
    for n, (shp, op) in INPLACE.items():
        for s in ("x-fine", "v-fine", "x-int", "v-int"):
            cs.append(hom_real(f"scale/{n}/{s}", lambda x, v, op=op: op(x=x.clone(), v=v), shp, ws=2, prec=SC[s]))
        cs.append(hom_real(f"public/{n}/int", lambda x, v, op=op: op(x=x.clone(), v=v), {"x": shp["x"]}, ws=2, prec={"x": 0}, pub={"v": R(shp["v"])}))
    P = {"first-fine": {"x": 16, "y": 4}, "second-fine": {"x": 4, "y": 16}, "first-int": {"x": 0, "y": 16}, "second-int": {"x": 16, "y": 0}}
    for n, shp, op in (("cat", {"x": (2, 2), "y": (1, 2)}, lambda x, y, cat: cat([x, y])), ("cat3", {"x": (2, 2), "y": (1, 2)}, lambda x, y, cat: cat([x, y, x])),
                       ("stack", {"x": (2,), "y": (2,)}, lambda x, y, stack: stack([x, y])), ("stack3", {"x": (2,), "y": (2,)}, lambda x, y, stack: stack([x, y, x], dim=1))):
        for s, prec in P.items():
            cs.append(hom_real(f"scale/{n}/{s}", joins(op, "mpc"), shp, ws=2, prec=prec))
    for v in (1.5, -3, 0):
        for s in ({}, {"x": 0}, {"x": 5}):
            cs.append(hom_real(f"public/setitem/number/{v}/p{s.get('x', 16)}", lambda x, v=v: _put(x, 1, v), {"x": (3,)}, ws=2, prec=s))
            cs.append(hom_real(f"public/pad/number/{v}/p{s.get('x', 16)}", lambda x, v=v: _pad(x, (1, 2), v), {"x": (3,)}, ws=2, prec=s))
    cs.append(hom_real("pad/2d", lambda x: _pad(x, (1, 0, 0, 2), 0.25), {"x": (2, 2)}, ws=3))
    cs.append(hom_real("pad/negative", lambda x: _pad(x, (-1, 1), 2.0), {"x": (2, 3)}, ws=2))
    for s, prec in {"same": {}, "x-fine": {"x": 16, "v": 4}, "v-fine": {"x": 4, "v": 16}, "x-int": {"x": 0, "v": 16}, "v-int": {"x": 16, "v": 0}}.items():
        cs.append(hom_real(f"pad/private/{s}", lambda x, v: _pad(x, (1, 2), v), {"x": (3,), "v": ()}, ws=2, prec=prec, ref=lambda x, v: _padref(x, (1, 2), v)))
    return cs


def _put(x, i, v):
    x = x.clone()
    x[i] = v
    return x


def _pad(x, p, v):
    import torch

    return x.pad(p, value=v) if hasattr(x, "get_plain_text") else torch.nn.functional.pad(x, p, value=v)


def _padref(x, p, v):
    import torch

    return torch.cat([v.reshape(1).expand(p[0]), x, v.reshape(1).expand(p[1])])


def cases(tier):
    cs = []
    rd, wr = reads(), writes()
    for n, (shp, op) in rd.items():
        for ws in (1, 2, 3) if tier == "thorough" or n.split("/")[0] in ("cat", "stack") else (2,):
            cs.append(hom_int(f"mpc/{n}", joins(op, "mpc"), shp, ws=ws))
    for d, i in ((0, [2, 0]), (1, [[3, 0], [1, 1]]), (-1, [0, 2])):
        cs.append(hom_int(f"mpc/take/dim{d}", lambda x, d=d, i=i: x.take(T(i), dimension=d), {"x": A}, ref=lambda x, d=d, i=i: take_ref(x, T(i), d)))
    cs.append(hom_int("mpc/take/scalar", lambda x: x.take(T([0, 0]), 0), {"x": ()}, ref=lambda x: x.take(T([0, 0]))))
    for n, (shp, op) in wr.items():
        for ws in (1, 2, 3):
            if ws == 2 or tier == "thorough" or n.endswith("/0") or n.endswith("row"):
                cs.append(hom_int(f"mpc/{n}", op, shp, ws=ws))
                cs.append(hom_int(f"public/{n}", op, {"x": shp["x"]}, ws=ws, pub={"v": I(shp["v"])}))
    for typ in ("arith", "binary"):
        for n, (shp, op) in rd.items():
            cs.append(low(n, joins(op, typ), shp, 3 if tier == "thorough" else 2, typ))
        for n, (shp, op) in wr.items():
            if typ == "binary" and n.split("/")[0] in ("scatter_add", "index_add"):
                continue
            cs.append(low(n, op, shp, 2, typ))
            cs.append(low(n, op, {"x": shp["x"]}, 2, typ, pub={"v": I(shp["v"])}))
        if tier == "thorough":
            for d, i in ((0, [2, 0]), (1, [[3, 0], [1, 1]]), (-1, [0, 2])):
                cs.append(low(f"take/dim{d}", lambda x, d=d, i=i: x.take(T(i), dimension=d), {"x": A}, 2, typ, ref=lambda x, d=d, i=i: take_ref(x, T(i), d)))
    for n, (shp, op) in INPLACE.items():
        for ws in (2, 3):
            cs.append(inplace(n, op, shp, ws))
    for lv in ("mpc", "arith", "binary"):
        cs.append(alias("clone", lambda x: x.clone(), level=lv))
        if lv != "binary":
            cs.append(alias("mul1", lambda x: x * 1, level=lv))
            cs.append(alias("add0", lambda x: x + 0, level=lv))
        cs.append(copy_into(lv))
    cs.append(alias("index_add", lambda x: x.index_add(0, T([0]), x[:1] - x[:1])))
    cs.append(alias("scatter_add", lambda x: x.scatter_add(0, T([[0]]), x[:1, :1] - x[:1, :1])))
    cs.append(copy_into("mpcb"))
    cs += mixed()
    return cs


EXPLAIN = ("Every data-movement function runs in every party on arbitrary sharings (each word of each share a symbolic 64-bit integer) and, next to it, torch's function on the plaintext; the solver decides that "
           "the revealed result, its shape and the unchanged operands agree. Operands at different fixed-point scales and public operands are decided over exact reals; copies are decided not to alias their source.")
BOUNDS = {"values": "all 64-bit share words; reals in [-4, 4] for the scale scenarios", "parties": "1..3", "shapes": "up to 12 elements, 0..3 dimensions", "scales": "2**0, 2**4, 2**5, 2**16 mixed", "arguments": "as listed by check.py C11 --list"}
ASSUMPTIONS = ["torch's own data movement kernels are exact", "indices are public and concrete"]
