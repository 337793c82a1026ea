"""C14 network modules and losses."""
from collections import OrderedDict

import torch
import torch.nn.functional as Fn

from .grad import *

EXPLAIN = ("The real crypten.nn modules, containers, graphs and losses run on encrypted symbolic inputs and parameters in exact arithmetic; outputs, running statistics and the gradients that backward "
           "leaves in inputs and parameters are compared, for all values, with the PyTorch functional counterpart and its formal derivative (normal form, then z3). State dictionaries, encryption "
           "and decryption of models and parameter updates are run the same way. Counterexamples are replayed on the real fixed-point code against torch.nn.functional.")
BOUNDS = {"values": "inputs and parameters: symbolic reals in [-2, 2] (positive where the function needs it)", "shapes": "listed in the scenario names, sizes 1..5", "parties": "1, 2 and 3",
          "not covered": "GPU modules, GroupNorm (not implemented by CrypTen), training-mode dropout's distribution"}
ASSUMPTIONS = ["rounding abstracted (exact reals); coefficients may differ by the 16-bit rounding of public constants", "products and comparisons replaced by their specification (C04, C06, C07, C09)",
               "exp, log, reciprocal, sqrt, sigmoid, tanh, erf, softmax are the mathematical functions (C20)", "torch's forward kernels are exact"]
POS = (0.25, 3)


def enc(v):
    if isinstance(v, (list, tuple)):
        return any(enc(x) for x in v)
    return hasattr(v, "get_plain_text")


def mod(build, ref, params=(), args=("x",), aslist=False, train=True):
    """op/ref pair: module with parameters set to the given operands, applied to the args"""

    def op(**X):
        if not any(enc(v) for v in X.values()):
            return ref(**X)
        m = build()
        m.encrypt()
        m.train(train)
        for p in params:
            m.set_parameter(p, X[p])
        a = [X[k] for k in args]
        return m(a) if aslist else m(*a)

    return op


def pairs(name, body, inputs, ws=1, tol=0.05, noties=True, pre=None, direct=False, **kw):
    """body(ctx) -> list of (label, got, want): plaintext tensors or booleans"""

    def fn(ctx):
        o = {}
        ls = []
        for i, (lab, a, b) in enumerate(body(ctx)):
            if isinstance(b, bool) or b is None or isinstance(b, str):
                o[f"b{i}"] = [lab, a == b]
            else:
                o[f"a{i}"] = a
                o[f"w{i}"] = b
            ls.append(lab)
        o["labels"] = ls
        return o

    def post(e):
        obs = []
        sp = P.Space(noties)
        assume = list(pre(e)) if pre and e.symbolic else []
        for r in range(ws):
            for i, lab in enumerate(e.raw("labels", r)):
                try:
                    b = e.raw(f"b{i}", r)
                except KeyError:
                    b = None
                if b is not None:
                    obs.append((f"{lab}@{r}", N.cb(bool(b[1]))))
                    continue
                obs.append((f"{lab}-shape@{r}", N.cb(e.shape(f"a{i}", r) == e.shape(f"w{i}", r))))
                obs += same(e, sp, f"{lab}@{r}", e.o(f"a{i}", r), e.o(f"w{i}", r), assume, tol, direct)
        return obs

    return Case(f"{name}/N{ws}", fn, post, ws=ws, inputs=inputs, fmode="ring", pre=pre, tol=tol, stubs=ALL, **kw)


def cases(tier):
    full = tier == "thorough"
    C = []
    import crypten
    import crypten.nn as cn

    def g(name, build, ref, shapes, params=(), args=("x",), aslist=False, train=True, **kw):
        C.append(gradcase(name, mod(build, ref, params, args, aslist, train), shapes, ref, **kw))

    # ---- linear algebra
    for shp in ((2, 3), (3,), (2, 2, 3), (1, 3)):
        g(f"Linear{shp}", lambda: cn.Linear(3, 2), lambda x, weight, bias: Fn.linear(x, weight, bias), {"x": shp, "weight": (2, 3), "bias": (2,)}, ("weight", "bias"))
        g(f"Linear-nobias{shp}", lambda: cn.Linear(3, 2, bias=False), lambda x, weight: Fn.linear(x, weight), {"x": shp, "weight": (2, 3)}, ("weight",))
    g("Linear(1,1)", lambda: cn.Linear(1, 1), lambda x, weight, bias: Fn.linear(x, weight, bias), {"x": (2, 1), "weight": (1, 1), "bias": (1,)}, ("weight", "bias"))
    g("MatMul-weight", lambda: cn.MatMul(torch.zeros(3, 2)), lambda x, weight: x.matmul(weight), {"x": (2, 3), "weight": (3, 2)}, ("weight",))
    for sa, sb in (((2, 3), (3, 2)), ((3,), (3, 2)), ((2, 3), (3,)), ((2, 2, 3), (3, 2)), ((2, 1, 3), (2, 3, 1))):
        g(f"MatMul{sa}{sb}", lambda: cn.MatMul(), lambda x, y: x.matmul(y), {"x": sa, "y": sb}, args=("x", "y"), aslist=True)
    for al, be, ta, tb in ((1.0, 1.0, False, False), (2.0, 0.5, False, False), (0.5, 1.0, True, False), (1.0, 2.0, False, True), (2.0, 3.0, True, True), (1, 0.25, 0, 1), (1.0, 0.0, False, False)):
        g(f"Gemm({al},{be},{ta},{tb})", lambda al=al, be=be, ta=ta, tb=tb: cn.Gemm(al, be, ta, tb), lambda x, y, z, al=al, be=be, ta=ta, tb=tb: (x.t() if ta else x).matmul(y.t() if tb else y) * al + z * be,
          {"x": (3, 2) if ta else (2, 3), "y": (2, 3) if tb else (3, 2), "z": (2,)}, args=("x", "y", "z"), aslist=True)
    # ---- convolution
    for st, pd, dl, gr, bias in ((1, 0, 1, 1, True), (2, 0, 1, 1, True), (1, 1, 1, 1, False), (1, 0, 2, 1, True), (1, 1, 1, 2, True), (2, 1, 1, 2, True)):
        ci, co = (2, 2)
        sh = {"x": (1, ci, 4), "weight": (co, ci // gr, 2)}
        ps = ("weight",) + (("bias",) if bias else ())
        if bias:
            sh["bias"] = (co,)
        g(f"Conv1d({st},{pd},{dl},{gr},{bias})", lambda st=st, pd=pd, dl=dl, gr=gr, bias=bias: cn.Conv1d(2, 2, 2, stride=st, padding=pd, dilation=dl, groups=gr, bias=bias),
          lambda x, weight, bias=None, st=st, pd=pd, dl=dl, gr=gr: Fn.conv1d(x, weight, bias, st, pd, dl, gr), sh, ps)
    for st, pd, dl, gr, bias, k in ((1, 0, 1, 1, True, 2), (2, 0, 1, 1, True, 2), ((1, 2), 0, 1, 1, True, 2), (1, (1, 0), 1, 1, False, 2), (1, (0, 1), 1, 1, True, (2, 1)), (1, 0, (2, 1), 1, True, 2), (1, 0, 1, 2, True, 2), (1, 1, 1, 2, True, (1, 2)), (2, 1, 2, 1, False, 2)):
        kk = (k, k) if isinstance(k, int) else k
        sh = {"x": (1, 2, 3, 3), "weight": (2, 2 // gr) + kk}
        ps = ("weight",) + (("bias",) if bias else ())
        if bias:
            sh["bias"] = (2,)
        tag = f"({st},{pd},{dl},{gr},{bias},{k})"
        ref = lambda x, weight, bias=None, st=st, pd=pd, dl=dl, gr=gr: Fn.conv2d(x, weight, bias, st, pd, dl, gr)
        g(f"Conv2d{tag}", lambda st=st, pd=pd, dl=dl, gr=gr, bias=bias, k=k: cn.Conv2d(2, 2, k, stride=st, padding=pd, dilation=dl, groups=gr, bias=bias), ref, sh, ps)
        tup = lambda v: v if isinstance(v, tuple) else (v, v)
        g(f"Conv{tag}", lambda st=st, pd=pd, dl=dl, gr=gr, bias=bias, k=k, tup=tup: cn.Conv(tup(st), tup(pd), tup(dl), gr), ref, sh, (), ("x", "weight") + (("bias",) if bias else ()), True)
    g("Conv-1d", lambda: cn.Conv((1,), (1,), (1,), 1), lambda x, weight, bias: Fn.conv1d(x, weight, bias, 1, 1), {"x": (2, 1, 3), "weight": (2, 1, 2), "bias": (2,)}, (), ("x", "weight", "bias"), True)
    # ---- element-wise
    for nm, f in (("Add", lambda x, y: x + y), ("Sub", lambda x, y: x - y), ("Mul", lambda x, y: x * y)):
        for sa, sb in (((2, 2), (2, 2)), ((2, 2), (2,)), ((2, 1), (1, 2)), ((2, 2), ()), ((), (2,))):
            g(f"{nm}{sa}{sb}", lambda nm=nm: getattr(cn, nm)(), f, {"x": sa, "y": sb}, args=("x", "y"), aslist=True)
    g("Div", lambda: cn.Div(), lambda x, y: x / y, {"x": (2, 2), "y": (2, 2)}, args=("x", "y"), aslist=True, rng={"x": (-2, 2), "y": POS}, tol=0.15)
    g("Div-broadcast", lambda: cn.Div(), lambda x, y: x / y, {"x": (2, 2), "y": (2,)}, args=("x", "y"), aslist=True, rng={"x": (-2, 2), "y": POS}, tol=0.15)
    for pw in (2, 3, torch.tensor(2.0), torch.tensor([3.0]), torch.tensor(2)):
        nm = repr(pw).replace(" ", "")

        def op(x, pw=pw):
            if not enc(x):
                return x ** int(pw)
            m = cn.Pow()
            m.encrypt()
            return m([x, pw])

        C.append(gradcase(f"Pow({nm})", op, {"x": (3,)}, rng=(-1.5, 1.5), tol=0.1))
    g("Sqrt", lambda: cn.Sqrt(), lambda x: x.sqrt(), {"x": (3,)}, rng=POS, tol=0.1)
    g("Exp", lambda: cn.Exp(), lambda x: x.exp(), {"x": (3,)}, rng=(-1, 1), tol=0.15)
    g("Erf", lambda: cn.Erf(), lambda x: x.erf(), {"x": (3,)}, rng=(-1, 1), tol=0.1, fwd=True)
    g("Sigmoid", lambda: cn.Sigmoid(), lambda x: x.sigmoid(), {"x": (2, 2)}, tol=0.1)
    g("ReLU", lambda: cn.ReLU(), lambda x: x.relu(), {"x": (2, 2)}, pre=off(0))
    g("ReLU6", lambda: cn.ReLU6(), lambda x: Fn.relu6(x), {"x": (2, 2)}, rng=(-8, 8), pre=off(0, 6))
    for lo, hi in ((-1.0, 1.0), (-0.5, 1.5), (0, 1), (0.25, 0.75), (-2, -1)):
        g(f"Hardtanh({lo},{hi})", lambda lo=lo, hi=hi: cn.Hardtanh(lo, hi), lambda x, lo=lo, hi=hi: Fn.hardtanh(x, lo, hi), {"x": (2, 2)}, pre=off(lo, hi))
    g("Hardtanh-default", lambda: cn.Hardtanh(), lambda x: Fn.hardtanh(x), {"x": (2, 2)}, pre=off(-1, 1))

    def hl(x):
        if not enc(x):
            return Fn.hardtanh(x, -0.5, 1.0)
        m = cn.Hardtanh()
        m.encrypt()
        return m([x, torch.tensor(-0.5), torch.tensor(1.0)])

    C.append(gradcase("Hardtanh-list", hl, {"x": (2, 2)}, pre=off(-0.5, 1)))
    for shp, d in (((3,), 0), ((2, 3), 1), ((2, 3), 0), ((2, 3), -1), ((2, 2, 2), 2), ((2, 1), 1), ((2, 2), -2)):
        g(f"Softmax{shp}({d})", lambda d=d: cn.Softmax(d), lambda x, d=d: x.softmax(d), {"x": shp}, rng=(-1, 1), tol=0.1)
        g(f"LogSoftmax{shp}({d})", lambda d=d: cn.LogSoftmax(d), lambda x, d=d: x.log_softmax(d), {"x": shp}, rng=(-1, 1), tol=0.15)
    # ---- reductions and layout
    for nm in ("Mean", "Sum"):
        for d, kd in ((0, False), (1, True), (-1, False), ([0, 1], False), ([1, 2], True), ((0, 2), False), ([-1], False), ([0, 1, 2], True)):
            g(f"{nm}({d},{kd})", lambda nm=nm, d=d, kd=kd: getattr(cn, nm)(d, kd), lambda x, nm=nm, d=d, kd=kd: getattr(x, nm.lower())(d, keepdim=kd), {"x": (2, 2, 2)})
    for p in ((0, 1, 2), (2, 0, 1), [1, 0, 2], (0, -1, 1)):
        g(f"Transpose{tuple(p)}", lambda p=p: cn.Transpose(p), lambda x, p=p: x.permute(*p), {"x": (2, 3, 1)})
    for d in (0, -1, [2], 1):
        g(f"Squeeze({d})", lambda d=d: cn.Squeeze(d), lambda x, d=d: x.squeeze(d[0] if isinstance(d, list) else d), {"x": (1, 2, 1)})
    for d in (0, -1, [1], 2, -2):
        g(f"Unsqueeze({d})", lambda d=d: cn.Unsqueeze(d), lambda x, d=d: x.unsqueeze(d[0] if isinstance(d, list) else d), {"x": (2, 2)})
    for st, en, ax in (([1], [3], [0]), ([0], [2], [1]), ([1, 0], [3, 2], None), ([0, 1], [2, 9], [0, 1]), ([1], [2], [-1]), ([0, 1], [2, 3], [1, 0]), ([-2], [9], [0]), ([0], [-1], [0]), ([-3], [-1], [0]), ([1], [-1], [1])):
        def ref(x, st=st, en=en, ax=ax):
            for a, s, e in zip(ax if ax is not None else range(len(st)), st, en):
                s, e, _ = slice(s, e).indices(x.size(a))
                x = x.narrow(a, s, e - s)
            return x

        g(f"Slice({st},{en},{ax})", lambda st=st, en=en, ax=ax: cn.Slice(st, en, ax), ref, {"x": (4, 3)})
        for k in (3, 4, 5):
            if ax is None and k > 3:
                continue

            def op(x, st=st, en=en, ax=ax, k=k, ref=ref):
                if not enc(x):
                    return ref(x)
                m = cn.Slice(None, None, axes=ax if k == 3 else None)
                m.encrypt()
                return m([x] + [torch.tensor(v) for v in (st, en, ax, [1] * len(st))[:k - 1]])

            C.append(gradcase(f"Slice-list{k}({st},{en},{ax})", op, {"x": (4, 3)}, ref))
    for shp, to in (((1, 3), (2, 3)), ((2, 1), (2, 3)), ((3,), (2, 3)), ((2, 3), (1, 1)), ((3, 2), (1, 3, 2)), ((3, 2), (2, 1, 1)), ((2, 1), (1, 1, 3)), ((1,), (2, 2)), ((), (2,))):
        for ten in (False, True):
            def op(x, to=to, ten=ten):
                if not enc(x):
                    return x.expand(torch.broadcast_shapes(tuple(x.shape), to))
                m = cn.Expand()
                m.encrypt()
                return m([x, torch.tensor(to) if ten else list(to)])

            C.append(gradcase(f"Expand{shp}{to}{'-tensor' if ten else ''}", op, {"x": shp}, wrt=[], ws=1) if False else pairs(f"Expand{shp}{to}{'-tensor' if ten else ''}", lambda ctx, op=op: [("forward", op(crypten.cryptensor(ctx.x("x").clone())).get_plain_text(), op(ctx.x("x").clone()))], {"x": R(shp, -2, 2)}))
    for ax in (0, 1, 2, 3):
        g(f"Flatten({ax})", lambda ax=ax: cn.Flatten(ax), lambda x, ax=ax: x.reshape(-1 if ax else 1, int(torch.tensor(x.shape[ax:]).prod()) if ax < 3 else 1) if ax else x.reshape(1, -1), {"x": (2, 3, 2)})
    g("Flatten-default", lambda: cn.Flatten(), lambda x: x.reshape(2, -1), {"x": (2, 3, 2)})
    for d in (0, 1, -1):
        g(f"Concat({d})", lambda d=d: cn.Concat(d), lambda x, y, d=d: torch.cat([x, y], d), {"x": (2, 2), "y": (2, 2)}, args=("x", "y"), aslist=True)
    g("Concat3", lambda: cn.Concat(1), lambda x, y, z: torch.cat([x, y, z], 1), {"x": (2, 2), "y": (2, 1), "z": (2, 3)}, args=("x", "y", "z"), aslist=True)
    for to in ((3, 2), (-1,), (1, 6), (6, -1)):
        g(f"Reshape{to}", lambda to=to: cn.Reshape(to), lambda x, to=to: x.reshape(to), {"x": (2, 3)})

        def op(x, to=to):
            if not enc(x):
                return x.reshape(to)
            m = cn.Reshape()
            m.encrypt()
            return m([x, torch.tensor(to)])

        C.append(gradcase(f"Reshape-list{to}", op, {"x": (2, 3)}))
    for d, idx in ((0, [0]), (1, [2, 0]), (0, [1, 1]), (-1, [1]), (1, [[0, 1], [2, 2]]), (0, 1), (1, 2)):
        def ref(x, d=d, idx=idx):
            i = torch.tensor(idx)
            d = d % x.dim()
            r = x.index_select(d, i.reshape(-1))
            return r.reshape(tuple(x.shape[:d]) + tuple(i.shape) + tuple(x.shape[d + 1:]))

        g(f"Gather({d},{idx})", lambda d=d, idx=idx: cn.Gather(d, torch.tensor(idx)), ref, {"x": (2, 3)})

        def op(x, d=d, idx=idx, ref=ref):
            if not enc(x):
                return ref(x)
            m = cn.Gather(d)
            m.encrypt()
            return m([x, torch.tensor(idx)])

        C.append(gradcase(f"Gather-list({d},{idx})", op, {"x": (2, 3)}, ref))
    for nm, pd, shp in (("ConstantPad1d", 1, (1, 2, 2)), ("ConstantPad1d", (2, 0), (2, 2)), ("ConstantPad2d", 1, (1, 1, 2, 2)), ("ConstantPad2d", (1, 0, 0, 2), (1, 1, 2, 2)), ("ConstantPad3d", 1, (1, 1, 1, 1, 2)), ("ConstantPad3d", (1, 0, 0, 1, 2, 0), (1, 1, 1, 2))):
        for val in (0, 0.5, -1):
            n = int(nm[-2])
            full_pad = [pd] * 2 * n if isinstance(pd, int) else list(pd)
            g(f"{nm}({pd},{val})", lambda nm=nm, pd=pd, val=val: getattr(cn, nm)(pd, val), lambda x, p=full_pad, val=val: Fn.pad(x, p, value=val), {"x": shp})
    # ---- pooling
    for k, st, pd, shp in ((2, None, 0, (1, 1, 4, 4)), (2, 1, 0, (1, 2, 3, 3)), ((1, 2), None, 0, (1, 1, 2, 4)), (3, 2, 1, (1, 1, 3, 3)), (2, (1, 2), (1, 0), (1, 1, 2, 4)), ((2, 1), 1, (0, 0), (1, 1, 3, 2)), (2, 2, 1, (1, 1, 2, 2))):
        g(f"AvgPool2d({k},{st},{pd}){shp}", lambda k=k, st=st, pd=pd: cn.AvgPool2d(k, st, pd), lambda x, k=k, st=st, pd=pd: Fn.avg_pool2d(x, k, st, pd), {"x": shp})
    for k, st, pd, ce, shp in ((2, None, 0, False, (1, 1, 2, 2)), (2, 1, 0, False, (1, 1, 2, 3)), ((1, 2), None, 0, False, (1, 1, 2, 2)), (2, 2, 0, True, (1, 1, 2, 3)), (2, (2, 1), (1, 0), False, (1, 1, 2, 2)), ((2, 1), 1, (0, 0), False, (1, 1, 3, 1)), (2, 2, 1, False, (1, 1, 2, 2))):
        g(f"MaxPool2d({k},{st},{pd},{ce}){shp}", lambda k=k, st=st, pd=pd, ce=ce: cn.MaxPool2d(k, st, pd, ce), lambda x, k=k, st=st, pd=pd, ce=ce: Fn.max_pool2d(x, k, st, pd, ceil_mode=ce), {"x": shp}, wrt=[] if isinstance(pd, tuple) and pd[0] != pd[1] else None, pre=distinct("x"), tol=0.1, direct=True)
    for o, shp in ((1, (1, 2, 2, 2)), (2, (1, 1, 4, 4)), ((1, 2), (1, 1, 2, 4)), ((None, 1), (1, 1, 2, 2)), ((2, 3), (1, 1, 3, 4)), (2, (1, 1, 3, 3)), ((2, 2), (1, 1, 2, 2))):
        g(f"AdaptiveAvgPool2d({o}){shp}", lambda o=o: cn.AdaptiveAvgPool2d(o), lambda x, o=o: Fn.adaptive_avg_pool2d(x, o), {"x": shp}, pub=None)
        if shp[-1] * shp[-2] <= 6:
            g(f"AdaptiveMaxPool2d({o}){shp}", lambda o=o: cn.AdaptiveMaxPool2d(o), lambda x, o=o: amax(x, o), {"x": shp}, pre=distinct("x"), tol=0.1, direct=True)
    for shp in ((1, 2, 2, 2), (2, 1, 3), (1, 1, 2, 1, 2)):
        g(f"GlobalAveragePool{shp}", lambda: cn.GlobalAveragePool(), lambda x: x.mean(tuple(range(2, x.dim())), keepdim=True), {"x": shp})
    # ---- conditions
    g("Where", lambda: cn.Where(), lambda c, x, y: x * c + y * (1 - c), {"c": (2, 2), "x": (2, 2), "y": (2, 2)}, args=("c", "x", "y"), aslist=True, wrt=["x", "y"])
    C.append(pairs("Equal", lambda ctx: [("forward", cn.Equal().encrypt()([crypten.cryptensor(ctx.x("x").clone()), crypten.cryptensor(ctx.x("y").clone())]).get_plain_text(), (ctx.x("x") == ctx.x("y")).float())], {"x": R((2,), -2, 2), "y": R((2,), -2, 2)}, noties=False))
    # ---- constants, shapes
    C.append(pairs("Constant", lambda ctx: [("value", cn.Constant(torch.tensor([1, 2])).encrypt()(None), torch.tensor([1.0, 2.0])), ("scalar", cn.Constant(3).encrypt()(None), torch.tensor(3.0))], {"x": R((1,), -1, 1)}))
    C.append(pairs("ConstantOfShape", lambda ctx: [("value", cn.ConstantOfShape(2).encrypt()(torch.tensor([2, 3])), torch.full((2, 3), 2.0)), ("list", cn.ConstantOfShape(2).encrypt()([1, 2]), torch.full((1, 2), 2.0))], {"x": R((1,), -1, 1)}))

    def shp(ctx):
        x = crypten.cryptensor(ctx.x("x").clone())
        m = cn.Shape()
        m.encrypt()
        return [("shape", list(m(x).tolist()) == [2, 1, 3], True), ("dim", int(m(x, dim=2)) == 3, True), ("init", int(cn.Shape(1).encrypt()(x)) == 1, True)]

    C.append(pairs("Shape", shp, {"x": R((2, 1, 3), -1, 1)}))
    for n in (0, 1):
        C.append(pairs(f"Range{n}", lambda ctx, n=n: [("range", cn.Range().encrypt()([1, 5, 2] if n else [1, 4]), torch.arange(1, 5, 2) if n else torch.arange(1, 4))], {"x": R((1,), -1, 1)}))
    for nm in ("Dropout", "Dropout2d", "Dropout3d"):
        g(f"{nm}-eval", lambda nm=nm: getattr(cn, nm)(0.5), lambda x: x * 1, {"x": (1, 2, 2, 2)}, train=False)
    g("Cast", lambda: cn.Cast(torch.float), lambda x: x * 1, {"x": (2,)})
    # ---- batch normalisation: outputs, gradients, running statistics
    for nm, shp in (("BatchNorm1d", (3, 2)), ("BatchNorm1d", (2, 2, 2)), ("BatchNorm2d", (2, 1, 1, 2)), ("BatchNorm3d", (1, 1, 2, 1, 2))):
        c = shp[1]
        for training in (True, False):
            for mom, eps in ((0.5, 0.25), (0.25, 0.5)):
                def body(ctx, nm=nm, c=c, training=training, mom=mom, eps=eps, shp=shp, order=None):
                    m = getattr(cn, nm)(c, eps=eps, momentum=mom)
                    X = {k: ctx.x(k).clone() for k in ("weight", "bias", "rm", "rv", "x")}
                    m.set_parameter("weight", X["weight"])
                    m.set_parameter("bias", X["bias"])
                    m.set_buffer("running_mean", X["rm"])
                    m.set_buffer("running_var", X["rv"])
                    m.encrypt()
                    m.train(training)
                    y = m(crypten.cryptensor(X["x"]))
                    dims = [d for d in range(len(shp)) if d != 1]
                    bs = [1] * len(shp)
                    bs[1] = c
                    if training:
                        mu = X["x"].mean(dims)
                        va = ((X["x"] - mu.reshape(bs)) ** 2).mean(dims)
                    else:
                        mu, va = X["rm"], X["rv"]
                    want = (X["x"] - mu.reshape(bs)) / (va + eps).sqrt().reshape(bs) * X["weight"].reshape(bs) + X["bias"].reshape(bs)
                    if not training and not ctx.symbolic:
                        want = Fn.batch_norm(X["x"], X["rm"].clone(), X["rv"].clone(), X["weight"], X["bias"], False, mom, eps)
                    rm = X["rm"] * (1 - mom) + mu * mom if training else X["rm"]
                    rv = X["rv"] * (1 - mom) + va * mom if training else X["rv"]
                    return [("output", y.get_plain_text(), want), ("running_mean", m.running_mean.get_plain_text(), rm), ("running_var", m.running_var.get_plain_text(), rv)]

                C.append(pairs(f"{nm}{shp}({training},{mom},{eps})", body, {"x": R(shp, -2, 2), "weight": R((c,), -2, 2), "bias": R((c,), -2, 2), "rm": R((c,), -1, 1), "rv": R((c,), *POS)}, tol=0.15))

    def bn_order(first):
        def body(ctx):
            m = cn.BatchNorm1d(1, eps=0.25)
            zero = torch.zeros(1)
            mine = ctx.rank == 0
            for s, k in ((m.set_parameter, "weight"), (m.set_parameter, "bias"), (m.set_buffer, "running_mean"), (m.set_buffer, "running_var")):
                s(k, ctx.x(k).clone() if mine else zero + 1)
            if first == "eval":
                m.eval()
                m.encrypt(src=0)
            elif first == "encrypt":
                m.encrypt(src=0)
                m.eval()
            else:
                m.eval()
                m.encrypt(src=0)
                m.train()
                m.eval()
            y = m(crypten.cryptensor(ctx.x("x").clone()))
            want = (ctx.x("x") - ctx.x("running_mean")) / (ctx.x("running_var") + 0.25).sqrt() * ctx.x("weight") + ctx.x("bias")
            return [("output", y.get_plain_text(), want), ("encrypted-statistics", m.inv_var is None or enc(m.inv_var), True)]

        return body

    for f in ("eval", "encrypt", "again"):
        for ws in (1, 2):
            C.append(pairs(f"BatchNorm-order-{f}", bn_order(f), {"x": R((2, 1), -1, 1), "weight": R((1,), -1, 1), "bias": R((1,), -1, 1), "running_mean": R((1,), -1, 1), "running_var": R((1,), *POS)}, ws=ws, tol=0.15))

    def bnz(ctx):
        m = cn.module.BatchNormalization(eps=0.25, momentum=0.5)
        m.encrypt()
        m.train(False)
        a = [crypten.cryptensor(ctx.x(k).clone()) for k in ("x", "weight", "bias", "rm", "rv")]
        out = []
        for t in range(2):
            y = m(a)
            want = (ctx.x("x") - ctx.x("rm")) / (ctx.x("rv") + 0.25).sqrt() * ctx.x("weight") + ctx.x("bias")
            out.append((f"output{t}", y.get_plain_text(), want))
        # other statistics with the same module
        a[4] = crypten.cryptensor(ctx.x("rv2").clone())
        out.append(("output2", m(a).get_plain_text(), (ctx.x("x") - ctx.x("rm")) / (ctx.x("rv2") + 0.25).sqrt() * ctx.x("weight") + ctx.x("bias")))
        return out

    C.append(pairs("BatchNormalization", bnz, {"x": R((2, 1), -1, 1), "weight": R((1,), -1, 1), "bias": R((1,), -1, 1), "rm": R((1,), -1, 1), "rv": R((1,), *POS), "rv2": R((1,), *POS)}, tol=0.15))
    # ---- losses
    for shp in ((3,), (2, 2), (1,)):
        g(f"MSELoss{shp}", lambda: cn.MSELoss(), lambda x, y: ((x - y) ** 2).mean(), {"x": shp, "y": shp}, args=("x", "y"))
        g(f"L1Loss{shp}", lambda: cn.L1Loss(), lambda x, y: (x - y).abs().mean(), {"x": shp, "y": shp}, args=("x", "y"), pre=lambda e: [N.bnot(N.feq(a, b)) for a, b in zip(e.x("x"), e.x("y"))])
        bce = lambda x, y: -(y * x.log() + (1 - y) * (1 - x).log()).mean()
        g(f"BCELoss{shp}", lambda: cn.BCELoss(), bce, {"x": shp, "y": shp}, args=("x", "y"), wrt=["x"], rng={"x": (0.25, 0.75), "y": (0, 1)}, tol=0.15)
        bl = lambda x, y: -(y * x.sigmoid().log() + (1 - y) * (1 - x.sigmoid()).log()).mean()
        g(f"BCEWithLogitsLoss{shp}", lambda: cn.BCEWithLogitsLoss(), bl, {"x": shp, "y": shp}, args=("x", "y"), wrt=["x"], rng={"x": (-1, 1), "y": (0, 1)}, tol=0.15)
        for al in (0.75, 0.25):
            def rap(x, y, al=al):
                p = x.sigmoid()
                r = al * p + (1 - al) * (1 - p)
                return -(y * r.log() + (1 - y) * (1 - r).log()).mean()

            g(f"RAPPORLoss{shp}({al})", lambda al=al: cn.loss.RAPPORLoss(al), rap, {"x": shp, "y": shp}, args=("x", "y"), wrt=["x"], rng={"x": (-1, 1), "y": (0, 1)}, tol=0.15)
    for shp in ((2, 2), (1, 2), (1, 3), (2, 1), (2, 2, 2), (1, 2, 2), (2, 2, 1), (2, 1, 2)):
        k = list(shp)
        k[1] -= 1

        def ce(x, t=None, shp=shp):
            last = (1 - t.sum(1, keepdim=True)) if t is not None else None
            if enc(x):
                import crypten

                y = crypten.cat([t, last], dim=1) if t is not None else x * 0 + 1
                return cn.CrossEntropyLoss()(x, y)
            y = torch.cat([t, last], dim=1) if t is not None else x * 0 + 1
            return -(x.softmax(1).log() * y).sum() / (x.numel() // shp[1])

        d = {"x": shp}
        if shp[1] > 1:
            d["t"] = tuple(k)
        C.append(gradcase(f"CrossEntropyLoss{shp}", ce, d, wrt=["x"], rng={"x": (-1, 1), "t": (0, 1)}, tol=0.15))
    for shp, d in (((2, 2), 1), ((2, 2), 0), ((2, 2, 2), -1)):
        ref = lambda x, y, d=d: (x * y).sum(d) / ((x * x).sum(d) * (y * y).sum(d)).sqrt() if True else None
        ref = lambda x, y, d=d: (x * y).sum(d) / ((x * x).sum(d).sqrt() * (y * y).sum(d).sqrt())
        g(f"CosineSimilarity{shp}({d})", lambda d=d: cn.CosineSimilarity(dim=d), ref, {"x": shp, "y": shp}, args=("x", "y"), rng=(0.5, 1.5), tol=0.2)
    # ---- containers and graphs
    def setp(m, X):
        for k, v in X.items():
            *path, last = k.split("__")
            s = m
            for p in path:
                s = s._modules[p]
            s.set_parameter(last, v)

    def net(name, build, ref, shapes, args=("x",), **kw):
        def op(**X):
            if not any(enc(v) for v in X.values()):
                return ref(**X)
            m = build()
            m.encrypt()
            setp(m, {k: v for k, v in X.items() if k not in args})
            return m(*[X[k] for k in args])

        C.append(gradcase(name, op, shapes, ref, **kw))

    two = lambda x, a, b: Fn.linear(Fn.linear(x, a).relu(), b)
    kw2 = {"x": (1, 2)}
    net("Sequential", lambda: cn.Sequential(cn.Linear(2, 2, bias=False), cn.Linear(2, 1, bias=False)), lambda x, **p: Fn.linear(Fn.linear(x, p["0__weight"]), p["1__weight"]), {**kw2, "0__weight": (2, 2), "1__weight": (1, 2)})
    net("Sequential-OrderedDict", lambda: cn.Sequential(OrderedDict([("first", cn.Linear(2, 2, bias=False)), ("second", cn.Linear(2, 1, bias=False))])),
        lambda x, **p: Fn.linear(Fn.linear(x, p["first__weight"]), p["second__weight"]), {**kw2, "first__weight": (2, 2), "second__weight": (1, 2)})
    net("Sequential-OrderedDict-3", lambda: cn.Sequential(OrderedDict([("a", cn.Linear(2, 2, bias=False)), ("bb", cn.Linear(2, 1, bias=False)), ("c", cn.Linear(1, 1, bias=False))])),
        lambda x, **p: Fn.linear(Fn.linear(Fn.linear(x, p["a__weight"]), p["bb__weight"]), p["c__weight"]), {**kw2, "a__weight": (2, 2), "bb__weight": (1, 2), "c__weight": (1, 1)})
    net("Sequential-nested", lambda: cn.Sequential(cn.Sequential(cn.Linear(2, 1, bias=False)), cn.Linear(1, 1, bias=False)), lambda x, **p: Fn.linear(Fn.linear(x, p["0__0__weight"]), p["1__weight"]), {**kw2, "0__0__weight": (1, 2), "1__weight": (1, 1)})
    net("Sequential-one", lambda: cn.Sequential(cn.Linear(2, 1, bias=False)), lambda x, **p: Fn.linear(x, p["0__weight"]), {**kw2, "0__weight": (1, 2)})
    net("Sequential-repeated", lambda: (lambda l: cn.Sequential(l, l))(cn.Linear(2, 2, bias=False)), lambda x, **p: Fn.linear(Fn.linear(x, p["0__weight"]), p["0__weight"]), {**kw2, "0__weight": (2, 2)})

    def graph(nodes, ins, outs):
        def build():
            m = cn.Graph(ins, outs)
            for n, mo, i in nodes:
                m.add_module(n, mo(), i)
            return m

        return build

    L = lambda a, b: (lambda: cn.Linear(a, b, bias=False))
    net("Graph-residual", graph([("l", L(2, 2), ["x"]), ("add", cn.Add, ["x", "l"])], ["x"], "add"), lambda x, **p: x + Fn.linear(x, p["l__weight"]), {**kw2, "l__weight": (2, 2)})
    net("Graph-order", graph([("sub", cn.Sub, ["l", "x"]), ("l", L(2, 2), ["x"])], ["x"], "sub"), lambda x, **p: Fn.linear(x, p["l__weight"]) - x, {**kw2, "l__weight": (2, 2)})
    net("Graph-repeat", graph([("m", cn.Mul, ["x", "x"])], ["x"], "m"), lambda x: x * x, kw2)
    net("Graph-repeat2", graph([("l", L(2, 2), ["x"]), ("c", lambda: cn.Concat(1), ["l", "x", "l"])], ["x"], "c"), lambda x, **p: torch.cat([Fn.linear(x, p["l__weight"]), x, Fn.linear(x, p["l__weight"])], 1), {**kw2, "l__weight": (2, 2)})
    net("Graph-two-inputs", graph([("s", cn.Sub, ["y", "x"]), ("m", cn.Mul, ["s", "x"])], ["x", "y"], "m"), lambda x, y: (y - x) * x, {"x": (2,), "y": (2,)}, args=("x", "y"))
    net("Graph-parameter", graph([("w", lambda: cn.Parameter(torch.zeros(2)), []), ("m", cn.Mul, ["x", "w"])], ["x"], "m"), lambda x, w__data: x * w__data, {"x": (2,), "w__data": (2,)})
    net("Graph-unused", graph([("s", cn.Sub, ["y", "x"]), ("u", cn.ReLU, ["x"]), ("m", cn.Mul, ["s", "x"])], ["x", "y"], "m"), lambda x, y: (y - x) * x, {"x": (2,), "y": (2,)}, args=("x", "y"))
    net("Graph-diamond", graph([("a", cn.Add, ["x", "y"]), ("b", cn.Sub, ["x", "y"]), ("c", cn.Mul, ["a", "b"]), ("d", cn.Add, ["c", "a"])], ["x", "y"], "d"), lambda x, y: (x + y) * (x - y) + (x + y), {"x": (2,), "y": (2,)}, args=("x", "y"))

    def outs(nodes, ins, outnames, ref):
        def body(ctx):
            m = graph(nodes, ins, outnames)()
            m.encrypt()
            y = m(*[crypten.cryptensor(ctx.x(k).clone()) for k in ins])
            want = ref(*[ctx.x(k).clone() for k in ins])
            y = y if isinstance(y, tuple) else (y,)
            return [("outputs", len(y) == len(want), True)] + [(f"output{i}", a.get_plain_text(), b) for i, (a, b) in enumerate(zip(y, want))]

        return body

    two_in = {"x": R((2,), -2, 2), "y": R((2,), -2, 2)}
    C.append(pairs("Graph-outputs", outs([("a", cn.Add, ["x", "y"]), ("b", cn.Mul, ["x", "y"])], ["x", "y"], ["a", "b"], lambda x, y: (x + y, x * y)), two_in))
    C.append(pairs("Graph-outputs-late", outs([("a", cn.Add, ["x", "y"]), ("b", cn.Mul, ["x", "y"]), ("c", cn.Sub, ["b", "x"])], ["x", "y"], ["a", "c"], lambda x, y: (x + y, x * y - x)), two_in))
    C.append(pairs("Graph-outputs-swapped", outs([("a", cn.Add, ["x", "y"]), ("b", cn.Mul, ["a", "y"])], ["x", "y"], ["b", "a"], lambda x, y: ((x + y) * y, x + y)), two_in))

    def mlist(ctx):
        ml = cn.ModuleList([cn.Linear(1, 1, bias=False) for _ in range(3)])
        dic = cn.ModuleDict({"p": cn.Linear(1, 1, bias=False), "q": cn.ReLU()})
        for i in range(3):
            ml[i].set_parameter("weight", ctx.x(f"w{i}").clone())
        dic["p"].set_parameter("weight", ctx.x("w3").clone())

        class Net(cn.Module):
            def __init__(s):
                super().__init__()
                s.ml = ml
                s.dic = dic

            def forward(s, x):
                for l in s.ml:
                    x = l(x)
                return s.dic["p"](x)

        n = Net()
        names = [k for k, _ in n.named_parameters()]
        n.encrypt()
        y = n(crypten.cryptensor(ctx.x("x").clone()))
        want = ctx.x("x") * ctx.x("w0") * ctx.x("w1") * ctx.x("w2") * ctx.x("w3")
        del n.ml[1]
        y2 = n(crypten.cryptensor(ctx.x("x").clone()))
        want2 = ctx.x("x") * ctx.x("w0") * ctx.x("w2") * ctx.x("w3")
        return [("names", names == ["ml.0.weight", "ml.1.weight", "ml.2.weight", "dic.p.weight"], True), ("output", y.get_plain_text(), want), ("after-delete", y2.get_plain_text(), want2), ("encrypted", all(enc(p) for p in n.parameters()), True)]

    C.append(pairs("ModuleList-ModuleDict", mlist, {"x": R((1, 1), -1, 1), **{f"w{i}": R((1, 1), -1, 1) for i in range(4)}}, tol=0.1))
    # ---- models: encryption, decryption, state, updates
    def model():
        return cn.Sequential(cn.Linear(2, 1), cn.BatchNorm1d(1, eps=0.25), cn.Linear(1, 1, bias=False))

    S = {"0.weight": (1, 2), "0.bias": (1,), "1.weight": (1,), "1.bias": (1,), "2.weight": (1, 1)}
    B = {"1.running_mean": (1,), "1.running_var": (1,)}

    def fill(ctx, m, pre, mine=True):
        for k in list(S) + list(B):
            a, b = k.split(".")
            mo = m._modules[a]
            v = ctx.x(pre + k).clone() if mine else torch.full(tuple(ctx.x(pre + k).shape), 0.5)
            (mo.set_parameter if k in S else mo.set_buffer)(b, v)

    def ins(*pres, **more):
        d = dict(more)
        for pre in pres:
            for k, s in {**S, **B}.items():
                d[pre + k] = R(s, *(POS if "var" in k else (-2, 2)))
        return d

    def forward(ctx, pre, x):
        p = {k: ctx.x(pre + k) for k in list(S) + list(B)}
        h = Fn.linear(x, p["0.weight"], p["0.bias"])
        h = (h - p["1.running_mean"]) / (p["1.running_var"] + 0.25).sqrt() * p["1.weight"] + p["1.bias"]
        return Fn.linear(h, p["2.weight"])

    def all_state(m):
        return {**dict(m.named_parameters()), **dict(m.named_buffers())}

    for src in (0, 1, 2):
        for ws in (1, 2, 3):
            if src >= ws:
                continue

            def body(ctx, src=src):
                m = model()
                fill(ctx, m, "", ctx.rank == src)
                r = m.encrypt(src=src)
                out = [("returns-self", r is m, True)]
                for k, v in all_state(m).items():
                    out += [(f"encrypted-{k}", enc(v), True), (f"value-{k}", v.get_plain_text(), ctx.x(k))]
                m.eval()
                out.append(("forward", m(crypten.cryptensor(ctx.x("x").clone())).get_plain_text(), forward(ctx, "", ctx.x("x"))))
                m.decrypt()
                for k, v in all_state(m).items():
                    out += [(f"decrypted-{k}", enc(v), False), (f"plain-{k}", v, ctx.x(k))]
                m.encrypt(src=0)
                for k, v in all_state(m).items():
                    out += [(f"again-{k}", v.get_plain_text(), ctx.x(k))]
                return out

            C.append(pairs(f"encrypt-decrypt-src{src}", body, ins("", x=R((2, 2), -1, 1)), ws=ws, tol=0.25))

    def sd(ctx):
        m, m2 = model(), model()
        fill(ctx, m, "a")
        fill(ctx, m2, "b")
        m.encrypt()
        m2.encrypt()
        st = m.state_dict()
        out = [("keys", sorted(st) == sorted(list(S) + list(B)), True)]
        m2.load_state_dict(st)
        for k, v in all_state(m2).items():
            out.append((f"loaded-{k}", v.get_plain_text(), ctx.x("a" + k)))
        m2.eval()
        out.append(("forward", m2(crypten.cryptensor(ctx.x("x").clone())).get_plain_text(), forward(ctx, "a", ctx.x("x"))))
        return out

    C.append(pairs("state-dict", sd, ins("a", "b", x=R((2, 2), -1, 1)), tol=0.25))
    C.append(pairs("state-dict", sd, ins("a", "b", x=R((2, 2), -1, 1)), ws=2, tol=0.25))

    def sd_eval(ctx):
        m, m2 = model(), model()
        fill(ctx, m, "a")
        fill(ctx, m2, "b")
        m.encrypt()
        m2.encrypt()
        m2.eval()
        m2.load_state_dict(m.state_dict())
        return [("forward", m2(crypten.cryptensor(ctx.x("x").clone())).get_plain_text(), forward(ctx, "a", ctx.x("x")))]

    C.append(pairs("state-dict-eval", sd_eval, ins("a", "b", x=R((2, 2), -1, 1)), tol=0.25))

    def shares(ctx):
        m = cn.Linear(2, 1, bias=False)
        m.encrypt()
        t = crypten.cryptensor(ctx.x("w").clone())
        m.set_parameter_from_shares("weight", t.share.clone())
        return [("value", m.weight.get_plain_text(), ctx.x("w")), ("forward", m(crypten.cryptensor(ctx.x("x").clone())).get_plain_text(), Fn.linear(ctx.x("x"), ctx.x("w")))]

    C.append(pairs("set-parameter-from-shares", shares, {"w": R((1, 2), -2, 2), "x": R((1, 2), -2, 2)}, ws=2))

    def upd(thr, lr, ws):
        def body(ctx):
            m = cn.Sequential(cn.Linear(2, 1, bias=False), cn.Linear(1, 1, bias=True))
            for k in ("0.weight", "1.weight", "1.bias"):
                a, b = k.split(".")
                m._modules[a].set_parameter(b, ctx.x(k).clone())
            m.encrypt()
            m.train()
            G = {}
            for k, p in m.named_parameters():
                if k != "1.weight":
                    G[k] = p.grad = crypten.cryptensor(ctx.x("g:" + k).clone())
            m.update_parameters(lr, **({} if thr == "default" else {"grad_threshold": thr}))
            out = []
            for k, p in m.named_parameters():
                w = ctx.x(k)
                if k in G:
                    d = ctx.x("g:" + k)
                    if isinstance(thr, float):
                        d = d * (d.abs() < thr)
                    w = w - d * lr
                    out.append((f"gradient-unchanged-{k}", G[k].get_plain_text(), ctx.x("g:" + k)))
                out.append((f"parameter-{k}", p.get_plain_text(), w))
            m.zero_grad()
            out.append(("zero_grad", all(p.grad is None for p in m.parameters()), True))
            return out

        d = {"0.weight": R((1, 2), -2, 2), "1.weight": R((1, 1), -2, 2), "1.bias": R((1,), -2, 2), "g:0.weight": R((1, 2), -2, 2), "g:1.bias": R((1,), -2, 2)}
        pre = (lambda e: [N.bnot(N.feq(N.fmul(g, g), N.cf(thr * thr))) for k in ("g:0.weight", "g:1.bias") for g in e.x(k)]) if isinstance(thr, float) else None
        C.append(pairs(f"update_parameters({thr},{lr})", body, d, ws=ws, pre=pre))

    for thr in ("default", None, 1.0, 0.5):
        for lr in (0.5, 2):
            upd(thr, lr, 1)
    upd("default", 0.25, 2)

    def tr(ctx):
        m = model()
        m.encrypt()
        out = []
        for mode in (False, True, False):
            m.train(mode)
            out.append((f"mode-{mode}", all(x.training == mode for x in m.modules()), True))
            out.append((f"requires_grad-{mode}", all(p.requires_grad == mode for p in m.parameters()), True))
        return out

    C.append(pairs("train-eval", tr, {"x": R((1,), -1, 1)}))
    # a whole training step: forward, loss, backward, update
    def step(ctx, ws=1):
        m = cn.Sequential(cn.Linear(2, 2), cn.ReLU(), cn.Linear(2, 1, bias=False))
        for k in ("0.weight", "0.bias", "2.weight"):
            a, b = k.split(".")
            m._modules[a].set_parameter(b, ctx.x(k).clone())
        m.encrypt()
        m.train()
        x, y = (crypten.cryptensor(ctx.x(k).clone()) for k in "xy")
        loss = cn.MSELoss()(m(x), y)
        m.zero_grad()
        loss.backward()
        m.update_parameters(0.5)
        w0, b0, w2, X, Y = (ctx.x(k) for k in ("0.weight", "0.bias", "2.weight", "x", "y"))
        h = Fn.linear(X, w0, b0)
        a = h.relu()
        e = Fn.linear(a, w2) - Y
        n = e.numel()
        de = e * (2.0 / n)
        dw2 = de.t().matmul(a)
        da = de.matmul(w2) * (h > 0).float()
        out = [("loss", loss.get_plain_text(), (e * e).mean())]
        for k, p in m.named_parameters():
            want = {"0.weight": w0 - da.t().matmul(X) * 0.5, "0.bias": b0 - da.sum(0) * 0.5, "2.weight": w2 - dw2 * 0.5}[k]
            out.append((f"parameter-{k}", p.get_plain_text(), want))
        return out

    for ws in (1, 2):
        C.append(pairs("training-step", step, {"x": R((1, 2), -1, 1), "y": R((1, 1), -1, 1), "0.weight": R((2, 2), -1, 1), "0.bias": R((2,), -1, 1), "2.weight": R((1, 2), -1, 1)}, ws=ws, tol=0.1, noties="all"))
    return C
