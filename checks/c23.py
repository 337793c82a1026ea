"""C23 conversion of PyTorch and ONNX models."""
import io
import warnings

import torch
import torch.nn as tn
import torch.nn.functional as Fn

from .c14 import *

EXPLAIN = ("PyTorch models (single layers, functions, chains, branches, shared layers) are exported and converted by the real from_pytorch, ONNX graphs built with onnx.helper by the real from_onnx; the "
           "resulting CrypTen graph's parameters and inputs are then made symbolic, the model encrypted and run in exact arithmetic. Its output, and the gradients of inputs and parameters, are compared "
           "for all values with the PyTorch model's (normal form, then z3). Counterexamples are replayed on the real fixed-point code against torch.")
BOUNDS = {"models": "the layers, functions and graphs named by the scenarios (up to 12 nodes)", "values": "inputs and parameters: symbolic reals in [-2, 2] (positive where the function needs it)",
          "shapes": "sizes 1..5", "not covered": "what the converter refuses: Tanh, Neg, LeakyRelu, ReduceMax, Split, reductions and squeezes whose axes are an input, dropout (rejected by the installed onnx), "
          "strided slices, TensorFlow"}
ASSUMPTIONS = ["the exporter of the installed PyTorch writes a faithful ONNX graph", "rounding abstracted (exact reals); coefficients may differ by the 16-bit rounding of public constants",
               "products, comparisons and approximations replaced by their specification (C04, C06, C07, C09, C20)", "torch's forward kernels are exact"]


class Fun(tn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, *a):
        return self.f(*a)


class Net(tn.Module):
    """a model made of named layers and a function of (layers, inputs)"""

    def __init__(self, f, **layers):
        super().__init__()
        for k, v in layers.items():
            setattr(self, k, v)
        self.f = f

    def forward(self, *a):
        return self.f(self, *a)


def off_modes():
    return torch.utils._python_dispatch._disable_current_modes()


def convert(build, shapes, train):
    import crypten

    with warnings.catch_warnings(), off_modes():
        warnings.simplefilter("ignore")
        m = build()
        m.train(train)
        g = torch.Generator().manual_seed(3)
        with torch.no_grad():
            for p in tensors(m).values():
                p.copy_(torch.rand(p.shape, generator=g) + 0.5)
        xs = tuple(torch.rand(s, generator=g) for s in shapes)
        return m, crypten.nn.from_pytorch(m, xs if len(xs) > 1 else xs[0])


def tensors(m):
    return dict([(k, p) for k, p in m.named_parameters()] + [(k, b) for k, b in m.named_buffers() if b.is_floating_point()])


def put(c, k, v):
    p = c._modules[k]
    (p.set_parameter if "data" in p._parameters else p.set_buffer)("data", v)


def conv(name, build, shapes, ref=None, ws=1, train=False, rng=(-2, 2), only=None, prng=(-2, 2), **kw):
    """the converted, encrypted model computes the same function of inputs and parameters as the PyTorch model"""
    m0 = build()
    m0.train(train)
    names = {k: tuple(p.shape) for k, p in tensors(m0).items() if only is None or k in only}
    xs = [f"x{i}" for i in range(len(shapes))]

    def reference(X, P_):
        return ref(*X, **P_) if ref else torch.func.functional_call(m0, P_, tuple(X))

    def body(ctx):
        import crypten

        m, c = convert(build, shapes, train)
        out = [("training", c.training, train)]
        T = tensors(m)
        for k in names:
            w = c._modules[k].data
            out.append((f"value-{k}", bool(torch.equal(w, T[k].detach())), True))
            put(c, k, ctx.x(k).clone())
        c.encrypt()
        X = [ctx.x(k).clone() for k in xs]
        y = c(*[crypten.cryptensor(x) for x in X])
        q = reference(X, {k: ctx.x(k).clone() for k in names})
        out.append(("output", y.get_plain_text(), q))
        z = c(*[crypten.cryptensor(x) for x in X])  # a second use of the same model
        out.append(("again", z.get_plain_text(), q))
        c.decrypt()
        for k in names:
            out.append((f"decrypted-{k}", c._modules[k].data, ctx.x(k)))
        return out

    inputs = {k: R(s, *rng) for k, s in zip(xs, shapes)}
    inputs.update({k: R(s, *(POS if k.endswith("running_var") else prng)) for k, s in names.items()})
    return pairs(name, body, inputs, ws=ws, **kw)


def cgrad(name, build, shapes, ref=None, rng=(-2, 2), prng=(-2, 2), **kw):
    """gradients of inputs and parameters through the converted model"""
    m0 = build()
    m0.train(True)
    names = {k: tuple(p.shape) for k, p in tensors(m0).items()}
    xs = [f"x{i}" for i in range(len(shapes))]

    def rf(**X):
        P_ = {k: X[k] for k in names}
        a = [X[k] for k in xs]
        return ref(*a, **P_) if ref else torch.func.functional_call(m0, P_, tuple(a))

    def op(**X):
        if not any(enc(v) for v in X.values()):
            return rf(**X)
        _, c = convert(build, shapes, True)
        c.encrypt()
        for k in names:
            put(c, k, X[k])
        return c(*[X[k] for k in xs])

    sh = {**dict(zip(xs, shapes)), **names}
    return gradcase(name + "/grad", op, sh, rf, rng={**{k: rng for k in xs}, **{k: prng for k in names}}, **kw)


def onnx_model(nodes, ins, const, init, out="output"):
    """serialized ONNX model: nodes [(op, inputs, outputs, attributes)], inputs {name: shape}, constants and initializers {name: tensor}"""
    import onnx
    from onnx import TensorProto, helper, numpy_helper

    with off_modes():
        ns = [helper.make_node("Constant", [], [k], value=numpy_helper.from_array(v.numpy(), k)) for k, v in const.items()]
        ns += [helper.make_node(op, i, o, **a) for op, i, o, a in nodes]
        g = helper.make_graph(ns, "g", [helper.make_tensor_value_info(k, TensorProto.FLOAT, list(s)) for k, s in ins.items()], [helper.make_tensor_value_info(out, TensorProto.FLOAT, None)],
                              [numpy_helper.from_array(v.numpy(), k) for k, v in init.items()])
        return helper.make_model(g).SerializeToString()


def ox(name, nodes, ins, ref, init=None, params=None, rng=(-2, 2), file=False, ws=1, **kw):
    """from_onnx of a hand-written graph; params {name: shape} are initializers made symbolic"""
    init = init or {}
    params = params or {}

    def body(ctx):
        import crypten

        b = onnx_model(nodes, ins, init, {k: torch.ones(s) for k, s in params.items()})
        with off_modes():
            c = crypten.nn.from_onnx(io.BytesIO(b) if file else b)
        for k in params:
            put(c, k, ctx.x(k).clone())
        c.train(False)
        c.encrypt()
        X = {k: ctx.x(k).clone() for k in list(ins) + list(params)}
        y = c(*[crypten.cryptensor(X[k]) for k in ins])
        y = y.get_plain_text() if hasattr(y, "get_plain_text") else y.float()
        return [("output", y, ref(**X).float())]

    return pairs("onnx/" + name, body, {k: R(s, *rng) for k, s in {**ins, **params}.items()}, ws=ws, **kw)


def cases(tier):
    full = tier == "thorough"
    C = []
    r = lambda x: x * (x >= 0)

    def both(name, build, shapes, ref=None, **kw):
        C.append(conv(name, build, shapes, ref, **kw))
        kw.pop("ws", None)
        C.append(cgrad(name, build, shapes, ref, **kw))

    # ---- layers
    for shp in ((2, 3), (3,), (2, 2, 3)):
        both(f"Linear{shp}", lambda: tn.Linear(3, 2), [shp])
        both(f"Linear-nobias{shp}", lambda: tn.Linear(3, 2, bias=False), [shp])
    for a in (dict(), dict(padding=(1, 2)), dict(padding=1), dict(stride=(1, 2)), dict(stride=2, padding=(0, 1)), dict(dilation=(2, 1)), dict(bias=False)):
        both(f"Conv2d{a}", lambda a=a: tn.Conv2d(1, 2, 2, **a), [(1, 1, 3, 4)])
    both("Conv2d-groups", lambda: tn.Conv2d(2, 4, (2, 1), groups=2), [(1, 2, 3, 2)])
    both("Conv2d-rect", lambda: tn.Conv2d(1, 1, (1, 3), padding=(0, 1)), [(2, 1, 2, 3)])
    for a in (dict(), dict(padding=1), dict(stride=2), dict(dilation=2, bias=False), dict(padding=2, stride=3)):
        both(f"Conv1d{a}", lambda a=a: tn.Conv1d(1, 2, 2, **a), [(1, 1, 4)])
    both("Conv1d-groups", lambda: tn.Conv1d(2, 2, 2, groups=2), [(2, 2, 3)])
    for a, shp in ((dict(kernel_size=2), (1, 1, 2, 4)), (dict(kernel_size=(1, 2)), (1, 2, 2, 4)), (dict(kernel_size=2, stride=1), (1, 1, 2, 3)), (dict(kernel_size=2, padding=1), (1, 1, 2, 2)), (dict(kernel_size=2, stride=(2, 1)), (1, 1, 2, 3)),
                   (dict(kernel_size=(2, 1), padding=(1, 0), stride=(2, 1)), (1, 1, 2, 2)), (dict(kernel_size=2, ceil_mode=True), (1, 1, 2, 3))):
        C.append(conv(f"MaxPool2d{a}{shp}", lambda a=a: tn.MaxPool2d(**a), [shp], direct=True))
        if not a.get("ceil_mode"):
            C.append(conv(f"AvgPool2d{a}{shp}", lambda a=a: tn.AvgPool2d(**a), [shp]))
    for o, shp in ((1, (1, 2, 2, 2)), (2, (1, 1, 4, 2)), ((1, 2), (1, 1, 2, 4)), ((2, 2), (1, 1, 2, 2)), ((None, 1), (1, 1, 2, 2))):
        C.append(conv(f"AdaptiveAvgPool2d({o}){shp}", lambda o=o: tn.AdaptiveAvgPool2d(o), [shp]))
        if shp[2] * shp[3] <= 4:
            C.append(conv(f"AdaptiveMaxPool2d({o}){shp}", lambda o=o: tn.AdaptiveMaxPool2d(o), [shp], ref=lambda x, o=o: amax(x, o), direct=True))
    both("ReLU", lambda: tn.ReLU(), [(2, 2)], noties="all")
    for lo, hi in ((-0.5, 1.0), (0.25, 0.75), (-1, 1)):
        both(f"Hardtanh({lo},{hi})", lambda lo=lo, hi=hi: tn.Hardtanh(lo, hi), [(2, 2)], noties="all")
    both("ReLU6", lambda: tn.ReLU6(), [(2, 2)], rng=(-8, 8), noties="all")
    both("Sigmoid", lambda: tn.Sigmoid(), [(2, 2)], tol=0.1)
    for d in (0, 1, -1):
        both(f"Softmax({d})", lambda d=d: tn.Softmax(d), [(2, 2)], rng=(-1, 1), tol=0.15)
        C.append(conv(f"LogSoftmax({d})", lambda d=d: tn.LogSoftmax(d), [(2, 2)], rng=(-1, 1), tol=0.15))
    C.append(conv("Softmax3(1)", lambda: tn.Softmax(1), [(2, 2, 2)], rng=(-1, 1), tol=0.15))
    both("Flatten", lambda: tn.Flatten(), [(2, 2, 2)])
    C.append(conv("Flatten(0)", lambda: tn.Flatten(0), [(2, 3)]))
    C.append(conv("Flatten(2)", lambda: tn.Flatten(2), [(1, 2, 2, 2)]))
    C.append(conv("Flatten(1,2)", lambda: tn.Flatten(1, 2), [(1, 2, 2, 2)]))
    # batch normalisation in evaluation mode (values of the four parameters made different: exporters share equal ones)
    bnr = lambda x, weight, bias, running_mean, running_var, eps, d: (x - running_mean.reshape(d)) / (running_var.reshape(d) + eps).sqrt() * weight.reshape(d) + bias.reshape(d)
    for nm, cls, shp in (("1d", tn.BatchNorm1d, (3, 2)), ("1d3", tn.BatchNorm1d, (2, 2, 2)), ("2d", tn.BatchNorm2d, (1, 2, 1, 2))):
        for eps in (0.25, 1.0):
            d = (1, 2) + (1,) * (len(shp) - 2)
            C.append(conv(f"BatchNorm{nm}({eps})", lambda cls=cls, eps=eps: cls(2, eps=eps), [shp], ref=lambda x, d=d, eps=eps, **p: bnr(x, eps=eps, d=d, **p), tol=0.1))
    # ---- functions
    F = lambda f: (lambda: Fun(f))
    fs = [("add", lambda x, y: x + y, ((2, 3), (2, 3))), ("add-broadcast", lambda x, y: x + y, ((2, 3), (3,))), ("add-self", lambda x: x + x, ((2, 3),)), ("sub", lambda x, y: x - y, ((2, 3), (2, 3))), ("sub-swapped", lambda x, y: y - x, ((2, 3), (2, 3))),
          ("mul", lambda x, y: x * y, ((2, 3), (2, 3))), ("square-self", lambda x: x * x, ((2, 3),)), ("div-const", lambda x: x / 2, ((2, 3),)), ("pow2", lambda x: x ** 2, ((3,),)), ("pow3", lambda x: x ** 3, ((3,),)),
          ("mean1", lambda x: x.mean(1), ((2, 3),)), ("mean-keep", lambda x: x.mean(1, keepdim=True), ((2, 3),)), ("mean02", lambda x: x.mean((0, 2)), ((2, 3, 2),)), ("mean-neg", lambda x: x.mean(-1), ((2, 3),)), ("mean-neg2", lambda x: x.mean((-1, 0), keepdim=True), ((2, 3, 2),)),
          ("t", lambda x: x.t(), ((2, 3),)), ("permute", lambda x: x.permute(2, 0, 1), ((2, 3, 2),)), ("transpose", lambda x: x.transpose(0, -1), ((2, 3, 2),)), ("unsqueeze1", lambda x: x.unsqueeze(1), ((2, 3),)), ("unsqueeze-1", lambda x: x.unsqueeze(-1), ((2, 3),)), ("unsqueeze0", lambda x: x.unsqueeze(0), ((3,),)),
          ("slice", lambda x: x[:, 1:3], ((2, 4),)), ("slice-last", lambda x: x[:, -1:], ((2, 4),)), ("slice-butlast", lambda x: x[:, :-1], ((2, 4),)), ("slice-from", lambda x: x[:, 1:], ((2, 4),)), ("slice-rows", lambda x: x[1:], ((3, 2),)), ("slice2", lambda x: x[0:1, 1:3], ((2, 4),)), ("slice-neg2", lambda x: x[:, -3:-1], ((2, 4),)),
          ("index", lambda x: x[:, 1], ((2, 4),)), ("index-neg", lambda x: x[:, -1], ((2, 4),)), ("index-row", lambda x: x[1], ((2, 3),)),
          ("cat1", lambda x, y: torch.cat([x, y], 1), ((2, 3), (2, 2))), ("cat0", lambda x, y: torch.cat([y, x], 0), ((1, 2), (2, 2))), ("cat-neg", lambda x, y: torch.cat([x, y, x], -1), ((2, 1), (2, 2))), ("stack", lambda x, y: torch.stack([x, y], 1), ((2, 2), (2, 2))),
          ("reshape", lambda x: x.reshape(3, 2), ((2, 3),)), ("reshape-1", lambda x: x.reshape(-1, 2), ((2, 2, 2),)), ("view", lambda x: x.view(x.size(0), -1), ((2, 3, 2),)), ("expand", lambda x: x.expand(2, 3), ((1, 3),)), ("expand3", lambda x: x.expand(2, 2, 3), ((2, 3),)), ("expand1", lambda x: x.expand(1, 3, 2), ((3, 2),)),
          ("matmul", lambda x, y: x @ y, ((2, 3), (3, 2))), ("matmul-batch", lambda x, y: x @ y, ((2, 2, 3), (3, 2))), ("bmm", lambda x, y: torch.bmm(x, y), ((2, 2, 3), (2, 3, 1))), ("addmm", lambda x, y, z: torch.addmm(z, x, y, beta=0.5, alpha=2), ((2, 3), (3, 2), (2, 2))),
          ("constant", lambda x: x + torch.tensor([1.0, 2, 3]), ((2, 3),)), ("constant-mul", lambda x: x * 0.5 + 1, ((2, 3),)), ("branch", lambda x: (x * 2) + (x * x * 3), ((2, 3),)), ("diamond", lambda x, y: (x + y) * (x - y) + x, ((2, 2), (2, 2))), ("nested", lambda x: ((x + 1) * x + 2) * x, ((3,),)),
          ("flatten", lambda x: torch.flatten(x, 1), ((2, 2, 2),)), ("chunk-view", lambda x: x.view(2, 2, 2)[:, 0] + x.view(2, 2, 2)[:, 1], ((2, 4),)), ("unused-order", lambda x, y: y * 2 - x, ((2,), (2,)))]
    for nm, f, shs in fs:
        both("F." + nm, F(f), list(shs))
    for nm, f, shs, kw in (("relu", lambda x: x.relu() * 2, ((2, 2),), dict(noties="all")), ("sqrt", lambda x: x.sqrt(), ((3,),), dict(rng=POS, tol=0.1)), ("exp", lambda x: x.exp(), ((3,),), dict(rng=(-1, 1), tol=0.15)), ("erf", lambda x: x.erf(), ((3,),), dict(rng=(-1, 1), tol=0.1)),
                           ("clamp", lambda x: x.clamp(0.25, 0.5), ((2, 2),), dict(noties="all")), ("hardtanh", lambda x: Fn.hardtanh(x, -0.5, 0.25), ((2, 2),), dict(noties="all")), ("relu6", lambda x: Fn.relu6(x), ((2, 2),), dict(rng=(-8, 8), noties="all")),
                           ("div", lambda x, y: x / y, ((2, 2), (2, 2)), dict(rng=POS, tol=0.15)), ("branch-relu", lambda x: x * 2 + x.relu() * 3, ((2, 2),), dict(noties="all")), ("sigmoid-chain", lambda x: x.sigmoid() * x, ((2,),), dict(tol=0.15)),
                           ("gap", lambda x: Fn.adaptive_avg_pool2d(x, 1), ((1, 2, 2, 2),), {}), ("softmax-neg", lambda x: x.softmax(-1), ((2, 1, 2),), dict(rng=(-1, 1), tol=0.15)), ("where", lambda x, y: torch.where(torch.tensor([[True, False]]), x, y), ((2, 2), (2, 2)), {})):
        C.append(conv("F." + nm, F(f), list(shs), **kw))
    # ---- models
    seq = lambda *l: (lambda: tn.Sequential(*[x() for x in l]))
    lin = lambda a, b, **k: (lambda: tn.Linear(a, b, **k))
    nets = [
        ("mlp", seq(lin(2, 2), tn.ReLU, lin(2, 1)), [(2, 2)], dict(noties="all")),
        ("mlp3", seq(lin(2, 2, bias=False), lin(2, 2), lin(2, 1, bias=False)), [(1, 2)], {}),
        ("nested-sequential", seq(seq(lin(2, 1)), seq(lin(1, 2), lin(2, 1))), [(2, 2)], {}),
        ("cnn", seq(lambda: tn.Conv2d(1, 2, 2), tn.ReLU, tn.Flatten, lin(4, 1)), [(1, 1, 2, 3)], dict(noties="all")),
        ("cnn-pool", seq(lambda: tn.Conv2d(1, 1, 2, bias=False), lambda: tn.AvgPool2d((1, 2)), tn.Flatten, lin(2, 2)), [(2, 1, 3, 3)], {}),
        ("two-branches", lambda: Net(lambda s, x: s.a(x) + s.b(x) * 2, a=tn.Linear(2, 2), b=tn.Linear(2, 2, bias=False)), [(2, 2)], {}),
        ("residual", lambda: Net(lambda s, x: x + s.b(s.a(x)), a=tn.Linear(2, 1), b=tn.Linear(1, 2)), [(2, 2)], {}),
        ("shared-layer", lambda: Net(lambda s, x: s.a(s.a(x)), a=tn.Linear(2, 2)), [(1, 2)], {}),
        ("two-inputs", lambda: Net(lambda s, x, y: s.a(x) * s.b(y), a=tn.Linear(2, 2), b=tn.Linear(3, 2)), [(1, 2), (1, 3)], {}),
        ("two-inputs-order", lambda: Net(lambda s, x, y: s.a(y) - s.b(x), b=tn.Linear(2, 2), a=tn.Linear(2, 2)), [(1, 2), (1, 2)], {}),
        ("late-input", lambda: Net(lambda s, x, y: s.a(x) - y, a=tn.Linear(2, 2)), [(1, 2), (1, 2)], {}),
        ("parameter", lambda: Net(lambda s, x: x @ s.w + s.c, w=tn.Parameter(torch.ones(2, 2)), c=tn.Parameter(torch.ones(2))), [(2, 2)], {}),
        ("concat", lambda: Net(lambda s, x: s.b(torch.cat([s.a(x), x], 1)), a=tn.Linear(2, 1), b=tn.Linear(3, 1)), [(2, 2)], {}),
        ("attention", lambda: Net(lambda s, x: s.q(x) @ s.k(x).t() @ x, q=tn.Linear(2, 1, bias=False), k=tn.Linear(2, 1, bias=False)), [(2, 2)], {}),
    ]
    for nm, b, shs, kw in nets:
        both("net." + nm, b, shs, **kw)
    for nm in ("mlp", "two-branches", "cnn-pool"):
        b, shs, kw = next((b, s, k) for n, b, s, k in nets if n == nm)
        C.append(conv("net." + nm, b, shs, ws=2, **kw))

    # ---- hand-written ONNX graphs
    T = torch.tensor
    one = lambda op, a, extra=(): [(op, ["x"] + list(extra), ["output"], a)]
    X23 = {"x": (2, 3)}
    C.append(ox("Gather-default", one("Gather", {}, ["i"]), X23, lambda x: x[[1, 0]], init={"i": T([1, 0])}))
    C.append(ox("Gather-axis1", one("Gather", {"axis": 1}, ["i"]), X23, lambda x: x[:, [2, 0, 2]], init={"i": T([2, 0, 2])}))
    C.append(ox("Gather-2d", one("Gather", {"axis": 0}, ["i"]), X23, lambda x: x[T([[1, 0], [0, 0]])], init={"i": T([[1, 0], [0, 0]])}))
    C.append(ox("Gather-neg", one("Gather", {"axis": -1}, ["i"]), X23, lambda x: x[:, [0, 2]], init={"i": T([0, 2])}))
    for pads in ([0, 1, 0, 2], [1, 0, 0, 0], [2, 1, 0, 3]):
        C.append(ox(f"Pad{pads}", one("Pad", {"mode": "constant"}, ["p"]), X23, lambda x, p=pads: Fn.pad(x, (p[1], p[3], p[0], p[2])), init={"p": T(pads)}))
    C.append(ox("Pad4", one("Pad", {"mode": "constant"}, ["p"]), {"x": (1, 1, 2, 2)}, lambda x: Fn.pad(x, (2, 0, 1, 1)), init={"p": T([0, 0, 1, 2, 0, 0, 1, 0])}))
    for st, en, ax in (([0, 1], [1, 3], [0, 1]), ([1], [2], [1]), ([-2], [-1], [1]), ([0], [2 ** 31], [1]), ([1], [2 ** 62], [-1]), ([0], [-1], [0])):
        def sl(x, st=st, en=en, ax=ax):
            for s, e, d in zip(st, en, ax):
                x = x[:, s:e] if d % 2 else x[s:e]
            return x

        C.append(ox(f"Slice{st}{en}{ax}", one("Slice", {}, ["s", "e", "a"]), X23, sl, init={"s": T(st), "e": T(en), "a": T(ax)}))
        if max(en) < 2 ** 31:
            C.append(ox(f"Slice-attr{st}{en}{ax}", one("Slice", {"starts": st, "ends": en, "axes": ax}), X23, sl))
    C.append(ox("Slice-noaxes", one("Slice", {}, ["s", "e"]), X23, lambda x: x[1:2, 0:2], init={"s": T([1, 0]), "e": T([2, 2])}))
    for al, be, ta, tb in ((1.0, 1.0, 0, 0), (2.0, 0.5, 0, 1), (0.5, 1.0, 1, 0), (1.5, 2.0, 1, 1)):
        C.append(ox(f"Gemm({al},{be},{ta},{tb})", one("Gemm", {"alpha": al, "beta": be, "transA": ta, "transB": tb}, ["w", "b"]), {"x": (3, 2) if ta else (2, 3)},
                    lambda x, w, b, al=al, be=be, ta=ta, tb=tb: al * ((x.t() if ta else x) @ (w.t() if tb else w)) + be * b, params={"w": (2, 3) if tb else (3, 2), "b": (2,)}))
    for ax in ([1], [0], [-1], [0, 1]):
        for k in (0, 1, None):
            a = {"axes": ax, **({} if k is None else {"keepdims": k})}
            C.append(ox(f"ReduceSum{ax}{k}", one("ReduceSum", a), X23, lambda x, ax=ax, k=k: x.sum(tuple(ax), keepdim=k != 0)))
            C.append(ox(f"ReduceMean{ax}{k}", one("ReduceMean", a), X23, lambda x, ax=ax, k=k: x.mean(tuple(ax), keepdim=k != 0)))
    for a in (0, 1, 2, 3):
        C.append(ox(f"Flatten({a})", one("Flatten", {"axis": a}), {"x": (2, 1, 3)}, lambda x, a=a: x.reshape((1, -1) if a == 0 else (int(torch.Size(x.shape[:a]).numel()), -1))))
    C.append(ox("Flatten-default", one("Flatten", {}), {"x": (2, 1, 3)}, lambda x: x.reshape(2, 3)))
    C.append(ox("Transpose", one("Transpose", {"perm": [2, 0, 1]}), {"x": (2, 1, 3)}, lambda x: x.permute(2, 0, 1)))
    C.append(ox("Concat", [("Concat", ["x", "y"], ["output"], {"axis": 1})], {"x": (2, 1), "y": (2, 2)}, lambda x, y: torch.cat([x, y], 1)))
    C.append(ox("Concat-neg", [("Concat", ["y", "x"], ["output"], {"axis": -2})], {"x": (2, 1), "y": (1, 1)}, lambda x, y: torch.cat([y, x], 0)))
    C.append(ox("Squeeze", one("Squeeze", {"axes": [1]}), {"x": (2, 1, 3)}, lambda x: x.squeeze(1)))
    C.append(ox("Squeeze-neg", one("Squeeze", {"axes": [-1]}), {"x": (1, 2, 1)}, lambda x: x.squeeze(-1)))
    C.append(ox("Unsqueeze", one("Unsqueeze", {"axes": [1]}), X23, lambda x: x.unsqueeze(1)))
    C.append(ox("Unsqueeze-input", one("Unsqueeze", {}, ["a"]), X23, lambda x: x.unsqueeze(-1), init={"a": T([-1])}))
    C.append(ox("Reshape", one("Reshape", {}, ["s"]), X23, lambda x: x.reshape(3, 2), init={"s": T([3, -1])}))
    C.append(ox("Expand", one("Expand", {}, ["s"]), {"x": (2, 1)}, lambda x: x.expand(2, 2, 3), init={"s": T([2, 2, 3])}))
    C.append(ox("Expand-keep", one("Expand", {}, ["s"]), {"x": (2, 3)}, lambda x: x.expand(2, 3), init={"s": T([1, 1])}))
    C.append(ox("Clip-attr", one("Clip", {"min": -0.5, "max": 0.75}), X23, lambda x: x.clamp(-0.5, 0.75)))
    C.append(ox("Clip-input", one("Clip", {}, ["l", "h"]), X23, lambda x: x.clamp(-0.25, 1.5), init={"l": T(-0.25), "h": T(1.5)}))
    C.append(ox("Relu", one("Relu", {}), X23, lambda x: x.relu()))
    C.append(ox("GlobalAveragePool", one("GlobalAveragePool", {}), {"x": (1, 2, 2, 3)}, lambda x: x.mean((2, 3), keepdim=True)))
    for k, s, p in (([2, 1], [1, 1], [0, 0, 0, 0]), ([1, 2], [1, 2], [0, 1, 0, 1]), ([2, 2], [2, 1], [1, 0, 1, 0])):
        C.append(ox(f"MaxPool{k}{s}{p}", one("MaxPool", {"kernel_shape": k, "strides": s, "pads": p}), {"x": (1, 1, 2, 3)}, lambda x, k=k, s=s, p=p: Fn.max_pool2d(x, k, s, p[:2]), direct=True))
        C.append(ox(f"AveragePool{k}{s}{p}", one("AveragePool", {"kernel_shape": k, "strides": s, "pads": p, "count_include_pad": 1}), {"x": (1, 1, 2, 3)}, lambda x, k=k, s=s, p=p: Fn.avg_pool2d(x, k, s, p[:2])))
        C.append(ox(f"Conv{k}{s}{p}", one("Conv", {"kernel_shape": k, "strides": s, "pads": p, "dilations": [1, 1], "group": 1}, ["w", "b"]), {"x": (1, 1, 2, 3)}, lambda x, w, b, s=s, p=p: Fn.conv2d(x, w, b, s, p[:2]), params={"w": (2, 1) + tuple(k), "b": (2,)}))
    C.append(ox("Conv-group", one("Conv", {"kernel_shape": [2], "strides": [1], "pads": [1, 1], "dilations": [2], "group": 2}, ["w"]), {"x": (1, 2, 3)}, lambda x, w: Fn.conv1d(x, w, None, 1, 1, 2, 2), params={"w": (2, 1, 2)}))
    C.append(ox("BatchNormalization", one("BatchNormalization", {"epsilon": 0.5}, ["w", "b", "m", "v"]), {"x": (2, 2)}, lambda x, w, b, m, v: (x - m) / (v + 0.5).sqrt() * w + b, params={"w": (2,), "b": (2,), "m": (2,), "v": (2,)}, rng=POS, tol=0.1))
    for d in (0, 1, -1):
        C.append(ox(f"Softmax({d})", one("Softmax", {"axis": d}), {"x": (2, 2)}, lambda x, d=d: x.softmax(d), rng=(-1, 1), tol=0.15))
    C.append(ox("Pow-init", one("Pow", {}, ["p"]), {"x": (3,)}, lambda x: x ** 3, init={"p": T(3.0)}, rng=(-1.5, 1.5), tol=0.1))
    C.append(ox("Constant", [("Constant", [], ["c"], {"value": __import__("onnx").helper.make_tensor("c", 1, [3], [1.0, 2.0, -0.5])}), ("Mul", ["x", "c"], ["output"], {})], X23, lambda x: x * T([1.0, 2.0, -0.5])))
    C.append(ox("Constant-sub", [("Constant", [], ["c"], {"value": __import__("onnx").helper.make_tensor("c", 1, [], [1.5])}), ("Sub", ["x", "c"], ["output"], {})], X23, lambda x: x - 1.5))
    C.append(ox("Shape-Expand", [("Shape", ["y"], ["s"], {}), ("Expand", ["x", "s"], ["output"], {})], {"x": (1, 2), "y": (3, 2)}, lambda x, y: x.expand(3, 2)))
    C.append(ox("Shape-Reshape", [("Shape", ["y"], ["s"], {}), ("Reshape", ["x", "s"], ["output"], {})], {"x": (6,), "y": (3, 2)}, lambda x, y: x.reshape(3, 2)))
    C.append(ox("out-of-order-names", [("Mul", ["x", "y"], ["zz"], {}), ("Add", ["zz", "x"], ["aa"], {}), ("Sub", ["aa", "y"], ["output"], {})], {"x": (2,), "y": (2,)}, lambda x, y: x * y + x - y))
    C.append(ox("input-output-chain", [("Add", ["x", "x"], ["a"], {}), ("Add", ["a", "a"], ["b"], {}), ("Add", ["b", "a"], ["output"], {})], {"x": (2,)}, lambda x: x * 6))
    C.append(ox("file", [("MatMul", ["x", "w"], ["h"], {}), ("Add", ["h", "b"], ["output"], {})], X23, lambda x, w, b: x @ w + b, params={"w": (3, 1), "b": (1,)}, file=True))
    C.append(ox("file", [("MatMul", ["x", "w"], ["h"], {}), ("Add", ["h", "b"], ["output"], {})], X23, lambda x, w, b: x @ w + b, params={"w": (3, 1), "b": (1,)}, file=True, ws=2))
    return C
