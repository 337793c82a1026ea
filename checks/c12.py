"""C12 gradients."""
import torch
import torch.nn.functional as Fn

from .grad import *

EXPLAIN = ("The real autograd tape and every registered backward function run on encrypted symbolic reals in exact arithmetic: x.grad after y.backward(u) is an expression in the symbolic "
           "operands and the symbolic upstream gradient u. The reference is the formal reverse-mode derivative of the plaintext torch expression of the same operation. Both are brought to a "
           "normal form (polynomials over variables, inverses, roots, exponentials and truth-value indicators); what remains is decided by z3. Counterexamples are replayed against the real fixed-point code and torch.autograd.")
BOUNDS = {"values": "operands and upstream gradients: symbolic reals in [-2, 2] (positive where the function needs it)", "shapes": "listed in the scenario names, up to 3-4 dimensions with sizes 1..5",
          "parties": "1 and 2", "kinks": "points where the function is not differentiable are excluded", "not covered": "backward twice through a graph that was already consumed"}
ASSUMPTIONS = ["rounding abstracted (exact reals); coefficients may differ by the 16-bit rounding of public constants", "products and comparisons replaced by their specification (C04, C06, C07, C09)",
               "exp, log, reciprocal, sqrt, sigmoid, tanh, erf, sin, cos, softmax are the mathematical functions (C20)", "torch's forward kernels are exact"]

POS = (0.25, 3)


def cases(tier):
    C = []
    full = tier == "thorough"

    def g(name, op, shapes, ref=None, **kw):
        C.append(gradcase(name, op, shapes, ref, **kw))

    # ---- layout
    g("t", lambda x: x.t(), {"x": (2, 3)})
    g("t-1d", lambda x: x.t(), {"x": (3,)})
    for a, b in ((0, 1), (1, 2), (-1, 0), (-2, -1), (2, 2)):
        g(f"transpose({a},{b})", lambda x, a=a, b=b: x.transpose(a, b), {"x": (2, 3, 2)})
    for d in ((0, 1, 2), (2, 0, 1), (1, 2, 0), (-1, 0, 1), (0, -1, -2)):
        g(f"permute{d}", lambda x, d=d: x.permute(d), {"x": (2, 3, 2)})
    for d in ((0,), (1,), (0, 1), (-1,), (-1, 0)):
        g(f"flip{d}", lambda x, d=d: x.flip(d), {"x": (2, 3)})
    g("clone", lambda x: x.clone(), {"x": (2, 2)})
    import crypten

    enc = lambda v: hasattr(v, "get_plain_text")
    cat = lambda vs, dim: crypten.cat(vs, dim=dim) if any(map(enc, vs)) else torch.cat(vs, dim=dim)
    stack = lambda vs, dim: crypten.stack(vs, dim=dim) if any(map(enc, vs)) else torch.stack(vs, dim=dim)
    for d in (0, 1, -1):
        g(f"cat(dim={d})", lambda x, y, d=d: cat([x, y], d), {"x": (2, 2), "y": (2, 2)})
        g(f"cat-same(dim={d})", lambda x, d=d: cat([x, x, x], d), {"x": (2, 2)})
    g("cat-unequal", lambda x, y: cat([x, y], 1), {"x": (2, 1), "y": (2, 3)})
    g("cat-const", lambda x, y: cat([x, y], 0), {"x": (2,), "y": (1,)}, wrt=["y"])
    for d in (0, 1, 2, -1, -2):
        g(f"stack(dim={d})", lambda x, y, d=d: stack([x, y], d), {"x": (2, 3), "y": (2, 3)})
    g("stack-0d", lambda x, y: stack([x, y], 0), {"x": (), "y": ()})
    for nm, f in (("view", lambda x: x.view(3, 2)), ("view-1", lambda x: x.view(-1)), ("reshape", lambda x: x.reshape(3, 2)), ("reshape-list", lambda x: x.reshape([1, 6])),
                  ("flatten", lambda x: x.flatten()), ("squeeze-none", lambda x: x.squeeze())):
        g(nm, f, {"x": (2, 3)})
    for s, e in ((0, 1), (1, 2), (0, -1), (-2, -1), (1, 1)):
        g(f"flatten({s},{e})", lambda x, s=s, e=e: x.flatten(start_dim=s, end_dim=e), {"x": (2, 2, 2)})
    g("flatten-0d", lambda x: x.flatten(), {"x": ()})
    for shp, d, s, l in (((4,), 0, 1, 2), ((3, 2), 0, 0, 2), ((3, 2), 1, 1, 1), ((3, 2), -1, 0, 1), ((3, 2), -2, 1, 2), ((2, 3, 2), 1, 1, 2), ((2, 3, 2), -2, 0, 2), ((2, 2, 3), -1, 2, 1)):
        g(f"narrow{shp}({d},{s},{l})", lambda x, d=d, s=s, l=l: x.narrow(d, s, l), {"x": shp})
    for shp, d in (((2, 1, 3), 1), ((1, 2), 0), ((1, 2), -2), ((2, 1), -1), ((2, 3), 0), ((1, 1), 0), ((1, 2, 1), None), ((1, 1), None), ((1,), None), ((1,), 0), ((1, 2, 1), -1)):
        g(f"squeeze{shp}({d})", lambda x, d=d: x.squeeze() if d is None else x.squeeze(d), {"x": shp})
        if d is not None:
            g(f"squeeze{shp}(dim={d})", lambda x, d=d: x.squeeze(dim=d), {"x": shp})
    for shp, d in (((2,), 0), ((2,), 1), ((2,), -1), ((2,), -2), ((2, 3), -1), ((2, 3), -3), ((2, 3), 1), ((), 0), ((), -1), ((1, 2), -2), ((1, 1), 0)):
        g(f"unsqueeze{shp}({d})", lambda x, d=d: x.unsqueeze(d), {"x": shp})
    for sh, d in ((1, None), (-1, 0), (2, 1), ((1, 2), (0, 1)), (1, -1), ((1, 1), (1, 1)), ((1, -2), (-1, 0)), (5, 0)):
        g(f"roll({sh},{d})", lambda x, sh=sh, d=d: x.roll(sh, dims=d) if d is not None else x.roll(sh), {"x": (2, 3)})
    for p in ((1, 1), (0, 2), (1, 0, 2, 1), (0, 1, 1, 0)):
        g(f"pad{p}", lambda x, p=p: x.pad(p) if hasattr(x, "get_plain_text") else Fn.pad(x, p), {"x": (2, 3)})
        g(f"pad{p}-value", lambda x, p=p: x.pad(p, value=1.5) if hasattr(x, "get_plain_text") else Fn.pad(x, p, value=1.5), {"x": (2, 3)})

    # ---- indexing
    ix = torch.tensor
    for nm, i in (("0", 0), ("-1", -1), ("slice", slice(1, 3)), ("step", slice(0, 3, 2)), ("pair", (1, slice(None))), ("elem", (2, 1)), ("none", None), ("ellipsis", (Ellipsis, 0)), ("list", [0, 2]),
                  ("tensor", ix([2, 0])), ("dup", ix([1, 1])), ("dup-list", [0, 2, 0]), ("dup-col", (slice(None), ix([1, 1, 0]))), ("adv-pair", (ix([0, 2]), ix([1, 0]))), ("adv-dup", (ix([0, 0]), ix([1, 1]))), ("mask", ix([True, False, True]))):
        g(f"getitem[{nm}]", lambda x, i=i: x[i], {"x": (3, 2)})
    for nm, i, d in (("flat", ix([0, 3, 5]), None), ("flat-dup", ix([1, 1, 4]), None), ("flat-2d", ix([[0, 1], [1, 5]]), None), ("dim0", ix([2, 0]), 0), ("dim0-dup", ix([1, 1]), 0), ("dim1", ix([1, 0, 1]), 1), ("dim0-2d", ix([[0, 1], [2, 1]]), 0), ("dim-1", ix([1, 1]), -1)):
        def take(x, i=i, d=d):
            if hasattr(x, "get_plain_text"):
                return x.take(i) if d is None else x.take(i, d)
            if d is None:
                return x.take(i) if x.__class__ is torch.Tensor else x.reshape(-1)[i.reshape(-1)].reshape(i.shape)
            dd = d % x.dim()
            return x.index_select(dd, i.reshape(-1)).reshape(tuple(x.shape[:dd]) + tuple(i.shape) + tuple(x.shape[dd + 1:]))
        g(f"take[{nm}]", take, {"x": (3, 2)})
    for nm, d, i in (("0", 0, [2, 0]), ("0-dup", 0, [1, 1, 0]), ("1", 1, [1]), ("-1", -1, [0, 1, 1]), ("0-scalar", 0, 1)):
        g(f"index_select[{nm}]", lambda x, d=d, i=i: x.index_select(d, ix(i)), {"x": (3, 2)})
    for nm, d, i in (("0", 0, [[2, 0]]), ("0-dup", 0, [[1, 1], [1, 0]]), ("1", 1, [[1], [0], [1]]), ("-1", -1, [[0, 0], [1, 0], [1, 1]])):
        g(f"gather[{nm}]", lambda x, d=d, i=i: x.gather(d, ix(i)), {"x": (3, 2)})
    for nm, d, i in (("0", 0, [[2, 0]]), ("0-two", 0, [[1, 1], [2, 0]]), ("1", 1, [[1], [0], [1]]), ("-1", -1, [[0, 1], [1, 0], [1, 0]])):
        shp = tuple(ix(i).shape)
        g(f"scatter[{nm}]", lambda x, s, d=d, i=i: x.scatter(d, ix(i), s), {"x": (3, 2), "s": shp})
        g(f"scatter-const-src[{nm}]", lambda x, s, d=d, i=i: x.scatter(d, ix(i), s), {"x": (3, 2), "s": shp}, wrt=["x"])
    g("scatter-big-src", lambda x, s: x.scatter(0, ix([[2, 0]]), s), {"x": (3, 2), "s": (3, 2)})

    # ---- elementwise linear and products, with broadcasting
    shp2 = [((2, 2), (2, 2)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1), (1, 3)), ((2, 3), ()), ((), (2, 3)), ((1,), (3,)), ((2, 1, 2), (3, 1)), ((1, 1), (2, 2)), ((), ()), ((1, 2), (2,)), ((1, 1, 2), (2,))]
    for a, b in shp2:
        for nm, f in (("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y)):
            g(f"{nm}{a}{b}", f, {"x": a, "y": b})
        g(f"div{a}{b}", lambda x, y: x / y, {"x": a, "y": b}, rng={"x": (-2, 2), "y": (0.5, 2)})
    for a, b in (((2, 2), (2, 2)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 3), ()), ((), (3,)), ((1, 2), (2, 1))):
        p = {"y": R(b, 0.5, 2)}
        for nm, f in (("add-public", lambda x, y: x + y), ("radd-public", lambda x, y: y + x), ("sub-public", lambda x, y: x - y), ("rsub-public", lambda x, y: y - x), ("mul-public", lambda x, y: x * y),
                      ("rmul-public", lambda x, y: y * x), ("div-public", lambda x, y: x / y), ):
            if nm[0] == "r" and nm != "rsub-public":
                continue
            if nm == "rsub-public":
                f = lambda x, y: x.__rsub__(y) if hasattr(x, "get_plain_text") else y - x
            g(f"{nm}{a}{b}", f, {"x": a}, pub=p)
        g(f"rdiv-public{a}{b}", lambda x, y: x.__rtruediv__(y) if hasattr(x, "get_plain_text") else y / x, {"x": a}, pub=p, rng=(0.5, 2))
    for nm, f in (("add-scalar", lambda x: x + 1.5), ("radd-scalar", lambda x: 2 + x), ("sub-scalar", lambda x: x - 3), ("rsub-scalar", lambda x: 1.25 - x), ("mul-scalar", lambda x: x * 3), ("rmul-scalar", lambda x: -0.5 * x),
                  ("div-scalar", lambda x: x / 4), ("div-scalar-float", lambda x: x / 2.5), ("neg", lambda x: -x)):
        g(nm, f, {"x": (2, 2)})
        g(nm + "-0d", f, {"x": ()})
    for nm, f in (("rdiv-scalar", lambda x: x.__rtruediv__(3) if hasattr(x, "get_plain_text") else 3 / x), ("reciprocal", lambda x: x.reciprocal()), ("sqrt", lambda x: x.sqrt()), ("log", lambda x: x.log())):
        g(nm, f, {"x": (2,)}, rng=POS)
        g(nm + "-0d", f, {"x": ()}, rng=POS)
    g("rdiv-enc", lambda x, y: y / x, {"x": (2, 2), "y": (2,)}, rng={"x": (0.5, 2), "y": (-2, 2)})
    for nm, f in (("square", lambda x: x.square()), ("exp", lambda x: x.exp()), ("sin", lambda x: x.sin()), ("cos", lambda x: x.cos()), ("tanh", lambda x: x.tanh()), ("sigmoid", lambda x: x.sigmoid()), ("erf", lambda x: x.erf())):
        g(nm, f, {"x": (2,)})
        g(nm + "-0d", f, {"x": ()})
    for p in (0, 1, 2, 3, 4, 5, 6, 2.0, -1, -2, -3):
        g(f"pow({p})", lambda x, p=p: x.pow(p), {"x": (2,)}, rng=POS if p < 1 else (-2, 2))
        g(f"pos_pow({p})", lambda x, p=p: x.pos_pow(p) if hasattr(x, "get_plain_text") else x.pow(p), {"x": (2,)}, rng=POS)
    for p in (1.5, 0.5, 2.5, -0.5, -1.5):
        g(f"pos_pow({p})", lambda x, p=p: x.pos_pow(p) if hasattr(x, "get_plain_text") else (x.log() * p).exp(), {"x": (2,)}, rng=(0.5, 2))
    for c in ([0.5], [1, 2], [0.5, -1, 2], [1, 0, 0, 0.5], [1, -1, 0.5, 0.25, 2]):
        def polyref(x, c=c):
            r = x * 0
            m = x
            for k in c:
                r = r + m * k
                m = m * x
            return r
        g(f"polynomial{c}", lambda x, c=c: x.polynomial(list(c)), {"x": (2,)}, polyref, rng=(-1, 1))
        g(f"polynomial-tensor{c}", lambda x, c=c: x.polynomial(torch.tensor(c, dtype=torch.float)), {"x": (2, 2)}, polyref, rng=(-1, 1))
    def polytwice(x):
        if hasattr(x, "get_plain_text"):
            k = torch.tensor([0.5, -1.0, 2.0])
            return x.polynomial(k) + x.polynomial(k)
        return 2 * (0.5 * x - x * x + 2 * x * x * x)
    g("polynomial-coefficients-reused", polytwice, {"x": (2,)}, rng=(-1, 1))

    # ---- matrix products
    for a, b in (((2, 3), (3, 2)), ((3,), (3,)), ((2, 3), (3,)), ((3,), (3, 2)), ((1, 3), (3, 1)), ((2, 2, 3), (3, 2)), ((2, 2, 3), (2, 3, 2)), ((2, 3), (2, 3, 2)), ((1,), (1,)), ((1, 1), (1,)), ((1,), (1, 2)), ((2, 1), (1,)), ((2, 2, 3), (3,)), ((3,), (2, 3, 2)), ((1, 2, 2), (2, 2, 1)),
                 ((3,), (3, 1)), ((1, 3), (3,)), ((2, 1, 3), (3,)), ((3,), (2, 3, 1)), ((1, 1, 3), (3,))):
        g(f"matmul{a}{b}", lambda x, y: x.matmul(y), {"x": a, "y": b})
    g("matmul-public", lambda x, y: x.matmul(y), {"x": (2, 3)}, pub={"y": R((3, 2), -2, 2)})
    g("matmul-operator", lambda x, y: x @ y, {"x": (2, 2), "y": (2, 2)}, ws=2)
    g("dot", lambda x, y: x.dot(y), {"x": (3,), "y": (3,)})
    g("dot-1", lambda x, y: x.dot(y), {"x": (1,), "y": (1,)})
    g("ger", lambda x, y: x.ger(y), {"x": (2,), "y": (3,)})
    g("ger-1", lambda x, y: x.ger(y), {"x": (1,), "y": (3,)})
    g("ger-1b", lambda x, y: x.ger(y), {"x": (3,), "y": (1,)})

    # ---- reductions
    for shp, ds in (((2, 3), (None, 0, 1, -1, -2, (0, 1), [0], [1, 0], (-1,))), ((3,), (None, 0, -1)), ((), (None,)), ((1, 2), (None, 0, 1, (0, 1))), ((2, 1, 2), ((0, 2), (1, 2), 1, -2, (-1, 0)))):
        for d in ds:
            for kd in (False, True):
                if d is None and kd:
                    continue
                kwd = {} if d is None else {"dim": d}
                if kd:
                    kwd["keepdim"] = True
                tag = f"{shp}({d}{',keepdim' if kd else ''})"
                for op in ("sum", "mean"):
                    g(op + tag, lambda x, op=op, k=kwd: getattr(x, op)(**k), {"x": shp})
                if shp and not (d is not None and not isinstance(d, (tuple, list)) and shp[d] == 1):
                    ref = lambda x, d=d, kd=kd: pvar(x, d, kd, True)
                    refb = lambda x, d=d, kd=kd: pvar(x, d, kd, False)
                    g("var" + tag, lambda x, d=d, kd=kd: x.var() if d is None else x.var(d, keepdim=kd), {"x": shp}, ref)
                    for ub in (True, False):
                        g(f"var-unbiased={ub}" + tag, lambda x, d=d, kd=kd, ub=ub: x.var(unbiased=ub) if d is None else x.var(d, unbiased=ub, keepdim=kd), {"x": shp}, ref if ub else refb)
                if d is not None and not isinstance(d, (tuple, list)):
                    g(f"{'sum'}-positional{tag}", lambda x, d=d, kd=kd: x.sum(d, keepdim=kd), {"x": shp})
                    g(f"{'mean'}-positional{tag}", lambda x, d=d, kd=kd: x.mean(d, keepdim=kd), {"x": shp})
                if not isinstance(d, (tuple, list)) and shp and len(shp) < 3 and not (d is None and shp == (2, 3)):
                    mx = {} if d is None else {"dim": d}
                    if kd:
                        mx["keepdim"] = True
                    for op in ("max", "min"):
                        ref = lambda x, op=op, d=d, kd=kd: (torch.amax if op == "max" else torch.amin)(x, **({} if d is None else {"dim": d, "keepdim": kd})) if d is not None else (torch.amax if op == "max" else torch.amin)(x)
                        g(op + tag, lambda x, op=op, m=mx: getattr(x, op)(**m), {"x": shp}, ref, pre=distinct("x"), tol=0.1, direct=True)
    for shp, d in (((3,), 0), ((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((1, 2), 0)):
        g(f"cumsum{shp}({d})", lambda x, d=d: x.cumsum(d), {"x": shp})
    for n in (1, 2, 3):
        g(f"trace{n}", lambda x: x.trace(), {"x": (n, n)})

    # ---- piecewise
    kink = distinct("x")
    g("relu", lambda x: x.relu(), {"x": (3,)}, pre=kink)
    g("relu-0d", lambda x: x.relu(), {"x": ()}, pre=kink)
    g("abs", lambda x: x.abs(), {"x": (3,)}, pre=kink)
    g("sign", lambda x: x.sign(), {"x": (3,)}, lambda x: (x > 0).float() * 2 - 1 + 0 * x, pre=kink)
    for lo, hi in ((-1, 1), (0, 1), (-0.5, 1.5), (-2, 0.5), (1, 1)):
        g(f"hardtanh({lo},{hi})", lambda x, lo=lo, hi=hi: x.hardtanh(lo, hi) if hasattr(x, "get_plain_text") else clamp(x, lo, hi), {"x": (2,)}, pre=off(lo, hi, 0))
    g("hardtanh-default", lambda x: x.hardtanh() if hasattr(x, "get_plain_text") else clamp(x, -1, 1), {"x": (2, 1)}, pre=off(-1, 1, 0))
    g("relu6", lambda x: x.relu6() if hasattr(x, "get_plain_text") else clamp(x, 0, 6), {"x": (2,)}, rng=(-2, 8), pre=off(0, 6))

    # ---- norms, similarity
    for p, d, kd in (("fro", None, False), (2, None, False), (2, 0, False), (2, 1, False), (2, 1, True), (2, -1, False), ("fro", 0, False), (1, None, False), (1, 0, False), (1, 1, False), (1, -1, True)):
        def nref(x, p=p, d=d, kd=kd):
            s = (x * x) if p != 1 else x.abs()
            s = s.sum() if d is None else s.sum(d, keepdim=kd)
            return s.sqrt() if p != 1 else s
        for shp in ((2, 2), (2, 3)):
            if shp == (2, 3) and d is None:
                continue
            g(f"norm{shp}(p={p},dim={d}{',keepdim' if kd else ''})", lambda x, p=p, d=d, kd=kd: x.norm(p=p) if d is None else x.norm(p=p, dim=d, keepdim=kd), {"x": shp}, nref, rng=(0.25, 2) if p != 1 else (-2, 2), pre=distinct("x") if p == 1 else None)
    for d, kd in ((None, False), (0, False), (1, False), (1, True), (-1, False)):
        def iref(x, d=d, kd=kd):
            a = x.abs()
            return torch.amax(a) if d is None else torch.amax(a, dim=d, keepdim=kd)
        g(f"norm(inf,dim={d}{',keepdim' if kd else ''})", lambda x, d=d, kd=kd: x.norm(p=float("inf")) if d is None else x.norm(p=float("inf"), dim=d, keepdim=kd), {"x": (2, 3) if d is not None else (3,)}, iref, rng=(0.1, 2), pre=distinct("x"), tol=0.1, direct=True)
    for d in (None, 0, 1):
        def n3(x, d=d):
            s = x * x * x
            s = s.sum() if d is None else s.sum(d)
            return (s.log() * (1 / 3)).exp()
        g(f"norm(p=3,dim={d})", lambda x, d=d: x.norm(p=3) if d is None else x.norm(p=3, dim=d), {"x": (2, 2)}, n3, rng=(0.5, 2), tol=0.15, pre=distinct("x"))
    for shp, d in (((2, 2), 1), ((2, 2), 0), ((2, 3), 1), ((2, 2), -1), ((2,), 0), ((2, 3), -2), ((2, 2, 2), 1), ((2, 2, 2), 2)):
        def cs(x, y, d=d):
            if hasattr(x, "get_plain_text"):
                return x.cosine_similarity(y, dim=d)
            n = ((x * x).sum(d).sqrt()) * ((y * y).sum(d).sqrt())
            return (x * y).sum(d) / n
        g(f"cosine_similarity{shp}({d})", cs, {"x": shp, "y": shp}, rng=(0.5, 2), tol=0.1)

    # ---- softmax, losses
    for shp, d in (((3,), 0), ((2, 3), 1), ((2, 2), 0), ((2, 2), -1), ((1, 2), 0), ((2, 1), 1), ((1,), 0), ((2, 1), 0)):
        g(f"softmax{shp}({d})", lambda x, d=d: x.softmax(d), {"x": shp}, rng=(-1, 1))
        g(f"log_softmax{shp}({d})", lambda x, d=d: x.log_softmax(d), {"x": shp}, rng=(-1, 1))
    P01 = (0.1, 0.9)
    for shp in ((2,), (2, 2), (1,)):
        bce = lambda x, y: x.binary_cross_entropy(y) if hasattr(x, "get_plain_text") else -(y * x.log() + (1 - y) * (1 - x).log()).mean()
        g(f"bce{shp}", bce, {"x": shp, "y": shp}, wrt=["x"], rng={"x": P01, "y": (0, 1)}, tol=0.1)
        bl = lambda x, y: x.binary_cross_entropy_with_logits(y) if hasattr(x, "get_plain_text") else -(y * x.sigmoid().log() + (1 - y) * (1 - x.sigmoid()).log()).mean()
        g(f"bce-logits{shp}", bl, {"x": shp, "y": shp}, wrt=["x"], rng={"x": (-2, 2), "y": (0, 1)}, tol=0.1)
        for a in (0.0, 0.75, 0.25, 1.0):
            def rap(x, y, a=a):
                if hasattr(x, "get_plain_text"):
                    return x.rappor_loss(y, a)
                s = x.sigmoid()
                p = s if a == 0.0 else a * s + (1 - a) * (1 - s)
                return -(y * p.log() + (1 - y) * (1 - p).log()).mean()
            g(f"rappor{shp}({a})", rap, {"x": shp, "y": shp}, wrt=["x"], rng={"x": (-1, 1), "y": (0, 1)}, tol=0.1)
    for shp in ((1, 2), (2, 2), (2, 3)):
        def ce(x, t):
            d = 1
            k = shp[1]
            import crypten as c

            # targets whose rows sum to one: (t, .., 1 - sum t)
            last = 1 - t.sum(1, keepdim=True)
            y = cat([t, last], 1)
            if hasattr(x, "get_plain_text"):
                return x.cross_entropy(y)
            s = x.exp() / x.exp().sum(1, keepdim=True)
            return -(s.log() * y).sum() / x.shape[0]
        g(f"cross_entropy{shp}", ce, {"x": shp, "t": (shp[0], shp[1] - 1)}, wrt=["x"], rng={"x": (-1, 1), "t": (0, 1)}, tol=0.1)
        g(f"cross_entropy-public-target{shp}", ce, {"x": shp}, pub={"t": R((shp[0], shp[1] - 1), 0, 1)}, rng={"x": (-1, 1)}, tol=0.1)

    # ---- convolutions, pooling
    conv2 = [((1, 1, 3, 3), (1, 1, 2, 2), {}), ((1, 1, 4, 4), (1, 1, 2, 2), {"stride": 2}), ((1, 1, 5, 4), (1, 1, 2, 2), {"stride": 2}), ((1, 1, 3, 3), (1, 1, 2, 2), {"padding": 1}), ((2, 1, 3, 3), (1, 1, 2, 2), {}),
             ((1, 2, 3, 3), (1, 2, 2, 2), {}), ((1, 1, 3, 3), (2, 1, 2, 2), {}), ((2, 2, 2, 2), (2, 2, 2, 2), {"padding": 1}), ((1, 1, 4, 3), (1, 1, 2, 1), {"stride": (2, 1)}), ((1, 1, 3, 4), (1, 1, 1, 2), {"padding": (0, 1)}),
             ((1, 1, 4, 4), (1, 1, 2, 2), {"dilation": 2}), ((1, 2, 3, 3), (2, 1, 2, 2), {"groups": 2}), ((1, 2, 3, 3), (4, 1, 2, 2), {"groups": 2}), ((2, 2, 3, 3), (2, 1, 2, 2), {"groups": 2, "padding": 1}), ((1, 1, 5, 5), (1, 1, 2, 2), {"stride": 2, "padding": 1}), ((1, 1, 5, 5), (1, 1, 2, 2), {"stride": 3, "dilation": 2}), ((1, 1, 4, 5), (1, 1, 2, 3), {"dilation": (1, 2)}),
             ((1, 1, 2, 2), (1, 1, 1, 1), {})]
    for a, b, k in conv2:
        g(f"conv2d{a}{b}{k}", lambda x, w, k=k: x.conv2d(w, **k) if hasattr(x, "get_plain_text") else Fn.conv2d(x, w, **k), {"x": a, "w": b}, tol=0.1)
    conv1 = [((1, 1, 4), (1, 1, 2), {}), ((1, 1, 5), (1, 1, 2), {"stride": 2}), ((1, 1, 4), (1, 1, 3), {"padding": 1}), ((2, 1, 3), (1, 1, 2), {}), ((1, 2, 3), (2, 2, 2), {}), ((1, 1, 5), (1, 1, 2), {"dilation": 2}), ((1, 2, 3), (2, 1, 2), {"groups": 2}), ((2, 2, 4), (4, 1, 2), {"groups": 2, "stride": 2}),
             ((1, 1, 6), (1, 1, 2), {"stride": 3, "padding": 1}), ((2, 2, 3), (3, 2, 2), {"padding": 1})]
    for a, b, k in conv1:
        g(f"conv1d{a}{b}{k}", lambda x, w, k=k: x.conv1d(w, **k) if hasattr(x, "get_plain_text") else Fn.conv1d(x, w, **k), {"x": a, "w": b}, tol=0.1)
    for a, k in (((1, 1, 4, 4), {"kernel_size": 2}), ((1, 2, 4, 4), {"kernel_size": 2}), ((1, 1, 3, 3), {"kernel_size": 2, "stride": 1}), ((1, 1, 5, 4), {"kernel_size": 2}), ((2, 1, 4, 2), {"kernel_size": (2, 1)}), ((1, 1, 4, 4), {"kernel_size": 2, "padding": 1}), ((1, 1, 4, 5), {"kernel_size": (2, 3), "stride": (1, 2)}), ((1, 1, 3, 4), {"kernel_size": (1, 2), "padding": (0, 1)}), ((1, 4, 4), {"kernel_size": 2}), ((2, 4, 4), {"kernel_size": 2})):
        g(f"avg_pool2d{a}{k}", lambda x, k=k: x.avg_pool2d(**k) if hasattr(x, "get_plain_text") else Fn.avg_pool2d(x, **k), {"x": a})
    for a, k in (((1, 1, 2, 2), {"kernel_size": 2}), ((1, 1, 4, 2), {"kernel_size": 2}), ((1, 2, 2, 2), {"kernel_size": (2, 1)}), ((1, 1, 3, 3), {"kernel_size": 2, "stride": 1}), ((1, 1, 3, 2), {"kernel_size": 2}), ((1, 1, 2, 2), {"kernel_size": 2, "padding": 1}), ((2, 1, 2, 2), {"kernel_size": 2}), ((1, 1, 3, 3), {"kernel_size": 2, "dilation": 2}), ((1, 1, 3, 3), {"kernel_size": 2, "ceil_mode": True}), ((1, 1, 2, 3), {"kernel_size": (1, 2), "stride": (1, 1)})):
        g(f"max_pool2d{a}{k}", lambda x, k=k: x.max_pool2d(**k) if hasattr(x, "get_plain_text") else Fn.max_pool2d(x, **k), {"x": a}, pre=distinct("x"), tol=0.1, direct=True)
    g("max_pool2d-indices", lambda x: x.max_pool2d(2, return_indices=True) if hasattr(x, "get_plain_text") else Fn.max_pool2d(x, 2), {"x": (1, 1, 2, 2)}, pre=distinct("x"), tol=0.1, direct=True)

    # ---- batch normalisation
    for a in ((2, 1), (3, 2), (2, 1, 2), (2, 2, 1, 1), (1, 1, 2, 1)):
        c = a[1]

        def bn(x, w, b, c=c):
            if hasattr(x, "get_plain_text"):
                import crypten as cr

                return x.batchnorm(w, b, training=True, eps=0.25)
            ds = [d for d in range(x.dim()) if d != 1]
            sh = [1, c] + [1] * (x.dim() - 2)
            m = x.mean(ds, keepdim=True)
            v = ((x - m) * (x - m)).mean(ds, keepdim=True)
            return (x - m) / (v + 0.25).sqrt() * w.reshape(sh) + b.reshape(sh)
        g(f"batchnorm-training{a}", bn, {"x": a, "w": (c,), "b": (c,)}, tol=0.15)

        def bne(x, w, b, m, v, c=c):
            if hasattr(x, "get_plain_text"):
                return x.batchnorm(w, b, running_mean=m, running_var=v, training=False, eps=0.25)
            sh = [1, c] + [1] * (x.dim() - 2)
            return (x - m.reshape(sh)) / (v.reshape(sh) + 0.25).sqrt() * w.reshape(sh) + b.reshape(sh)
        g(f"batchnorm-eval{a}", bne, {"x": a, "w": (c,), "b": (c,), "m": (c,), "v": (c,)}, wrt=["x", "w", "b"], rng={"v": (0.25, 2)}, tol=0.15)
        g(f"batchnorm-eval-public{a}", bne, {"x": a, "w": (c,), "b": (c,)}, pub={"m": R((c,), -1, 1), "v": R((c,), 0.25, 2)}, tol=0.15)

    # ---- dropout
    for fnm in ("dropout", "_feature_dropout"):
        C.append(dropout(fnm, 0.5, True))
        C.append(dropout(fnm, 0.25, True))
        C.append(dropout(fnm, 0.5, False))
    # ---- composition: sharing, diamonds, accumulation, constants, no-grad operands
    g("x*x", lambda x: x * x, {"x": (2,)})
    g("x+x+x", lambda x: x + x + x, {"x": (2,)})
    g("x-x", lambda x: x - x, {"x": (2,)})
    g("x*x*x", lambda x: x * x * x, {"x": (2,)})
    g("diamond", lambda x, y: (x + y) * (x - y), {"x": (2,), "y": (2,)})

    def dag(x, y):
        a = x * y
        b = a + x
        return a * b + b

    g("dag", dag, {"x": (2,), "y": (2,)})
    g("dag/2", dag, {"x": (2,), "y": (2,)}, ws=2)

    def dag2(x):
        a = x.square()
        b = a.sum()
        return a * b + x

    g("dag-broadcast", dag2, {"x": (2,)})

    def deep(x, w):
        h = x.matmul(w).tanh()
        h2 = h + x.matmul(w)
        return (h2 * h).sum()

    g("layers", deep, {"x": (1, 2), "w": (2, 2)})
    g("relu-chain", lambda x, w: (x * w).relu() * x, {"x": (2,), "w": (2,)}, pre=distinct("x", "w"))
    g("unused-input", lambda x, y: (x + y * 0).sum(), {"x": (2,), "y": (2,)})
    g("same-in-cat", lambda x: cat([x, x * 2], 0) * cat([x, x], 0), {"x": (2,)})
    g("getitem-twice", lambda x: x[0] * x[1] + x[0], {"x": (2, 2)})
    g("view-shared", lambda x: x.reshape(4) * x.t().reshape(4), {"x": (2, 2)})
    g("constant-operand", lambda x, y: x * y + y, {"x": (2,), "y": (2,)}, wrt=["x"])
    g("constant-operand-right", lambda x, y: y - x * y, {"x": (2,), "y": (2,)}, wrt=["y"])
    for t in (2, 3, 4):
        g(f"accumulate-{t}x", lambda x, y: x + y, {"x": (2,), "y": (2,)}, times=t)
        g(f"accumulate-clone-{t}x", lambda x: x.clone(), {"x": (2,)}, times=t)
        g(f"accumulate-mul-{t}x", lambda x, y: x * y, {"x": (2,), "y": (2,)}, times=t)
        g(f"accumulate-view-{t}x", lambda x: x.view(2, 1), {"x": (2,)}, times=t)
        g(f"accumulate-reshape-{t}x", lambda x: x.reshape(2, 1), {"x": (2,)}, times=t)
        g(f"accumulate-squeeze-{t}x", lambda x: x.unsqueeze(0), {"x": (2,)}, times=t)
        g(f"accumulate-sum-{t}x", lambda x: x.sum(), {"x": (2,)}, times=t, seed_none=True)
        g(f"accumulate-transpose-{t}x", lambda x: x.t(), {"x": (2, 2)}, times=t)
    g("implicit-seed", lambda x: (x * x).sum(), {"x": (3,)}, seed_none=True)
    g("implicit-seed-1elem", lambda x: x * x, {"x": (1,)}, seed_none=True)
    g("implicit-seed-mean", lambda x, y: (x * y).mean(), {"x": (2, 2), "y": (2, 2)}, seed_none=True)
    g("identity-leaf-pair", lambda x: (x.clone() + x.view(2)) * 2, {"x": (2,)})
    C += tape()
    if not full:
        return C
    for a, b in (((3, 4), (4, 3)), ((2, 3, 2, 2), (2, 2)), ((2, 1, 2, 3), (1, 2, 3, 2)), ((2, 3, 2), (3, 2, 2)) if False else ((2, 2, 2, 2), (2, 2, 2, 2))):
        g(f"matmul{a}{b}", lambda x, y: x.matmul(y), {"x": a, "y": b}, ws=2)
    for a, b, k in (((2, 2, 4, 4), (2, 2, 3, 3), {"padding": 1}), ((2, 2, 5, 5), (2, 1, 2, 2), {"groups": 2, "stride": 2}), ((1, 2, 5, 5), (3, 2, 2, 2), {"stride": 2, "padding": 1}), ((2, 1, 6, 5), (2, 1, 2, 2), {"stride": (3, 2), "dilation": (2, 1), "padding": (1, 0)})):
        g(f"conv2d{a}{b}{k}", lambda x, w, k=k: x.conv2d(w, **k) if hasattr(x, "get_plain_text") else Fn.conv2d(x, w, **k), {"x": a, "w": b}, tol=0.1)
    for shp, d in (((4,), 0), ((2, 4), 1), ((3, 3), 0)):
        for op in ("max", "min"):
            ref = lambda x, op=op, d=d: (torch.amax if op == "max" else torch.amin)(x, dim=d)
            g(f"{op}{shp}({d})", lambda x, op=op, d=d: getattr(x, op)(dim=d), {"x": shp}, ref, pre=distinct("x"), tol=0.1, direct=True)
        g(f"softmax{shp}({d})", lambda x, d=d: x.softmax(d), {"x": shp}, rng=(-1, 1), ws=2)
    g("two-layer-net", lambda x, w, v, b: ((x.matmul(w) + b).sigmoid().matmul(v)).square().mean(), {"x": (2, 2), "w": (2, 2), "v": (2, 1), "b": (2,)}, ws=2)
    return C


def pvar(x, d, kd, unbiased):
    if d is None:
        m = x.mean()
        s = ((x - m) * (x - m)).sum()
        n = x.numel()
    else:
        ds = list(d) if isinstance(d, (tuple, list)) else [d]
        m = x.mean(ds, keepdim=True)
        s = ((x - m) * (x - m)).sum(ds, keepdim=kd)
        n = 1
        for i in ds:
            n *= x.shape[i]
    if unbiased and n > 1:
        n -= 1
    return s / n


def clamp(x, lo, hi):
    if lo == hi:
        return x * 0 + lo
    a = (x > lo).float() * (x < hi).float()
    return x * a + (x >= hi).float() * hi + (x <= lo).float() * lo


def dropout(fnm, p, training):
    """the mask that dropout applies in the forward pass is the one its gradient uses"""
    shp = (1, 2, 2, 1) if fnm != "dropout" else (2, 2)

    def fn(ctx):
        import crypten

        x = crypten.cryptensor(ctx.x("x").clone(), requires_grad=True)
        y = getattr(x, fnm)(p=p, training=training)
        u = crypten.cryptensor(ctx.x("u").clone())
        y.backward(u)
        return {"y": y.get_plain_text(), "g": x.grad.get_plain_text(), "x": ctx.x("x").clone()}

    def post(e):
        # y = m*x and g = m*u with the same m in {0, 1/(1-p)}
        obs = []
        X, U, Y, G = e.x("x"), e.x("u"), e.o("y"), e.o("g")
        sp = P.Space(True)
        k = 1 / (1 - p) if training else 1.0
        obs.append(("shape", N.cb(e.shape("y") == shp and e.shape("g") == shp)))
        if len(Y) != len(X) or len(G) != len(X):
            return obs
        for i in range(len(X)):
            if e.symbolic:
                obs += same(e, sp, f"same-mask[{i}]", [N.fmul(Y[i], U[i])], [N.fmul(G[i], X[i])])
                kept = N.flt(N.cf(0.01), N.fmul(Y[i], X[i]))
                full_ = N.conj(N.fle(N.fsub(Y[i], N.fmul(N.cf(k), X[i])), N.cf(0.01)), N.fle(N.cf(-0.01), N.fsub(Y[i], N.fmul(N.cf(k), X[i]))))
                zero = N.conj(N.fle(Y[i], N.cf(0.01)), N.fle(N.cf(-0.01), Y[i]))
                obs.append((f"value[{i}]", N.disj(full_, zero) if training else full_))
            else:
                x, u, y, g = (N.cfval(n) for n in (X[i], U[i], Y[i], G[i]))
                ok = abs(y - k * x) < 0.02 and abs(g - k * u) < 0.02 or (training and abs(y) < 0.02 and abs(g) < 0.02)
                obs.append((f"value[{i}]", N.cb(ok)))
        return obs

    return Case(f"{fnm}(p={p},training={training})/N1", fn, post, ws=1, inputs={"x": R(shp, 0.5, 2), "u": R(shp, 0.5, 2)}, fmode="ring", stubs=("products",))


def tape():
    """what is recorded, what is not"""
    C = []

    def nograd(ctx):
        import crypten

        x = crypten.cryptensor(ctx.x("x").clone(), requires_grad=True)
        y = crypten.cryptensor(ctx.x("y").clone(), requires_grad=True)
        with crypten.no_grad():
            a = x * y
        b = (x + y.detach() * 3) * a
        b.backward(crypten.cryptensor(ctx.x("u").clone()))
        with crypten.no_grad():
            with crypten.enable_grad():
                c = (y * 2).sum()
            inner = c.requires_grad
            d = y * 2
        c.backward()
        return {"gx": x.grad.get_plain_text(), "gy": y.grad.get_plain_text(), "flags": (a.requires_grad, b.requires_grad, inner, d.requires_grad, x.requires_grad)}

    def npost(e):
        sp = P.Space()
        X, Y, U = e.x("x"), e.x("y"), e.x("u")
        want = [N.fmul(N.fmul(a, b), u) for a, b, u in zip(X, Y, U)]
        obs = [("requires-grad flags", N.cb(tuple(e.raw("flags")) == (False, True, True, False, True)))]
        obs += same(e, sp, "gradient-x", e.o("gx"), want)
        obs += same(e, sp, "gradient-y", e.o("gy"), [N.cf(2.0)] * len(Y))
        return obs

    C.append(Case("no_grad-and-detach/N1", nograd, npost, ws=1, inputs={"x": R((2,)), "y": R((2,)), "u": R((2,))}, fmode="ring", stubs=ALL))

    def leaf(ctx):
        import crypten

        x = crypten.cryptensor(ctx.x("x").clone(), requires_grad=True)
        z = crypten.cryptensor(ctx.x("y").clone(), requires_grad=False)
        y = x * z
        w = y * x
        w.backward(crypten.cryptensor(ctx.x("u").clone()))
        return {"gx": x.grad.get_plain_text(), "none": (z.grad is None, y.grad is None)}

    def lpost(e):
        sp = P.Space()
        want = [N.fmul(N.cf(2.0), N.fmul(N.fmul(a, b), u)) for a, b, u in zip(e.x("x"), e.x("y"), e.x("u"))]
        return [("only leaves that require gradients keep them", N.cb(tuple(e.raw("none")) == (True, True)))] + same(e, sp, "gradient-x", e.o("gx"), want)

    C.append(Case("leaves/N1", leaf, lpost, ws=1, inputs={"x": R((2,)), "y": R((2,)), "u": R((2,))}, fmode="ring", stubs=ALL))

    def inplace(ctx):
        import crypten

        x = crypten.cryptensor(ctx.x("x").clone(), requires_grad=True)
        x.add_(1)
        return {"x": x.get_plain_text()}

    C.append(Case("in-place-refused/N1", inplace, lambda e: [], ws=1, inputs={"x": R((2,))}, fmode="ring", expect_raise=("RuntimeError",)))

    def nonscalar(ctx):
        import crypten

        x = crypten.cryptensor(ctx.x("x").clone(), requires_grad=True)
        (x * 2).backward()
        return {"x": x.get_plain_text()}

    C.append(Case("non-scalar-needs-seed/N1", nonscalar, lambda e: [], ws=1, inputs={"x": R((2,))}, fmode="ring", expect_raise=("RuntimeError",)))
    return C
