"""C13 stochastic gradient descent."""
import torch

from .grad import *

EXPLAIN = ("The real crypten.optim.SGD runs several steps on encrypted symbolic parameters and gradients (exact arithmetic); the revealed parameters are compared, for all values, with the update rule of the "
           "documentation evaluated on the plaintext: by normal form, and by z3 for what remains (gradient thresholds). Training steps run the real forward pass, backward pass and optimiser together. "
           "Counterexamples are replayed on the real fixed-point code against torch.optim.SGD's rule.")
BOUNDS = {"values": "parameters and gradients: symbolic reals in [-2, 2]", "parameters": "1-3 tensors of 0-2 dimensions, 1-2 groups", "steps": "1 to 4 (quick) / 6 (thorough)",
          "options": "lr, momentum, dampening, weight_decay, nesterov, grad_threshold: the listed combinations of concrete values", "parties": "1 and 2"}
ASSUMPTIONS = ["rounding abstracted (exact reals); coefficients may differ by the 16-bit rounding of public constants", "products and comparisons replaced by their specification (C04, C06, C07)"]


def rule(ps, grads, opts, thr=None):
    """the documented update; ps: plaintext parameters; grads: [step][param] (None: no gradient); opts per parameter"""
    bufs = {}
    ps = list(ps)
    for gs in grads:
        for i, g in enumerate(gs):
            if g is None:
                continue
            o = opts[i]
            if thr is not None:
                g = g * (g.abs() < thr)
            d = g + ps[i] * o.get("weight_decay", 0) if o.get("weight_decay", 0) else g
            if o.get("momentum", 0):
                bufs[i] = d if i not in bufs else bufs[i] * o["momentum"] + d * (1 - o.get("dampening", 0))
                d = d + bufs[i] * o["momentum"] if o.get("nesterov") else bufs[i]
            ps[i] = ps[i] - d * o["lr"]
    return ps


def case(name, shapes, steps, opt, groups=None, ws=1, have=None, thr=None, tol=0.05, pre=None, direct=False, closure=False, **kw):
    """groups: list of (param indices, overrides); have[t][i] False: parameter i has no gradient at step t"""
    n = len(shapes)
    have = have or [[True] * n for _ in range(steps)]
    opts = [dict(opt) for _ in range(n)]
    for idx, over in groups or []:
        for i in idx:
            opts[i].update(over)

    def fn(ctx):
        import crypten

        P_ = [crypten.cryptensor(ctx.x(f"p{i}").clone(), requires_grad=True) for i in range(n)]
        kw = dict(opt)
        if thr is not None:
            kw["grad_threshold"] = thr
        if groups:
            sgd = crypten.optim.SGD([{"params": [P_[i] for i in idx], **over} for idx, over in groups], **kw)
        else:
            sgd = crypten.optim.SGD(P_, **kw)
        G = {}
        for t in range(steps):

            def setg():
                for i in range(n):
                    P_[i].grad = None
                    if have[t][i]:
                        G[t, i] = P_[i].grad = crypten.cryptensor(ctx.x(f"g{t}.{i}").clone())
                return 17

            if closure:
                r = sgd.step(setg)
                assert r == 17
            else:
                setg()
                sgd.step()
        o = {f"p{i}": P_[i].get_plain_text() for i in range(n)}
        for (t, i), g in G.items():
            o[f"g{t}.{i}"] = g.get_plain_text()
        o["rg"] = all(p.requires_grad and len(p.children) == 0 for p in P_)
        grads = [[ctx.x(f"g{t}.{i}").clone() if have[t][i] else None for i in range(n)] for t in range(steps)]
        for i, q in enumerate(rule([ctx.x(f"p{i}").clone() for i in range(n)], grads, opts, thr)):
            o[f"q{i}"] = q
        return o

    def post(e):
        sp = P.Space(True)
        obs = []
        assume = list(pre(e)) if pre and e.symbolic else []
        for r in range(ws):
            obs.append((f"parameters-stay-leaves@{r}", N.cb(bool(e.raw("rg", r)))))
            for i in range(n):
                obs.append((f"parameter-{i}-shape@{r}", N.cb(e.shape(f"p{i}", r) == tuple(shapes[i]))))
                obs += same(e, sp, f"parameter-{i}@{r}", e.o(f"p{i}", r), e.o(f"q{i}", r), assume, tol, direct)
                for t in range(steps):
                    if have[t][i]:
                        obs += same(e, sp, f"gradient-{i}-unchanged-{t}@{r}", e.o(f"g{t}.{i}", r), e.x(f"g{t}.{i}"), assume, tol)
        return obs

    inputs = {f"p{i}": R(s, -2, 2) for i, s in enumerate(shapes)}
    for t in range(steps):
        for i in range(n):
            if have[t][i]:
                inputs[f"g{t}.{i}"] = R(shapes[i], -2, 2)
    return Case(f"{name}/N{ws}", fn, post, ws=ws, inputs=inputs, fmode="ring", pre=pre, tol=tol, stubs=ALL, **kw)


def train(name, shapes, loss, steps, opt, ws=1, rng=(-1, 1), data=None, zero=True, tol=0.08, **kw):
    """forward, backward, zero_grad and step together; reference: the rule on formal derivatives"""
    data = data or {}

    def fn(ctx):
        import crypten

        P_ = {k: crypten.cryptensor(ctx.x(k).clone(), requires_grad=True) for k in shapes}
        D = {k: crypten.cryptensor(ctx.x(k).clone()) for k in data}
        sgd = crypten.optim.SGD(list(P_.values()), **opt)
        for t in range(steps):
            if zero is not None:
                sgd.zero_grad(**({} if zero is True else {"set_to_none": zero == "none"}))
            loss(**P_, **D).backward()
            sgd.step()
        o = {k: v.get_plain_text() for k, v in P_.items()}
        for k in D:
            o[k] = D[k].get_plain_text()
        # reference
        ps = [ctx.x(k).clone() for k in shapes]
        grads = []
        acc = None
        for t in range(steps):
            cur = rule(ps, grads, [opt] * len(ps))
            g = deriv(ctx, loss, cur, list(shapes), {k: ctx.x(k).clone() for k in data})
            if zero is None and acc is not None:
                g = [a + b for a, b in zip(g, acc)]
            acc = g
            grads.append(g)
        for k, q in zip(shapes, rule(ps, grads, [opt] * len(ps))):
            o["q:" + k] = q
        return o

    def deriv(ctx, loss, cur, names, D):
        if not ctx.symbolic:
            T = [c.detach().clone().requires_grad_(True) for c in cur]
            loss(**dict(zip(names, T)), **D).backward()
            return [t.grad for t in T]
        from symx.tensor import SymTensor

        # derivative at the current point: differentiate with respect to fresh variables, then substitute
        fresh = []
        for k, c in zip(names, cur):
            fresh.append([N.fvar(f"_d.{k}.{i}", (-9, 9)) for i in range(c.numel())])
        mk = lambda ns, c: SymTensor(torch.tensor(list(ns), dtype=torch.int64).reshape(tuple(c.shape)), c.dtype)
        nodes = lambda c: [int(i) for i in c.ids.flatten().tolist()]
        T = [mk(f, c) for f, c in zip(fresh, cur)]
        y = loss(**dict(zip(names, T)), **D)
        gs = P.grad([tofloat(n) for n in nodes(y)], [N.cf(1.0)], [v for f in fresh for v in f])
        sub = {v: tofloat(n) for f, c in zip(fresh, cur) for v, n in zip(f, nodes(c))}
        gs = N.substitute(gs, sub)
        out, i = [], 0
        for f, c in zip(fresh, cur):
            out.append(mk(gs[i:i + len(f)], c))
            i += len(f)
        return out

    def post(e):
        sp = P.Space(True)
        obs = []
        for r in range(ws):
            for k in shapes:
                obs += same(e, sp, f"parameter-{k}@{r}", e.o(k, r), e.o("q:" + k, r), (), tol)
            for k in data:
                obs += same(e, sp, f"data-{k}-unchanged@{r}", e.o(k, r), e.x(k), (), tol)
        return obs

    inputs = {k: R(s, *rng) for k, s in {**shapes, **data}.items()}
    return Case(f"{name}/N{ws}", fn, post, ws=ws, inputs=inputs, fmode="ring", tol=tol, stubs=ALL, **kw)


def zerocase(name, shapes, ws, kwargs, have, groups=None):
    n = len(shapes)

    def fn(ctx):
        import crypten

        P_ = [crypten.cryptensor(ctx.x(f"p{i}").clone(), requires_grad=True) for i in range(n)]
        for i in range(n):
            P_[i].grad = crypten.cryptensor(ctx.x(f"g{i}").clone()) if have[i] else None
        sgd = crypten.optim.SGD([{"params": [P_[i] for i in g]} for g in groups] if groups else P_, lr=0.5)
        sgd.zero_grad(**kwargs)
        o = {"none": [p.grad is None for p in P_]}
        for i in range(n):
            o[f"p{i}"] = P_[i].get_plain_text()
            if P_[i].grad is not None:
                o[f"g{i}"] = P_[i].grad.get_plain_text()
        return o

    def post(e):
        obs = []
        none = kwargs.get("set_to_none", True)
        for r in range(ws):
            w = e.raw("none", r)
            for i in range(n):
                obs.append((f"gradient-{i}-cleared@{r}", N.cb(bool(w[i]) == (none or not have[i]))))
                if not w[i]:
                    obs += same(e, P.Space(True), f"gradient-{i}-zero@{r}", e.o(f"g{i}", r), [N.cf(0.0)] * len(e.x(f"g{i}")), (), 0.01)
                obs += same(e, P.Space(True), f"parameter-{i}-unchanged@{r}", e.o(f"p{i}", r), e.x(f"p{i}"), (), 0.01)
        return obs

    inputs = {}
    for i, s in enumerate(shapes):
        inputs[f"p{i}"] = R(s, -2, 2)
        inputs[f"g{i}"] = R(s, -2, 2)
    return Case(f"{name}/N{ws}", fn, post, ws=ws, inputs=inputs, fmode="ring", tol=0.01, stubs=ALL)


def refuse(name, opt, groups=None):
    def fn(ctx):
        import crypten

        p = crypten.cryptensor(ctx.x("p").clone(), requires_grad=True)
        try:
            crypten.optim.SGD([p], **opt)
        except ValueError:
            return {"ok": True}
        return {"ok": False}

    return Case(f"refuses-{name}/N1", fn, lambda e: [("invalid options are refused", N.cb(bool(e.raw("ok", 0))))], ws=1, inputs={"p": R((1,), -1, 1)}, fmode="ring", stubs=ALL)


def cases(tier):
    full = tier == "thorough"
    C = []
    a = C.append
    OPTS = [{"lr": 0.5}, {"lr": 0.125}, {"lr": 0.1}, {"lr": 1}, {"lr": 2.0}, {"lr": 0}, {"lr": 0.5, "momentum": 0.5}, {"lr": 0.25, "momentum": 0.75, "dampening": 0.25}, {"lr": 0.25, "momentum": 1},
            {"lr": 0.5, "momentum": 0.5, "dampening": 1}, {"lr": 0.5, "weight_decay": 0.25}, {"lr": 0.5, "weight_decay": 1}, {"lr": 0.5, "momentum": 0.5, "weight_decay": 0.25},
            {"lr": 0.5, "momentum": 0.5, "nesterov": True}, {"lr": 0.25, "momentum": 0.5, "nesterov": True, "weight_decay": 0.5}, {"lr": 0.5, "momentum": 0.5, "dampening": 0.5, "weight_decay": 0.5},
            {"lr": 0.5, "dampening": 0.5}, {"lr": 0.5, "momentum": 0.5, "dampening": -0.5}, {"lr": 0.1, "momentum": 0.9, "weight_decay": 0.01}, {"lr": 0.1, "momentum": 0.9, "nesterov": True}]
    for o in OPTS:
        s = ",".join(f"{k}={v}" for k, v in o.items())
        for T in (1, 2, 3, 4) if not full else (1, 2, 3, 4, 5, 6):
            a(case(f"sgd({s})x{T}", [(2,)], T, o))
        a(case(f"sgd({s})-two-params", [(2, 2), ()], 2, o))
        a(case(f"sgd({s})-two-params", [(2,), (1, 2)], 3, o, ws=2))
        a(case(f"sgd({s})-closure", [(2,)], 3, o, closure=True))
        # gradients that come and go
        a(case(f"sgd({s})-missing", [(1,), (2,)], 3, o, have=[[True, False], [False, True], [True, True]]))
        a(case(f"sgd({s})-late", [(1,), (2,)], 3, o, have=[[False, True], [False, True], [True, False]]))
        a(case(f"sgd({s})-none", [(1,)], 2, o, have=[[False], [False]]))
    for thr in (1.0, 0.5, 1.5, 2, 0.25):
        for o in OPTS[:1] + OPTS[6:7] + OPTS[13:14] + OPTS[12:13]:
            s = ",".join(f"{k}={v}" for k, v in o.items())

            def pre(e, thr=thr):
                return [N.bnot(N.feq(N.fmul(g, g), N.cf(thr * thr))) for t in range(2) for g in e.x(f"g{t}.0")]

            a(case(f"sgd({s},grad_threshold={thr})", [(2,)], 2, o, thr=thr, pre=pre))
    base = {"lr": 0.5, "momentum": 0.5}
    for nm, gr in (("lr", [([0], {}), ([1], {"lr": 0.25})]), ("momentum", [([0], {"momentum": 0}), ([1], {})]), ("momentum-only-second", [([0, 2], {"momentum": 0, "lr": 1}), ([1], {"momentum": 0.25})]),
                   ("decay", [([1], {"weight_decay": 0.5}), ([0], {})]), ("dampening", [([0], {"dampening": 0.5}), ([1], {"lr": 0.125})]), ("nesterov", [([0], {"nesterov": True}), ([1], {})]),
                   ("three", [([2], {"lr": 2}), ([0], {"weight_decay": 0.25, "nesterov": True}), ([1], {"dampening": 0.75})])):
        n = 1 + max(i for g, _ in gr for i in g)
        for T in (1, 2, 3):
            a(case(f"groups-{nm}x{T}", [(2,), (1,), (2,)][:n], T, base, groups=gr))
        a(case(f"groups-{nm}", [(2,), (1,), (2,)][:n], 2, base, groups=gr, ws=2))
    for ws in (1, 2):
        for nm, kwargs in (("default", {}), ("to-none", {"set_to_none": True}), ("to-zero", {"set_to_none": False})):
            a(zerocase(f"zero_grad-{nm}", [(2,), ()], ws, kwargs, [True, True]))
            a(zerocase(f"zero_grad-{nm}-missing", [(2,), (1, 2)], ws, kwargs, [False, True]))
            a(zerocase(f"zero_grad-{nm}-groups", [(2,), (1, 2), (1,)], ws, kwargs, [True, True, True], groups=[[0, 2], [1]]))
    for nm, o in (("lr", {"lr": -1.0}), ("momentum", {"lr": 1, "momentum": -0.5}), ("decay", {"lr": 1, "weight_decay": -0.1}), ("nesterov-momentum", {"lr": 1, "nesterov": True}),
                  ("nesterov-dampening", {"lr": 1, "nesterov": True, "momentum": 0.5, "dampening": 0.5}), ("lr-type", {"lr": "1"}), ("dampening-type", {"lr": 1, "dampening": None})):
        a(refuse(nm, o))
    # training steps
    sq = lambda w, x, y: ((x * w).sum() - y).square().sum()
    lin = lambda w, b, x, y: (x.matmul(w) + b - y).square().mean()
    for o in ({"lr": 0.25}, {"lr": 0.25, "momentum": 0.5}, {"lr": 0.5, "weight_decay": 0.5}, {"lr": 0.25, "momentum": 0.5, "nesterov": True}):
        s = ",".join(f"{k}={v}" for k, v in o.items())
        for z in (True, "none", "zero", None):
            a(train(f"train-quadratic({s})zero={z}", {"w": (2,)}, sq, 2, o, data={"x": (2,), "y": ()}, zero=z))
        a(train(f"train-linear({s})", {"w": (2, 1), "b": (1,)}, lin, 2, o, data={"x": (2, 2), "y": (2, 1)}))
    a(train("train-unused", {"w": (2,), "v": (1,)}, lambda w, v, x: (w * x).sum() + (v * 0).sum(), 2, {"lr": 0.5}, data={"x": (2,)}))
    a(train("train-shared", {"w": (2,)}, lambda w, x: (w * x).sum() * w.sum(), 2, {"lr": 0.25}, data={"x": (2,)}))
    a(train("train-quadratic", {"w": (2,)}, sq, 2, {"lr": 0.25, "momentum": 0.5}, data={"x": (2,), "y": ()}, ws=2))
    return C
