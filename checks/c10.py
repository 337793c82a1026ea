"""C10 max, min, argmax, argmin and pooling."""
import torch

from .lib import *

EXPLAIN = ("The real tournament, pairwise, cascading and tie-breaking code runs in every party on symbolic reals in exact arithmetic (comparisons replaced by their meaning, decided in C09; "
           "uniform randomness symbolic). The solver decides for every ordering and tie pattern that the maximum is the true one, that exactly one position is selected and that it is a maximal one; "
           "average pooling is decided as a linear map, max pooling against torch's.")
BOUNDS = {"values": "reals |x| <= 100, ties included", "parties": "1..3", "elements": "up to 9 along the reduced dimension (6 quick)", "pooling": "inputs up to 5x5, listed kernels, strides, paddings, dilations, ceil_mode"}
ASSUMPTIONS = ["rounding abstracted (exact reals)", "comparison protocol replaced by its specification (C09)", "torch kernels are exact"]

METHODS = ("log_reduction", "double_log_reduction", "accelerated_cascade", "pairwise")


def ref_max(X, dim, keep, low):
    """plaintext maximum as a tensor"""
    f = torch.amin if low else torch.amax
    if dim is None:
        return f(X) if X.dim() else X
    return f(X, dim=dim, keepdim=keep) if X.dim() else X


def slices(shape, dim):
    """groups of flat positions that are reduced together"""
    idx = torch.arange(int(torch.tensor(shape).prod()) if shape else 1).reshape(shape)
    if dim is None or not shape:
        return [idx.reshape(-1).tolist()]
    return idx.movedim(dim, -1).reshape(-1, shape[dim]).tolist()


def extreme(what, shape, dim=None, keep=False, one_hot=True, method="log_reduction", ws=1, prec=None, fn_call=None, weight=1):
    low = what in ("min", "argmin")
    arg = what.startswith("arg")

    def fn(ctx):
        import crypten

        x = crypten.cryptensor(ctx.x("x").clone(), **({} if prec is None else {"precision": prec}))
        X = ctx.x("x").clone()
        kw = {}
        if dim is not None:
            kw["dim"] = dim
        if keep:
            kw["keepdim"] = True
        if not one_hot:
            kw["one_hot"] = False
        r = getattr(x, what)(**kw)
        o = {"x": x.get_plain_text(), "X": X}
        if arg:
            o["a"] = r.get_plain_text()
        elif dim is None:
            o["v"] = r.get_plain_text()
        else:
            o["v"], o["a"] = r[0].get_plain_text(), r[1].get_plain_text()
        o["wv"] = ref_max(X, dim, keep, low)
        return o

    def post(e):
        obs = []
        gs = slices(shape, dim)
        for r in range(ws):
            X = e.o("X", r)
            better = (lambda a, b: N.fle(a, b)) if low else (lambda a, b: N.fle(b, a))
            best = lambda i, g: N.conj(*[better(X[i], X[j]) for j in g])
            obs += close(e, f"operand@{r}", e.o("x", r), X)
            if not arg:
                obs.append((f"value-shape@{r}", N.cb(e.shape("v", r) == e.shape("wv", r))))
                V = e.o("v", r)
                if len(V) != len(gs):
                    obs.append((f"values@{r}", N.cb(False)))
                    continue
                obs += close(e, f"value@{r}", V, e.o("wv", r))
            if "a" not in e.out[r]:
                continue
            A = [tofloat(a) for a in e.o("a", r)]
            if one_hot:
                obs.append((f"one-hot-shape@{r}", N.cb(tuple(e.shape("a", r)) == tuple(shape))))
                if len(A) != sum(map(len, gs)):
                    continue
                for g in gs:
                    one = N.cf(1.0)
                    s = N.cf(0.0)
                    for i in g:
                        s = N.fadd(s, A[i])
                        if e.symbolic:
                            obs.append((f"zero-or-one@{r}[{i}]", N.disj(N.feq(A[i], N.cf(0.0)), N.feq(A[i], one))))
                            obs.append((f"maximal@{r}[{i}]", N.implies(N.feq(A[i], one), best(i, g))))
                        else:
                            v = N.cfval(A[i])
                            obs.append((f"zero-or-one@{r}[{i}]", N.cb(v in (0, 1))))
                            m = [N.cfval(X[j]) for j in g]
                            w = N.cfval(X[i])
                            obs.append((f"maximal@{r}[{i}]", N.cb(v != 1 or all((w <= t + 1e-3 if low else w >= t - 1e-3) for t in m))))
                    obs.append((f"single@{r}[{g[0]}]", N.feq(s, one)))
            else:
                if shape:
                    wsh = () if dim is None else tuple(s for k, s in enumerate(shape) if k != dim % len(shape)) if not keep else tuple(1 if k == dim % len(shape) else s for k, s in enumerate(shape))
                    obs.append((f"index-shape@{r}", N.cb(tuple(e.shape("a", r)) == wsh)))
                if len(A) != len(gs):
                    obs.append((f"indices@{r}", N.cb(False)))
                    continue
                for a, g in zip(A, gs):
                    if e.symbolic:
                        obs.append((f"index@{r}[{g[0]}]", N.disj(*[N.conj(N.feq(a, N.cf(float(k))), best(i, g)) for k, i in enumerate(g)])))
                    else:
                        v, m = N.cfval(a), [N.cfval(X[j]) for j in g]
                        ok = v in range(len(g)) and all((m[int(v)] <= t + 1e-3 if low else m[int(v)] >= t - 1e-3) for t in m)
                        obs.append((f"index@{r}[{g[0]}]", N.cb(ok)))
        return obs

    nm = f"{what}/{method}/{'x'.join(map(str, shape)) or 'scalar'}/dim{dim}{'/keepdim' if keep else ''}{'' if one_hot else '/index'}{'' if prec is None else f'/p{prec}'}/N{ws}"
    return Case(nm, fn, post, ws=ws, inputs={"x": R(shape, -100, 100)}, fmode="ring", cfg={"functions.max_method": method}, timeout_ms=60000, weight=weight)


def pool(name, shape, op, ref, method="log_reduction", ws=1):
    return hom_real(f"pool/{name}/{method}", op, {"x": shape}, ws=ws, ref=ref, rng=(-100, 100), cfg={"functions.max_method": method})


def pool_indices(shape, k, ws=1, **kw):
    """max_pool2d with return_indices: one position per window, maximal among its in-range elements; the maximum is its value"""
    kk = (k, k) if isinstance(k, int) else k

    def fn(ctx):
        import crypten

        x = crypten.cryptensor(ctx.x("x").clone())
        v, i = x.max_pool2d(k, return_indices=True, **kw)
        X = ctx.x("x").clone()
        # windows of the plaintext, by torch itself
        st = kw.get("stride") or kk
        pd = kw.get("padding", 0)
        pd = (pd, pd) if isinstance(pd, int) else pd
        P = torch.nn.functional.pad(X, (pd[1], pd[1], pd[0], pd[0]), value=-1000.0)
        st = (st, st) if isinstance(st, int) else st
        W = P.unfold(2, kk[0], st[0]).unfold(3, kk[1], st[1])
        return {"v": v.get_plain_text(), "i": i.get_plain_text(), "W": W.contiguous(), "wv": torch.nn.functional.max_pool2d(X, kk, **kw)}

    def post(e):
        o = []
        for r in range(ws):
            o.append((f"shape@{r}", N.cb(e.shape("v", r) == e.shape("wv", r) and e.shape("i", r) == e.shape("W", r))))
            o += close(e, f"value@{r}", e.o("v", r), e.o("wv", r))
            if e.shape("i", r) != e.shape("W", r):
                continue
            A, Wn = [tofloat(a) for a in e.o("i", r)], e.o("W", r)
            n = kk[0] * kk[1]
            for b in range(0, len(A), n):
                s, m = N.cf(0.0), N.cf(0.0)
                for t in range(n):
                    s = N.fadd(s, A[b + t])
                    if e.symbolic:
                        o.append((f"maximal@{r}[{b + t}]", N.disj(N.feq(A[b + t], N.cf(0.0)), N.conj(N.feq(A[b + t], N.cf(1.0)), *[N.fle(Wn[b + u], Wn[b + t]) for u in range(n)]))))
                    else:
                        v = N.cfval(A[b + t])
                        o.append((f"maximal@{r}[{b + t}]", N.cb(v == 0 or (v == 1 and all(N.cfval(Wn[b + u]) <= N.cfval(Wn[b + t]) + 1e-3 for u in range(n))))))
                o.append((f"single@{r}[{b}]", N.feq(s, N.cf(1.0))))
        return o

    nm = "x".join(map(str, shape)) + f"/k{k}" + "".join(f"/{a}{b}" for a, b in kw.items())
    return Case(f"pool/max-indices/{nm}/N{ws}", fn, post, ws=ws, inputs={"x": R(shape, -100, 100)}, fmode="ring")


def cases(tier):
    q = tier == "quick"
    cs = []
    F = torch.nn.functional
    for m in METHODS:
        for what in ("max", "argmax", "min", "argmin"):
            main = what in ("max", "argmax")
            for sh in ((1,), (2,), (3,), (4,), (5,), (2, 2)) + (() if q else ((6,), (7,), (2, 3))):
                if not main and sh not in ((3,), (2, 2)):
                    continue
                cs.append(extreme(what, sh, method=m))
            if what.startswith("arg"):
                for sh in ((), (3,), (2, 2), (4,)):
                    cs.append(extreme(what, sh, one_hot=False, method=m))
            dims = [((3,), 0), ((2, 3), 1), ((3, 2), 0), ((2, 3), -1), ((1, 3), 0), ((2, 1, 2), 2), ((2, 2, 2), 1), ((4, 2), 0), ((2, 2), -2)]
            if not main:
                dims = dims[1:4]
            for sh, d in dims:
                for keep in (False, True):
                    cs.append(extreme(what, sh, d, keep, method=m))
                if (sh, d) in (((2, 3), 1), ((3, 2), 0), ((2, 3), -1)):
                    for keep in (False, True):
                        cs.append(extreme(what, sh, d, keep, one_hot=False, method=m))
        cs.append(extreme("max", (), method=m))
        for n in () if q else (6, 7, 8, 9):
            cs.append(extreme("max", (n, 1), 0, method=m))
        for ws in (2, 3):
            cs.append(extreme("max", (3,), method=m, ws=ws))
            cs.append(extreme("max", (2, 3), 1, method=m, ws=ws))
            cs.append(extreme("argmax", (3,), method=m, ws=ws))
            cs.append(extreme("argmax", (3, 2), 0, one_hot=False, method=m, ws=ws))
            cs.append(extreme("min", (2, 2), 0, True, method=m, ws=ws))
        cs.append(extreme("max", (3,), 0, method=m, prec=20))
        cs.append(extreme("argmax", (3,), 0, method=m, prec=8))

    mp = lambda *a, **k: (lambda x: x.max_pool2d(*a, **k) if not isinstance(x, torch.Tensor) else F.max_pool2d(x, *a, **k))
    ap = lambda *a, **k: (lambda x: x.avg_pool2d(*a, **k) if not isinstance(x, torch.Tensor) else F.avg_pool2d(x, *a, **k))
    both = {
        "k2": ((1, 1, 4, 4), (2,), {}), "k2-odd": ((1, 1, 5, 5), (2,), {}), "k2-stride1": ((1, 1, 3, 3), (2,), {"stride": 1}), "k3-stride2": ((1, 1, 5, 5), (3,), {"stride": 2}),
        "k-rect": ((1, 1, 4, 3), ((2, 1),), {}), "k-rect-stride": ((1, 1, 3, 4), ((1, 2),), {"stride": (2, 1)}), "channels": ((2, 2, 2, 2), (2,), {}),
        "pad1": ((1, 1, 2, 2), (2,), {"padding": 1}), "pad1-stride1": ((1, 1, 2, 3), (2,), {"stride": 1, "padding": 1}), "pad-rect": ((1, 1, 3, 4), ((2, 3),), {"padding": (1, 0)}),
        "pad-rect2": ((1, 1, 4, 4), ((3, 2),), {"stride": 2, "padding": (0, 1)}), "pad-rect3": ((1, 1, 2, 4), ((3, 2),), {"stride": 1, "padding": (1, 1)}),
        "global": ((1, 2, 3, 2), ((3, 2),), {}), "rect-both": ((1, 1, 5, 3), ((3, 2),), {"stride": (2, 1)}),
    }
    for k, (sh, a, kw) in both.items():
        if q and k == "k3-stride2":
            cs.append(pool("avg-" + k, sh, ap(*a, **kw), None))
            continue
        mpad = {**kw}
        cs.append(pool("max-" + k, sh, mp(*a, **mpad), None))
        cs.append(pool("avg-" + k, sh, ap(*a, **kw), None))
        if k in ("k2", "pad1", "k-rect"):
            for w in (2, 3):
                cs.append(pool("max-" + k, sh, mp(*a, **mpad), None, ws=w))
                cs.append(pool("avg-" + k, sh, ap(*a, **kw), None, ws=w))
            for m in METHODS[1:]:
                cs.append(pool("max-" + k, sh, mp(*a, **mpad), None, method=m))
    cs.append(pool("max-dilation", (1, 1, 4, 4), mp(2, stride=1, dilation=2), None))
    cs.append(pool("max-dilation-rect", (1, 1, 4, 5), mp((2, 2), stride=1, dilation=(1, 2)), None))
    cs.append(pool("max-ceil", (1, 1, 3, 3), mp(2, ceil_mode=True), None))
    cs.append(pool("max-ceil-rect", (1, 1, 3, 4), mp((2, 3), ceil_mode=True), None))
    cs.append(pool("max-ceil-stride", (1, 1, 4, 4), mp(2, stride=3, ceil_mode=True), None))
    if not q:
        cs.append(pool("max-ceil-k3", (1, 1, 4, 4), mp(3, stride=2, ceil_mode=True), None))
    cs.append(pool("max-ceil-pad", (1, 1, 3, 3), mp(2, padding=1, ceil_mode=True), None))
    aap = lambda s: (lambda x: x.adaptive_avg_pool2d(s) if not isinstance(x, torch.Tensor) else F.adaptive_avg_pool2d(x, s))

    amp = lambda s: (lambda x: x.adaptive_max_pool2d(s) if not isinstance(x, torch.Tensor) else amax(x, s))
    for nm, sh, s in (("same", (1, 1, 2, 2), (2, 2)), ("even", (1, 1, 4, 4), (2, 2)), ("odd", (1, 1, 5, 3), (2, 2)), ("up", (1, 1, 2, 3), (3, 2)), ("one", (1, 2, 3, 2), (1, 1)),
                      ("none", (1, 1, 3, 4), (None, 2)), ("rect", (1, 1, 3, 4), (2, 3)), ("int", (1, 1, 4, 4), 2)):
        cs.append(pool("adaptive-avg-" + nm, sh, aap(s), None))
        cs.append(pool("adaptive-max-" + nm, sh, amp(s), None))
    cs += [pool_indices((1, 1, 3, 3), 2, stride=1), pool_indices((1, 1, 4, 4), 2), pool_indices((1, 1, 2, 2), 2, stride=1, padding=1), pool_indices((1, 1, 4, 3), (2, 1)), pool_indices((1, 2, 2, 2), 2, ws=2)]
    return cs
