"""Scenario builder for gradients (C12, C13, C14)."""
import random

import torch

from symx import poly as P
from .lib import *

ALL = ("products", "exp", "log", "reciprocal", "sqrt", "inv_sqrt", "sigmoid", "tanh", "erf", "softmax", "log_softmax", "cossin", "sin", "cos")


def hints(env, pairs, assume, n=300):
    """points where the two sides differ most numerically (real functions), to be replayed on the real code"""

    def f():
        rnd = random.Random(7)
        vs = [v for v in N.variables([x for p in pairs for x in p] + list(assume))]
        best = []
        for _ in range(n):
            e = {}
            for v in vs:
                at = N.ATTRS[v]
                lo, hi = (at[1] if len(at) > 1 and isinstance(at[1], tuple) else (0, 1))[:2]
                e[at[0]] = round((float(lo) + (float(hi) - float(lo)) * rnd.random() * 0.98) * 64) / 64
            try:
                if assume and not all(P.numeric(list(assume), e)):
                    continue
                d = P.numeric([x for p in pairs for x in p], e)
            except (ValueError, ZeroDivisionError, OverflowError, N.Unsupported, KeyError):
                continue
            g = max(abs(a - b) / (1 + abs(b)) for a, b in zip(d[::2], d[1::2]))
            best.append((g, e))
        best.sort(key=lambda t: -t[0])
        return [e for g, e in best[:3] if g > 1e-3]

    return f


def same(env, space, label, a, b, assume=(), tol=None, direct=False):
    """obligations: node lists agree; by normal form, the residual conditions by the solver"""
    if len(a) != len(b):
        return [(label + ":numel", N.cb(False))]
    if not env.symbolic:
        return close(env, label, a, b, tol)
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = tofloat(x), tofloat(y)
        try:
            g = N.cb(True) if x == y else N.feq(x, y) if direct else space.equal(x, y)
        except P.TooBig:
            g = N.feq(x, y)
        if g is None:
            g = N.cb(False)
        out.append((f"{label}[{i}]", g, hints(env, [(x, y)], assume)))
    return out


def gradcase(name, op, shapes, ref=None, wrt=None, rng=(-2, 2), pub=None, pre=None, ws=1, stubs=ALL, tol=0.06, noties=True, times=1, fwd=True, urng=(-2, 2), pick=0, seed_none=False, cfg=None, direct=False, **kw):
    """x.grad after op(x).backward(u) equals the derivative of sum(u*ref(x)), for every x and u; op sees encrypted
    operands (those in wrt require gradients), ref plaintext ones"""
    ref = ref or op
    pub = pub or {}
    wrt = list(shapes) if wrt is None else wrt
    rngs = rng if isinstance(rng, dict) else {k: rng for k in shapes}
    first = lambda r: r[pick] if isinstance(r, (tuple, list)) else r
    with torch.no_grad():
        probe = {k: torch.rand(s) + 0.5 for k, s in shapes.items()}
        probe.update({k: torch.rand(d.shape) + 0.5 for k, d in pub.items()})
        ushape = tuple(first(ref(**probe)).shape)

    def fn(ctx):
        import crypten

        X = {k: crypten.cryptensor(ctx.x(k).clone(), requires_grad=k in wrt) for k in shapes}
        Pl = {k: ctx.x(k).clone() for k in shapes}
        for k in pub:
            X[k] = ctx.x(k).clone()
            Pl[k] = ctx.x(k).clone()
        o = {}
        u = None if seed_none else crypten.cryptensor(ctx.x("u").clone())
        for t in range(times):
            y = first(op(**X))
            if t == 0:
                o["y"] = y.get_plain_text()
            if seed_none:
                y.backward()
            else:
                y.backward(u)
        for k in wrt:
            o[f"g:{k}"] = X[k].grad.get_plain_text() if X[k].grad is not None else None
        for k in shapes:
            o[f"k:{k}"] = X[k].get_plain_text()
        if u is not None:
            o["k:u"] = u.get_plain_text()
        if ctx.symbolic:
            o["q"] = first(ref(**Pl))
        else:
            T = {k: v.detach().clone().requires_grad_(True) if k in wrt else v for k, v in Pl.items()}
            q = first(ref(**T))
            o["q"] = q.detach()
            for t in range(times):
                if q.requires_grad:
                    q.backward(torch.ones_like(q) if seed_none else ctx.x("u").reshape(q.shape), retain_graph=True)
            for k in wrt:
                o[f"r:{k}"] = T[k].grad if T[k].grad is not None else torch.zeros_like(T[k])
        return o

    def post(e):
        obs = []
        sp = P.Space(noties)
        assume = list(pre(e)) if pre and e.symbolic else []
        for r in range(ws):
            obs.append((f"forward-shape@{r}", N.cb(e.shape("y", r) == e.shape("q", r))))
            if fwd:
                obs += same(e, sp, f"forward@{r}", e.o("y", r), e.o("q", r), assume, tol, direct)
            if e.symbolic:
                seeds = [N.cf(1.0)] * len(e.o("q", r)) if seed_none else e.x("u")
                want = P.grad([tofloat(n) for n in e.o("q", r)], seeds, [n for k in wrt for n in e.x(k)])
                if times > 1:
                    want = [N.fmul(N.cf(float(times)), w) for w in want]
                i = 0
            for k in wrt:
                if e.raw(f"g:{k}", r) is None:
                    obs.append((f"gradient-{k}-missing@{r}", N.cb(False)))
                    continue
                obs.append((f"gradient-{k}-shape@{r}", N.cb(e.shape(f"g:{k}", r) == tuple(shapes[k]))))
                if e.symbolic:
                    w = want[i:i + len(e.x(k))]
                    i += len(e.x(k))
                else:
                    w = e.o(f"r:{k}", r)
                obs += same(e, sp, f"gradient-{k}@{r}", e.o(f"g:{k}", r), w, assume, tol, direct)
            for k in shapes:
                obs += same(e, sp, f"operand-{k}-unchanged@{r}", e.o(f"k:{k}", r), e.x(k), assume, tol, direct)
            if not seed_none:
                obs += same(e, sp, f"seed-unchanged@{r}", e.o("k:u", r), e.x("u"), assume, tol, direct)
        return obs

    inputs = {k: R(s, *rngs.get(k, (-2, 2))) for k, s in shapes.items()}
    inputs.update(pub)
    if not seed_none:
        inputs["u"] = R(ushape, *urng)
    return Case(f"{name}/N{ws}", fn, post, ws=ws, inputs=inputs, fmode="ring", pre=pre, tol=tol, stubs=stubs, cfg=cfg, **kw)


def distinct(*keys):
    """all elements of the named inputs differ, from each other and from zero"""

    def pre(e):
        ns = [n for k in keys for n in e.x(k)]
        z = N.cf(0.0)
        return [N.bnot(N.feq(a, b)) for i, a in enumerate(ns) for b in ns[i + 1:]] + [N.bnot(N.feq(a, z)) for a in ns]

    return pre


def off(*vals):
    """no element of x equals one of vals"""

    def pre(e):
        return [N.bnot(N.feq(a, N.cf(float(v)))) for a in e.x("x") for v in vals]

    return pre
