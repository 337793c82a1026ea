"""Cases, obligations, replay, evidence: the driver shared by all checks."""
import json
import math
import os
import signal
import sys
import time
import traceback
from multiprocessing import Pipe
from multiprocessing.connection import wait as mpwait

from . import nodes as N
from . import solver as S
from . import tensor as T
from . import world as W
from .nodes import Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class I:
    """declaration of a symbolic input"""

    def __init__(self, shape=(), lo=None, hi=None, kind="int", k=16, dtype=None, attrs=None):
        self.shape, self.lo, self.hi, self.kind, self.k, self.dtype, self.attrs = tuple(shape), lo, hi, kind, k, dtype, attrs

    @property
    def n(self):
        return math.prod(self.shape)

    def describe(self):
        d = {"shape": list(self.shape), "kind": self.kind}
        if self.lo is not None or self.hi is not None:
            d["range"] = [self.lo, self.hi]
        if self.kind == "fx":
            d["fraction_bits"] = self.k
        return d

    def nodes(self, name):
        if self.kind in ("int", "fx"):
            return [N.var(f"{name}[{i}]", self.lo, self.hi) for i in range(self.n)]
        return [N.fvar(f"{name}[{i}]", self.attrs) for i in range(self.n)]

    def const_nodes(self, name, values):
        if self.kind in ("int", "fx"):
            return [N.ci(int(values.get(f"{name}[{i}]", max(0, self.lo or 0)))) for i in range(self.n)]
        return [N.cf(values.get(f"{name}[{i}]", 0)) for i in range(self.n)]

    def tensor(self, ctx, name):
        if self.kind == "int":
            return ctx.int(name, self.shape, self.lo, self.hi)
        if self.kind == "fx":
            import torch

            return ctx.flt(name, self.shape, self.k, self.lo, self.hi, self.dtype or torch.float32)
        import torch

        return ctx.real(name, self.shape, self.dtype or torch.float32, self.attrs)


class Env:
    """what obligations are written over: input nodes + outputs per party"""

    def __init__(self, case, out, values=None, status=None):
        self.case, self.out, self.values = case, out, values
        self.ws = case.ws
        self.symbolic = values is None

    def x(self, name):
        d = self.case.inputs[name]
        return d.nodes(name) if self.values is None else d.const_nodes(name, self.values)

    def o(self, key, rank=0):
        return self.out[rank][key].ids

    def shape(self, key, rank=0):
        return tuple(self.out[rank][key].shape)

    def raw(self, key, rank=0):
        return self.out[rank][key]


def close(env, label, a, b, tol=None):
    """obligation: real-valued outputs a and b (node lists) agree; exact symbolically, up to fixed-point
    rounding when replaying"""
    out = []
    tol = tol if tol is not None else env.case.tol
    if len(a) != len(b):
        return [(label + ":shape", N.cb(False))]
    from fractions import Fraction as F

    for i, (x, y) in enumerate(zip(a, b)):
        x, y = tofloat(x), tofloat(y)
        if env.symbolic:
            d = N.fsub(x, y)
            gap = lambda t: N.disj(N.flt(N.cf(F(t)), d), N.flt(d, N.cf(F(-t))))
            out.append((f"{label}[{i}]", N.feq(x, y), gap(F(1)), gap(F(1, 8))))
        else:
            u, v = N.cfval(x), N.cfval(y)
            out.append((f"{label}[{i}]", N.cb(u == v or abs(u - v) <= tol * (1 + abs(v)))))
    return out


def tofloat(n):
    s = N.SORTS[n]
    if s == "i":
        return N.cf(float(N.cval(n))) if N.is_const(n) else N.i2f(n)
    if s == "b":
        return N.b2f(n)
    return n


class Rewrite:
    """an equation node == expr that is first proven under `assume` (implied by the scenario's assumptions) and then
    used to simplify the later obligations; when it cannot be proven it is simply not used"""

    def __init__(self, node, expr, assume=()):
        self.node, self.expr, self.assume = node, expr, list(assume)


def shape_ok(env, key, ref, rank=0):
    return (f"{key}:shape", N.cb(env.shape(key, rank) == env.shape(ref, rank)))


class Case:
    """fn(ctx) runs in every party (real code); post(env) -> [(label, bool node)]"""

    def __init__(self, name, fn, post, ws=2, inputs=None, pre=None, ttp=False, zero_local=False, cfg=None,
                 expect_raise=None, timeout_ms=60000, fmode="fx", max_paths=16, weight=1, tactic=None, run_timeout=240,
                 replayable=True, note=None, stubs=(), tol=0.02):
        self.name, self.fn, self.post, self.ws = name, fn, post, ws
        self.inputs = inputs or {}
        self.pre = pre
        self.ttp, self.zero_local, self.cfg = ttp, zero_local, cfg
        self.expect_raise = expect_raise
        self.timeout_ms, self.fmode, self.max_paths = timeout_ms, fmode, max_paths
        self.weight, self.tactic, self.run_timeout = weight, tactic, run_timeout
        self.note = note
        self.stubs, self.tol = stubs, tol

    def wrapped(self):
        case = self

        def f(ctx):
            ctx.inp = {k: d.tensor(ctx, k) for k, d in case.inputs.items()}
            ctx.x = lambda name: ctx.inp[name]
            return case.fn(ctx)

        return f

    def _mode(self, symbolic):
        ring = self.fmode == "ring"
        N.set_fmode("real" if ring else self.fmode)
        T.set_ring(ring and symbolic)
        W.STUBS = tuple(self.stubs)

    # ------------------------------------------------------------ deciding
    def decide(self):
        r = {"case": self.name, "status": "held", "violations": [], "inconclusive": [], "obligations": 0, "paths": 0,
             "functions": set(), "messages": 0, "parties": self.ws, "ttp": self.ttp}
        N.reset()
        self._mode(True)
        t0 = time.time()
        todo = [[]]
        while todo:
            dec = todo.pop()
            if r["paths"] >= self.max_paths:
                r["inconclusive"].append("path bound reached")
                break
            res = W.run_once(self.wrapped(), self.ws, self.cfg, dec, self.ttp, self.zero_local, S.feasible, timeout=self.run_timeout)
            r["paths"] += 1
            r["functions"] |= res.cov
            r["messages"] += res.nmsg
            todo += res.alternatives
            self._path(res, r)
        r["functions"] = sorted(r["functions"])
        r["encode_s"] = round(time.time() - t0 - S.STATS.time, 3)
        r["solver"] = S.STATS.d()
        r["nodes"] = len(N.OPS)
        if r["violations"]:
            r["status"] = "violated"
        elif r["inconclusive"]:
            r["status"] = "inconclusive"
        return r

    def _path(self, res, r):
        pre = []
        env0 = Env(self, {})
        if self.pre:
            pre = list(self.pre(env0))
        assume = pre + res.pc
        uns = res.unsupported
        if uns or (res.desync and res.desync.startswith("UNSUPPORTED")):
            r["inconclusive"].append("unsupported: " + (str(uns[0]) if uns else res.desync)[-1500:])
            return
        if not res.ok:
            what = res.desync or next((f"party {k} raised {v[0]}: {v[1]}" if isinstance(v, tuple) else f"party {k}: {v}") for k, v in res.err.items())
            kinds = [v[0] for v in res.err.values() if isinstance(v, tuple)]
            if self.expect_raise and kinds and all(k in self.expect_raise for k in kinds):
                r["obligations"] += 1
                # a path that must raise, and did
                q, _ = S.solve(assume + [N.cb(True)], self.timeout_ms)
                return
            q, model = S.solve(assume or [N.cb(True)], self.timeout_ms)
            if q == "unsat":
                return
            if q == "unknown":
                r["inconclusive"].append("reachability of a failing path unknown: " + what)
                return
            self._replay(r, "no-failure", model, what)
            return
        if self.expect_raise:
            q, model = S.solve(assume or [N.cb(True)], self.timeout_ms)
            if q == "sat":
                self._replay(r, "must-raise", model, "no exception was raised")
            return
        env = Env(self, res.out)
        env.res = res
        try:
            obs = self.post(env)
        except Unsupported as e:
            r["inconclusive"].append(f"unsupported in property: {e}")
            return
        # vacuity guard: the path must be reachable
        q, _ = S.solve(assume or [N.cb(True)], self.timeout_ms)
        if q == "unsat":
            if not res.pc:
                r["inconclusive"].append("vacuous precondition")
            return
        r["obligations"] += len([o for o in obs if not isinstance(o, Rewrite)])
        bad = 0
        done, rw = set(), {}
        for ob in obs:
            if isinstance(ob, Rewrite):
                if ob.node != ob.expr and ob.node not in rw and not N.is_const(ob.node):
                    g = N.substitute([N.eq(ob.node, ob.expr)], rw)[0] if rw else N.eq(ob.node, ob.expr)
                    if S.solve(ob.assume + [N.bnot(g)], self.timeout_ms, self.tactic)[0] == "unsat":
                        rw[ob.node] = N.substitute([ob.expr], rw)[0] if rw else ob.expr
                continue
            label, g = ob[:2]
            if bad >= 3:
                break
            if g in done:
                continue
            if rw:
                h = N.substitute([g], rw)[0]
                if h != g and S.solve(assume + [N.bnot(h)], self.timeout_ms, self.tactic)[0] == "unsat":
                    done.add(g)
                    continue
            q, model = S.solve(assume + [N.bnot(g)], self.timeout_ms, self.tactic)
            if q == "unsat":
                done.add(g)
                continue
            if q == "unknown":
                r["inconclusive"].append(f"{label}: solver {model}")
            elif q == "sat":
                tries = [model]
                # prefer counterexamples with a gap well above rounding, for the replay
                for strong in ob[2:]:
                    if callable(strong):
                        tries = list(strong()) + tries
                        continue
                    q2, m2 = S.solve(assume + [strong], self.timeout_ms, self.tactic)
                    if q2 == "sat":
                        tries.insert(0, m2)
                        break
                mark = len(r["inconclusive"])
                bad += 1
                for m in tries:
                    if self._replay(r, label, m, None, (assume, g)):
                        del r["inconclusive"][mark:]
                        return

    # ------------------------------------------------------------ replay
    def _replay(self, r, label, model, what, query=None):
        values = model if all(isinstance(k, str) for k in model) else S.names(model)
        vals = {k: (v if isinstance(v, (int, bool, str)) else float(v)) for k, v in values.items()}
        verdict, detail = self.replay(vals, label)
        if verdict == "reproduced":
            r["violations"].append({"label": label, "values": vals, "detail": detail, "symbolic": what})
            return True
        r["inconclusive"].append(f"counterexample for {label} did not reproduce on the real code ({detail}); {what or ''}; inputs={ {k: v for k, v in vals.items() if not k.startswith('r:')} }")
        r["unreproduced"] = True
        return False

    def replay(self, vals, label):
        try:
            self._mode(False)
            return self._replay_run(vals, label)
        finally:
            self._mode(True)

    def _replay_run(self, vals, label):
        out = W.run_concrete(self.wrapped(), self.ws, vals, self.cfg, self.ttp, self.zero_local)
        bad = {k: v for k, v in out.items() if v[0] != "ok"}
        if bad:
            k, v = next(iter(bad.items()))
            if self.expect_raise and v[0] == "raise" and v[1][0] in self.expect_raise:
                return "no", "raised as required"
            return "reproduced", f"party {k}: {v[0]} {v[1][:2] if v[1] else ''}"
        if self.expect_raise:
            return "reproduced", "real run completed without the required exception"
        env = Env(self, {k: v[1] for k, v in out.items()}, vals)
        env.res = None
        failed = []
        for ob in self.post(env):
            if isinstance(ob, Rewrite):
                continue
            lb, g = ob[:2]
            if N.OPS[g] == "cb":
                if not N.cval(g):
                    failed.append(lb)
            else:
                q, _ = S.solve([N.bnot(g)])
                if q == "sat":
                    failed.append(lb)
        if failed:
            det = {"failed": failed, "inputs": {k: v for k, v in vals.items() if not k.startswith("r:")}, "outputs": {k: show(v[1]) for k, v in out.items()}}
            return "reproduced", det
        return "no", {"outputs": {k: show(v[1]) for k, v in out.items()}}


def show(o):
    if isinstance(o, W.SymOut):
        return [N.cfval(n) if N.OPS[n] == "cf" else N.cval(n) for n in o.ids if N.is_const(n)]
    if isinstance(o, dict):
        return {k: show(v) for k, v in o.items()}
    if isinstance(o, list):
        return [show(v) for v in o]
    return o


# ------------------------------------------------------------------ runner
def run_isolated(cases, jobs=None, budget=None, log=None):
    """decide every case in its own forked process (clean DAG), in parallel"""
    jobs = jobs or 6
    W.load_crypten()
    results = []
    pending = list(enumerate(cases))
    running = {}
    t0 = time.time()
    sys.stdout.flush()
    while pending or running:
        while pending and sum(c.weight for _, c, _, _ in running.values()) < jobs:
            if budget and time.time() - t0 > budget:
                for i, c in pending:
                    results.append((i, {"case": c.name, "status": "inconclusive", "violations": [], "inconclusive": ["time budget of the check used up"], "obligations": 0, "paths": 0, "functions": [], "messages": 0, "solver": {}, "parties": c.ws}))
                pending = []
                break
            i, c = pending.pop(0)
            a, b = Pipe()
            pid = os.fork()
            if pid == 0:
                a.close()
                try:
                    S.STATS.__init__()
                    r = c.decide()
                except BaseException as e:  # noqa
                    r = {"case": c.name, "status": "error", "violations": [], "inconclusive": ["check error: " + traceback.format_exc()[-3000:]],
                         "obligations": 0, "paths": 0, "functions": [], "messages": 0, "solver": S.STATS.d(), "parties": getattr(c, "ws", 0)}
                b.send(json.dumps(r, default=str))
                b.close()
                os._exit(0)
            b.close()
            running[pid] = (i, c, a, time.time())
        conns = {v[2]: p for p, v in running.items()}
        for c in mpwait(list(conns), timeout=1.0):
            pid = conns[c]
            i, cs, a, ts = running.pop(pid)
            try:
                r = json.loads(a.recv())
            except EOFError:
                r = {"case": cs.name, "status": "error", "violations": [], "inconclusive": ["worker died"], "obligations": 0, "paths": 0,
                     "functions": [], "messages": 0, "solver": {}, "parties": getattr(cs, "ws", 0)}
            a.close()
            os.waitpid(pid, 0)
            r["wall_s"] = round(time.time() - ts, 2)
            results.append((i, r))
            if log:
                log(r)
    results.sort(key=lambda t: t[0])
    return [r for _, r in results]
