"""C15 secrecy of transcripts."""
import random
import time

import torch

from symx import solver as S
from .lib import *

EXPLAIN = ("The real protocol code runs symbolically in every party over exact 64-bit arithmetic, all secrets and all random draws being variables; the hub records every message. For each corrupted party the words it "
           "receives are put in an order in which each word has a mask of its own: a random variable that party never draws and that no remaining word contains. z3 shows for every word and all values that shifting "
           "the mask by d shifts the word by exactly d (mod 2**64, or xor), so the words are jointly uniform whatever the others' secrets are. When no order exists, z3 searches for a word or a combination of two "
           "words that does not depend on the unknown randomness but does on a secret; the leak is replayed on the real code with recorded messages and changed randomness and secrets.")
BOUNDS = {"values": "all 64-bit secrets, shares and random words", "parties": "2 and 3; every single corrupted party", "protocols": "the steps named by the scenarios, 1 or 2 elements",
          "not covered": "the final opening of a result, coalitions of two parties, statistical truncation error, secrecy of the seeds exchanged at initialisation, TFP's party 0 (trusted dealer by design)"}
ASSUMPTIONS = ["pseudo-random generator outputs are uniform and independent for different seeds and positions", "a reduction reveals every contribution to the parties that receive its result",
               "the provider of tuples is honest: TFP is party 0 (not considered corrupted), TTP a separate process"]

FULL = 1 << 64


class View(Case):
    """secrets: {name: (I, owner)}; pub: {name: I}; corrupt: the parties whose views are checked"""

    limit = 40

    def __init__(self, name, fn, secrets, ws=2, corrupt=None, pub=None, ttp=False, **kw):
        ins = {k: d for k, (d, _) in secrets.items()}
        ins.update(pub or {})
        self.owner = {k: o for k, (_, o) in secrets.items()}
        self.corrupt = corrupt if corrupt is not None else (list(range(ws)) if ttp else list(range(1, ws)))
        super().__init__(f"{name}/{'TTP' if ttp else 'TFP'}/N{ws}", fn, lambda e: [], ws=ws, inputs=ins, ttp=ttp, **kw)

    # ---------------------------------------------------------- deciding
    def _path(self, res, r):
        super()._path(res, r)
        if not res.ok or r["violations"] or r["inconclusive"]:
            return
        assume = (list(self.pre(Env(self, {}))) if self.pre else []) + res.pc
        for p in self.corrupt:
            self.view(res, r, p, assume)
            if r["violations"]:
                return

    def messages(self, res, p):
        """[(sender, number of the message among the sender's messages to p, element, node)]"""
        out, cnt = [], {}

        def put(s, o, drop=()):
            if s == p:
                return
            k = cnt[s] = cnt.get(s, -1) + 1
            out.extend((s, k, i, n) for i, n in enumerate(o.ids) if i not in drop)

        for kind, who, o in res.transcript:
            if kind == "p2p":
                if who[1] == p:
                    put(who[0], o)
            elif kind == "broadcast":
                if p in who[1]:
                    put(who[0], o)
            else:
                root, ranks = who[-2], who[-1]
                if p in ranks and (root is None or root == p):
                    drop = self.determined(p, ranks, o)
                    for s in ranks:
                        put(s, o[s], drop if s == max(x for x in ranks if x != p) else ())
        return out

    def determined(self, p, ranks, o):
        """elements whose contributions sum to zero, such as the opened test of a triple: the last contribution follows from the others and the party's own"""
        out = []
        if p in ranks and len(ranks) > 1:
            for i in range(len(o[p].ids)):
                for f in (N.add, N.xor):
                    n = N.ci(0)
                    for s in ranks:
                        n = f(n, o[s].ids[i])
                    g = N.eq(n, N.ci(0))
                    if (N.is_const(g) and N.cval(g)) or (not N.is_const(g) and self.probable(g) and S.solve([N.bnot(g)], self.timeout_ms)[0] == "unsat"):
                        out.append(i)
                        break
        return out

    def view(self, res, r, p, assume):
        known = set(res.drawn.get(p, ()))
        known |= {f"{k}[{i}]" for k, d in self.inputs.items() if self.owner.get(k, p) == p for i in range(d.n)}
        secret = {f"{k}[{i}]" for k, d in self.inputs.items() if self.owner.get(k, p) != p for i in range(d.n)}
        words, seen = [], set()
        for s, k, i, n in self.messages(res, p):
            if N.is_const(n) or n in seen:
                continue
            seen.add(n)
            words.append((s, k, i, n))
        # variables of every word, as bit sets
        idx, names, bits = {}, [], {}
        for n in N.topo([w[3] for w in words]):
            b = 0
            if N.OPS[n] in ("var", "fvar", "bvar"):
                nm = N.ATTRS[n][0]
                if nm not in known:
                    if nm not in idx:
                        idx[nm] = len(names)
                        names.append(n)
                    b = 1 << idx[nm]
            for c in N.KIDS[n]:
                b |= bits[c]
            bits[n] = b
        words = [w for w in words if bits[w[3]]]
        r.setdefault("view_words", 0)
        r["view_words"] += len(words)
        rest = [(("w",) + w[:3], w[3]) for w in words[::-1]]
        free = lambda n: {j for j in range(len(names)) if bits[n] >> j & 1 and N.ATTRS[names[j]][0] not in secret}
        sets = {w: free(w[1]) for w in rest}
        known_mask = {}

        def mask(n, j):
            if (n, j) not in known_mask:
                known_mask[n, j] = self.masked(n, names[j], known)
            return known_mask[n, j]

        count = {}
        for w in rest:
            for j in sets[w]:
                count[j] = count.get(j, 0) + 1
        t_end = time.time() + self.limit
        progress = True
        while rest and progress:
            progress = False
            keep = []
            for w in rest:
                piv = None
                for j in sorted(sets[w], key=lambda j: -j):
                    if count[j] == 1 and mask(w[1], j):
                        piv = j
                        break
                if piv is None:
                    keep.append(w)
                    continue
                progress = True
                r["obligations"] += 1
                for j in sets[w]:
                    count[j] -= 1
            rest = keep
            if rest and not progress and time.time() < t_end:
                # an invertible change of the transcript: a mask shared by few words is removed from all but one of them
                step = self.eliminate(rest, sets, count, names, mask)
                if step is not None:
                    w, j, repl = step
                    progress = True
                    r["obligations"] += 1
                    for x in [w] + list(repl):
                        for i in sets[x]:
                            count[i] -= 1
                    for k, n in enumerate(N.topo([v[1] for v in repl.values()])):
                        if n not in bits:
                            x = 0
                            if N.OPS[n] in ("var", "fvar", "bvar") and N.ATTRS[n][0] in idx:
                                x = 1 << idx[N.ATTRS[n][0]]
                            for c in N.KIDS[n]:
                                x |= bits[c]
                            bits[n] = x
                    new = []
                    for x in rest:
                        if x == w:
                            continue
                        x = repl.get(x, x)
                        if not bits[x[1]]:
                            continue  # determined by what the party knows
                        if x not in sets:
                            sets[x] = free(x[1])
                            for i in sets[x]:
                                count[i] = count.get(i, 0) + 1
                        elif x in repl.values():
                            for i in sets[x]:
                                count[i] += 1
                        new.append(x)
                    rest = new
        if rest:
            self.leak(res, r, p, rest[::-1], secret, known, assume)

    def eliminate(self, rest, sets, count, names, mask):
        js = sorted({j for w in rest for j in sets[w] if 2 <= count[j] <= self.ws + 1}, key=lambda j: (count[j], -j))
        for j in js:
            at = N.ATTRS[names[j]]
            if at[1] is not None or at[2] is not None:
                continue
            ws_ = [w for w in rest if j in sets[w]]
            kinds = [mask(w[1], j) for w in ws_]
            if not all(kinds) or len({k == "xor" for k in kinds}) > 1:
                continue
            w, k0 = ws_[0], kinds[0]
            repl = {}
            if "sign" in kinds:
                s0 = self.sign(w[1], names[j])
                for u in ws_[1:]:
                    n = N.sub(u[1], N.mul(N.mul(s0, self.sign(u[1], names[j])), w[1]))
                    repl[u] = (("signed", u[0], w[0]), N.substitute([n], {names[j]: N.ci(0)})[0])
                return w, j, repl
            for u, k in list(zip(ws_, kinds))[1:]:
                how = "xor" if k == "xor" else "sub" if k == k0 else "add"
                n = {"xor": N.xor, "sub": N.sub, "add": N.add}[how](u[1], w[1])
                repl[u] = ((how, u[0], w[0]), N.substitute([n], {names[j]: N.ci(0)})[0])
            return w, j, repl
        return None

    @staticmethod
    def sign(w, v):
        return N.sub(N.substitute([w], {v: N.ci(1)})[0], N.substitute([w], {v: N.ci(0)})[0])

    def masked(self, w, v, known):
        """how shifting v shifts w for all values: xor, add, sub, sign (by d or by -d), bit or None"""
        at = N.ATTRS[v]
        if at[1] is None and at[2] is None:
            d = N.var("shift")
            w2 = N.substitute([w], {v: N.add(v, d)})[0]
            goals = [("add", N.eq(w2, N.add(w, d))), ("sub", N.eq(w2, N.sub(w, d)))]
            w3 = N.substitute([w], {v: N.xor(v, d)})[0]
            goals.append(("xor", N.eq(w3, N.xor(w, d))))
            sg = self.sign(w, v)  # the sign may be a public value, such as 1 - 2 z with an opened bit z
            goals.append(("sign", N.conj(N.eq(w2, N.add(w, N.mul(sg, d))), N.disj(N.eq(sg, N.ci(1)), N.eq(sg, N.ci(-1))))))
            goals.sort(key=lambda g: not (N.is_const(g[1]) and N.cval(g[1])))
        elif at[1] == 0 and at[2] == 2:
            # one bit is masked and the other 63 do not depend on anything unknown to the party
            d = N.var("shift", 0, 2)
            w2 = N.substitute([w], {v: N.xor(v, d)})[0]
            fresh = {u: N.var("alt:" + N.ATTRS[u][0], *N.ATTRS[u][1:]) for u in N.variables([w]) if N.OPS[u] == "var" and N.ATTRS[u][0] not in known}
            w3 = N.substitute([w], fresh)[0]
            goals = [("bit", N.conj(N.eq(N.lshr(N.xor(w, w3), 1), N.ci(0)), N.eq(w2, N.xor(w, d))))]
        else:
            return None
        for how, g in goals:
            if N.is_const(g) and not N.cval(g):
                continue
            if not (N.is_const(g) and N.cval(g)) and not self.probable(g):
                continue
            if S.solve([N.bnot(g)], self.timeout_ms)[0] == "unsat":
                return how
        return None

    def probable(self, g, n=4):
        rnd = random.Random(5)
        try:
            for _ in range(n):
                if not N.evaluate([g], {v: self.rand(v, rnd) for v in N.variables([g])})[0]:
                    return False
        except N.Unsupported:
            pass
        return True

    @staticmethod
    def rand(v, rnd):
        at = N.ATTRS[v]
        if N.OPS[v] == "bvar":
            return rnd.random() < 0.5
        if N.OPS[v] == "fvar":
            return rnd.random()
        return rnd.randrange(at[1] if at[1] is not None else -(1 << 63), at[2] if at[2] is not None else 1 << 63)

    # ---------------------------------------------------------- leaks
    def leak(self, res, r, p, rest, secret, known, assume):
        """a combination of words that is free of unknown randomness but depends on a secret"""
        t_end = time.time() + self.limit
        if self.conditioned(r, p, rest, secret, known, assume, t_end):
            return
        first = rest[:24]
        cands = list(first)
        for a in range(len(first)):
            for b in range(a):
                x, y = first[b], first[a]
                cands += [((how, x[0], y[0]), f(x[1], y[1])) for how, f in (("sub", N.sub), ("xor", N.xor), ("add", N.add))]
        for (tree, g), part in [(c, f) for c in cands for f in ("id", "low", "top")]:
            if N.is_const(g) or time.time() > t_end:
                continue
            h = g if part == "id" else N.band(g, N.ci(1)) if part == "low" else N.lshr(g, 63)
            vs = N.variables([h])
            un = [v for v in vs if N.ATTRS[v][0] not in known and N.ATTRS[v][0] not in secret]
            se = [v for v in vs if N.ATTRS[v][0] in secret]
            if not se:
                continue
            fresh = {v: N.var("alt:" + N.ATTRS[v][0], *N.ATTRS[v][1:]) for v in un if N.OPS[v] == "var"}
            h2 = N.substitute([h], fresh)[0]
            indep = N.eq(h, h2)
            if not self.probable(indep):
                continue
            if S.solve(assume + [N.bnot(indep)], self.timeout_ms)[0] != "unsat":
                continue
            other = {v: N.var("other:" + N.ATTRS[v][0], *N.ATTRS[v][1:]) for v in se if N.OPS[v] == "var"}
            h3 = N.substitute([h], other)[0]
            q, m = S.solve(assume + N.substitute(assume, other) + [N.bnot(N.eq(h, h3))], self.timeout_ms)
            if q != "sat":
                continue
            vals = {k: (v if isinstance(v, (int, bool, str)) else float(v)) for k, v in S.names(m).items()}
            vals["leak"] = repr((p, tree, part))
            # every unknown random variable of the transcript is varied
            rnd = random.Random(11)
            for v in N.variables([w[1] for w in rest]):
                nm = N.ATTRS[v][0]
                if nm not in known and nm not in secret:
                    vals["alt:" + nm] = self.rand(v, rnd)
            if self._replay(r, f"{tree} received by party {p} ({part})", vals, f"party {p} learns a function of a secret"):
                return
        for w in rest[:24]:
            if self.support(r, p, w, secret, known, assume):
                return
        r["inconclusive"].append(f"party {p}: {len(rest)} words without a mask of their own, first {rest[0][0]}")

    def conditioned(self, r, p, rest, secret, known, assume, t_end):
        """words are fixed one after the other by solving them for a mask; a later word that then has no unknown randomness left but differs for two secrets is a leak"""
        items, pivots, known = list(rest[:60]), [], set(known)
        while items and time.time() < t_end:
            best = None
            for k, (tree, n) in enumerate(items):
                vs = [v for v in N.variables([n]) if N.ATTRS[v][0] not in known]
                un = [v for v in vs if N.ATTRS[v][0] not in secret]
                if not un:
                    if vs and self.depends(r, p, tree, n, pivots, rest, secret, known, assume):
                        return True
                    best = (k, None, None)
                    break
                for v in un:
                    at = N.ATTRS[v]
                    if N.OPS[v] == "var" and at[1] is None and at[2] is None and best is None:
                        how = self.masked(n, v, known)
                        if how in ("add", "sub", "xor"):
                            best = (k, v, how)
                            break
            if best is None:
                return False
            k, v, how = best
            tree, n = items.pop(k)
            if v is None:
                continue
            w = N.var(f"seen:{len(pivots)}")
            known.add(N.ATTRS[w][0])
            n0 = N.substitute([n], {v: N.ci(0)})[0]
            x = N.sub(w, n0) if how == "add" else N.sub(n0, w) if how == "sub" else N.xor(w, n0)
            pivots.append((tree, v, w, x))
            new = N.substitute([i[1] for i in items], {v: x})
            items = [(t, m) for (t, _), m in zip(items, new)]
        return False

    def depends(self, r, p, tree, n, pivots, rest, secret, known, assume):
        se = [v for v in N.variables([n]) if N.ATTRS[v][0] in secret]
        other = {v: N.var("other:" + N.ATTRS[v][0], *N.ATTRS[v][1:]) for v in se if N.OPS[v] == "var"}
        n2 = N.substitute([n], other)[0]
        q, m = S.solve([N.bnot(N.eq(n, n2))], self.timeout_ms)
        if q != "sat":
            return False
        rnd = random.Random(3)
        orig = N.variables([w[1] for w in rest])

        def complete(pick):
            env = {}
            for v in orig + [x[2] for x in pivots]:
                env[v] = pick(v)
            for _, v, w, x in reversed(pivots):
                for u in N.variables([x]):
                    env.setdefault(u, self.rand(u, random.Random(N.ATTRS[u][0])))
                env[v] = N.evaluate([x], env)[0]
            return {N.ATTRS[v][0]: env[v] for v in env if not N.ATTRS[v][0].startswith("seen:")}

        base = {}
        free = {}

        def one(v, other_secret=False, fresh=False):
            nm = N.ATTRS[v][0]
            if nm in secret and other_secret and v in other:
                return m.get(other[v], 0)
            if v in m:
                return m[v]
            if nm in known or nm in secret or not fresh:
                return base.setdefault(v, self.rand(v, rnd))
            return free.setdefault(v, self.rand(v, rnd))

        sets = [complete(lambda v, a=a, b=b: one(v, a, b)) for a, b in ((False, False), (False, True), (True, False), (True, True))]
        vals = {k: v for k, v in sets[0].items()}
        vals["leak"] = repr((p, tree, ("given", [t for t, *_ in pivots], sets)))
        return self._replay(r, f"{tree} received by party {p}, given the earlier words", vals, f"party {p} learns a function of a secret")

    def support(self, r, p, w, secret, known, assume):
        """one bounded mask: a value of the word that some secret can produce and another cannot"""
        vs = N.variables([w[1]])
        un = [v for v in vs if N.ATTRS[v][0] not in known and N.ATTRS[v][0] not in secret]
        se = [v for v in vs if N.ATTRS[v][0] in secret]
        if len(un) != 1 or not se or N.OPS[un[0]] != "var":
            return False
        v = un[0]
        lo, hi = N.ATTRS[v][1:]
        if lo is None:
            return False
        for f, val in ((N.sub(w[1], v), 1), (N.add(w[1], v), -1)):
            f0 = N.substitute([f], {v: N.ci(lo)})[0]
            if S.solve(assume + [N.bnot(N.eq(f, f0))], self.timeout_ms)[0] != "unsat":
                continue
            other = {s: N.var("other:" + N.ATTRS[s][0], *N.ATTRS[s][1:]) for s in se}
            g = N.substitute([f0], other)[0]
            need = N.sub(w[1], g) if val == 1 else N.sub(g, w[1])
            q, m = S.solve(assume + [N.bnot(N.conj(N.sle(N.ci(lo), need), N.slt(need, N.ci(hi))))], self.timeout_ms)
            if q == "sat":
                vals = {k: (x if isinstance(x, (int, bool, str)) else float(x)) for k, x in S.names(m).items()}
                e = {n: m.get(n, 0) for n in N.variables([w[1]])}
                vals["leak"] = repr((p, w[0], N.evaluate([w[1]], e)[0]))
                return self._replay(r, f"word {w[0]} received by party {p} (support)", vals, "a value that another secret cannot produce")
        return False

    # ---------------------------------------------------------- replay on the real code
    def _replay_run(self, vals, label):
        if "leak" not in vals:
            return super()._replay_run(vals, label)
        p, tree, part = eval(vals["leak"], {"__builtins__": {}})
        base = {k: v for k, v in vals.items() if not k.startswith(("alt:", "other:")) and k != "leak"}
        alt = {k[4:]: v for k, v in vals.items() if k.startswith("alt:")}
        oth = {k[6:]: v for k, v in vals.items() if k.startswith("other:")}

        def run(v, trees=None):
            sent = {}
            out = W.run_concrete(self.wrapped(), self.ws, v, self.cfg, self.ttp, self.zero_local, sent=sent)
            if any(x[0] != "ok" for x in out.values()):
                return None

            def ev(t):
                if t[0] == "w":
                    ms = [c for d, c in sent.get(t[1], []) if p in d]
                    return ms[t[2]][t[3]]
                if t[0] == "signed":
                    raise IndexError
                x, y = ev(t[1]), ev(t[2])
                return x ^ y if t[0] == "xor" else x - y if t[0] == "sub" else x + y

            def get(t):
                x = ev(t) % FULL
                return x & 1 if part == "low" else x >> 63 if part == "top" else x

            try:
                return get(tree) if trees is None else [get(t) for t in trees]
            except IndexError:
                return None

        if isinstance(part, tuple):
            got = [run(v, part[1] + [tree]) for v in part[2]]
            if None in got:
                return "no", {"words": got}
            same = all(g[:-1] == got[0][:-1] for g in got)
            a, b, c, d = [g[-1] for g in got]
            if same and a == b and c == d and a != c:
                pick = lambda v: {k: x for k, x in v.items() if not k.startswith("r:")}
                return "reproduced", {"party": p, "earlier words": got[0][:-1], "learns": a, "with other secrets": c, "same under changed randomness": True, "inputs": pick(part[2][0]), "other": pick(part[2][2])}
            return "no", {"words": got}
        if isinstance(part, int):
            a = run(base)
            return ("reproduced", {"party": p, "word": a, "inputs": {k: v for k, v in base.items() if not k.startswith("r:")}, "impossible for": oth}) if a == part % FULL else ("no", {"word": a})
        a, b, c, d = run(base), run({**base, **alt}), run({**base, **oth}), run({**base, **oth, **alt})
        if None not in (a, b, c, d) and a == b and c == d and a != c:
            return "reproduced", {"party": p, "learns": a, "with other secrets": c, "same under changed randomness": True, "inputs": {k: v for k, v in base.items() if not k.startswith("r:")}, "other": oth}
        return "no", {"values": [a, b, c, d]}


def cases(tier):
    full = tier == "thorough"
    C = []
    from crypten.mpc import MPCTensor

    import crypten

    def enc(ctx, k, o, prec=0, pt=None):
        kw = {"precision": prec} if pt is None else {"ptype": pt}
        return MPCTensor(ctx.x(k).clone(), src=o, **kw)

    n1 = (1,)
    pair = lambda s=n1, t=n1: {"x": (I(s), 0), "y": (I(t), 1)}
    one = lambda s=n1, o=0: {"x": (I(s), o)}

    def two(name, f, sx=n1, sy=n1, prec=0, pt=None, **kw):
        for ws, ttp in ((2, False), (3, False), (2, True), (3, True)):
            def fn(ctx, f=f):
                f(enc(ctx, "x", 0, prec, pt), enc(ctx, "y", 1, prec, pt))
                return {"done": True}

            C.append(View(name, fn, pair(sx, sy), ws, ttp=ttp, **kw))

    RSS = {"mpc.protocol": "replicated"}

    def rss(name, f, sy=n1, sx=n1, prec=0, pt=None, corrupt=(0, 1, 2), cfg=RSS, ws=3, ttp=False):
        def fn(ctx):
            f(enc(ctx, "x", 0, prec, pt), enc(ctx, "y", 1, prec, pt))
            return {"done": True}

        C.append(View(name, fn, pair(sx, sy), ws, list(corrupt), ttp=ttp, cfg=cfg))

    def uno(name, f, s=n1, prec=0, pt=None, lo=None, hi=None, both=True, big=False, **kw):
        for ws, ttp in ((2, False), (3, False), (2, True), (3, True)):
            if big and ws == 3:
                continue
            for o in ((0, 1) if both and ws == 2 else (1,) if ttp else (0,)):
                def fn(ctx, f=f, o=o):
                    f(enc(ctx, "x", o, prec, pt))
                    return {"done": True}

                C.append(View(f"{name}/src{o}", fn, {"x": (I(s, lo, hi), o)}, ws, ttp=ttp, **kw))

    A, B = crypten.mpc.arithmetic, crypten.mpc.binary
    two("mul", lambda x, y: x * y)
    two("mul-twice", lambda x, y: (x * y, x * y))
    two("mul-chain", lambda x, y: (x * y) * x)
    two("mul-sum", lambda x, y: (x + y) * (x - y))
    two("mul-square", lambda x, y: (x * y).square())
    two("mul-broadcast", lambda x, y: x * y, (2,), (1,))
    two("mul-fixed", lambda x, y: x * y, prec=16)
    two("mul-fixed-chain", lambda x, y: (x * y) * y, prec=16)
    two("matmul", lambda x, y: x.matmul(y), (2, 2), (2, 1))
    two("matmul-fixed", lambda x, y: x.matmul(y).matmul(y), (1, 1), (1, 1), prec=16)
    two("conv1d", lambda x, y: x.conv1d(y), (1, 1, 3), (1, 1, 2))
    two("conv2d", lambda x, y: x.conv2d(y), (1, 1, 2, 2), (1, 1, 1, 2))
    two("dot", lambda x, y: x.dot(y), (2,), (2,))
    uno("square", lambda x: x.square())
    uno("square-mul", lambda x: x.square() * x)
    uno("square-fixed", lambda x: x.square().square(), prec=16)
    uno("pow3", lambda x: x.pow(3))
    uno("polynomial", lambda x: x.polynomial([1, 2, 3]), prec=16)
    uno("prod", lambda x: x.prod(0), (3,))
    uno("div-public", lambda x: x.div(3), prec=16)
    uno("div-public-mul", lambda x: x.div(3) * x)
    uno("var", lambda x: x.var(), (2,), prec=16)
    uno("linear", lambda x: (x + 1) * 2 - x.sum() + x[0], (2,))
    # binary
    t_ = lambda f: lambda x, y: f(x._tensor, y._tensor)
    two("and", t_(lambda x, y: x & y), pt=B)
    two("and-chain", t_(lambda x, y: (x & y) & x), pt=B)
    two("and-twice", t_(lambda x, y: (x & y, x & y)), pt=B)
    two("xor", t_(lambda x, y: x ^ y), pt=B)
    two("or", t_(lambda x, y: x | y), pt=B)
    two("binary-add", lambda x, y: x._tensor.add(y._tensor), pt=B)
    # conversions and comparisons
    uno("A2B", lambda x: x.to(B))
    uno("B2A", lambda x: x.to(A), pt=B)
    uno("B2A-bit", lambda x: x.to(A, bits=1), pt=B)
    uno("ltz", lambda x: x._ltz())
    uno("ltz-mul", lambda x: x._ltz() * x)
    uno("eqz", lambda x: x == 0)
    two("lt", lambda x, y: x < y)
    two("eq", lambda x, y: x == y)
    uno("relu", lambda x: x.relu())
    uno("abs", lambda x: x.abs(), prec=16)
    two("where", lambda x, y: x.where(x > 0, y))
    uno("max", lambda x: x.max(), (2,), big=not full)
    uno("argmax-dim", lambda x: x.argmax(0), (2,), big=not full)

    r_ = "replicated/"
    rss(r_ + "mul", lambda x, y: x * y)
    rss(r_ + "mul-chain", lambda x, y: (x * y) * x)
    rss(r_ + "mul-twice", lambda x, y: ((x * y) * x, (x * y) * y))
    rss(r_ + "square", lambda x, y: (x + y).square().square())
    rss(r_ + "square-mul", lambda x, y: x.square() * y)
    rss(r_ + "matmul", lambda x, y: x.matmul(y).matmul(y), (2, 2), (1, 2))
    rss(r_ + "conv1d", lambda x, y: x.conv1d(y).square(), (1, 1, 2), (1, 1, 3))
    rss(r_ + "mul-fixed", lambda x, y: (x * y) * x, prec=16)
    rss(r_ + "div-public", lambda x, y: (x * y).div(3) * x)
    rss(r_ + "and", t_(lambda x, y: ((x & y) ^ x) & y), pt=B, corrupt=(1, 2))  # party 0 deals the binary triples
    rss(r_ + "ltz", lambda x, y: (x * y)._ltz() * y, corrupt=(1, 2))
    rss(r_ + "ltz", lambda x, y: (x * y)._ltz() * y, corrupt=(0, 1, 2), ttp=True)
    ACT = {"mpc.active_security": True}
    for ws in (2, 3):
        for ttp in (False, True):
            rss("active-security/matmul", lambda x, y: x.matmul(y), (2, 1), (1, 2), corrupt=range(0 if ttp else 1, ws), cfg=ACT, ws=ws, ttp=ttp)
            rss("active-security/mul", lambda x, y: x * y, corrupt=range(0 if ttp else 1, ws), cfg=ACT, ws=ws, ttp=ttp)

    def dst(name, f, prec=0, pt=None, ws=3, ttp=False):
        def fn(ctx):
            f(ctx, enc(ctx, "x", 0, prec, pt), enc(ctx, "y", 1, prec, pt))
            return {"done": True}

        C.append(View(name, fn, pair(), ws, [p for p in range(0 if ttp else 1, ws) if p != 2], ttp=ttp))

    dst("reveal-to-2", lambda ctx, x, y: (x * y).get_plain_text(dst=2))
    dst("reveal-to-2-binary", lambda ctx, x, y: (x._tensor & y._tensor).get_plain_text(dst=2), pt=B)
    dst("reveal-to-2", lambda ctx, x, y: (x + y).get_plain_text(dst=2), ttp=True)
    return C
