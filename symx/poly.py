"""Normal form of exact-real expressions and formal differentiation.

An expression DAG (nodes.py, real mode) becomes a sum of monomials with rational
coefficients over atoms: variables, truth-value indicators of conditions (idempotent),
inverses of sums, roots, exponentials of monomials (with rational exponents) and other
functions of normal forms.  Two expressions whose normal forms agree are equal for all
values of the variables for which both are defined.
"""
import math
from fractions import Fraction as F

from . import nodes as N

TOL = F(1, 1 << 11)
CAP = 20000


class TooBig(Exception):
    pass


def _near(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


class Space:
    """atoms interned per check"""

    def __init__(self, noties=True):
        self.noties = noties
        self.atoms = []  # (kind, payload)
        self.ids = {}
        self.sums = []  # normalised polynomials used as payloads
        self.memo = {}
        self.bmemo = {}

    # ---------------------------------------------------------- atoms
    def atom(self, kind, payload):
        k = (kind, payload)
        if k not in self.ids:
            self.ids[k] = len(self.atoms)
            self.atoms.append(k)
        return self.ids[k]

    def intern(self, p):
        """index of a polynomial, equal up to coefficient rounding"""
        ks = set(p)
        for i, q in enumerate(self.sums):
            if set(q) == ks and all(_near(p[m], q[m]) for m in ks):
                return i
            # public constants are rounded to 16 fractional bits: a term below that resolution may have vanished
            if all(_near(p.get(m, F(0)), q.get(m, F(0)), F(1, 1 << 14)) for m in ks | set(q)) and all(abs(x) < F(1, 1 << 14) for m, x in list(p.items()) + list(q.items()) if m not in ks or m not in q):
                return i
        self.sums.append(dict(p))
        return len(self.sums) - 1

    # ---------------------------------------------------------- ring
    def const(self, c):
        c = F(c)
        return {(): c} if c else {}

    def var(self, a, e=1):
        return {((a, F(e)),): F(1)}

    def addp(self, p, q, k=F(1)):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def scale(self, p, k):
        return {m: c * k for m, c in p.items()} if k else {}

    def mulm(self, a, b):
        """product of two monomials -> polynomial (roots and indicators reduce)"""
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
        red = []
        for x in list(d):
            e = d[x]
            if e == 0:
                del d[x]
                continue
            kind, pl = self.atoms[x]
            if kind in ("c",):
                d[x] = F(1)
            elif kind == "root":
                s, b_ = pl
                w = e // b_
                if w:
                    d[x] = e - w * b_
                    if d[x] == 0:
                        del d[x]
                    red.append((s, int(w)))
        m = tuple(sorted(d.items()))
        r = {m: F(1)}
        for s, w in red:
            r = self.mul(r, self.power(self.sums[s], w))
        return r

    def mul(self, p, q):
        if len(p) * len(q) > CAP * 4:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                if not m1:
                    t = {m2: F(1)}
                elif not m2:
                    t = {m1: F(1)}
                else:
                    t = self.mulm(m1, m2)
                for m, c in t.items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        if len(r) > CAP:
            raise TooBig()
        return r

    def lead(self, p):
        """leading coefficient by a fixed order of monomials"""
        return p[max(p, key=lambda m: (m != (), m))]

    def power(self, p, k):
        if k < 0:
            return self.power(self.inv(p), -k)
        r = self.const(1)
        for _ in range(k):
            r = self.mul(r, p)
        return r

    def inv(self, p):
        if not p:
            return self.var(self.atom("f", ("inv0",)))
        if len(p) == 1:
            ((m, c),) = p.items()
            if not any(self.atoms[a][0] in ("c", "root") for a, _ in m):
                return {tuple((a, -e) for a, e in m): 1 / c}
            r = self.const(1 / c)
            for a, e in m:
                kind, pl = self.atoms[a]
                if kind == "root":
                    # root^-e: root^(b-e) / base
                    s, b_ = pl
                    w = -((-e) // b_) if e > 0 else 0
                    w = int(math.ceil(e / b_)) if e > 0 else 0
                    r = self.mul(r, self.power(self.inv(self.sums[s]), w))
                    if w * b_ - e:
                        r = self.mul(r, {((a, w * b_ - e),): F(1)})
                elif kind == "c":
                    r = self.mul(r, self.var(self.atom("f", ("invc", a))))
                else:
                    r = self.mul(r, {((a, -e),): F(1)})
            return r
        # a factor common to all terms moves out
        com = None
        for m in p:
            d = {a: e for a, e in m if self.atoms[a][0] not in ("c", "root")}
            com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        com = {a: e for a, e in (com or {}).items() if e}
        if com:
            k = {tuple(sorted((a, -e) for a, e in com.items())): F(1)}
            return self.mul(k, self.inv(self.mul(k, p)))
        l = self.lead(p)
        s = self.intern(self.scale(p, 1 / l))
        return {((self.atom("inv", s), F(1)),): 1 / l}

    def rootp(self, p, a, b):
        """p ** (a/b)"""
        q = F(a, b)
        if q.denominator == 1:
            return self.power(p, int(q))
        if len(p) == 1 and () in p:
            return self.const(F(float(p[()]) ** float(q)))
        l = self.lead(p)
        if l < 0:
            return self.var(self.atom("f", ("pow", self.intern(p), q)))
        s = self.intern(self.scale(p, 1 / l))
        b_ = q.denominator
        base = self.sums[s]
        whole, rest = divmod(q.numerator, b_)
        r = self.scale(self.power(base, whole), F(float(l) ** float(q)))
        return self.mul(r, {((self.atom("root", (s, b_)), F(rest)),): F(1)})

    def approx_int(self, p):
        pass

    def func(self, name, p):
        if name == "recip":
            return self.inv(p)
        if name == "sqrt":
            return self.rootp(p, 1, 2)
        if name == "exp":
            r = self.const(1)
            for m, c in p.items():
                if m == ():
                    r = self.scale(r, F(math.exp(float(c))))
                    continue
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "log":
                    q = c.limit_denominator(12)
                    if _near(q, c, F(1, 1 << 13)):
                        r = self.mul(r, self.rootp(self.sums[self.atoms[m[0][0]][1]], q.numerator, q.denominator))
                        continue
                r = self.mul(r, {((self.atom("exp", m), c),): F(1)})
            return r
        if name == "log":
            if not p:
                return self.var(self.atom("f", ("log0",)))
            l = self.lead(p)
            if len(p) == 1 and len(next(iter(p))) == 1 and l > 0:
                ((m, c),) = p.items()
                (a, e) = m[0]
                if e != 1 or self.atoms[a][0] in ("inv", "root", "exp"):
                    kind, pl = self.atoms[a]
                    if kind == "exp":
                        return self.addp(self.const(F(math.log(float(c)))), {pl: e})
                    if kind == "inv":
                        return self.addp(self.const(F(math.log(float(c)))), self.scale(self.func("log", self.sums[pl]), -e))
                    if kind == "root":
                        return self.addp(self.const(F(math.log(float(c)))), self.scale(self.func("log", self.sums[pl[0]]), e / pl[1]))
                    if e.denominator == 1 and (e < 0 or e % 2):
                        return self.addp(self.const(F(math.log(float(c)))), self.scale(self.func("log", self.var(a)), e))
            if l > 0:
                s = self.intern(self.scale(p, 1 / l))
                return self.addp(self.const(F(math.log(float(l))) if l != 1 else 0), self.var(self.atom("log", s)))
            return self.var(self.atom("log", self.intern(p)))
        return self.var(self.atom("f", (name, self.intern(p))))

    # ---------------------------------------------------------- conditions
    def cond(self, n):
        """indicator polynomial of a boolean node"""
        if n in self.bmemo:
            return self.bmemo[n]
        op, ks = N.OPS[n], N.KIDS[n]
        one = self.const(1)
        if op == "cb":
            r = self.const(1 if N.cval(n) else 0)
        elif op in ("flt", "fle", "feq"):
            r = self.rel(op, self.addp(self.norm(ks[0]), self.norm(ks[1]), F(-1)))
        elif op in ("not", "bnot"):
            r = self.addp(one, self.cond(ks[0]), F(-1))
        elif op in ("conj", "band_b", "andb"):
            r = one
            for k in ks:
                r = self.mul(r, self.cond(k))
        else:
            r = self.var(self.atom("c", ("node", n)))
        self.bmemo[n] = r
        return r

    def rel(self, op, d):
        """indicator of d < 0, d <= 0, d == 0; indicators inside d are split into cases"""
        if not d or set(d) == {()}:
            v = d.get((), F(0))
            return self.const(1 if (v < 0 and op != "feq") or (v == 0 and op != "flt") else 0)
        c = next((a for m in sorted(d) for a, _ in m if self.atoms[a][0] == "c"), None)
        if c is not None:
            t, e = {}, {}
            for m, k in d.items():
                rest = tuple((a, x) for a, x in m if a != c)
                t = self.addp(t, {rest: k})
                if len(rest) == len(m):
                    e = self.addp(e, {rest: k})
            rt, re = self.rel(op, t), self.rel(op, e)
            return self.addp(re, self.mul(self.var(c), self.addp(rt, re, F(-1))))
        iv = self.interval(d)
        if iv is not None:
            lo, hi = iv
            if hi < 0:
                return self.const(0 if op == "feq" else 1)
            if lo > 0:
                return {}
        l = self.lead(d)
        s = self.intern(self.scale(d, 1 / l))
        one = self.const(1)
        if op == "feq":
            return {} if self.noties and self.apart(d) else self.var(self.atom("c", ("eq0", s)))
        lt, gt = ("lt0", "gt0") if l > 0 else ("gt0", "lt0")
        if self.noties and self.apart(d):
            lt0 = self.var(self.atom("c", ("lt0", s)))
            return lt0 if l > 0 else self.addp(one, lt0, F(-1))
        if op == "flt":
            return self.var(self.atom("c", (lt, s)))
        return self.addp(one, self.var(self.atom("c", (gt, s))), F(-1))

    def interval(self, d):
        """bounds of a linear expression from the declared ranges of its variables"""
        lo = hi = F(0)
        for m, c in d.items():
            if m == ():
                lo, hi = lo + c, hi + c
                continue
            if len(m) != 1 or m[0][1] != 1 or self.atoms[m[0][0]][0] != "v":
                return None
            n = self.atoms[m[0][0]][1]
            at = N.ATTRS[n]
            if N.OPS[n] != "fvar" or not isinstance(at[1], tuple) or len(at[1]) != 2:
                return None
            a, b = F(at[1][0]) * c, F(at[1][1]) * c
            lo, hi = lo + min(a, b), hi + max(a, b)
        return lo, hi

    def apart(self, d):
        """non-zero by the scenario's precondition: an input against another input or a constant"""
        if self.noties == "all":
            return True
        vs = [m for m in d if m]
        ok = all(len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "v" and N.OPS[self.atoms[m[0][0]][1]] == "fvar" and not N.ATTRS[self.atoms[m[0][0]][1]][0].startswith("rand:") for m in vs)
        return ok and (len(vs) == 1 or len(vs) == 2 and () not in d and abs(d[vs[0]]) == abs(d[vs[1]]))

    # ---------------------------------------------------------- nodes
    def norm(self, root):
        for n in N.topo([root]):
            if n in self.memo or N.SORTS[n] != "f":
                continue
            op, ks, at = N.OPS[n], N.KIDS[n], N.ATTRS[n]
            if op == "cf":
                if not isinstance(at[0], F):
                    r = self.var(self.atom("f", ("const", at[0])))
                else:
                    r = self.const(at[0])
            elif op == "flin":
                r = self.const(at[0])
                for k, c in zip(ks, at[1]):
                    r = self.addp(r, self.memo[k], c)
            elif op == "fmul":
                r = self.mul(self.memo[ks[0]], self.memo[ks[1]])
            elif op == "fdiv":
                r = self.mul(self.memo[ks[0]], self.inv(self.memo[ks[1]]))
            elif op == "fneg":
                r = self.scale(self.memo[ks[0]], F(-1))
            elif op == "ite":
                c = self.cond(ks[0])
                r = self.addp(self.memo[ks[2]], self.mul(c, self.addp(self.memo[ks[1]], self.memo[ks[2]], F(-1))))
            elif op == "uf" and len(ks) == 1:
                r = self.func(at[0], self.memo[ks[0]])
            else:
                r = self.var(self.atom("v", n))
            self.memo[n] = r
        return self.memo[root]

    def clear(self, p):
        """multiply away the inverse atoms (their bases are non-zero wherever both sides are defined)"""
        for _ in range(8):
            tgt = None
            for m in p:
                for a, e in m:
                    if self.atoms[a][0] == "inv":
                        tgt = a
            if tgt is None:
                return p
            k = max((dict(m).get(tgt, F(0)) for m in p))
            base = self.sums[self.atoms[tgt][1]]
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(tgt, F(0))
                r = self.addp(r, self.scale(self.mul({tuple(sorted(d.items())): F(1)}, self.power(base, int(k - e))), c))
            p = r
        return p

    def small(self, p):
        return {m: c for m, c in p.items() if abs(c) > TOL}

    # ---------------------------------------------------------- obligations
    def equal(self, a, b):
        """a node that is implied valid iff the two real nodes agree (up to rounding of public constants), or None
        when the normal forms do not settle it"""
        pa, pb = self.norm(a), self.norm(b)
        d = {}
        for m in set(pa) | set(pb):
            u, v = pa.get(m, F(0)), pb.get(m, F(0))
            if not _near(u, v):
                d[m] = u - v
        if not d:
            return N.cb(True)
        try:
            q = self.small(self.clear(d)) if any(self.atoms[x][0] == "inv" for m in d for x, _ in m) else d
        except TooBig:
            q = d
        if not q:
            return N.cb(True)
        # coefficients of the unconditional parts, as functions of the conditions
        groups = {}
        for m, c in q.items():
            cs = tuple(a for a, _ in m if self.atoms[a][0] == "c")
            rest = tuple((a, e) for a, e in m if self.atoms[a][0] != "c")
            groups.setdefault(rest, []).append((cs, c))
        goals = []
        for rest, ts in groups.items():
            if len(ts) == 1 and not ts[0][0]:
                return None
            s = N.flincomb([(self._ind(cs), c) for cs, c in ts])
            goals += [N.fle(s, N.cf(TOL * 4)), N.fle(N.cf(-TOL * 4), s)]
        return N.conj(*goals)

    def _ind(self, cs):
        r = []
        for a in cs:
            kind, (how, s) = self.atoms[a]
            if how == "node":
                r.append(s)
                continue
            e = self.back(self.sums[s])
            z = N.cf(F(0))
            r.append(N.flt(e, z) if how == "lt0" else N.flt(z, e) if how == "gt0" else N.feq(e, z))
        return N.ite(N.conj(*r), N.cf(F(1)), N.cf(F(0)))

    def back(self, p):
        """normal form -> node"""
        t = []
        for m, c in p.items():
            x = N.cf(F(1))
            for a, e in m:
                kind, pl = self.atoms[a]
                if kind == "v":
                    y = pl
                elif kind == "c":
                    y = self._ind((a,))
                elif kind == "inv":
                    y = N.fdiv(N.cf(F(1)), self.back(self.sums[pl]))
                elif kind == "root":
                    y = N.uf(f"root{pl[1]}", self.back(self.sums[pl[0]]))
                elif kind == "exp":
                    y = N.uf("exp", N.fmul(N.cf(e), self.back({pl: F(1)})))
                    x = N.fmul(x, y)
                    continue
                elif kind == "log":
                    y = N.uf("log", self.back(self.sums[pl]))
                else:
                    y = N.uf(f"{pl[0]}", self.back(self.sums[pl[1]])) if len(pl) == 2 and isinstance(pl[1], int) else N.fvar(f"opaque{a}")
                k = int(abs(e))
                if abs(e) != k:
                    y = N.uf(f"pow{abs(e)}", y)
                    k = 1
                for _ in range(k):
                    x = N.fmul(x, y) if e > 0 else N.fdiv(x, y)
            t.append((x, c))
        return N.flincomb(t)


# ------------------------------------------------------------------ differentiation
def grad(outs, seeds, wrt):
    """reverse-mode derivative of sum(seed*out) with respect to the nodes `wrt`, as nodes"""
    adj = {}

    def acc(n, g):
        if N.SORTS[n] == "f":
            adj[n] = N.fadd(adj[n], g) if n in adj else g

    for o, s in zip(outs, seeds):
        acc(o, s)
    one = N.cf(F(1))
    for n in reversed(N.topo(list(outs))):
        g = adj.get(n)
        if g is None or n in wrt and N.OPS[n] in ("fvar",):
            continue
        op, ks, at = N.OPS[n], N.KIDS[n], N.ATTRS[n]
        if op in ("cf", "fvar"):
            continue
        if op == "flin":
            for k, c in zip(ks, at[1]):
                acc(k, N.fmul(N.cf(c), g))
        elif op == "fmul":
            acc(ks[0], N.fmul(g, ks[1]))
            acc(ks[1], N.fmul(g, ks[0]))
        elif op == "fneg":
            acc(ks[0], N.fneg(g))
        elif op == "fdiv":
            acc(ks[0], N.fdiv(g, ks[1]))
            acc(ks[1], N.fneg(N.fdiv(N.fmul(g, n), ks[1])))
        elif op == "ite":
            z = N.cf(F(0))
            acc(ks[1], N.ite(ks[0], g, z))
            acc(ks[2], N.ite(ks[0], z, g))
        elif op == "uf" and len(ks) == 1:
            x, f = ks[0], at[0]
            if f == "exp":
                d = n
            elif f == "log":
                d = N.fdiv(one, x)
            elif f == "sqrt":
                d = N.fdiv(N.cf(F(1, 2)), n)
            elif f == "sin":
                d = N.uf("cos", x)
            elif f == "cos":
                d = N.fneg(N.uf("sin", x))
            elif f == "tanh":
                d = N.fsub(one, N.fmul(n, n))
            elif f == "sigmoid":
                d = N.fmul(n, N.fsub(one, n))
            elif f == "erf":
                d = N.fmul(N.cf(F(2 / math.sqrt(math.pi))), N.uf("exp", N.fneg(N.fmul(x, x))))
            else:
                raise N.Unsupported(f"derivative of {f}")
            acc(x, N.fmul(g, d))
        else:
            raise N.Unsupported(f"derivative of node {op}")
    return [adj.get(w, N.cf(F(0))) for w in wrt]


# ------------------------------------------------------------------ numeric evaluation (only to pick replay inputs)
_FN = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tanh": math.tanh, "erf": math.erf,
       "sigmoid": lambda v: 1 / (1 + math.exp(-v)), "recip": lambda v: 1 / v}


def numeric(roots, env):
    """float value of nodes under {variable name: float}; unknown variables are 0.5"""
    val = {}
    for n in N.topo(list(roots)):
        op, ks, at = N.OPS[n], N.KIDS[n], N.ATTRS[n]
        k = [val[x] for x in ks]
        if op == "cf":
            v = N.cfval(n)
        elif op in ("fvar", "var", "bvar"):
            v = env.get(at[0], 0.5)
        elif op == "cb":
            v = N.cval(n)
        elif op == "flin":
            v = float(at[0]) + sum(float(c) * x for c, x in zip(at[1], k))
        elif op == "fmul":
            v = k[0] * k[1]
        elif op == "fdiv":
            v = k[0] / k[1]
        elif op == "fneg":
            v = -k[0]
        elif op == "ite":
            v = k[1] if k[0] else k[2]
        elif op == "uf":
            v = _FN[at[0]](k[0])
        elif op == "flt":
            v = k[0] < k[1]
        elif op == "fle":
            v = k[0] <= k[1]
        elif op == "feq":
            v = k[0] == k[1]
        elif op in ("not", "bnot"):
            v = not k[0]
        elif op in ("conj",):
            v = all(k)
        else:
            raise N.Unsupported(f"numeric {op}")
        val[n] = v
    return [val[r] for r in roots]
