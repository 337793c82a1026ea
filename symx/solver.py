"""SMT back end: translation of the expression DAG to z3 and query accounting."""
import sys
import time
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

from . import nodes as N  # noqa: E402
from .nodes import Unsupported  # noqa: E402


def generalise(roots):
    """Bijective change of variables: a full-range random variable r that occurs with
    coefficient +-1 in a linear argument L = r + rest of a non-linear operation is
    replaced by F - rest for a fresh F.  Since r is unconstrained this preserves
    (un)satisfiability exactly; it lets masked shares become single variables."""
    done = set()
    back = {}
    for _ in range(200):
        tgt = None
        order = N.topo(roots)
        for n in order:
            if N.OPS[n] in ("lin",):
                continue
            for k in N.KIDS[n]:
                if N.OPS[k] == "lin" and N.OPS[n] in ("xor", "and", "or", "shl", "ashr", "lshr", "tdiv", "slt", "mul", "eq", "ite"):
                    c, cs = N.ATTRS[k]
                    for v, co in zip(N.KIDS[k], cs):
                        if N.OPS[v] == "var" and v not in done and N.ATTRS[v][1] is None and co in (1, N.M64):
                            # rest must not depend on v through some non-linear term
                            if v in N.variables([x for x in N.KIDS[k] if x != v]):
                                continue
                            tgt = (k, v, co)
                            break
                if tgt:
                    break
            if tgt:
                break
        if not tgt:
            break
        k, v, co = tgt
        f = N.var(f"F!{len(back)}")
        rest = N.sub(k, N.lincomb(((v, co),)))
        # k = co*v + rest = f  =>  v = co*(f-rest)   (co is +-1)
        expr = N.lincomb(((f, co), (rest, -co)))
        back[v] = expr
        done.add(f)
        roots = N.substitute(roots, {v: expr})
        back = {a: (N.substitute([b], {v: expr})[0] if a != v else b) for a, b in back.items()}
    return roots, back


# ---------------------------------------------------------- polynomial identities
POLY_CAP = 60000


class _TooBig(Exception):
    pass


def poly(root, memo):
    """sum-of-monomials form over the non-arithmetic leaves: {sorted leaf tuple: coefficient}
    (coefficients modulo 2**64 for integers, rational for reals)"""
    for n in N.topo([root]):
        if n in memo:
            continue
        op, at, ks = N.OPS[n], N.ATTRS[n], N.KIDS[n]
        if op == "ci":
            p = {(): at[0]} if at[0] else {}
        elif op == "cf":
            p = {(): at[0]} if at[0] else {}
        elif op == "lin":
            p = {(): at[0]} if at[0] else {}
            for k, c in zip(ks, at[1]):
                for m, v in memo[k].items():
                    p[m] = (p.get(m, 0) + c * v) & N.M64
        elif op in ("fadd", "fsub"):
            p = dict(memo[ks[0]])
            sg = 1 if op == "fadd" else -1
            for m, v in memo[ks[1]].items():
                p[m] = p.get(m, 0) + sg * v
        elif op == "flin":
            p = {(): at[0]} if at[0] else {}
            for k, c in zip(ks, at[1]):
                for m, v in memo[k].items():
                    p[m] = p.get(m, 0) + c * v
        elif op == "fneg":
            p = {m: -v for m, v in memo[ks[0]].items()}
        elif op in ("mul", "fmul"):
            a, b = memo[ks[0]], memo[ks[1]]
            if len(a) * len(b) > POLY_CAP:
                raise _TooBig
            p = {}
            for m1, v1 in a.items():
                for m2, v2 in b.items():
                    m = tuple(sorted(m1 + m2))
                    if len(m) > 12:
                        raise _TooBig
                    p[m] = p.get(m, 0) + v1 * v2
            if op == "mul":
                p = {m: v & N.M64 for m, v in p.items()}
        else:
            p = {(n,): 1}
        memo[n] = {m: v for m, v in p.items() if v}
    return memo[root]


def _pmul(a, b, cap=POLY_CAP):
    if len(a) * len(b) > cap:
        raise _TooBig
    p = {}
    for m1, v1 in a.items():
        for m2, v2 in b.items():
            # atoms are sets: bit atoms are idempotent; word atoms (ints) may repeat
            m = _merge(m1, m2)
            p[m] = (p.get(m, 0) + v1 * v2) & N.M64
    return {m: v for m, v in p.items() if v}


def _merge(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    bits = set(x for x in m1 if type(x) is tuple) | set(x for x in m2 if type(x) is tuple)
    words = sorted([x for x in m1 if type(x) is int] + [x for x in m2 if type(x) is int])
    return tuple(words) + tuple(sorted(bits))


def _padd(a, b, k=1):
    p = dict(a)
    for m, v in b.items():
        w = (p.get(m, 0) + k * v) & N.M64
        if w:
            p[m] = w
        else:
            p.pop(m, None)
    return p


class BitPoly:
    """polynomials over single bits: words that occur under bit operations are expanded into their bits
    (idempotent atoms), xor becomes a + b - 2ab, and becomes ab; everything modulo 2**64"""

    BITOPS = ("xor", "and", "or", "lshr", "shl", "ashr", "cfm")

    def __init__(self, roots):
        self.wm, self.bm = {}, {}
        self.split = set()
        for n in N.topo(roots):
            if N.OPS[n] in self.BITOPS:
                for k in N.KIDS[n]:
                    if N.OPS[k] == "var":
                        self.split.add(k)

    def bit(self, n, i):
        key = (n, i)
        r = self.bm.get(key)
        if r is None:
            r = self.bm[key] = self._bit(n, i)
        return r

    def _bit(self, n, i):
        op, at, ks = N.OPS[n], N.ATTRS[n], N.KIDS[n]
        if op == "ci":
            return {(): 1} if at[0] >> i & 1 else {}
        if not N.known_mask(n) >> i & 1:
            return {}
        if op == "xor":
            p = {(): 1} if at[0] >> i & 1 else {}
            for k in ks:
                q = self.bit(k, i)
                p = _padd(_padd(p, q), _pmul(p, q, 4000), -2)
            return p
        if op == "and":
            p = {(): 1} if at[0] >> i & 1 else {}
            for k in ks:
                p = _pmul(p, self.bit(k, i), 4000)
            return p
        if op == "or":
            a, b = self.bit(ks[0], i), self.bit(ks[1], i)
            return _padd(_padd(a, b), _pmul(a, b, 4000), -1)
        if op == "lshr":
            return self.bit(ks[0], i + at[0]) if i + at[0] < 64 else {}
        if op == "ashr":
            return self.bit(ks[0], min(63, i + at[0]))
        if op == "shl":
            return self.bit(ks[0], i - at[0]) if i >= at[0] else {}
        if op == "cfm":
            p = {}
            for j in range(i + 1):
                if at[0] >> j & 1:
                    q = self.bit(ks[0], i - j)
                    p = _padd(_padd(p, q), _pmul(p, q, 4000), -2)
            return p
        if op == "lin" and len(ks) == 1 and at[0] == 0 and at[1][0] & (at[1][0] - 1) == 0:
            k = at[1][0].bit_length() - 1
            return self.bit(ks[0], i - k) if i >= k else {}
        if op == "ite" and all(N.OPS[k] == "ci" for k in ks[1:]):
            t, e = (N.ATTRS[k][0] >> i & 1 for k in ks[1:])
            return _padd({(("b", ks[0], 0),): t - e} if t != e else {}, {(): e} if e else {})
        return {(("b", n, i),): 1}

    def word(self, root):
        for n in N.topo([root]):
            if n in self.wm or N.SORTS[n] != "i":
                continue
            op, at, ks = N.OPS[n], N.ATTRS[n], N.KIDS[n]
            if op == "ci":
                p = {(): at[0]} if at[0] else {}
            elif op == "lin":
                p = {(): at[0]} if at[0] else {}
                for k, c in zip(ks, at[1]):
                    p = _padd(p, self.word(k), c)
                    if len(p) > POLY_CAP:
                        raise _TooBig
            elif op == "mul":
                p = _pmul(self.word(ks[0]), self.word(ks[1]))
            elif op in self.BITOPS or n in self.split or (op == "var" and N.known_mask(n) < 2**16):
                p = {}
                m = N.known_mask(n)
                for i in range(64):
                    if m >> i & 1:
                        p = _padd(p, self.bit(n, i), 1 << i)
            elif op == "ite" and all(N.OPS[k] == "ci" for k in ks[1:]):
                t, e = (N.ATTRS[k][0] for k in ks[1:])
                p = _padd({(("b", ks[0], 0),): (t - e) & N.M64} if t != e else {}, {(): e} if e else {})
            else:
                p = {(n,): 1}
            self.wm[n] = p
        return self.wm[root]


def poly_identities(roots):
    """rewrite equations that are polynomial identities (over words, then over bits) to true"""
    kinds = {"eq": "i"}
    if N.FMODE == "real":
        kinds["feq"] = "f"
    mapping, memo, bp = {}, {}, None
    for n in N.topo(roots):
        if N.OPS[n] in kinds:
            a, b = N.KIDS[n]
            if N.SORTS[a] != kinds[N.OPS[n]]:
                continue
            try:
                if poly(a, memo) == poly(b, memo):
                    mapping[n] = N.cb(True)
                    continue
            except (_TooBig, TypeError):
                pass
            if N.OPS[n] == "eq" and N.FMODE != "fp":
                try:
                    bp = bp or BitPoly(roots)
                    if not _padd(bp.word(a), bp.word(b), -1):
                        mapping[n] = N.cb(True)
                except (_TooBig, RecursionError):
                    pass
    return N.substitute(roots, mapping) if mapping else roots


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.slowest = []

    def d(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown, solver_s=round(self.time, 3))


STATS = Stats()


class Trans:
    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.dom = []
        self.ufs = {}

    def fp_sort(self, w=32):
        return z3.Float32() if w == 32 else z3.Float64()

    def tr(self, root):
        m = self.memo
        for n in N.topo([root]):
            if n not in m:
                m[n] = self.one(n)
        return m[root]

    def one(self, n):
        op, at, ks = N.OPS[n], N.ATTRS[n], [self.memo[k] for k in N.KIDS[n]]
        B = lambda v: z3.BitVecVal(v, 64)
        if op == "ci":
            return B(at[0])
        if op == "cb":
            return z3.BoolVal(at[0])
        if op == "var":
            name, lo, hi = at
            v = z3.BitVec(name, 64)
            self.vars[n] = v
            if lo is not None:
                self.dom.append(v >= B(lo))
            if hi is not None:
                self.dom.append(v < B(hi))
            return v
        if op == "bvar":
            v = z3.Bool(at[0])
            self.vars[n] = v
            return v
        if op == "lin":
            c, cs = at
            acc = B(c) if c else None
            for k, x in zip(cs, ks):
                if k == 1:
                    t = x
                elif k == N.M64:
                    if acc is None:
                        t = -x
                    else:
                        acc = acc - x
                        continue
                else:
                    t = B(k) * x
                acc = t if acc is None else acc + t
            return acc
        if op == "mul":
            return ks[0] * ks[1]
        if op == "xor":
            acc = ks[0]
            for x in ks[1:]:
                acc = acc ^ x
            return acc ^ B(at[0]) if at[0] else acc
        if op == "and":
            acc = ks[0]
            for x in ks[1:]:
                acc = acc & x
            return acc & B(at[0]) if at[0] != N.M64 else acc
        if op == "or":
            return ks[0] | ks[1]
        if op == "shl":
            return ks[0] << B(at[0])
        if op == "ashr":
            return ks[0] >> B(at[0])
        if op == "lshr":
            return z3.LShR(ks[0], B(at[0]))
        if op == "cfm":
            acc = None
            for j in range(64):
                if at[0] >> j & 1:
                    t = ks[0] << B(j)
                    acc = t if acc is None else acc ^ t
            return acc
        if op == "shlv":
            return z3.If(z3.ULT(ks[1], B(64)), ks[0] << ks[1], B(0))
        if op == "ashrv":
            return ks[0] >> z3.If(z3.ULT(ks[1], B(64)), ks[1], B(63))
        if op == "tdiv":
            return self.tdiv(N.KIDS[n], ks)
        if op == "fdivi":
            a, b = ks
            q = a / b
            r = z3.SRem(a, b)
            return z3.If(z3.And(r != 0, (r < 0) != (b < 0)), q - 1, q)
        if op == "sext":
            return z3.SignExt(64 - at[0], z3.Extract(at[0] - 1, 0, ks[0]))
        if op == "not":
            return z3.Not(ks[0])
        if op == "conj":
            return z3.And(*ks)
        if op == "bxor":
            return z3.Xor(ks[0], ks[1])
        if op == "ite":
            return z3.If(ks[0], ks[1], ks[2])
        if op == "eq":
            return ks[0] == ks[1]
        if op == "slt":
            return ks[0] < ks[1]
        if op == "ult":
            return z3.ULT(ks[0], ks[1])
        return self.flo(n, op, at, ks)

    def tdiv(self, kn, ks):
        a, b = ks
        if N.OPS[kn[1]] == "ci":
            y = N.cval(kn[1])
            if y > 0 and y & (y - 1) == 0:
                k = y.bit_length() - 1
                # (a + ((a >> 63) & (2^k-1))) >> k
                return (a + ((a >> z3.BitVecVal(63, 64)) & z3.BitVecVal(y - 1, 64))) >> z3.BitVecVal(k, 64)
        return a / b

    def flo(self, n, op, at, ks):
        mode = N.FMODE
        if mode == "fp":
            rm = z3.RNE()
            S = self.fp_sort(FP_W[0])
            if op == "cf":
                v = at[0]
                if v == "nan":
                    return z3.fpNaN(S)
                if v == "inf":
                    return z3.fpPlusInfinity(S)
                if v == "-inf":
                    return z3.fpMinusInfinity(S)
                return z3.FPVal(float(v), S)
            if op == "fvar":
                v = z3.FP(at[0], S)
                self.vars[n] = v
                return v
            if op == "fadd":
                return z3.fpAdd(rm, *ks)
            if op == "fsub":
                return z3.fpSub(rm, *ks)
            if op == "fmul":
                return z3.fpMul(rm, *ks)
            if op == "fdiv":
                return z3.fpDiv(rm, *ks)
            if op == "fneg":
                return z3.fpNeg(ks[0])
            if op == "i2f":
                return z3.fpSignedToFP(rm, ks[0], S)
            if op == "f2i":
                return z3.fpToSBV(z3.RTZ(), ks[0], z3.BitVecSort(64))
            if op == "ffloor":
                return z3.fpRoundToIntegral(z3.RTN(), ks[0])
            if op == "ftrunc":
                return z3.fpRoundToIntegral(z3.RTZ(), ks[0])
            if op == "fround":
                return z3.fpRoundToIntegral(z3.RNE(), ks[0])
            if op == "flt":
                return z3.fpLT(*ks)
            if op == "fle":
                return z3.fpLEQ(*ks)
            if op == "feq":
                return z3.fpEQ(*ks)
            raise Unsupported("fp op " + op)
        # reals (also used for leftovers of fx mode)
        if op == "cf":
            if not isinstance(at[0], Fraction):
                raise Unsupported("non-finite constant")
            return z3.RealVal(str(at[0]))
        if op == "fvar":
            v = z3.Real(at[0])
            self.vars[n] = v
            if at[1] == "rand":
                self.dom += [v >= 0, v < 1]
            elif at[1] == "pos":
                self.dom += [v > 0]
            elif isinstance(at[1], tuple):
                self.dom += [v >= z3.RealVal(str(Fraction(at[1][0]))), v <= z3.RealVal(str(Fraction(at[1][1])))]
            return v
        if op == "fx":
            return z3.ToReal(z3.BV2Int(ks[0], True)) / z3.RealVal(2 ** at[0])
        if op == "flin":
            ts = [x if c == 1 else -x if c == -1 else z3.RealVal(str(c)) * x for c, x in zip(at[1], ks)]
            if at[0]:
                ts.append(z3.RealVal(str(at[0])))
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        if op == "fadd":
            return ks[0] + ks[1]
        if op == "fsub":
            return ks[0] - ks[1]
        if op == "fmul":
            return ks[0] * ks[1]
        if op == "fdiv":
            return ks[0] / ks[1]
        if op == "fneg":
            return -ks[0]
        if op == "i2f":
            return z3.ToReal(z3.BV2Int(ks[0], True))
        if op == "flt":
            return ks[0] < ks[1]
        if op == "fle":
            return ks[0] <= ks[1]
        if op == "feq":
            return ks[0] == ks[1]
        if op == "ffloor":
            return z3.ToReal(z3.ToInt(ks[0]))
        if op == "uf":
            f = self.ufs.get((at[0], len(ks)))
            if f is None:
                f = z3.Function(at[0], *([z3.RealSort()] * (len(ks) + 1)))
                self.ufs[(at[0], len(ks))] = f
            return f(*ks)
        raise Unsupported("op " + op)


FP_W = [32]


class Lia(Trans):
    """64-bit integers as mathematical integers: wrap-around sums get an explicit integer quotient.
    Exact for the linear fragment; anything else raises Unsupported (the caller falls back to bit-vectors)."""

    def fresh(self):
        self.k = getattr(self, "k", 0) + 1
        return z3.Int(f"q!{self.k}")

    def wrap(self, e, lo, hi):
        """signed 64-bit representative of e, known to lie in [lo, hi]"""
        H = 2**63
        if -H <= lo and hi < H:
            return e, lo, hi
        q = self.fresh()
        r = e - q * 2**64
        self.dom += [r >= -H, r < H, q >= (lo + H) // 2**64, q <= (hi + H) // 2**64]
        return r, -H, H - 1

    def one(self, n):
        op, at, kn = N.OPS[n], N.ATTRS[n], N.KIDS[n]
        ks = [self.memo[k] for k in kn]
        rg = self.rg = getattr(self, "rg", {})

        def ret(t):
            rg[n] = t[1:]
            return t[0]

        if op == "ci":
            v = N.sgn(at[0])
            return ret((z3.IntVal(v), v, v))
        if op == "cb":
            return z3.BoolVal(at[0])
        if op == "var":
            name, lo, hi = at
            v = z3.Int(name)
            self.vars[n] = v
            lo = -(2**63) if lo is None else lo
            hi = 2**63 if hi is None else hi
            self.dom += [v >= lo, v < hi]
            return ret((v, lo, hi - 1))
        if op == "bvar":
            v = z3.Bool(at[0])
            self.vars[n] = v
            return v
        if op == "lin":
            c = N.sgn(at[0])
            acc, lo, hi = z3.IntVal(c), c, c
            for k, x, m in zip(at[1], ks, kn):
                k = N.sgn(k)
                a, b = rg[m]
                acc = acc + k * x
                lo, hi = lo + min(k * a, k * b), hi + max(k * a, k * b)
            return ret(self.wrap(acc, lo, hi))
        if op == "shl":
            a, b = rg[kn[0]]
            k = 2 ** at[0]
            return ret(self.wrap(ks[0] * k, a * k, b * k))
        if op in ("ashr", "tdiv"):
            a, b = rg[kn[0]]
            if op == "ashr":
                y = 2 ** at[0]
            else:
                if N.OPS[kn[1]] != "ci" or N.sgn(N.ATTRS[kn[1]][0]) <= 0:
                    raise Unsupported("lia tdiv")
                y = N.sgn(N.ATTRS[kn[1]][0])
            q = self.fresh()
            r = ks[0] - q * y
            if op == "ashr":
                self.dom += [r >= 0, r < y]
                return ret((q, a // y, b // y))
            self.dom += [z3.Implies(ks[0] >= 0, z3.And(r >= 0, r < y)), z3.Implies(ks[0] < 0, z3.And(r <= 0, r > -y))]
            t = lambda v: abs(v) // y * (1 if v >= 0 else -1)
            return ret((q, t(a), t(b)))
        if op == "not":
            return z3.Not(ks[0])
        if op == "conj":
            return z3.And(*ks)
        if op == "bxor":
            return z3.Xor(ks[0], ks[1])
        if op == "ite":
            if N.SORTS[n] == "i":
                a, b = rg[kn[1]], rg[kn[2]]
                return ret((z3.If(*ks), min(a[0], b[0]), max(a[1], b[1])))
            return z3.If(*ks)
        if op == "eq" and N.SORTS[kn[0]] == "i":
            return ks[0] == ks[1]
        if op == "slt":
            return ks[0] < ks[1]
        raise Unsupported("lia " + op)


def _val(m, n, v):
    x = m.eval(v, model_completion=True)
    s = N.SORTS[n]
    if s == "i":
        return N.sgn(x.as_long())
    if s == "b":
        return z3.is_true(x)
    if z3.is_fp(x):
        if z3.is_fprm(x):
            return 0.0
        r = z3.simplify(z3.fpToReal(x))
        try:
            f = float(r.as_fraction())
            return f
        except Exception:
            s = str(x)
            if "oo" in s:
                return float("-inf") if s.startswith("-") else float("inf")
            return float("nan")
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    return Fraction(x.numerator_as_long(), x.denominator_as_long())


def names(model_vars):
    """{var node: value} -> {name: value}"""
    return {N.ATTRS[n][0]: v for n, v in model_vars.items()}


def solve(assertions, timeout_ms=60000, tactic=None, extra=None):
    """check satisfiability of the conjunction; returns ('sat', {node: val}) / ('unsat', None) / ('unknown', reason)"""
    orig = assertions
    back = {}
    t0 = time.time()
    if N.FMODE != "fp":
        assertions = poly_identities(list(assertions))
    if N.FMODE == "fx":
        assertions, back = generalise(list(assertions))
    if tactic == "lia":
        tactic = None
        try:
            tr = Lia()
            goal = [tr.tr(a) for a in assertions]
            goal += tr.dom
            s = z3.Solver()
            s.set("timeout", int(timeout_ms))
            s.add(*goal)
            r = s.check()
            if r != z3.unknown:
                return _finish(r, s, tr, back, t0)
        except Unsupported:
            pass
    tr = Trans()
    zs = [tr.tr(a) for a in assertions]
    r, model = None, None
    S = None
    goal = zs + tr.dom + (extra(tr) if extra else [])
    for attempt in (0, 1, 2):
        if attempt == 0:
            som = [z3.simplify(z, som=True, blast_distinct=True) for z in goal] if N.FMODE != "fp" else goal
            if any(z3.is_false(z) for z in som):
                r = z3.unsat
                break
            if all(z3.is_true(z) for z in som):
                s = z3.Solver()
                r = s.check()
                S = s
                break
            continue
        if attempt == 1:
            s = z3.Tactic(tactic).solver() if tactic else (z3.SolverFor("QF_BV") if N.FMODE == "fx" else z3.Solver())
            s.set("timeout", int(timeout_ms))
            s.add(*goal)
            r = s.check()
            S = s
            if r != z3.unknown:
                break
        else:
            s = z3.Solver()
            s.set("timeout", int(timeout_ms // 2))
            s.add(*som)
            r = s.check()
            S = s
    return _finish(r, S, tr, back, t0)


def _finish(r, S, tr, back, t0):
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        m = S.model()
        env = {n: _val(m, n, v) for n, v in tr.vars.items()}
        for v, e in back.items():
            for w in N.variables([e]):
                env.setdefault(w, 0)
        for v, e in back.items():
            env[v] = N.evaluate([e], env)[0]
        return "sat", {n: v for n, v in env.items() if not N.ATTRS[n][0].startswith("F!")}
    STATS.unknown += 1
    return "unknown", S.reason_unknown() if S is not None else "?"


def feasible(pc, n):
    """(can be true, can be false) under the path condition; None = unknown"""
    out = []
    for c in (n, N.bnot(n)):
        r, _ = solve(list(pc) + [c], 20000)
        out.append({"sat": True, "unsat": False}.get(r))
    return tuple(out)
