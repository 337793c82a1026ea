"""Hash-consed expression DAG used by the symbolic executor.

Every scalar that flows through the code under test is a node of this DAG.
Sorts: 'i' 64-bit two's complement integer, 'b' boolean, 'f' floating point.

Constructors only do local, semantics-preserving normalisation (constant
folding, linear normal form modulo 2**64 for +,-,constant *, cancellation in
XOR chains).  Everything else is left to the SMT solver.

Floats are given a meaning by FMODE:
  'fx'   exact dyadic rationals  signed(bv) / 2**k  (no rounding, stated bound)
  'fp'   IEEE-754 binary32/binary64, RNE (z3 FP theory)
  'real' mathematical reals, transcendental functions uninterpreted
"""
import struct
from fractions import Fraction

M64 = (1 << 64) - 1
FMODE = "fx"


def set_fmode(m):
    global FMODE
    FMODE = m


class Unsupported(Exception):
    """The encoder met something it cannot encode: inconclusive, never a verdict."""


OPS, ATTRS, KIDS, SORTS = [], [], [], []
_tab = {}


def mk(op, attrs, kids, sort):
    key = (op, attrs, kids, sort)
    r = _tab.get(key)
    if r is None:
        r = len(OPS)
        OPS.append(op)
        ATTRS.append(attrs)
        KIDS.append(kids)
        SORTS.append(sort)
        _tab[key] = r
    return r


def reset():
    for l in (OPS, ATTRS, KIDS, SORTS):
        l.clear()
    _tab.clear()


def sgn(c):
    c &= M64
    return c - (1 << 64) if c >> 63 else c


# ---------------------------------------------------------------- integers
def ci(v):
    return mk("ci", (int(v) & M64,), (), "i")


def var(name, lo=None, hi=None):
    """Integer variable; lo <= v < hi (signed) if given."""
    return mk("var", (name, lo, hi), (), "i")


def bvar(name):
    return mk("bvar", (name,), (), "b")


def is_const(n):
    return OPS[n] in ("ci", "cb", "cf")


def cval(n):
    """Python value of a constant node (ints signed)."""
    op = OPS[n]
    if op == "ci":
        return sgn(ATTRS[n][0])
    if op == "cb":
        return ATTRS[n][0]
    if op == "cf":
        return ATTRS[n][0]
    raise KeyError(n)


def _lin_parts(n):
    op = OPS[n]
    if op == "ci":
        return ATTRS[n][0], ()
    if op == "lin":
        c, cs = ATTRS[n]
        return c, tuple(zip(KIDS[n], cs))
    return 0, ((n, 1),)


def _mk_lin(c, d):
    c &= M64
    items = [(k, v & M64) for k, v in d.items() if v & M64]
    if not items:
        return ci(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort()
    return mk("lin", (c, tuple(v for _, v in items)), tuple(k for k, _ in items), "i")


def lincomb(pairs, c=0):
    d = {}
    for n, k in pairs:
        if k == 0:
            continue
        c0, t = _lin_parts(n)
        c += c0 * k
        for a, v in t:
            d[a] = d.get(a, 0) + v * k
    return _mk_lin(c, d)


def add(a, b):
    return lincomb(((a, 1), (b, 1)))


def sub(a, b):
    return lincomb(((a, 1), (b, -1)))


def neg(a):
    return lincomb(((a, -1),))


def known_mask(n):
    """mask of the bits that can be non-zero (syntactic)"""
    op = OPS[n]
    if op == "ci":
        return ATTRS[n][0]
    if op == "and":
        return ATTRS[n][0]
    if op == "lshr":
        return M64 >> ATTRS[n][0]
    if op == "cfm":
        m = 0
        k = known_mask(KIDS[n][0])
        for j in range(64):
            if ATTRS[n][0] >> j & 1:
                m |= k << j
        return m & M64
    if op == "shl":
        return (known_mask(KIDS[n][0]) << ATTRS[n][0]) & M64
    if op == "lin" and ATTRS[n][0] == 0 and len(KIDS[n]) == 1:
        c = ATTRS[n][1][0]
        if c & (c - 1) == 0:
            return (known_mask(KIDS[n][0]) * c) & M64
        return (M64 * (c & -c)) & M64
    if op == "xor":
        m = ATTRS[n][0]
        for k in KIDS[n]:
            m |= known_mask(k)
        return m
    if op == "var":
        lo, hi = ATTRS[n][1], ATTRS[n][2]
        if lo is not None and lo >= 0 and hi is not None and hi > 0:
            return (1 << (hi - 1).bit_length()) - 1
    if op == "ite":
        return known_mask(KIDS[n][1]) | known_mask(KIDS[n][2])
    return M64


def _carry_free(a, c):
    """a * c as an XOR of shifts when no two partial products overlap (so no carries)"""
    if OPS[a] not in ("and", "xor") or c == 0 or bin(c).count("1") > 33 or c & (c - 1) == 0:
        return None
    m = known_mask(a)
    if m == M64:
        return None
    acc = 0
    js = [j for j in range(64) if c >> j & 1]
    for j in js:
        p = (m << j) & M64
        if acc & p:
            return None
        acc |= p
    return cfm(a, c)


def cfm(a, c):
    """carry-less product with a constant (GF(2)-linear): XOR of shifts"""
    op = OPS[a]
    if op == "ci":
        r = 0
        for j in range(64):
            if c >> j & 1:
                r ^= ATTRS[a][0] << j
        return ci(r)
    if op == "xor":
        return xor(*[cfm(k, c) for k in KIDS[a]], cfm(ci(ATTRS[a][0]), c))
    return mk("cfm", (c,), (a,), "i")


def mul(a, b):
    if OPS[b] == "ci":
        a, b = b, a
    if OPS[a] == "ci":
        if OPS[b] in ("and", "xor", "lshr", "cfm"):
            c = ATTRS[a][0]
            r = _carry_free(b, c)
            if r is not None:
                return r
            if c and c & (c - 1) == 0:
                return shl(b, ci(c.bit_length() - 1))
        return lincomb(((b, ATTRS[a][0]),))
    for x, y in ((a, b), (b, a)):
        if OPS[x] == "ite":
            c, t, e = KIDS[x]
            if OPS[t] == "ci" and OPS[e] == "ci":
                return ite(c, mul(t, y), mul(e, y))
    # pull a common constant factor out of single-term linear nodes
    k = 1
    out = []
    for x in (a, b):
        if OPS[x] == "lin" and len(KIDS[x]) == 1 and ATTRS[x][0] == 0:
            k *= ATTRS[x][1][0]
            x = KIDS[x][0]
        out.append(x)
    a, b = sorted(out)
    m = mk("mul", (), (a, b), "i")
    return lincomb(((m, k),)) if k != 1 else m


def xor(*xs):
    c = 0
    s = {}
    for x in xs:
        op = OPS[x]
        if op == "ci":
            c ^= ATTRS[x][0]
        elif op == "xor":
            c ^= ATTRS[x][0]
            for k in KIDS[x]:
                if k in s:
                    del s[k]
                else:
                    s[k] = 1
        else:
            if x in s:
                del s[x]
            else:
                s[x] = 1
    if not s:
        return ci(c)
    ks = tuple(sorted(s))
    if c == 0 and len(ks) == 1:
        return ks[0]
    return mk("xor", (c,), ks, "i")


def bnot_i(a):
    return xor(a, ci(M64))


def _is_mask(n):
    if OPS[n] == "and" and len(KIDS[n]) == 1:
        n = KIDS[n][0]
    return OPS[n] == "var" and ATTRS[n][0].startswith("r:")


def band(*xs):
    c = M64
    s = set()
    for x in xs:
        op = OPS[x]
        if op == "ci":
            c &= ATTRS[x][0]
        elif op == "and":
            c &= ATTRS[x][0]
            s.update(KIDS[x])
        else:
            s.add(x)
    if c == 0:
        return ci(0)
    if not s:
        return ci(c)
    ks = tuple(sorted(s))
    if len(ks) == 1:
        k = ks[0]
        if c == M64:
            return k
        if OPS[k] == "xor":  # masks distribute over XOR
            return xor(ci(ATTRS[k][0] & c), *[band(ci(c), q) for q in KIDS[k]])
        if OPS[k] == "ashr" and c >> (64 - ATTRS[k][0]) == 0:
            return band(ci(c), lshr(KIDS[k][0], ATTRS[k][0]))
        km = known_mask(k)
        if km & c == 0:
            return ci(0)
        if km & ~c == 0:
            return k
    else:
        # split the random masks off the XOR operands, so that they cancel when shares are combined:
        # (rest ^ r) & k  =  (rest & k) ^ (r & k)      [rest stays one operand]
        for k in ks:
            if OPS[k] == "xor":
                ms = [q for q in KIDS[k] if _is_mask(q)]
                if ms and len(ms) <= 6:
                    others = [q for q in ks if q != k]
                    t = [band(ci(c), q, *others) for q in ms]
                    rest = xor(ci(ATTRS[k][0]), *[q for q in KIDS[k] if not _is_mask(q)])
                    t.append(band(ci(c), rest, *others))
                    return xor(*t)
    return mk("and", (c,), ks, "i")


def bor(a, b):
    if OPS[a] == "ci" and OPS[b] == "ci":
        return ci(ATTRS[a][0] | ATTRS[b][0])
    for x, y in ((a, b), (b, a)):
        if OPS[x] == "ci":
            if ATTRS[x][0] == 0:
                return y
            if ATTRS[x][0] == M64:
                return x
    if a == b:
        return a
    return mk("or", (), tuple(sorted((a, b))), "i")


def shl(a, k):
    """k: node"""
    if OPS[k] == "ci":
        kk = sgn(ATTRS[k][0])
        if kk < 0 or kk >= 64:
            return ci(0)
        if kk == 0:
            return a
        op = OPS[a]
        if op == "xor":
            return xor(ci(ATTRS[a][0] << kk), *[shl(q, k) for q in KIDS[a]])
        if op == "and" and len(KIDS[a]) == 1:
            return band(ci((ATTRS[a][0] << kk) & M64), shl_raw(KIDS[a][0], kk))
        return shl_raw(a, kk)
    return mk("shlv", (), (a, k), "i")


def shl_raw(a, kk):
    if OPS[a] == "ci":
        return ci(ATTRS[a][0] << kk)
    if OPS[a] == "shl":
        return shl_raw(KIDS[a][0], kk + ATTRS[a][0])
    if kk >= 64:
        return ci(0)
    if OPS[a] not in ("and", "lshr", "or", "ite", "ashr", "cfm"):
        return lincomb(((a, 1 << kk),))
    return mk("shl", (kk,), (a,), "i")


def lshr(a, kk):
    """logical shift right by a constant; distributes over XOR"""
    if kk == 0:
        return a
    op = OPS[a]
    if op == "ci":
        return ci(ATTRS[a][0] >> kk)
    if op == "xor":
        return xor(ci(ATTRS[a][0] >> kk), *[lshr(q, kk) for q in KIDS[a]])
    if op == "and" and len(KIDS[a]) == 1:
        return band(ci(ATTRS[a][0] >> kk), lshr(KIDS[a][0], kk))
    if op == "lshr":
        return lshr(KIDS[a][0], kk + ATTRS[a][0]) if kk + ATTRS[a][0] < 64 else ci(0)
    return mk("lshr", (kk,), (a,), "i")


def ashr(a, k):
    if OPS[k] == "ci":
        kk = sgn(ATTRS[k][0])
        if kk < 0 or kk >= 64:
            kk = 63
        if kk == 0:
            return a
        if OPS[a] == "ci":
            return ci(sgn(ATTRS[a][0]) >> kk)
        if OPS[a] == "xor":
            return xor(ci(sgn(ATTRS[a][0]) >> kk), *[ashr(q, k) for q in KIDS[a]])
        if OPS[a] == "and" and len(KIDS[a]) == 1:
            return band(ci(sgn(ATTRS[a][0]) >> kk), ashr(KIDS[a][0], k))
        if OPS[a] == "ashr":
            return ashr(KIDS[a][0], ci(min(63, kk + ATTRS[a][0])))
        if OPS[a] == "lshr":
            return lshr(a, kk)
        return mk("ashr", (kk,), (a,), "i")
    return mk("ashrv", (), (a, k), "i")


def tdiv(a, b):
    """C-style truncating division."""
    if OPS[b] == "ci":
        y = sgn(ATTRS[b][0])
        if y == 1:
            return a
        if OPS[a] == "ci" and y != 0:
            x = sgn(ATTRS[a][0])
            q = abs(x) // abs(y)
            return ci(q if (x < 0) == (y < 0) else -q)
    return mk("tdiv", (), (a, b), "i")


def fdiv_i(a, b):
    """floor division"""
    if OPS[b] == "ci":
        y = sgn(ATTRS[b][0])
        if y == 1:
            return a
        if OPS[a] == "ci" and y != 0:
            return ci(sgn(ATTRS[a][0]) // y)
        if y > 0 and y & (y - 1) == 0:
            return ashr(a, ci(y.bit_length() - 1))
    return mk("fdivi", (), (a, b), "i")


def fmod_i(a, b):
    """torch.remainder: sign of divisor"""
    if OPS[b] == "ci":
        y = sgn(ATTRS[b][0])
        if OPS[a] == "ci" and y != 0:
            return ci(sgn(ATTRS[a][0]) % y)
        if y > 0 and y & (y - 1) == 0:
            return band(a, ci(y - 1))
    return sub(a, mul(fdiv_i(a, b), b))


def tmod_i(a, b):
    return sub(a, mul(tdiv(a, b), b))


# ---------------------------------------------------------------- booleans
def cb(v):
    return mk("cb", (bool(v),), (), "b")


TRUE = lambda: cb(True)
FALSE = lambda: cb(False)


def bnot(a):
    if OPS[a] == "cb":
        return cb(not ATTRS[a][0])
    if OPS[a] == "not":
        return KIDS[a][0]
    return mk("not", (), (a,), "b")


def conj(*xs):
    s = set()
    for x in xs:
        if OPS[x] == "cb":
            if not ATTRS[x][0]:
                return x
        elif OPS[x] == "conj":
            s.update(KIDS[x])
        else:
            s.add(x)
    if not s:
        return cb(True)
    for x in s:
        if OPS[x] == "not" and KIDS[x][0] in s:
            return cb(False)
    ks = tuple(sorted(s))
    return ks[0] if len(ks) == 1 else mk("conj", (), ks, "b")


def disj(*xs):
    return bnot(conj(*[bnot(x) for x in xs]))


def implies(a, b):
    return disj(bnot(a), b)


def bxor(a, b):
    if OPS[a] == "cb":
        return bnot(b) if ATTRS[a][0] else b
    if OPS[b] == "cb":
        return bnot(a) if ATTRS[b][0] else a
    if a == b:
        return cb(False)
    return mk("bxor", (), tuple(sorted((a, b))), "b")


def iff(a, b):
    return bnot(bxor(a, b))


def ite(c, a, b):
    if OPS[c] == "cb":
        return a if ATTRS[c][0] else b
    if a == b:
        return a
    s = SORTS[a]
    assert s == SORTS[b], (s, SORTS[b])
    if OPS[c] == "not":
        return ite(KIDS[c][0], b, a)
    if s == "i" and OPS[a] == "ci" and OPS[b] == "ci" and {ATTRS[a][0], ATTRS[b][0]} == {0, 1}:
        sb = _signbit_test(c)
        if sb is not None:
            r = lshr(sb, 63)
            return r if ATTRS[a][0] == 1 else xor(r, ci(1))
    if s == "b":
        return disj(conj(c, a), conj(bnot(c), b))
    if s == "f" and FMODE == "fx":
        fa, fb = as_fx(a), as_fx(b)
        if fa is not None and fb is not None:
            k = max(fa[1], fb[1])
            return fx(ite(c, shl(fa[0], ci(k - fa[1])), shl(fb[0], ci(k - fb[1]))), k)
    if s == "f" and FMODE == "real":
        if OPS[a] == "ite" and KIDS[a][0] == c:
            return ite(c, KIDS[a][1], b)
        if OPS[b] == "ite" and KIDS[b][0] == c:
            return ite(c, a, KIDS[b][2])
        if OPS[a] == "ite" and KIDS[a][2] == b:
            return ite(conj(c, KIDS[a][0]), KIDS[a][1], b)
        if OPS[a] == "ite" and KIDS[a][1] == b:
            return ite(conj(c, bnot(KIDS[a][0])), KIDS[a][2], b)
        if OPS[b] == "ite" and KIDS[b][1] == a:
            return ite(disj(c, KIDS[b][0]), a, KIDS[b][2])
        if OPS[b] == "ite" and KIDS[b][2] == a:
            return ite(disj(c, bnot(KIDS[b][0])), a, KIDS[b][1])
    return mk("ite", (), (c, a, b), s)


def _signbit_test(c):
    """x if c is the test `(x >>arith 63) == -1`"""
    if OPS[c] == "eq":
        p, q = KIDS[c]
        for u, v in ((p, q), (q, p)):
            if OPS[u] == "ci" and ATTRS[u][0] == M64 and OPS[v] == "ashr" and ATTRS[v][0] == 63:
                return KIDS[v][0]
    return None


def _ite_cmp(a, b, f):
    """comparison of ite(c,k1,k2) with a constant"""
    if OPS[a] == "ite" and OPS[b] == "ci":
        c, t, e = KIDS[a]
        if OPS[t] == "ci" and OPS[e] == "ci":
            return ite(c, f(t, b), f(e, b))
    if OPS[b] == "ite" and OPS[a] == "ci":
        c, t, e = KIDS[b]
        if OPS[t] == "ci" and OPS[e] == "ci":
            return ite(c, f(a, t), f(a, e))
    return None


def eq(a, b):
    if a == b:
        return cb(True)
    if OPS[a] == "ci" and OPS[b] == "ci":
        return cb(ATTRS[a][0] == ATTRS[b][0])
    if SORTS[a] == "b":
        return iff(a, b)
    if SORTS[a] == "f":
        return feq(a, b)
    r = _ite_cmp(a, b, eq)
    if r is not None:
        return r
    # both linear: subtract out common part
    if OPS[a] == "lin" or OPS[b] == "lin":
        d = sub(a, b)
        if OPS[d] == "ci":
            return cb(ATTRS[d][0] == 0)
    return mk("eq", (), tuple(sorted((a, b))), "b")


def slt(a, b):
    if a == b:
        return cb(False)
    if OPS[a] == "ci" and OPS[b] == "ci":
        return cb(sgn(ATTRS[a][0]) < sgn(ATTRS[b][0]))
    r = _ite_cmp(a, b, slt)
    if r is not None:
        return r
    return mk("slt", (), (a, b), "b")


def sle(a, b):
    return bnot(slt(b, a))


def ult(a, b):
    if OPS[a] == "ci" and OPS[b] == "ci":
        return cb(ATTRS[a][0] < ATTRS[b][0])
    return mk("ult", (), (a, b), "b")


def b2i(a):
    return ite(a, ci(1), ci(0))


def i2b(a):
    return bnot(eq(a, ci(0)))


def sext(a, bits):
    """value of the low `bits` bits, sign-extended"""
    if OPS[a] == "ci":
        v = ATTRS[a][0] & ((1 << bits) - 1)
        if v >> (bits - 1):
            v -= 1 << bits
        return ci(v)
    return mk("sext", (bits,), (a,), "i")


# ---------------------------------------------------------------- floats
def cf(v, w=32):
    """float constant (exact python float / Fraction in real mode)"""
    if isinstance(v, Fraction):
        return mk("cf", (v,), (), "f")
    v = float(v)
    if v != v:
        return mk("cf", ("nan",), (), "f")
    if v in (float("inf"), float("-inf")):
        return mk("cf", ("inf" if v > 0 else "-inf",), (), "f")
    return mk("cf", (Fraction(v),), (), "f")


def fvar(name, attrs=None):
    return mk("fvar", (name, attrs), (), "f")


def cfval(n):
    v = ATTRS[n][0]
    if v == "nan":
        return float("nan")
    if v == "inf":
        return float("inf")
    if v == "-inf":
        return float("-inf")
    return float(v)


def is_fin(n):
    return OPS[n] == "cf" and isinstance(ATTRS[n][0], Fraction)


def fx(bv, k):
    """signed(bv)/2**k"""
    if OPS[bv] == "ci":
        return mk("cf", (Fraction(sgn(ATTRS[bv][0]), 1) / (1 << k) if k >= 0 else Fraction(sgn(ATTRS[bv][0]) << -k),), (), "f")
    if k < 0:
        bv = shl(bv, ci(-k))
        k = 0
    return mk("fx", (k,), (bv,), "f")


def as_fx(n):
    op = OPS[n]
    if op == "fx":
        return KIDS[n][0], ATTRS[n][0]
    if is_fin(n):
        v = ATTRS[n][0]
        d = v.denominator
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            if abs(v.numerator) < (1 << 63):
                return ci(v.numerator), k
    return None


def _fbin(op, a, b, cf_fn, fx_fn):
    if is_fin(a) and is_fin(b) and FMODE != "fp":
        r = cf_fn(ATTRS[a][0], ATTRS[b][0])
        if r is not None:
            return mk("cf", (r,), (), "f")
    if FMODE == "fx" and fx_fn is not None:
        x, y = as_fx(a), as_fx(b)
        if x is not None and y is not None:
            r = fx_fn(x, y)
            if r is not None:
                return r
    return mk(op, (), (a, b), "f")


def _align(x, y):
    k = max(x[1], y[1])
    return shl(x[0], ci(k - x[1])), shl(y[0], ci(k - y[1])), k


def _flin_parts(n):
    if OPS[n] == "cf":
        return ATTRS[n][0], ()
    if OPS[n] == "flin":
        return ATTRS[n][0], tuple(zip(KIDS[n], ATTRS[n][1]))
    return 0, ((n, 1),)


def flincomb(pairs, c=0):
    """normalised rational linear combination of real-valued nodes (real mode)"""
    d = {}
    c = Fraction(c)
    for n, k in pairs:
        c0, ps = _flin_parts(n)
        c += k * c0
        for m, q in ps:
            d[m] = d.get(m, 0) + k * q
    d = {m: k for m, k in d.items() if k}
    # case distinctions on the same condition are merged
    by = {}
    for m in d:
        if OPS[m] == "ite":
            by.setdefault(KIDS[m][0], []).append(m)
    more = [(cond, ms) for cond, ms in by.items() if len(ms) > 1]
    if more:
        rest = [(m, k) for m, k in d.items()]
        for cond, ms in more:
            rest = [(m, k) for m, k in rest if m not in ms]
            rest.append((ite(cond, flincomb([(KIDS[m][1], d[m]) for m in ms]), flincomb([(KIDS[m][2], d[m]) for m in ms])), 1))
        return flincomb(rest, c)
    if not d:
        return mk("cf", (c,), (), "f")
    ks = tuple(sorted(d))
    if c == 0 and len(ks) == 1 and d[ks[0]] == 1:
        return ks[0]
    return mk("flin", (c, tuple(Fraction(d[k]) for k in ks)), ks, "f")


def _fin_or_sym(a):
    return OPS[a] != "cf" or is_fin(a)


def _const_cases(n):
    """n is a linear combination of case distinctions between constants"""
    return OPS[n] == "flin" and len(KIDS[n]) <= 24 and all(OPS[k] == "ite" and OPS[KIDS[k][1]] == "cf" and OPS[KIDS[k][2]] == "cf" for k in KIDS[n])


def fadd(a, b):
    if FMODE == "real" and _fin_or_sym(a) and _fin_or_sym(b):
        return flincomb(((a, 1), (b, 1)))
    if FMODE != "fp":
        if is_fin(a) and ATTRS[a][0] == 0:
            return b
        if is_fin(b) and ATTRS[b][0] == 0:
            return a

    def f(x, y):
        p, q, k = _align(x, y)
        return fx(add(p, q), k)

    return _fbin("fadd", a, b, lambda u, v: u + v, f)


def fneg(a):
    if is_fin(a):
        return mk("cf", (-ATTRS[a][0],), (), "f") if ATTRS[a][0] != 0 or FMODE != "fp" else mk("fneg", (), (a,), "f")
    if FMODE == "fx" and OPS[a] == "fx":
        return fx(neg(KIDS[a][0]), ATTRS[a][0])
    if FMODE == "real" and _fin_or_sym(a):
        return flincomb(((a, -1),))
    return mk("fneg", (), (a,), "f")


def fsub(a, b):
    if FMODE == "fp":
        return mk("fsub", (), (a, b), "f")
    if a == b:
        return cf(0.0)
    return fadd(a, fneg(b))


def fmul(a, b):
    if FMODE != "fp":
        for x, y in ((a, b), (b, a)):
            if is_fin(x):
                if ATTRS[x][0] == 1:
                    return y
                if ATTRS[x][0] == 0:
                    return x
    if FMODE == "real":
        for x, y in ((a, b), (b, a)):
            if is_fin(x) and OPS[y] != "cf":
                return flincomb(((y, ATTRS[x][0]),))
        # case distinctions between constants stay linear; scalar factors move out
        for x, y in ((a, b), (b, a)):
            if OPS[x] == "flin" and ATTRS[x][0] == 0 and len(KIDS[x]) == 1:
                return flincomb(((fmul(KIDS[x][0], y), ATTRS[x][1][0]),))
        for x, y in ((a, b), (b, a)):
            if _const_cases(x):
                return flincomb([(fmul(k, y), q) for k, q in zip(KIDS[x], ATTRS[x][1])] + [(y, ATTRS[x][0])])
            if OPS[x] == "ite" and OPS[KIDS[x][1]] == "cf" and OPS[KIDS[x][2]] == "cf":
                c, t, e = KIDS[x]
                return ite(c, fmul(t, y), fmul(e, y))
    return _fbin("fmul", a, b, lambda u, v: u * v, lambda x, y: fx(mul(x[0], y[0]), x[1] + y[1]))


def fdiv(a, b):
    if is_fin(b) and FMODE != "fp":
        v = ATTRS[b][0]
        if v != 0:
            if FMODE == "real":
                return fmul(a, mk("cf", (1 / v,), (), "f"))
            n = v.numerator
            if v > 0 and n & (n - 1) == 0:
                return fmul(a, mk("cf", (1 / v,), (), "f"))
    if FMODE == "real" and _fin_or_sym(a) and _fin_or_sym(b):
        # scalar factors move out
        f, x, y = Fraction(1), a, b
        if OPS[x] == "flin" and ATTRS[x][0] == 0 and len(KIDS[x]) == 1:
            f, x = ATTRS[x][1][0], KIDS[x][0]
        elif OPS[x] == "cf" and ATTRS[x][0] not in (0, 1):
            f, x = ATTRS[x][0], mk("cf", (Fraction(1),), (), "f")
        if OPS[y] == "flin" and ATTRS[y][0] == 0 and len(KIDS[y]) == 1:
            f, y = f / ATTRS[y][1][0], KIDS[y][0]
        r = mk("fdiv", (), (x, y), "f")
        return flincomb(((r, f),))
    return mk("fdiv", (), (a, b), "f")


def i2f(a, w=32):
    if OPS[a] == "ci":
        if FMODE == "fp":
            v = sgn(ATTRS[a][0])
            return cf(struct.unpack("f", struct.pack("f", v))[0] if w == 32 else float(v))
        return mk("cf", (Fraction(sgn(ATTRS[a][0])),), (), "f")
    if FMODE == "fx":
        return fx(a, 0)
    if OPS[a] == "ite":
        c, t, e = KIDS[a]
        if OPS[t] == "ci" and OPS[e] == "ci":
            return ite(c, i2f(t, w), i2f(e, w))
    return mk("i2f", (w,), (a,), "f")


def b2f(a):
    return ite(a, cf(1.0), cf(0.0))


def f2i(a):
    """trunc toward zero"""
    if is_fin(a):
        v = ATTRS[a][0]
        return ci(int(v))
    x = as_fx(a)
    if x is not None and FMODE == "fx":
        return tdiv(x[0], ci(1 << x[1])) if x[1] < 63 else mk("tdiv", (), (x[0], ci(1 << x[1])), "i")
    if OPS[a] == "ite":
        c, t, e = KIDS[a]
        return ite(c, f2i(t), f2i(e))
    return mk("f2i", (), (a,), "i")


def ffloor(a):
    if is_fin(a):
        return cf(ATTRS[a][0].__floor__())
    x = as_fx(a)
    if x is not None and FMODE == "fx":
        return fx(ashr(x[0], ci(x[1])), 0) if x[1] else a
    return mk("ffloor", (), (a,), "f")


def ftrunc(a):
    if is_fin(a):
        return cf(int(ATTRS[a][0]))
    x = as_fx(a)
    if x is not None and FMODE == "fx":
        return fx(tdiv(x[0], ci(1 << x[1])), 0)
    return mk("ftrunc", (), (a,), "f")


def fround(a):
    """round half to even"""
    if is_fin(a):
        return cf(round(ATTRS[a][0]))
    x = as_fx(a)
    if x is not None and FMODE == "fx":
        b, k = x
        if k == 0:
            return a
        fl = ashr(b, ci(k))
        r = band(b, ci((1 << k) - 1))
        half = ci(1 << (k - 1))
        up = disj(slt(half, r), conj(eq(r, half), eq(band(fl, ci(1)), ci(1))))
        return fx(ite(up, add(fl, ci(1)), fl), 0)
    return mk("fround", (), (a,), "f")


def _fcanon(a, b):
    """(p, q) with p - q a positive multiple of a - b (sign = +1) or of b - a (sign = -1), q constant"""
    d = flincomb(((a, 1), (b, -1)))
    if OPS[d] == "cf":
        return d, None, 1
    c, ps = _flin_parts(d)
    k = ps[0][1]
    return flincomb([(n, Fraction(q) / k) for n, q in ps]), mk("cf", (Fraction(-c) / k,), (), "f"), 1 if k > 0 else -1


def flt(a, b):
    if is_fin(a) and is_fin(b):
        return cb(ATTRS[a][0] < ATTRS[b][0])
    if a == b:
        return cb(False)
    if FMODE == "fx":
        x, y = as_fx(a), as_fx(b)
        if x is not None and y is not None:
            p, q, _ = _align(x, y)
            return slt(p, q)
    if FMODE == "real" and _fin_or_sym(a) and _fin_or_sym(b):
        p, q, sg = _fcanon(a, b)
        if q is None:
            return cb(ATTRS[p][0] < 0)
        a, b = (p, q) if sg > 0 else (q, p)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if OPS[x] == "ite" and OPS[y] == "cf":
            c, t, e = KIDS[x]
            if OPS[t] == "cf" and OPS[e] == "cf":
                return ite(c, flt(y, t), flt(y, e)) if sw else ite(c, flt(t, y), flt(e, y))
    return mk("flt", (), (a, b), "b")


def fle(a, b):
    if FMODE == "fp":
        if is_fin(a) and is_fin(b):
            return cb(ATTRS[a][0] <= ATTRS[b][0])
        return mk("fle", (), (a, b), "b")
    return bnot(flt(b, a))


def feq(a, b):
    if is_fin(a) and is_fin(b):
        return cb(ATTRS[a][0] == ATTRS[b][0])
    if a == b and FMODE != "fp":
        return cb(True)
    if FMODE == "fx":
        x, y = as_fx(a), as_fx(b)
        if x is not None and y is not None:
            p, q, _ = _align(x, y)
            return eq(p, q)
    if FMODE == "real" and _fin_or_sym(a) and _fin_or_sym(b):
        a, b, _ = _fcanon(a, b)
        if b is None:
            return cb(ATTRS[a][0] == 0)
    for x, y in ((a, b), (b, a)):
        if OPS[x] == "ite" and OPS[y] == "cf":
            c, t, e = KIDS[x]
            if OPS[t] == "cf" and OPS[e] == "cf":
                return ite(c, feq(t, y), feq(e, y))
    return mk("feq", (), tuple(sorted((a, b))), "b")


def uf(name, *args):
    """uninterpreted real function"""
    return mk("uf", (name,), tuple(args), "f")


# ---------------------------------------------------------------- traversal
def topo(roots):
    """nodes reachable from roots, children first (iterative)"""
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        st = [(r, 0)]
        seen.add(r)
        while st:
            n, i = st.pop()
            ks = KIDS[n]
            while i < len(ks) and ks[i] in seen:
                i += 1
            if i < len(ks):
                st.append((n, i + 1))
                seen.add(ks[i])
                st.append((ks[i], 0))
            else:
                out.append(n)
    return out


def variables(roots):
    return [n for n in topo(roots) if OPS[n] in ("var", "fvar", "bvar")]


_BUILD = {}


def rebuild(op, attrs, kids, sort):
    """re-normalising constructor: build `op` over (possibly new) kids"""
    if op in ("ci", "cb", "cf", "var", "fvar", "bvar"):
        return mk(op, attrs, kids, sort)
    if op == "lin":
        return lincomb(list(zip(kids, attrs[1])), attrs[0])
    if op == "mul":
        return mul(*kids)
    if op == "xor":
        return xor(ci(attrs[0]), *kids)
    if op == "and":
        return band(ci(attrs[0]), *kids)
    if op == "or":
        return bor(*kids)
    if op == "shl":
        return shl(kids[0], ci(attrs[0]))
    if op == "ashr":
        return ashr(kids[0], ci(attrs[0]))
    if op == "lshr":
        return lshr(kids[0], attrs[0])
    if op == "cfm":
        return cfm(kids[0], attrs[0])
    if op == "shlv":
        return shl(*kids)
    if op == "ashrv":
        return ashr(*kids)
    if op == "tdiv":
        return tdiv(*kids)
    if op == "fdivi":
        return fdiv_i(*kids)
    if op == "not":
        return bnot(kids[0])
    if op == "conj":
        return conj(*kids)
    if op == "bxor":
        return bxor(*kids)
    if op == "ite":
        return ite(*kids)
    if op == "eq":
        return eq(*kids)
    if op == "slt":
        return slt(*kids)
    if op == "ult":
        return ult(*kids)
    if op == "sext":
        return sext(kids[0], attrs[0])
    if op == "fx":
        return fx(kids[0], attrs[0])
    if op == "fadd":
        return fadd(*kids)
    if op == "flin":
        return flincomb(list(zip(kids, attrs[1])), attrs[0])
    if op == "fsub":
        return fsub(*kids)
    if op == "fmul":
        return fmul(*kids)
    if op == "fdiv":
        return fdiv(*kids)
    if op == "fneg":
        return fneg(*kids)
    if op == "i2f":
        return i2f(kids[0], attrs[0])
    if op == "f2i":
        return f2i(*kids)
    if op == "ffloor":
        return ffloor(*kids)
    if op == "ftrunc":
        return ftrunc(*kids)
    if op == "fround":
        return fround(*kids)
    if op == "flt":
        return flt(*kids)
    if op == "fle":
        return fle(*kids)
    if op == "feq":
        return feq(*kids)
    return mk(op, attrs, kids, sort)


def substitute(roots, mapping):
    """replace nodes by nodes, renormalising; returns list aligned with roots"""
    memo = dict(mapping)
    for n in topo(roots):
        if n in memo:
            continue
        ks = KIDS[n]
        nk = tuple(memo[k] for k in ks)
        memo[n] = n if nk == ks else rebuild(OPS[n], ATTRS[n], nk, SORTS[n])
    return [memo[r] for r in roots]


def evaluate(roots, env):
    """concrete evaluation; env: var node -> python int/bool/Fraction. Ints signed."""
    m = {}
    for n in topo(roots):
        op, at, ks = OPS[n], ATTRS[n], KIDS[n]
        if op in ("ci", "cb", "cf"):
            v = cval(n)
        elif op in ("var", "fvar", "bvar"):
            v = env[n]
        else:
            kn = []
            for k in ks:
                x = m[k]
                s = SORTS[k]
                kn.append(ci(x) if s == "i" else cb(x) if s == "b" else mk("cf", (x,), (), "f"))
            r = rebuild(op, at, tuple(kn), SORTS[n])
            if not is_const(r):
                raise Unsupported("cannot evaluate " + op)
            v = cval(r)
        m[n] = v
    return [m[r] for r in roots]


# ---------------------------------------------------------------- serialisation
class Encoder:
    """incremental DAG sender (one per direction of a connection)"""

    def __init__(self):
        self.sent = {}

    def encode(self, ids):
        new = []
        for n in topo([i for i in ids if i not in self.sent]):
            if n in self.sent:
                continue
            new.append((OPS[n], ATTRS[n], tuple(self.sent[k] for k in KIDS[n]), SORTS[n]))
            self.sent[n] = len(self.sent)
        return new, [self.sent[i] for i in ids]


class Decoder:
    def __init__(self):
        self.got = []

    def decode(self, msg):
        new, ids = msg
        for op, at, ks, so in new:
            # re-canonicalise: node ids (sort order) differ between processes
            self.got.append(rebuild(op, at, tuple(self.got[k] for k in ks), so))
        return [self.got[i] for i in ids]
