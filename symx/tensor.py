"""SymTensor: a torch.Tensor subclass whose elements are expression nodes.

The real Python code under test runs unmodified; every ATen operation it issues
is intercepted here (below autograd, so composite operations are already
decomposed by torch itself) and executed on expressions.  Data-movement
operations are executed by torch itself on the tensor of node ids, so their
aliasing and shape semantics are torch's own.
"""
import hashlib
import itertools
import math
from fractions import Fraction

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import nodes as N
from .nodes import Unsupported

aten = torch.ops.aten

FLOATS = (torch.float32, torch.float64, torch.float16, torch.bfloat16)
INTS = (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8)
LIFT = (torch.int64, torch.bool, torch.float32, torch.float64)


# exact-arithmetic abstraction ("ring" mode): int64 tensors hold mathematical reals instead of
# residues modulo 2**64; float->long casts and long divisions are exact.  See DESIGN.md.
RING = False


def set_ring(v):
    global RING
    RING = v


def sort_of(dt):
    if dt in FLOATS or (RING and dt == torch.int64):
        return "f"
    if dt == torch.bool:
        return "b"
    if dt in INTS:
        return "i"
    raise Unsupported(f"dtype {dt}")


class Ctx:
    """per-process hooks"""

    decide = None  # callable(bool node) -> python bool
    draw = None  # callable(generator, kind, low, high) -> node or None
    ops_seen = {}
    drawn = set()  # random variables this party drew


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype):
        r = torch.Tensor._make_wrapper_subclass(
            cls, ids.size(), strides=ids.stride(), storage_offset=0, dtype=dtype,
            device="cpu", dispatch_sizes_strides_policy="sizes",
        )
        r.ids = ids
        return r

    def __init__(self, *a, **k):
        pass

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    # ---- methods implemented in C that would touch storage
    @property
    def data(self):
        return SymTensor(self.ids, self.dtype)

    @data.setter
    def data(self, v):
        if not isinstance(v, SymTensor):
            v = lift(v)
        self.ids = v.ids

    def concrete(self):
        """plain tensor if all elements constant, else None"""
        return to_concrete(self)

    def tolist(self):
        c = to_concrete(self)
        if c is None:
            if self.dim() == 0:
                return scalar_of(self)
            raise Unsupported("tolist of symbolic tensor")
        return c.tolist()

    def item(self):
        if self.numel() != 1:
            raise RuntimeError(f"a Tensor with {self.numel()} elements cannot be converted to Scalar")
        return scalar_of(self)

    def numpy(self, *a, **k):
        c = to_concrete(self)
        if c is None:
            raise Unsupported("numpy() of symbolic tensor")
        with torch.utils._python_dispatch._disable_current_modes():
            return c.numpy().copy()

    def __array__(self, *a, **k):
        return self.numpy()

    def __repr__(self, **k):
        return f"Sym({self.ids.tolist()}, {self.dtype})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        r = SymTensor(self.ids.clone(), self.dtype)
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        c = to_concrete(self)
        if c is None:
            raise Unsupported("pickling a symbolic tensor")
        with torch.utils._python_dispatch._disable_current_modes():
            return c.__reduce_ex__(proto)

    def data_ptr(self):
        return self.ids.data_ptr()

    def untyped_storage(self):
        return self.ids.untyped_storage()

    def storage(self):
        return self.ids.storage()

    def is_set_to(self, o):
        return self.ids.is_set_to(o.ids)

    def __hash__(self):
        return id(self)


def mkids(lst, shape):
    return torch.tensor(lst, dtype=torch.int64).reshape(shape) if lst else torch.empty(shape, dtype=torch.int64)


def const_node(v, dt):
    s = sort_of(dt)
    if s == "f":
        return N.cf(Fraction(v)) if isinstance(v, int) and not isinstance(v, bool) else N.cf(v)
    if s == "b":
        return N.cb(bool(v))
    return N.ci(int(v))


def lift(t):
    """plain tensor -> SymTensor of constants"""
    if isinstance(t, SymTensor):
        return t
    flat = t.detach().reshape(-1).tolist()
    return SymTensor(mkids([const_node(v, t.dtype) for v in flat], t.shape), t.dtype)


def to_concrete(t):
    if not isinstance(t, SymTensor):
        return t
    flat = t.ids.reshape(-1).tolist()
    vals = []
    for n in flat:
        if not N.is_const(n):
            return None
        op = N.OPS[n]
        v = N.cfval(n) if op == "cf" else N.cval(n)
        if op == "cf" and t.dtype == torch.int64:
            q = N.ATTRS[n][0]
            if not isinstance(q, Fraction) or q.denominator != 1:
                return None
            v = int(q)
        vals.append(v)
    with nomode():
        return torch.tensor(vals, dtype=t.dtype).reshape(t.ids.shape)


def all_const(t):
    if not isinstance(t, SymTensor):
        return True
    return all(N.is_const(n) for n in t.ids.reshape(-1).tolist())


def nomode():
    return torch.utils._python_dispatch._disable_current_modes()


def scalar_of(t):
    n = int(t.ids.reshape(-1)[0])
    if N.is_const(n):
        if N.OPS[n] == "cf" and t.dtype == torch.int64 and isinstance(N.ATTRS[n][0], Fraction):
            q = N.ATTRS[n][0]
            return int(q) if q.denominator == 1 else float(q)
        return N.cfval(n) if N.OPS[n] == "cf" else N.cval(n)
    s = N.SORTS[n]
    if s == "b":
        if Ctx.decide is None:
            raise Unsupported("branch on a symbolic value")
        return Ctx.decide(n)
    return SymScalar(n, t.dtype)


class SymScalar:
    """python scalar taken out of a symbolic tensor with .item()"""

    def __init__(self, n, dt):
        self.n, self.dt = n, dt

    def _t(self):
        return SymTensor(mkids([self.n], ()), self.dt)

    def _b(self, o, f):
        r = f(self._t(), o._t() if isinstance(o, SymScalar) else o)
        return scalar_of(r)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __neg__(self): return scalar_of(-self._t())
    def __abs__(self): return scalar_of(self._t().abs())
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b)
    def __bool__(self): return self != 0
    def __hash__(self): return hash(self.n)


_pad = torch.nn.functional.pad


def sym_pad(input, pad, mode="constant", value=None):
    """torch.nn.functional.pad with a symbolic padding value"""
    if not isinstance(value, SymScalar):
        return _pad(input, pad, mode, value)
    inner = _pad(torch.ones(input.size(), dtype=torch.bool), pad, mode, False)
    base = _pad(input, pad, mode, 0)
    return torch.where(inner, base, value._t().to(base.dtype).expand(base.size()))


def cast(n, dt, src_dt=None):
    """node -> node of dtype dt"""
    s, d = N.SORTS[n], sort_of(dt)
    if s == d:
        if d == "i" and dt != torch.int64 and dt != src_dt:
            bits = {torch.int32: 32, torch.int16: 16, torch.int8: 8, torch.uint8: 8}[dt]
            if dt == torch.uint8:
                return N.band(n, N.ci(255))
            return N.sext(n, bits)
        if d == "f" and dt == torch.float32 and src_dt == torch.float64 and N.OPS[n] == "cf":
            with nomode():
                return N.cf(torch.tensor(N.cfval(n), dtype=torch.float64).float().item())
        return n
    if d == "f":
        w = 64 if dt == torch.float64 else 32
        if s == "b":
            return N.b2f(n)
        if N.OPS[n] == "ci" and w == 32:
            with nomode():
                return N.cf(torch.tensor(N.cval(n)).float().item())
        return N.i2f(n, w)
    if d == "i":
        if s == "b":
            return N.b2i(n)
        return cast(N.f2i(n), dt, torch.int64)
    if d == "b":
        if s == "i":
            return N.i2b(n)
        return N.bnot(N.feq(n, N.cf(0.0)))
    raise Unsupported("cast")


def meta(a):
    if isinstance(a, SymTensor):
        with nomode():
            return torch.empty(a.ids.shape, dtype=a.dtype, device="meta")
    if isinstance(a, torch.Tensor):
        return torch.empty(a.shape, dtype=a.dtype, device="meta")
    if isinstance(a, SymScalar):
        return 1.5 if sort_of(a.dt) == "f" else 1
    if isinstance(a, (list, tuple)):
        return type(a)(meta(x) for x in a)
    return a


def flat_args(args, kwargs):
    for a in itertools.chain(args, kwargs.values()):
        if isinstance(a, (list, tuple)):
            yield from a
        else:
            yield a


def ids_of(a, dt=None):
    """id tensor for a tensor/scalar argument, cast to dt (if given)"""
    if isinstance(a, SymScalar):
        a = a._t()
    if isinstance(a, torch.Tensor):
        if not isinstance(a, SymTensor):
            a = lift(a)
        if dt is None or dt == a.dtype:
            return a.ids
        l = a.ids.reshape(-1).tolist()
        return mkids([cast(n, dt, a.dtype) for n in l], a.ids.shape)
    if isinstance(a, bool):
        n = N.cb(a)
        return torch.tensor(cast(n, dt) if dt is not None else n)
    if isinstance(a, int):
        if dt is not None and sort_of(dt) == "f":
            return torch.tensor(N.cf(Fraction(a)) if N.FMODE == "real" else N.cf(float(a)))
        n = N.ci(a) if not RING else N.cf(Fraction(a))
        return torch.tensor(cast(n, dt) if dt is not None else n)
    if isinstance(a, float):
        if dt is not None and sort_of(dt) == "i":
            return torch.tensor(N.ci(int(a)))
        if dt == torch.float32 and N.FMODE != "real":
            with nomode():
                a = torch.tensor(a, dtype=torch.float64).float().item()
        n = N.cf(a)
        return torch.tensor(cast(n, dt) if dt is not None else n)
    raise Unsupported(f"argument {type(a)}")


def ewise(fn, out_shape, out_dt, idts, cast_out=None):
    bs = [t.expand(out_shape).reshape(-1).tolist() for t in idts]
    memo = {}
    out = []
    for tup in zip(*bs):
        r = memo.get(tup)
        if r is None:
            r = fn(*tup)
            memo[tup] = r
        out.append(r)
    return SymTensor(mkids(out, out_shape), out_dt)


# ----------------------------------------------------------------- op tables
def _num(f_i, f_f, f_b=None):
    def g(*xs):
        s = N.SORTS[xs[0]]
        if s == "i":
            if f_i is None:
                raise Unsupported("int op")
            return f_i(*xs)
        if s == "f":
            if f_f is None:
                raise Unsupported("float op")
            return f_f(*xs)
        if f_b is None:
            raise Unsupported("bool op")
        return f_b(*xs)

    return g


ADD = _num(N.add, N.fadd, lambda a, b: N.disj(a, b))
SUB = _num(N.sub, N.fsub)
MUL = _num(N.mul, N.fmul, lambda a, b: N.conj(a, b))
NEG = _num(N.neg, N.fneg)
LT = _num(N.slt, N.flt, lambda a, b: N.conj(N.bnot(a), b))
LE = _num(N.sle, N.fle, lambda a, b: N.disj(N.bnot(a), b))
EQ = _num(N.eq, N.feq, N.iff)
GT = lambda a, b: LT(b, a)
GE = lambda a, b: LE(b, a)
NE = lambda a, b: N.bnot(EQ(a, b))
ABS = _num(lambda a: N.ite(N.slt(a, N.ci(0)), N.neg(a), a), lambda a: N.ite(N.flt(a, N.cf(0.0)), N.fneg(a), a))
SIGN = _num(
    lambda a: N.ite(N.slt(a, N.ci(0)), N.ci(-1), N.ite(N.slt(N.ci(0), a), N.ci(1), N.ci(0))),
    lambda a: N.ite(N.flt(a, N.cf(0.0)), N.cf(-1.0), N.ite(N.flt(N.cf(0.0), a), N.cf(1.0), N.cf(0.0))),
)
MAXI = lambda a, b: N.ite(LT(a, b), b, a)
MINI = lambda a, b: N.ite(LT(b, a), b, a)
BAND = _num(lambda a, b: N.band(a, b), None, lambda a, b: N.conj(a, b))
BOR = _num(N.bor, None, lambda a, b: N.disj(a, b))
BXOR = _num(lambda a, b: N.xor(a, b), None, N.bxor)
BNOT = _num(N.bnot_i, None, N.bnot)
FLOORDIV = _num(N.fdiv_i, lambda a, b: N.ffloor(N.fdiv(a, b)))
TRUNCDIV = _num(N.tdiv, lambda a, b: N.ftrunc(N.fdiv(a, b)))
TRUEDIV = _num(None, N.fdiv)


def _rem_f(a, b):
    return N.fsub(a, N.fmul(N.ffloor(N.fdiv(a, b)), b))


REM = _num(N.fmod_i, _rem_f)
FMOD = _num(N.tmod_i, lambda a, b: N.fsub(a, N.fmul(N.ftrunc(N.fdiv(a, b)), b)))


def _ufn(name):
    return lambda a: N.uf(name, a)


def ipow(a, e):
    s = N.SORTS[a]
    r = N.ci(1) if s == "i" else N.cf(1.0)
    b = a
    if e < 0:
        return N.fdiv(N.cf(1.0), ipow(a, -e))
    while e:
        if e & 1:
            r = MUL(r, b)
        e >>= 1
        if e:
            b = MUL(b, b)
    return r


def POW(a, e):
    if N.is_const(e):
        v = N.cval(e) if N.OPS[e] != "cf" else N.cfval(e)
        if float(v) == int(v) and abs(v) < 200:
            return ipow(a, int(v))
        if N.SORTS[a] == "f" and v == 0.5:
            return N.uf("sqrt", a)
    if N.is_const(a) and N.SORTS[a] == "i":
        v = N.cval(a)
        if v == 2:
            return N.shl(N.ci(1), e)
    return N.uf("pow", a, e)


# name -> (fn, 'arith' compute in result dtype | 'cmp' compute in promoted dtype)
BIN = {
    "add": ADD, "sub": SUB, "mul": MUL, "maximum": MAXI, "minimum": MINI,
    "bitwise_and": BAND, "bitwise_or": BOR, "bitwise_xor": BXOR,
    "__and__": BAND, "__or__": BOR, "__xor__": BXOR, "__iand__": BAND, "__ior__": BOR, "__ixor__": BXOR,
    "floor_divide": FLOORDIV, "remainder": REM, "fmod": FMOD, "pow": POW,
    "__lshift__": lambda a, k: N.shl(a, k), "__rshift__": lambda a, k: N.ashr(a, k),
    "__ilshift__": lambda a, k: N.shl(a, k), "__irshift__": lambda a, k: N.ashr(a, k),
    "bitwise_left_shift": lambda a, k: N.shl(a, k), "bitwise_right_shift": lambda a, k: N.ashr(a, k),
    "rsub": lambda a, b: SUB(b, a), "atan2": lambda a, b: N.uf("atan2", a, b),
}
CMP = {"lt": LT, "le": LE, "gt": GT, "ge": GE, "eq": EQ, "ne": NE,
       "less": LT, "greater": GT, "less_equal": LE, "greater_equal": GE, "not_equal": NE}
LOGB = {"logical_and": lambda a, b: N.conj(a, b), "logical_or": lambda a, b: N.disj(a, b), "logical_xor": N.bxor}
UN = {
    "neg": NEG, "abs": ABS, "sign": SIGN, "sgn": SIGN, "bitwise_not": BNOT,
    "floor": _num(lambda a: a, N.ffloor), "trunc": _num(lambda a: a, N.ftrunc), "round": _num(lambda a: a, N.fround),
    "ceil": _num(lambda a: a, lambda a: N.fneg(N.ffloor(N.fneg(a)))),
    # exact mode: a symbolic real is treated as a non-integer (code only asks this to choose an encoding)
    "frac": _num(lambda a: N.ci(0), lambda a: N.cf(0.5) if RING and N.OPS[a] != "cf" else N.fsub(a, N.ftrunc(a))),
    "relu": _num(lambda a: N.ite(N.slt(a, N.ci(0)), N.ci(0), a), lambda a: N.ite(N.flt(a, N.cf(0.0)), N.cf(0.0), a)),
    "square": lambda a: MUL(a, a), "positive": lambda a: a,
    "reciprocal": lambda a: N.fdiv(N.cf(1.0), a),
    "exp": _ufn("exp"), "log": _ufn("log"), "sqrt": _ufn("sqrt"), "sin": _ufn("sin"), "cos": _ufn("cos"),
    "tanh": _ufn("tanh"), "sigmoid": _ufn("sigmoid"), "erf": _ufn("erf"), "exp2": _ufn("exp2"),
    "rsqrt": lambda a: N.fdiv(N.cf(1.0), N.uf("sqrt", a)), "log2": _ufn("log2"), "expm1": _ufn("expm1"),
    "log1p": _ufn("log1p"), "tan": _ufn("tan"), "isnan": lambda a: N.cb(False), "isinf": lambda a: N.cb(False),
    "isfinite": lambda a: N.cb(True),
}
UNB = {"logical_not": N.bnot}

# pure data movement: run by torch on the id tensor
STRUCT = {
    "view", "_unsafe_view", "_reshape_alias", "reshape", "expand", "permute", "transpose", "t", "squeeze", "unsqueeze",
    "select", "slice", "split", "split_with_sizes", "chunk", "unbind", "detach", "alias", "clone", "flip", "roll", "repeat",
    "cat", "stack", "index_select", "gather", "index", "take", "diagonal", "as_strided", "unfold", "narrow", "movedim",
    "flatten", "rot90", "lift_fresh", "lift", "lift_fresh_copy", "contiguous", "expand_as", "view_as", "unsafe_split",
    "unsafe_chunk", "numpy_T", "swapaxes", "swapdims", "tile", "repeat_interleave", "masked_select", "take_along_dim",
    "squeeze_copy", "select_copy", "slice_copy", "tensor_split", "hsplit", "vsplit", "broadcast_to", "view_copy", "unfold_copy",
    "permute_copy", "atleast_1d", "ravel", "unflatten", "moveaxis", "adjoint", "unsafe_split_with_sizes", "expand_copy", "_conj",
    "resolve_conj", "resolve_neg", "pixel_shuffle", "pixel_unshuffle", "channel_shuffle", "meshgrid", "diagonal_scatter",
    "reflection_pad1d", "reflection_pad2d", "replication_pad1d", "replication_pad2d",
}
STRUCT_INPLACE = {"squeeze_", "unsqueeze_", "transpose_", "t_", "swapdims_", "swapaxes_", "as_strided_"}


def wrap_like(out, dt):
    if isinstance(out, (list, tuple)):
        return type(out)(wrap_like(o, dt) for o in out)
    return SymTensor(out, dt)


def conc_index(a):
    """index argument: constant SymTensor -> plain tensor"""
    if isinstance(a, SymTensor):
        c = to_concrete(a)
        if c is None:
            raise Unsupported("symbolic index")
        return c
    if isinstance(a, (list, tuple)):
        return type(a)(conc_index(x) for x in a)
    return a


def first_tensor(args):
    for a in flat_args(args, {}):
        if isinstance(a, torch.Tensor):
            return a


def assign_(dst, src):
    """write SymTensor src into SymTensor dst in place (cast to dst dtype)"""
    if not isinstance(dst, SymTensor):
        raise Unsupported("symbolic value written into a plain tensor")
    dst.ids.copy_(ids_of(src, dst.dtype).expand(dst.ids.shape) if src.ids.shape != dst.ids.shape else ids_of(src, dst.dtype))
    return dst


def summation(lst):
    s = N.SORTS[lst[0]] if lst else "i"
    if s == "i":
        return N.lincomb([(n, 1) for n in lst])
    r = lst[0]
    for n in lst[1:]:
        r = N.fadd(r, n)
    return r


def reduce_dims(x, dims, keepdim):
    """yield structure for reductions: returns (list of lists, out_shape)"""
    nd = x.dim()
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    dims = sorted(d % nd if nd else 0 for d in dims) if nd else []
    keep = [d for d in range(nd) if d not in dims]
    p = x.permute(*keep, *dims) if nd else x
    ks = [x.shape[d] for d in keep]
    cnt = math.prod(x.shape[d] for d in dims)
    rows = p.reshape(math.prod(ks), cnt).tolist()
    out_shape = [1 if d in dims else x.shape[d] for d in range(nd)] if keepdim else ks
    return rows, out_shape


def do_reduce(x, dims, keepdim, fn, out_dt):
    rows, shp = reduce_dims(x, dims, keepdim)
    return SymTensor(mkids([fn(r) for r in rows], shp), out_dt)


def mm_ids(a, b):
    n, k = a.shape
    k2, m = b.shape
    A, B = a.tolist(), b.tolist()
    out = []
    for i in range(n):
        for j in range(m):
            if k == 0:
                out.append(None)
                continue
            out.append(summation([MUL(A[i][t], B[t][j]) for t in range(k)]))
    return mkids(out, (n, m))


def convolution(x, w, bias, stride, padding, dilation, transposed, output_padding, groups, dt, out_shape):
    """direct N-d (transposed) convolution on id tensors"""
    nd = x.dim() - 2
    fix = lambda v: list(v) * nd if len(v) == 1 and nd > 1 else list(v)
    stride, padding, dilation = fix(stride), fix(padding), fix(dilation)
    B, Cin = x.shape[:2]
    sp = list(x.shape[2:])
    ksp = list(w.shape[2:])
    Cout = out_shape[1]
    osp = list(out_shape[2:])
    cin_g, cout_g = Cin // groups, Cout // groups
    X = x.reshape(B, Cin, -1).tolist()
    W = w.reshape(w.shape[0], w.shape[1], -1).tolist()

    def lin(idx, shape):
        r = 0
        for i, s in zip(idx, shape):
            r = r * s + i
        return r

    # (out position -> list of (in position, kernel position))
    conn = {}
    for kp in itertools.product(*[range(k) for k in ksp]):
        if not transposed:
            for op in itertools.product(*[range(o) for o in osp]):
                ip = [op[d] * stride[d] - padding[d] + kp[d] * dilation[d] for d in range(nd)]
                if all(0 <= ip[d] < sp[d] for d in range(nd)):
                    conn.setdefault(lin(op, osp), []).append((lin(ip, sp), lin(kp, ksp)))
        else:
            for ip in itertools.product(*[range(s) for s in sp]):
                op = [ip[d] * stride[d] - padding[d] + kp[d] * dilation[d] for d in range(nd)]
                if all(0 <= op[d] < osp[d] for d in range(nd)):
                    conn.setdefault(lin(op, osp), []).append((lin(ip, sp), lin(kp, ksp)))
    zero = const_node(0, dt)
    out = []
    nout = math.prod(osp)
    for b in range(B):
        for co in range(Cout):
            g = co // cout_g
            for o in range(nout):
                terms = []
                for (ip, kp) in conn.get(o, ()):
                    for ci_ in range(cin_g):
                        xi = X[b][g * cin_g + ci_][ip]
                        if not transposed:
                            wi = W[co][ci_][kp]
                        else:
                            wi = W[g * cin_g + ci_][co % cout_g][kp]
                        terms.append(MUL(xi, wi))
                if bias is not None:
                    terms.append(bias[co])
                out.append(summation(terms) if terms else zero)
    return mkids(out, out_shape)


def pool2d_windows(x, kernel, stride, padding, dilation, out_hw):
    """per output element: (list of flat in-plane positions or None for padding)"""
    H, W = x.shape[-2:]
    wins = []
    for oh in range(out_hw[0]):
        for ow in range(out_hw[1]):
            l = []
            for i in range(kernel[0]):
                for j in range(kernel[1]):
                    r = oh * stride[0] - padding[0] + i * dilation[0]
                    c = ow * stride[1] - padding[1] + j * dilation[1]
                    l.append(r * W + c if 0 <= r < H and 0 <= c < W else None)
            wins.append(l)
    return wins


def two(v, default=None):
    if v is None or (isinstance(v, (list, tuple)) and len(v) == 0):
        return list(default)
    if isinstance(v, int):
        return [v, v]
    return [v[0], v[0]] if len(v) == 1 else list(v)


RNG_OPS = {"randint", "rand", "randn", "random_", "uniform_", "normal_", "bernoulli", "bernoulli_", "randperm", "multinomial",
           "rand_like", "randn_like", "randint_like", "normal", "native_dropout", "exponential_", "poisson", "geometric_"}
FACTORY = {"empty", "zeros", "ones", "full", "scalar_tensor", "arange", "eye", "empty_strided", "linspace", "new_empty", "new_zeros",
           "new_ones", "new_full", "zeros_like", "ones_like", "empty_like", "full_like", "empty_permuted", "new_empty_strided",
           "tril_indices", "triu_indices", "range", "logspace"}


def gen_of(kwargs):
    return kwargs.get("generator")


class DefaultGen:
    """torch's default generator"""


def draw_elements(gen, shape, kind, low, high, dt):
    """one symbolic draw per element; the concrete generator advances exactly as
    in the real run, and the generator state identifies the draw."""
    n = math.prod(shape)
    ids = []
    with nomode():
        for _ in range(n):
            g = gen if gen is not None else torch.default_generator
            st = g.get_state()
            key = hashlib.blake2b(st.numpy().tobytes(), digest_size=6).hexdigest()
            if kind == "int":
                cv = torch.randint(low, high, (1,), generator=gen).item()
            elif kind == "rand":
                torch.rand((1,), generator=gen)
            elif kind == "randn":
                torch.randn((1,), generator=gen)
            r = Ctx.draw(gen, key, kind, low, high, dt) if Ctx.draw else None
            if RING and kind == "int":
                r = N.cf(Fraction(0)) if gen is not None else N.cf(Fraction(cv))
            if r is None and gen is None and kind == "int":
                # torch's default generator only makes seed material: concrete
                r = N.ci(cv)
            if r is None:
                if kind == "int":
                    full = low <= -(2**63) and high >= 2**63 - 1
                    if full:
                        r = N.var("r:" + key)
                    elif low == 0 and high == 2:
                        r = N.var(f"r:{key}:0:2", 0, 2)
                    else:
                        r = N.var(f"r:{key}:{low}:{high}", low, high)
                else:
                    r = N.fvar(f"{kind}:{key}", kind)
            if not N.is_const(r):
                Ctx.drawn.add(N.ATTRS[r][0] if isinstance(N.ATTRS[r], tuple) else N.ATTRS[r])
            ids.append(r)
    return SymTensor(mkids(ids, shape), dt)


def rng_op(name, func, args, kwargs):
    gen = kwargs.get("generator")
    if name == "randint":
        o = str(func)
        if "low" in o:
            low, high, size = args[:3]
        else:
            low, (high, size) = 0, args[:2]
        return draw_elements(gen, list(size), "int", low, high, kwargs.get("dtype") or torch.int64)
    if name == "rand":
        return draw_elements(gen, list(args[0]), "rand", 0, 1, kwargs.get("dtype") or torch.get_default_dtype())
    if name == "randn":
        return draw_elements(gen, list(args[0]), "randn", 0, 1, kwargs.get("dtype") or torch.get_default_dtype())
    if name in ("rand_like", "randn_like"):
        return draw_elements(None, list(args[0].shape), name[:-5], 0, 1, kwargs.get("dtype") or args[0].dtype)
    if name == "random_":
        t = args[0]
        o = str(func)
        if o.endswith(".from"):
            low, high = args[1], args[2]
            if high is None:
                high = 2**63 - 1
        elif o.endswith(".to"):
            low, high = 0, args[1]
        else:
            low, high = 0, 2**63 - 1
        return assign_(t, draw_elements(gen, list(t.shape), "int", low, high, t.dtype))
    if name == "bernoulli":
        p = args[0]
        if not isinstance(p, SymTensor) or len(args) > 1:
            raise Unsupported("bernoulli")
        u = draw_elements(gen, list(p.shape), "rand", 0, 1, p.dtype)
        return (u < p).to(p.dtype)
    if name == "uniform_":
        t = args[0]
        lo = args[1] if len(args) > 1 else 0.0
        hi = args[2] if len(args) > 2 else 1.0
        u = draw_elements(gen, list(t.shape), "rand", 0, 1, t.dtype)
        return assign_(t, u * (hi - lo) + lo)
    if name == "randperm":
        # permutations are drawn concretely
        with nomode():
            return lift(func(*args, **kwargs))
    raise Unsupported(f"rng op {func}")


def concretize(a):
    if isinstance(a, SymTensor):
        return to_concrete(a)
    if isinstance(a, (list, tuple)):
        return type(a)(concretize(x) for x in a)
    return a


def relift(o, keep_plain=False):
    if isinstance(o, torch.Tensor):
        return lift(o) if o.dtype in LIFT else o
    if isinstance(o, (list, tuple)):
        return type(o)(relift(x) for x in o) if not hasattr(o, "_fields") else type(o)(*[relift(x) for x in o])
    return o


def dispatch(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    ov = func._overloadname if hasattr(func, "_overloadname") else ""
    a0 = args[0] if args else None

    # ---- metadata
    if name in ("size", "sym_size"):
        return list(a0.ids.size()) if len(args) == 1 else a0.ids.size(args[1])
    if name in ("stride", "sym_stride"):
        return list(a0.ids.stride()) if len(args) == 1 else a0.ids.stride(args[1])
    if name in ("numel", "sym_numel"):
        return a0.ids.numel()
    if name == "dim":
        return a0.ids.dim()
    if name in ("storage_offset", "sym_storage_offset"):
        return 0
    if name == "is_contiguous":
        return a0.ids.is_contiguous(*args[1:])
    if name in ("is_strides_like_format", "is_non_overlapping_and_dense"):
        return True if name != "is_strides_like_format" else False
    if name == "layout":
        return torch.strided
    with nomode():
        return _dispatch(func, name, ov, args, kwargs)


def _dispatch(func, name, ov, args, kwargs):
    Ctx.ops_seen[name] = Ctx.ops_seen.get(name, 0) + 1
    a0 = args[0] if args else None
    base = name[:-1] if name.endswith("_") and not name.startswith("__") else name
    inplace = base != name

    if name in RNG_OPS:
        return rng_op(name, func, args, kwargs)

    # ---- data movement
    if name in STRUCT:
        t0 = first_tensor(args)
        if name in ("cat", "stack"):
            ts = [t if isinstance(t, torch.Tensor) else torch.tensor(t) for t in a0]
            if name == "cat":
                ts = [t for t in ts if not (t.dim() == 1 and t.numel() == 0)] or ts[:1]
            dt = ts[0].dtype
            for t in ts[1:]:
                dt = torch.promote_types(dt, t.dtype)
            return SymTensor(func([ids_of(t, dt) for t in ts], *args[1:], **kwargs), dt)
        if not isinstance(t0, SymTensor):
            # plain data, symbolic index
            return relift(func(*concretize_all(args), **kwargs))
        kw = {k: conc_index(v) for k, v in kwargs.items() if k not in ("memory_format",)}
        try:
            out = func(t0.ids, *[conc_index(a) for a in args[1:]], **kw)
        except RuntimeError:
            # reshape() reaches us as a view even where torch copies
            if name not in ("view", "_unsafe_view", "_reshape_alias"):
                raise
            out = t0.ids.reshape(args[1])
        return wrap_like(out, t0.dtype)
    if name in STRUCT_INPLACE:
        func(a0.ids, *[conc_index(a) for a in args[1:]], **kwargs)
        return a0
    if name == "set_":
        if len(args) == 1:
            a0.ids = torch.empty(0, dtype=torch.int64)
        elif isinstance(args[1], SymTensor):
            if ov == "source_Tensor":
                a0.ids = args[1].ids
            else:
                raise Unsupported("set_ overload " + ov)
        elif isinstance(args[1], torch.Tensor):
            a0.ids = lift(args[1]).ids
        else:
            raise Unsupported("set_ overload " + ov)
        return a0
    if name == "resize_":
        n0 = a0.ids.numel()
        new = torch.empty(args[1], dtype=torch.int64)
        f = new.reshape(-1)
        f[: min(n0, f.numel())] = a0.ids.reshape(-1)[: f.numel()]
        if f.numel() > n0:
            f[n0:] = const_node(0, a0.dtype)
        a0.ids = new
        return a0
    if name == "_to_copy":
        dt = kwargs.get("dtype") or a0.dtype
        return SymTensor(ids_of(a0, dt).clone(), dt)
    if name == "_local_scalar_dense":
        return scalar_of(a0)
    if name == "is_nonzero":
        return bool(scalar_of(a0.bool()))
    if name == "equal":
        a, b = args
        if a.shape != b.shape:
            return False
        return bool(scalar_of((a == b).all()))
    if name == "copy_":
        src = args[1]
        if not isinstance(a0, SymTensor):
            c = to_concrete(src)
            if c is None:
                raise Unsupported("symbolic value written into a plain tensor")
            return a0.copy_(c)
        a0.ids.copy_(ids_of(src, a0.dtype).expand(a0.ids.shape))
        return a0
    if name in ("fill_", "fill"):
        v = ids_of(args[1], a0.dtype)
        if name == "fill_":
            a0.ids.copy_(v.expand(a0.ids.shape))
            return a0
        return SymTensor(v.expand(a0.ids.shape).clone(), a0.dtype)
    if name in ("zero_", "zero"):
        if name == "zero_":
            a0.ids.fill_(const_node(0, a0.dtype))
            return a0
        return SymTensor(torch.full_like(a0.ids, const_node(0, a0.dtype)), a0.dtype)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like", "new_zeros", "new_ones", "new_empty", "new_full", "new_empty_strided"):
        dt = kwargs.get("dtype") or a0.dtype
        shape = a0.ids.shape if name.endswith("_like") else args[1]
        if name in ("full_like",):
            v = int(ids_of(args[1], dt))
        elif name == "new_full":
            v = int(ids_of(args[2], dt))
        else:
            v = const_node(1 if "ones" in name else 0, dt)
        return SymTensor(torch.full(list(shape), v, dtype=torch.int64), dt)
    if name in ("index_put_", "index_put", "_index_put_impl_", "_unsafe_index_put"):
        acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
        tgt = a0 if name.endswith("_") else SymTensor(ids_of(a0).clone(), a0.dtype)
        if not isinstance(tgt, SymTensor):
            raise Unsupported("symbolic value written into a plain tensor")
        idx = args[1]
        if len(idx) == 1 and isinstance(idx[0], SymTensor) and idx[0].dtype == torch.bool and not all_const(idx[0]):
            # masked assignment with a symbolic mask
            v = ids_of(args[2], tgt.dtype)
            if v.numel() != 1:
                raise Unsupported("masked assignment of many values with symbolic mask")
            r = ewise(lambda m, x, y: N.ite(m, y, x), tgt.ids.shape, tgt.dtype,
                      [idx[0].ids.reshape(list(idx[0].ids.shape) + [1] * (tgt.ids.dim() - idx[0].ids.dim())), tgt.ids, v.reshape(())])
            tgt.ids.copy_(r.ids)
            return tgt
        idx = [conc_index(i) if i is not None else None for i in idx]
        v = ids_of(args[2], tgt.dtype)
        if not acc:
            torch.ops.aten.index_put_(tgt.ids, idx, v, False)
            return tgt
        pos = torch.arange(tgt.ids.numel()).reshape(tgt.ids.shape)
        sel = torch.ops.aten.index(pos, idx)
        cur = tgt.ids.reshape(-1).tolist()
        for p, n in zip(sel.reshape(-1).tolist(), v.expand(sel.shape).reshape(-1).tolist()):
            cur[p] = ADD(cur[p], n)
        tgt.ids.copy_(mkids(cur, tgt.ids.shape))
        return tgt
    if base in ("scatter", "scatter_add", "index_add", "scatter_reduce", "index_copy", "index_fill", "masked_fill", "masked_scatter", "put"):
        return scatterlike(func, name, base, inplace, args, kwargs, ov)
    if name in ("select_scatter", "slice_scatter", "select_backward", "slice_backward"):
        out = func(a0.ids, ids_of(args[1], a0.dtype), *args[2:], **kwargs)
        return SymTensor(out, a0.dtype)
    if name == "constant_pad_nd":
        v = args[2] if len(args) > 2 else kwargs.get("value", 0)
        vid = int(ids_of(v, a0.dtype))
        return SymTensor(torch.ops.aten.constant_pad_nd(a0.ids, args[1], vid), a0.dtype)
    if base in ("tril", "triu"):
        mask = getattr(torch, base)(torch.ones(a0.ids.shape, dtype=torch.bool), *args[1:])
        r = torch.where(mask, a0.ids, torch.tensor(const_node(0, a0.dtype)))
        if inplace:
            a0.ids.copy_(r)
            return a0
        return SymTensor(r, a0.dtype)
    if name in ("diag", "diag_embed"):
        if name == "diag" and a0.ids.dim() == 2:
            return SymTensor(torch.diag(a0.ids, *args[1:]).clone(), a0.dtype)
        m = torch.diag(a0.ids + 1, *args[1:]) if name == "diag" else torch.diag_embed(a0.ids + 1, *args[1:])
        return SymTensor(torch.where(m == 0, torch.tensor(const_node(0, a0.dtype)), m - 1), a0.dtype)
    if name in ("broadcast_tensors",):
        outs = torch.broadcast_tensors(*[ids_of(t) for t in a0])
        return [SymTensor(o, t.dtype) for o, t in zip(outs, a0)]
    if name == "nonzero":
        c = to_concrete(a0)
        if c is None:
            l = a0.bool().ids.reshape(-1).tolist()
            vals = [bool(Ctx.decide(n)) if not N.is_const(n) else N.cval(n) for n in l]
            c = torch.tensor(vals).reshape(a0.ids.shape)
        return lift(torch.nonzero(c))

    # ---- everything constant: let the real kernel do it
    ts = [t for t in flat_args(args, kwargs) if isinstance(t, (torch.Tensor, SymScalar))]
    if all(not isinstance(t, SymScalar) and all_const(t) for t in ts) and (N.FMODE != "real" or ring_kernel_ok(ts)):
        cargs = concretize_all(args)
        ckw = {k: concretize(v) for k, v in kwargs.items()}
        out = func(*cargs, **ckw)
        if inplace and isinstance(a0, SymTensor):
            a0.ids.copy_(lift(cargs[0]).ids)
            return a0
        if inplace:
            return a0
        return relift(out)

    try:
        r = compute(func, name, base, args, kwargs, ov)
    except Unsupported:
        if N.FMODE == "real" and all(not isinstance(t, SymScalar) and to_concrete(t) is not None for t in ts) and not inplace:
            return relift(func(*concretize_all(args), **{k: concretize(v) for k, v in kwargs.items()}))
        raise
    if inplace or base.startswith("__i"):
        if not isinstance(a0, SymTensor):
            raise Unsupported(f"symbolic result of {name} written into a plain tensor")
        if not torch.can_cast(r.dtype, a0.dtype):
            raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {a0.dtype}")
        if list(r.ids.shape) != list(a0.ids.shape):
            raise RuntimeError(f"output with shape {list(a0.ids.shape)} doesn't match the broadcast shape {list(r.ids.shape)}")
        if N.SORTS[0:1] and r.dtype != a0.dtype:
            r = SymTensor(ids_of(r, a0.dtype), a0.dtype)
        # reject internal overlap as torch does
        a0.ids.copy_(r.ids)
        return a0
    out = kwargs.get("out")
    if out is not None:
        if list(out.ids.shape) != list(r.ids.shape):
            out.ids = r.ids.clone()
        else:
            assign_(out, r)
        return out
    return r


def ring_kernel_ok(ts):
    """exact mode: integer/boolean constants may use the real kernel (no rounding possible)"""
    return RING and all(t.dtype in (torch.int64, torch.bool) and to_concrete(t) is not None for t in ts)


def concretize_all(args):
    return [concretize(a) for a in args]


def scatterlike(func, name, base, inplace, args, kwargs, ov):
    a0 = args[0]
    if inplace:
        tgt = a0
        if not isinstance(tgt, SymTensor):
            vals = [t for t in args[1:] if isinstance(t, SymTensor)]
            if all(all_const(t) for t in vals):
                return func(a0, *concretize_all(args[1:]), **{k: concretize(v) for k, v in kwargs.items()})
            raise Unsupported("symbolic value written into a plain tensor")
    else:
        tgt = SymTensor(ids_of(a0).clone(), a0.dtype)
    dt = tgt.dtype
    if base == "masked_fill":
        m, v = args[1], args[2]
        shape = torch.broadcast_shapes(tgt.ids.shape, m.shape)
        r = ewise(lambda c, x, y: N.ite(c, y, x), shape, dt, [ids_of(m, torch.bool), tgt.ids, ids_of(v, dt)])
        if inplace:
            tgt.ids.copy_(r.ids)
            return tgt
        return r
    if base == "masked_scatter":
        m = conc_index(args[1])
        tgt.ids.masked_scatter_(m, ids_of(args[2], dt).contiguous())
        return tgt
    if base == "put":
        if len(args) > 3 and args[3]:
            raise Unsupported("put accumulate")
        tgt.ids.put_(conc_index(args[1]), ids_of(args[2], dt))
        return tgt
    if base == "index_copy":
        tgt.ids.index_copy_(args[1], conc_index(args[2]), ids_of(args[3], dt))
        return tgt
    if base == "index_fill":
        tgt.ids.index_fill_(args[1], conc_index(args[2]), int(ids_of(args[3], dt)))
        return tgt
    dim = args[1]
    index = conc_index(args[2])
    if base == "scatter":
        src = args[3]
        red = kwargs.get("reduce") or (args[4] if len(args) > 4 else None)
        if red is None:
            if isinstance(src, torch.Tensor):
                tgt.ids.scatter_(dim, index, ids_of(src, dt))
            else:
                tgt.ids.scatter_(dim, index, int(ids_of(src, dt)))
            return tgt
        if red != "add":
            raise Unsupported("scatter reduce " + red)
        base = "scatter_add"
        if not isinstance(src, torch.Tensor):
            src = torch.full(index.shape, src, dtype=dt)
        args = (a0, dim, index, src)
    src = args[3]
    sid = ids_of(src, dt)
    pos = torch.arange(tgt.ids.numel()).reshape(tgt.ids.shape)
    cur = tgt.ids.reshape(-1).tolist()
    alpha = kwargs.get("alpha", 1)
    if base == "index_add":
        if src.dtype != dt:
            raise RuntimeError("index_add_(): self and source expected to have the same dtype")
        sel = pos.index_select(dim, index)
        if list(sel.shape) != list(sid.shape):
            func(meta(a0), dim, meta(args[2]), meta(src))
        if alpha != 1:
            sid = mkids([MUL(const_node(alpha, dt), n) for n in sid.reshape(-1).tolist()], sid.shape)
    elif base == "scatter_add":
        if src.dtype != dt:
            raise RuntimeError("scatter(): Expected self.dtype to be equal to src.dtype")
        sel = torch.gather(pos, dim, index) if pos.dim() else pos
        sid = sid[tuple(slice(0, s) for s in index.shape)]
    else:
        raise Unsupported(name)
    for p, n in zip(sel.reshape(-1).tolist(), sid.reshape(-1).tolist()):
        cur[p] = ADD(cur[p], n)
    tgt.ids.copy_(mkids(cur, tgt.ids.shape))
    return tgt


def compute(func, name, base, args, kwargs, ov):
    a0 = args[0] if args else None
    key = name if name.startswith("__") else base

    # ---- elementwise binary
    if key in ("div", "divide", "true_divide", "floor_divide"):
        mode = kwargs.get("rounding_mode")
        x, y = args[:2]
        m = torch.ops.aten.div(*promo(x, y), rounding_mode=mode) if key != "floor_divide" else torch.ops.aten.floor_divide(*promo(x, y))
        if key == "floor_divide":
            mode = "floor"
        fn = {None: TRUEDIV, "trunc": TRUNCDIV, "floor": FLOORDIV}[mode]
        if RING and m.dtype == torch.int64:
            fn = TRUEDIV
        return ewise(fn, m.shape, m.dtype, [ids_of(x, m.dtype), ids_of(y, m.dtype)])
    if key in BIN:
        x, y = args[:2]
        alpha = kwargs.get("alpha", args[2] if len(args) > 2 and key in ("add", "sub", "rsub") else 1)
        m = torch.add(*promo(x, y)) if key not in ("pow", "atan2") else getattr(torch, key)(*promo(x, y))
        dt = m.dtype
        fn = BIN[key]
        xi, yi = ids_of(x, dt), (ids_of(y, dt) if not (key == "pow" and not isinstance(y, torch.Tensor)) else ids_of(y))
        if alpha != 1:
            if key == "rsub":
                xi = mkids([MUL(const_node(alpha, dt), n) for n in xi.reshape(-1).tolist()], xi.shape)
            else:
                yi = mkids([MUL(const_node(alpha, dt), n) for n in yi.reshape(-1).tolist()], yi.shape)
        return ewise(fn, m.shape, dt, [xi, yi])
    if key in CMP:
        x, y = args[:2]
        m = torch.add(*promo(x, y)) if not (is_bool(x) and is_bool(y)) else torch.logical_or(*promo(x, y))
        return ewise(CMP[key], m.shape, torch.bool, [ids_of(x, m.dtype), ids_of(y, m.dtype)])
    if key in LOGB:
        x, y = args[:2]
        shape = torch.broadcast_shapes(tuple(x.shape), tuple(y.shape))
        return ewise(LOGB[key], shape, torch.bool, [ids_of(x, torch.bool), ids_of(y, torch.bool)])
    if key in UNB:
        return ewise(UNB[key], a0.ids.shape, torch.bool, [ids_of(a0, torch.bool)])
    if key in UN:
        m = getattr(torch, key)(meta(a0))
        if key in ("isnan", "isinf", "isfinite"):
            return ewise(UN[key], m.shape, torch.bool, [ids_of(a0)])
        return ewise(UN[key], m.shape, m.dtype, [ids_of(a0, m.dtype)])
    if key in ("clamp", "clamp_min", "clamp_max", "clip", "hardtanh"):
        if key == "clamp_min":
            lo, hi = args[1], None
        elif key == "clamp_max":
            lo, hi = None, args[1]
        elif key == "hardtanh":
            lo = args[1] if len(args) > 1 else -1
            hi = args[2] if len(args) > 2 else 1
        else:
            lo = args[1] if len(args) > 1 else kwargs.get("min")
            hi = args[2] if len(args) > 2 else kwargs.get("max")
        r = a0
        if lo is not None:
            r = torch.maximum(r, lo if isinstance(lo, torch.Tensor) else full_like_scalar(r, lo))
        if hi is not None:
            r = torch.minimum(r, hi if isinstance(hi, torch.Tensor) else full_like_scalar(r, hi))
        return r
    if key == "where":
        c, x, y = args
        m = torch.add(*promo(x, y)) if not (is_bool(x) and is_bool(y)) else torch.logical_or(*promo(x, y))
        shape = torch.broadcast_shapes(m.shape, tuple(c.shape))
        return ewise(N.ite, shape, m.dtype, [ids_of(c, torch.bool), ids_of(x, m.dtype), ids_of(y, m.dtype)])
    if key == "addcmul":
        v = kwargs.get("value", 1)
        return a0 + v * args[1] * args[2]
    if key == "addcdiv":
        v = kwargs.get("value", 1)
        return a0 + v * args[1] / args[2]
    if key == "lerp":
        return a0 + args[2] * (args[1] - a0)
    # ---- reductions
    if key in ("sum", "mean", "prod", "all", "any", "amax", "amin", "cumsum", "cumprod", "var", "std", "norm", "linalg_vector_norm", "count_nonzero", "nansum"):
        return reductions(key, func, args, kwargs, ov)
    if key in ("max", "min", "argmax", "argmin", "sort", "topk", "argsort", "median", "kthvalue"):
        return extremum(key, args, kwargs, ov)
    if key == "trace":
        return a0.diagonal().sum()
    # ---- linear algebra
    if key in ("mm", "bmm", "mv", "dot", "addmm", "baddbmm", "matmul", "addmv", "vdot", "inner", "outer", "ger", "addbmm", "linear"):
        return linalg(key, args, kwargs)
    if key in ("convolution", "_convolution", "convolution_overrideable", "conv1d", "conv2d"):
        x, w, b, stride, padding, dilation, transposed, outpad, groups = args[:9]
        m = func(*[meta(a) for a in args], **kwargs)
        dt = torch.promote_types(x.dtype, w.dtype)
        bias = ids_of(b, dt).tolist() if b is not None else None
        return SymTensor(convolution(ids_of(x, dt), ids_of(w, dt), bias, stride, padding, dilation, transposed, outpad, groups, dt, list(m.shape)), dt)
    if key == "avg_pool2d":
        return avg_pool(args, kwargs)
    if key in ("max_pool2d_with_indices", "max_pool2d"):
        return max_pool(key, args, kwargs)
    if key in ("_adaptive_avg_pool2d", "adaptive_avg_pool2d"):
        x = a0
        oh, ow = args[1]
        H, W = x.shape[-2:]
        rows = []
        for i in range(oh):
            for j in range(ow):
                blk = x[..., (i * H) // oh : -((-(i + 1) * H) // oh), (j * W) // ow : -((-(j + 1) * W) // ow)]
                rows.append(blk.mean(dim=(-1, -2)))
        return torch.stack(rows, -1).reshape(list(x.shape[:-2]) + [oh, ow])
    if key in ("_softmax", "softmax"):
        dim = args[1]
        e = a0.exp()
        return e / e.sum(dim, keepdim=True)
    if key in ("_log_softmax", "log_softmax"):
        return a0 - a0.exp().sum(args[1], keepdim=True).log()
    if key == "im2col":
        return relift_struct(func, args, kwargs)
    if key == "threshold":
        return torch.where(a0 > args[1], a0, full_like_scalar(a0, args[2]))
    if key == "leaky_relu":
        sl = args[1] if len(args) > 1 else 0.01
        return torch.where(a0 > 0, a0, a0 * sl)
    if key == "hardsigmoid":
        return torch.clamp(a0 + 3, 0, 6) / 6
    if key in ("rrelu",):
        raise Unsupported(key)
    if key == "_unique2":
        raise Unsupported(key)
    raise Unsupported(f"aten op {name} ({func})")


def full_like_scalar(r, v):
    return SymTensor(torch.full(r.ids.shape, int(ids_of(v, r.dtype))), r.dtype)


def relift_struct(func, args, kwargs):
    raise Unsupported(str(func))


def is_bool(x):
    return isinstance(x, bool) or (isinstance(x, torch.Tensor) and x.dtype == torch.bool)


def promo(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymScalar):
            out.append(1.5 if sort_of(x.dt) == "f" else 1)
        elif isinstance(x, torch.Tensor):
            out.append(torch.empty(tuple(x.ids.shape if isinstance(x, SymTensor) else x.shape), dtype=x.dtype, device="meta"))
        else:
            out.append(x)
    if not any(isinstance(o, torch.Tensor) for o in out):
        out[0] = torch.empty((), dtype=torch.result_type(torch.tensor(out[0]), out[0]), device="meta")
    elif not isinstance(out[0], torch.Tensor):
        # scalar first: emulate a wrapped number
        t = [o for o in out if isinstance(o, torch.Tensor)][0]
        out[0] = torch.empty((), dtype=torch.result_type(t, out[0]), device="meta")
    return out


def reductions(key, func, args, kwargs, ov):
    a0 = args[0]
    if not isinstance(a0, SymTensor):
        raise Unsupported(key)
    nd = a0.ids.dim()
    if key in ("sum", "nansum", "mean", "prod", "all", "any", "amax", "amin", "count_nonzero"):
        dim = None
        keep = False
        if len(args) > 1:
            dim = args[1]
        dim = kwargs.get("dim", dim)
        if len(args) > 2:
            keep = args[2]
        keep = kwargs.get("keepdim", keep)
        dt = kwargs.get("dtype")
        if key in ("sum", "nansum", "prod"):
            if dt is None:
                dt = a0.dtype if a0.dtype in FLOATS else torch.int64
            x = ids_of(a0, dt)
            zero = const_node(0 if key != "prod" else 1, dt)
            if key == "prod":
                def f(r):
                    o = zero
                    for i, n in enumerate(r):
                        o = n if i == 0 else MUL(o, n)
                    return o
            else:
                f = lambda r: summation(r) if r else zero
            return do_reduce(x, dim, keep, f, dt)
        if key == "count_nonzero":
            return a0.bool().sum(*args[1:])
        if key == "mean":
            if a0.dtype not in FLOATS and dt is None:
                raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
            x = ids_of(a0, dt or a0.dtype)
            return do_reduce(x, dim, keep, lambda r: N.fdiv(summation(r), N.cf(float(len(r)))), dt or a0.dtype)
        if key in ("all", "any"):
            x = ids_of(a0, torch.bool)
            f = (lambda r: N.conj(*r)) if key == "all" else (lambda r: N.disj(*r))
            return do_reduce(x, dim, keep, f, torch.bool)

        def f(r):
            o = r[0]
            for n in r[1:]:
                o = MAXI(o, n) if key == "amax" else MINI(o, n)
            return o

        return do_reduce(a0.ids, dim, keep, f, a0.dtype)
    if key in ("cumsum", "cumprod"):
        dim = args[1]
        dt = kwargs.get("dtype") or (a0.dtype if a0.dtype in FLOATS else torch.int64)
        x = ids_of(a0, dt)
        if nd == 0:
            return SymTensor(x.clone(), dt)
        p = x.movedim(dim, -1)
        rows = p.reshape(-1, p.shape[-1]).tolist()
        out = []
        for r in rows:
            acc = None
            for n in r:
                acc = n if acc is None else (ADD(acc, n) if key == "cumsum" else MUL(acc, n))
                out.append(acc)
        return SymTensor(mkids(out, p.shape).movedim(-1, dim), dt)
    if key in ("var", "std"):
        # var.correction / var / var.dim
        dim = None
        corr = 1
        keep = False
        if ov == "correction" or "correction" in kwargs:
            dim = args[1] if len(args) > 1 else None
            corr = kwargs.get("correction", 1)
            corr = 1 if corr is None else corr
            keep = kwargs.get("keepdim", False)
        elif ov == "dim":
            dim, corr = args[1], int(args[2] if len(args) > 2 else True)
            keep = args[3] if len(args) > 3 else False
        else:
            corr = int(args[1]) if len(args) > 1 else 1
        mu = a0.mean(dim, keepdim=True) if dim is not None else a0.mean()
        d = a0 - mu
        cnt = a0.numel() if dim is None else math.prod(a0.shape[x] for x in ([dim] if isinstance(dim, int) else dim))
        s = (d * d).sum(dim, keepdim=keep) if dim is not None else (d * d).sum()
        v = s / (cnt - corr)
        return v if key == "var" else v.sqrt()
    if key in ("norm", "linalg_vector_norm"):
        p = args[1] if len(args) > 1 else 2
        dim = args[2] if len(args) > 2 else kwargs.get("dim")
        keep = args[3] if len(args) > 3 else kwargs.get("keepdim", False)
        p = 2 if p is None else p
        if p == 2:
            s = (a0 * a0).sum(dim, keepdim=keep) if dim is not None else (a0 * a0).sum()
            return s.sqrt()
        if p == 1:
            return a0.abs().sum(dim, keepdim=keep) if dim is not None else a0.abs().sum()
    raise Unsupported(key)


def extremum(key, args, kwargs, ov):
    a0 = args[0]
    if key in ("max", "min"):
        if len(args) == 1:
            rows, _ = reduce_dims(a0.ids, None, False)
            o = rows[0][0]
            for n in rows[0][1:]:
                o = MAXI(o, n) if key == "max" else MINI(o, n)
            return SymTensor(torch.tensor(o), a0.dtype)
        if isinstance(args[1], torch.Tensor):
            return getattr(torch, key + "imum")(a0, args[1])
        dim = args[1]
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        rows, shp = reduce_dims(a0.ids, dim, keep)
        vs, ix = [], []
        for r in rows:
            o, i = r[0], const_node(0, torch.int64)
            for k, n in enumerate(r[1:], 1):
                better = LT(o, n) if key == "max" else LT(n, o)
                o, i = N.ite(better, n, o), N.ite(better, const_node(k, torch.int64), i)
            vs.append(o)
            ix.append(i)
        return SymTensor(mkids(vs, shp), a0.dtype), SymTensor(mkids(ix, shp), torch.int64)
    if key in ("argmax", "argmin"):
        dim = args[1] if len(args) > 1 else kwargs.get("dim")
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        if dim is None:
            x = a0.reshape(-1)
            return extremum(key[3:], (x, 0, False), {}, "dim")[1]
        return extremum(key[3:], (a0, dim, keep), {}, "dim")[1]
    raise Unsupported(key)


def linalg(key, args, kwargs):
    ts = [a for a in args if isinstance(a, torch.Tensor)]
    dt = ts[0].dtype
    for t in ts:
        if t.dtype != dt:
            raise RuntimeError(f"expected m1 and m2 to have the same dtype, but got: {dt} != {t.dtype}")
    I = lambda t: ids_of(t, dt)
    W = lambda t: SymTensor(t, dt)

    def chk(a, b):
        if a.shape[-1] != b.shape[-2]:
            raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({list(a.shape)} and {list(b.shape)})")

    if key == "mm":
        chk(args[0], args[1])
        return W(mmz(I(args[0]), I(args[1]), dt))
    if key == "mv":
        return W(mmz(I(args[0]), I(args[1]).unsqueeze(1), dt).squeeze(1))
    if key in ("dot", "vdot"):
        if args[0].shape != args[1].shape:
            raise RuntimeError("inconsistent tensor size, expected tensor and src to have the same number of elements")
        return W(mmz(I(args[0]).unsqueeze(0), I(args[1]).unsqueeze(1), dt).reshape(()))
    if key in ("outer", "ger"):
        return W(mmz(I(args[0]).unsqueeze(1), I(args[1]).unsqueeze(0), dt))
    if key == "bmm":
        chk(args[0], args[1])
        a, b = I(args[0]), I(args[1])
        if a.shape[0] != b.shape[0]:
            raise RuntimeError("batch1 and batch2 must have same number of batches")
        return W(torch.stack([mmz(x, y, dt) for x, y in zip(a, b)]) if a.shape[0] else torch.empty((0, a.shape[1], b.shape[2]), dtype=torch.int64))
    if key == "linear":
        r = torch.matmul(args[0], args[1].t())
        return r + args[2] if len(args) > 2 and args[2] is not None else r
    if key in ("addmm", "baddbmm", "addmv"):
        beta, alpha = kwargs.get("beta", 1), kwargs.get("alpha", 1)
        p = linalg({"addmm": "mm", "baddbmm": "bmm", "addmv": "mv"}[key], args[1:3], {})
        return (args[0] if beta == 1 else args[0] * beta) + (p if alpha == 1 else p * alpha)
    raise Unsupported(key)


def mmz(a, b, dt):
    if a.shape[1] == 0:
        return torch.full((a.shape[0], b.shape[1]), const_node(0, dt))
    return mm_ids(a, b)


def avg_pool(args, kwargs):
    x = args[0]
    kernel = two(args[1])
    stride = two(args[2] if len(args) > 2 else None, kernel)
    padding = two(args[3] if len(args) > 3 else None, [0, 0])
    ceil = args[4] if len(args) > 4 else False
    cip = args[5] if len(args) > 5 else True
    div = args[6] if len(args) > 6 else kwargs.get("divisor_override")
    if ceil:
        raise Unsupported("avg_pool ceil_mode")
    m = torch.ops.aten.avg_pool2d(torch.empty(tuple(x.ids.shape), device="meta"), kernel, stride, padding, ceil, cip, div)
    wins = pool2d_windows(x.ids, kernel, stride, padding, [1, 1], m.shape[-2:])
    planes = x.ids.reshape(-1, x.ids.shape[-2] * x.ids.shape[-1]).tolist()
    dt = x.dtype
    out = []
    for p in planes:
        for w in wins:
            vals = [p[i] for i in w if i is not None]
            s = summation(vals) if vals else const_node(0, dt)
            d = div if div else (len(w) if cip else max(1, len(vals)))
            if d != 1:
                s = N.fdiv(s, N.cf(float(d))) if sort_of(dt) == "f" else N.tdiv(s, N.ci(d))
            out.append(s)
    return SymTensor(mkids(out, m.shape), dt)


def max_pool(key, args, kwargs):
    x = args[0]
    kernel = two(args[1])
    stride = two(args[2] if len(args) > 2 else None, kernel)
    padding = two(args[3] if len(args) > 3 else None, [0, 0])
    dil = two(args[4] if len(args) > 4 else None, [1, 1])
    ceil = args[5] if len(args) > 5 else False
    m = torch.ops.aten.max_pool2d_with_indices(torch.empty(tuple(x.ids.shape), device="meta"), kernel, stride, padding, dil, ceil)[0]
    wins = pool2d_windows(x.ids, kernel, stride, padding, dil, m.shape[-2:])
    planes = x.ids.reshape(-1, x.ids.shape[-2] * x.ids.shape[-1]).tolist()
    out, idx = [], []
    for p in planes:
        for w in wins:
            v = i = None
            for pos in w:
                if pos is None:
                    continue
                if v is None:
                    v, i = p[pos], const_node(pos, torch.int64)
                else:
                    b = LT(v, p[pos])
                    v, i = N.ite(b, p[pos], v), N.ite(b, const_node(pos, torch.int64), i)
            out.append(v)
            idx.append(i)
    o = SymTensor(mkids(out, m.shape), x.dtype)
    return (o, SymTensor(mkids(idx, m.shape), torch.int64)) if key.endswith("indices") else o


class SymMode(TorchDispatchMode):
    """makes factory functions return SymTensors and random draws symbolic"""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        if any(isinstance(a, (SymTensor, SymScalar)) for a in flat_args(args, kwargs)):
            return dispatch(func, args, kwargs)
        if name in RNG_OPS:
            t = args[0] if args and isinstance(args[0], torch.Tensor) else None
            if t is None:
                return rng_op(name, func, args, kwargs)
            return func(*args, **kwargs)
        if name in FACTORY:
            r = func(*args, **kwargs)
            if name.startswith("empty"):
                if r.device.type == "meta":
                    return r
                if r.dtype in LIFT:
                    r.zero_()
            return lift(r) if r.dtype in LIFT and r.device.type == "cpu" else r
        if name in ("lift_fresh",):
            r = func(*args, **kwargs)
            return lift(r) if r.dtype in LIFT and r.device.type == "cpu" and r.numel() <= 4096 and not r.requires_grad else r
        return func(*args, **kwargs)


def sym_int(name, shape=(), lo=None, hi=None):
    """symbolic int64 tensor; elements name[i], lo <= v < hi"""
    n = math.prod(shape)
    with nomode():
        ids = mkids([N.var(f"{name}[{i}]", lo, hi) if not RING else N.fvar(f"{name}[{i}]", (lo, hi) if lo is not None else None) for i in range(n)], tuple(shape))
        return SymTensor(ids, torch.int64)


def sym_fx(name, shape=(), k=16, lo=None, hi=None, dtype=torch.float32):
    """symbolic float tensor holding exact multiples of 2**-k: bv/2**k"""
    n = math.prod(shape)
    with nomode():
        ids = mkids([N.fx(N.var(f"{name}[{i}]", lo, hi), k) for i in range(n)], tuple(shape))
        return SymTensor(ids, dtype)


def sym_float(name, shape=(), dtype=torch.float32, attrs=None):
    n = math.prod(shape)
    with nomode():
        return SymTensor(mkids([N.fvar(f"{name}[{i}]", attrs) for i in range(n)], tuple(shape)), dtype)


def ids_list(t):
    return lift(t).ids.reshape(-1).tolist()
