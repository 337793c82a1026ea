"""A world of parties, each an OS process running the real CrypTen stack.

run_symbolic: torch tensors are SymTensors, torch.distributed is replaced by a
symbolic exchange through the hub (the parent process), which records the full
transcript.  run_concrete: the unmodified code over real gloo, only the random
draws pinned to the values of a solver model (replay).
"""
import hashlib
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing import Pipe
from multiprocessing.connection import wait as mpwait

import torch

from . import nodes as N
from . import tensor as T
from .nodes import Unsupported
from .tensor import SymTensor, SymMode, lift

ROOT = os.environ.get("SYMX_REPO", "/repo")


def load_crypten():
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import crypten  # noqa

    assert os.path.realpath(crypten.__file__).startswith(ROOT + "/"), crypten.__file__
    import crypten.mpc.provider.ttp_provider  # noqa
    import crypten.communicator.in_process_communicator  # noqa
    import torch.distributed  # noqa

    torch.set_num_threads(1)
    # warm lazily imported parts of torch before forking
    m = torch.empty((1, 1, 2, 2), device="meta")
    torch.add(m, m)
    torch.conv2d(m, m)
    with SymMode():
        t = torch.zeros(2, dtype=torch.long)
        (t + T.sym_int("w", (2,))) * 2
    N.reset()
    return crypten


# --------------------------------------------------------------- payloads
def pack_struct(obj, ids):
    """python structure with SymTensors -> picklable skeleton + id list"""
    if isinstance(obj, SymTensor):
        l = obj.ids.reshape(-1).tolist()
        s = ("T", len(ids), len(l), tuple(obj.ids.shape), str(obj.dtype))
        ids.extend(l)
        return s
    if isinstance(obj, torch.Tensor):
        return pack_struct(lift(obj), ids)
    if isinstance(obj, dict):
        return ("D", [(k, pack_struct(v, ids)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return ("L", [pack_struct(v, ids) for v in obj])
    return ("P", obj)


class SymOut:
    """tensor-valued result seen by the hub: node ids + shape + dtype"""

    def __init__(self, ids, shape, dtype):
        self.ids, self.shape, self.dtype = ids, tuple(shape), dtype

    def __len__(self):
        return len(self.ids)

    def __repr__(self):
        return f"SymOut(shape={self.shape}, dtype={self.dtype})"


def unpack_struct(s, ids, as_tensor=False):
    t = s[0]
    if t == "T":
        _, off, n, shape, dt = s
        if as_tensor:
            return SymTensor(T.mkids(ids[off : off + n], shape), getattr(torch, dt.split(".")[1]))
        return SymOut(ids[off : off + n], shape, dt)
    if t == "D":
        return {k: unpack_struct(v, ids, as_tensor) for k, v in s[1]}
    if t == "L":
        return [unpack_struct(v, ids, as_tensor) for v in s[1]]
    return s[1]


# --------------------------------------------------------------- party side
class PartyLink:
    def __init__(self, conn, rank):
        self.conn, self.rank = conn, rank
        self.enc, self.dec = N.Encoder(), N.Decoder()
        self.nreq = 0
        self.replies = {}

    def post(self, kind, meta, obj=None):
        ids = []
        sk = pack_struct(obj, ids)
        self.nreq += 1
        self.conn.send((kind, self.nreq, meta, sk, self.enc.encode(ids)))
        return self.nreq

    def wait(self, rid):
        while rid not in self.replies:
            if not self.conn.poll():
                self.conn.send(("waiting", rid, None, ("P", None), ([], [])))
            r = self.conn.recv()
            if r[0] == "abort":
                raise SystemExit(7)
            _, rr, sk, payload = r
            ids = self.dec.decode(payload)
            self.replies[rr] = unpack_struct(sk, ids, as_tensor=True)
        return self.replies.pop(rid)

    def call(self, kind, meta, obj=None):
        return self.wait(self.post(kind, meta, obj))


class Work:
    def __init__(self, fn):
        self.fn, self.done = fn, False

    def wait(self, *a, **k):
        if not self.done:
            self.fn()
            self.done = True
        return True

    def is_completed(self):
        return self.done


class Group:
    def __init__(self, gid, ranks):
        self.gid, self.ranks = gid, tuple(ranks)


def write_into(t, val):
    if tuple(t.shape) != tuple(val.shape):
        if t.numel() != val.numel():
            raise RuntimeError(f"[symbolic transport] received {tuple(val.shape)} into a buffer of {tuple(t.shape)}")
        val = val.reshape(t.shape)
    with T.nomode():
        if isinstance(t, SymTensor):
            t.ids.copy_(T.ids_of(val, t.dtype))
        else:
            c = T.to_concrete(val) if isinstance(val, SymTensor) else val
            if c is None:
                raise Unsupported("symbolic payload into plain buffer")
            t.copy_(c.reshape(t.shape))


class SymDist:
    """replacement for the torch.distributed functions"""

    def __init__(self, link, rank, total):
        self.link, self.rank, self.total = link, rank, total
        self.groups = {}
        self.inited = False
        self.ng = 0

    # -- process group management
    def init_process_group(self, backend=None, init_method=None, world_size=-1, rank=-1, **k):
        self.inited = True
        self.world = Group(0, range(world_size))
        self.link.call("init", {"world": world_size, "rank": rank})

    def is_initialized(self):
        return self.inited

    def new_group(self, ranks=None, *a, **k):
        self.ng += 1
        return Group(self.ng, ranks if ranks is not None else range(self.total))

    def destroy_process_group(self, group=None):
        if group is None:
            self.inited = False

    def get_rank(self, group=None):
        return self.rank

    def get_world_size(self, group=None):
        return len(group.ranks) if group is not None else self.total

    def get_backend(self, group=None):
        return "gloo"

    def _g(self, group):
        return group if group is not None else self.world

    # -- p2p
    def _send(self, tensor, dst, group, tag):
        g = self._g(group)
        if dst == self.rank:
            raise ValueError("Invalid destination rank: destination rank should not be the same as the rank of the current process.")
        self.link.post("send", {"g": (g.gid, g.ranks), "dst": dst, "tag": tag}, tensor)
        return Work(lambda: None)

    def send(self, tensor, dst, group=None, tag=0):
        self._send(tensor, dst, group, tag)

    def isend(self, tensor, dst, group=None, tag=0):
        return self._send(tensor, dst, group, tag)

    def irecv(self, tensor, src=None, group=None, tag=0):
        g = self._g(group)
        rid = self.link.post("recv", {"g": (g.gid, g.ranks), "src": src, "tag": tag})
        return Work(lambda: write_into(tensor, self.link.wait(rid)["v"]))

    def recv(self, tensor, src=None, group=None, tag=0):
        self.irecv(tensor, src, group, tag).wait()
        return src

    # -- collectives
    def _coll(self, kind, meta, group, obj, fin, async_op):
        g = self._g(group)
        if self.rank not in g.ranks:
            return None
        meta = dict(meta)
        meta["g"] = (g.gid, g.ranks)
        rid = self.link.post("coll:" + kind, meta, obj)
        w = Work(lambda: fin(self.link.wait(rid)))
        if async_op:
            return w
        w.wait()

    def all_reduce(self, tensor, op=None, group=None, async_op=False):
        return self._coll("all_reduce", {"op": opname(op)}, group, tensor, lambda r: write_into(tensor, r["v"]), async_op)

    def reduce(self, tensor, dst, op=None, group=None, async_op=False):
        def fin(r):
            if dst == self.rank:
                write_into(tensor, r["v"])

        return self._coll("reduce", {"op": opname(op), "root": dst}, group, tensor, fin, async_op)

    def broadcast(self, tensor, src, group=None, async_op=False):
        def fin(r):
            if src != self.rank:
                write_into(tensor, r["v"])

        return self._coll("broadcast", {"root": src, "n": tensor.numel()}, group, tensor if src == self.rank else None, fin, async_op)

    def scatter(self, tensor, scatter_list=None, src=0, group=None, async_op=False):
        def fin(r):
            write_into(tensor, r["v"])

        return self._coll("scatter", {"root": src}, group, list(scatter_list) if src == self.rank else None, fin, async_op)

    def gather(self, tensor, gather_list=None, dst=0, group=None, async_op=False):
        def fin(r):
            if dst == self.rank:
                for t, v in zip(gather_list, r["v"]):
                    write_into(t, v)

        return self._coll("gather", {"root": dst}, group, tensor, fin, async_op)

    def all_gather(self, tensor_list, tensor, group=None, async_op=False):
        def fin(r):
            for t, v in zip(tensor_list, r["v"]):
                write_into(t, v)

        return self._coll("all_gather", {}, group, tensor, fin, async_op)

    def barrier(self, group=None, async_op=False, device_ids=None):
        return self._coll("barrier", {}, group, None, lambda r: None, async_op)


def opname(op):
    if op is None:
        return "SUM"
    return str(op).split(".")[-1]


DIST_NAMES = ["init_process_group", "is_initialized", "new_group", "destroy_process_group", "get_rank", "get_world_size",
              "get_backend", "send", "isend", "irecv", "recv", "all_reduce", "reduce", "broadcast", "scatter", "gather",
              "all_gather", "barrier"]


class PartyCtx:
    """what a scenario function sees inside a party process"""

    def __init__(self, rank, world_size, symbolic, values=None):
        self.rank, self.world_size, self.symbolic = rank, world_size, symbolic
        self.values = values or {}

    def int(self, name, shape=(), lo=None, hi=None):
        if self.symbolic:
            return T.sym_int(name, shape, lo, hi)
        return self._conc(name, shape, torch.int64)

    def bits(self, name, shape=()):
        return self.int(name, shape, 0, 2)

    def flt(self, name, shape=(), k=16, lo=None, hi=None, dtype=torch.float32):
        """float tensor whose elements are exact multiples of 2**-k"""
        if self.symbolic:
            return T.sym_fx(name, shape, k, lo, hi, dtype)
        t = self._conc(name, shape, torch.int64)
        return (t.double() / 2**k).to(dtype)

    def real(self, name, shape=(), dtype=torch.float32, attrs=None):
        if self.symbolic:
            return T.sym_float(name, shape, dtype, attrs)
        n = 1
        for s in shape:
            n *= s
        v = [float(self.values.get(f"{name}[{i}]", 0)) for i in range(n)]
        return torch.tensor(v, dtype=dtype).reshape(shape)

    def _conc(self, name, shape, dt):
        n = 1
        for s in shape:
            n *= s
        v = [int(self.values.get(f"{name}[{i}]", 0)) for i in range(n)]
        return torch.tensor(v, dtype=dt).reshape(shape)


def seeded_urandom(rank):
    cnt = [0]

    def f(n):
        cnt[0] += 1
        return hashlib.blake2b(f"verif:{rank}:{cnt[0]}".encode(), digest_size=max(1, min(64, n))).digest()[:n]

    return f


def apply_cfg(cfg_over):
    import crypten

    for k, v in (cfg_over or {}).items():
        a, b = k.split(".")
        setattr(getattr(crypten.cfg, a), b, v)


def party_env(rank, ws, rdv):
    os.environ["WORLD_SIZE"] = str(ws)
    os.environ["RANK"] = str(rank)
    os.environ["DISTRIBUTED_BACKEND"] = "gloo"
    os.environ["RENDEZVOUS"] = rdv
    os.environ["GLOO_SOCKET_IFNAME"] = "lo"


def quiet():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


RING_UF = {
    # MPCTensor method -> uninterpreted function of the decoded value (exact-arithmetic mode only)
    "exp": "exp", "log": "log", "reciprocal": "recip", "sqrt": "sqrt", "inv_sqrt": "rsqrt", "sigmoid": "sigmoid", "tanh": "tanh",
    "erf": "erf", "sin": "sin", "cos": "cos",
}


def patch_ring(stubs):
    """exact-arithmetic abstraction: bit-level primitives (sign test) and iterative approximations
    (only those named in `stubs`) are replaced by their mathematical meaning"""
    from crypten.encoder import FixedPointEncoder
    from crypten.mpc import MPCTensor

    def decode(self, tensor):
        if tensor is None:
            return None
        return tensor.float() / self._scale if self._scale > 1 else tensor.data

    FixedPointEncoder.decode = decode

    import crypten.communicator as comm
    from crypten.cryptensor import CrypTensor

    def ideal(self, g):
        # functionality: the shared value, mapped by g, shared again (party 0 holds it)
        v = self._tensor.reveal()
        r = self.clone()
        t = g(v)
        r._tensor.share = t if comm.get().get_rank() == 0 else t * 0
        return r

    def _ltz(self):
        r = ideal(self, lambda v: (v < 0).long())
        r.encoder = FixedPointEncoder(precision_bits=0)
        return r

    def _eqz_2PC(self):
        r = ideal(self, lambda v: (v == 0).long())
        r.encoder = FixedPointEncoder(precision_bits=0)
        return r

    def rand(*sizes, device=None):
        # uniform in [0, 1): one symbolic real per element, drawn by party 0
        import crypten

        with CrypTensor.no_grad():
            size = sizes[0] if len(sizes) == 1 and not isinstance(sizes[0], int) else sizes
            u = torch.rand(tuple(size), generator=crypten.generators["local"][torch.device("cpu")])
            r = MPCTensor(torch.zeros(tuple(size)))
            v = (u * r.encoder.scale).long()
            r._tensor.share = v if comm.get().get_rank() == 0 else v * 0
        return r

    MPCTensor.rand = staticmethod(rand)
    MPCTensor._ltz = _ltz
    MPCTensor._eqz_2PC = _eqz_2PC

    def mkstub(name, u):
        def f(self, *a, **k):
            def g(v):
                v = v.float() / self.encoder.scale
                t = T.ewise(lambda n: ring_uf(u, n), v.ids.shape, torch.float32, [v.ids])
                return (t * self.encoder.scale).long()

            return ideal(self, g)

        return f

    def shared(self, t):
        t = (t * self.encoder.scale).long()
        r = self.clone()
        r._tensor.share = t if comm.get().get_rank() == 0 else t * 0
        return r

    def plain(self):
        return self._tensor.reveal().float() / self.encoder.scale

    def softmax(self, dim, **kw):
        e = plain(self).exp()
        return shared(self, e / e.sum(dim, keepdim=True))

    def log_softmax(self, dim, **kw):
        v = plain(self)
        return shared(self, v - v.exp().sum(dim, keepdim=True).log())

    def cossin(self):
        v = plain(self)
        return shared(self, v.cos()), shared(self, v.sin())

    special = {"softmax": softmax, "log_softmax": log_softmax, "cossin": cossin}
    for n in stubs:
        if n == "products":
            ideal_products()
        else:
            setattr(MPCTensor, n, special.get(n) or mkstub(n, RING_UF[n]))


def ideal_products():
    """multiplication protocols replaced by the functionality they are shown to realise in C04/C06/C07"""
    import crypten.communicator as comm
    from crypten.mpc.primitives import beaver

    def make(op):
        def f(x, y, *a, **k):
            fn = getattr(torch, op, None) or getattr(torch.nn.functional, op)
            v = fn(x.reveal(), y.reveal(), *a, **k)
            z = x.clone()
            z.share = v if comm.get().get_rank() == 0 else v * 0
            return z

        return f

    for op in ("mul", "matmul", "conv1d", "conv2d", "conv_transpose1d", "conv_transpose2d"):
        setattr(beaver, op, make(op))

    def square(x):
        v = x.reveal()
        z = x.clone()
        v = v * v
        z.share = v if comm.get().get_rank() == 0 else v * 0
        return z

    beaver.square = square


def ring_uf(u, n):
    if u == "recip":
        return N.fdiv(N.cf(1.0), n)
    if u == "rsqrt":
        return N.fdiv(N.cf(1.0), N.uf("sqrt", n))
    return N.uf(u, n)


STUBS = ()


def party_main_symbolic(conn, rank, ws, total, fn, cfg_over, decisions, zero_local, trace_cov, threads=None):
    import crypten
    import torch.distributed as dist

    quiet()
    link = PartyLink(conn, rank)
    sd = SymDist(link, rank, total)
    for n in DIST_NAMES:
        setattr(dist, n, getattr(sd, n))
    party_env(rank, ws, "file:///nonexistent")
    os.urandom = seeded_urandom(rank)
    torch.manual_seed(1000 + rank)
    import random

    random.seed(rank)
    apply_cfg(cfg_over)

    def decide(n):
        r = link.call("decide", {}, SymTensor(torch.tensor([n]), torch.bool))
        return bool(r["v"])

    def decide_nomode(n):
        with T.nomode():
            return decide(n)

    T.Ctx.decide = decide_nomode
    torch.nn.functional.pad = T.sym_pad
    if zero_local:
        def draw(gen, key, kind, low, high, dt):
            loc = crypten.generators["local"].get(torch.device("cpu"))
            if kind == "int" and gen is loc:
                return N.ci(0)
            return None
        T.Ctx.draw = draw
    ctx = PartyCtx(rank, ws, True)
    cov = Coverage() if trace_cov else None
    status, out, err = "ok", None, None
    try:
        with SymMode():
            if cov:
                cov.start()
            try:
                if rank < ws:
                    crypten.init()
                    if T.RING:
                        patch_ring(STUBS)
                    out = fn(ctx)
                else:
                    crypten.mpc.provider.ttp_provider.TTPServer()
                if rank < ws and total > ws:
                    link.post("done", {})
            finally:
                if cov:
                    cov.stop()
    except Unsupported as e:
        status, err = "unsupported", f"{e}\n{traceback.format_exc()}"
    except SystemExit:
        status = "aborted"
    except BaseException as e:  # noqa
        status, err = "raise", (type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])
    try:
        with T.nomode():
            link.post("result", {"status": status, "err": err, "cov": cov.report() if cov else [], "ops": dict(T.Ctx.ops_seen), "drawn": sorted(T.Ctx.drawn)}, out if status == "ok" else None)
    except Exception as e:
        conn.send(("result", 0, {"status": "unsupported", "err": repr(e), "cov": [], "ops": {}}, ("P", None), ([], [])))
    conn.close()
    os._exit(0)


class Coverage:
    """which functions of /repo/crypten were executed (evidence)"""

    def __init__(self):
        self.f = set()

    def start(self):
        pre = ROOT + "/crypten"

        def prof(frame, ev, arg):
            if ev == "call":
                c = frame.f_code
                if c.co_filename.startswith(pre):
                    self.f.add(c.co_filename[len(ROOT) + 1 :] + ":" + c.co_qualname)

        sys.setprofile(prof)

    def stop(self):
        sys.setprofile(None)

    def report(self):
        return sorted(self.f)


# --------------------------------------------------------------- hub
class Desync(Exception):
    pass


class RunResult:
    def __init__(self):
        self.out = {}
        self.status = {}
        self.err = {}
        self.transcript = []
        self.drawn = {}  # per party: names of the random variables it drew
        self.pc = []  # path condition nodes
        self.cov = set()
        self.ops = {}
        self.desync = None
        self.alternatives = []

    @property
    def ok(self):
        return self.desync is None and all(s == "ok" for s in self.status.values())

    @property
    def unsupported(self):
        return [e for r, e in self.err.items() if self.status.get(r) == "unsupported"]


class Hub:
    def __init__(self, conns, total, decisions, feas):
        self.conns = conns
        self.total = total
        self.enc = {r: N.Encoder() for r in conns}
        self.dec = {r: N.Decoder() for r in conns}
        self.res = RunResult()
        self.colls = {}  # (gid, seq) -> {rank: (rid, kind, meta, obj)}
        self.seq = {}  # (rank,gid) -> seq
        self.sends = {}  # (src,dst,gid,tag) -> [obj]
        self.recvs = []  # (rank, rid, meta)
        self.decisions = decisions  # list of bools in global order (key: (rank, idx))
        self.feas = feas
        self.waiting = {}
        self.answered = set()

    def reply(self, rank, rid, obj):
        self.answered.add((rank, rid))
        ids = []
        sk = pack_hub(obj, ids)
        try:
            self.conns[rank].send(("r", rid, sk, self.enc[rank].encode(ids)))
        except (BrokenPipeError, OSError):
            pass

    def run(self, timeout=240):
        live = dict(self.conns)
        pend_inits = {}
        t0 = time.time()
        nmsg = 0
        while live:
            ready = mpwait(list(live.values()), timeout=0.05)
            if not ready:
                if time.time() - t0 > timeout:
                    self.res.desync = "UNSUPPORTED: no progress (timeout)"
                    break
                # every live party waits for a reply that cannot come
                if self.blocked(live):
                    if all(s not in ("raise", "unsupported", "died") for s in self.res.status.values()):
                        self.res.desync = "deadlock: " + self.describe()
                    break
                continue
            for c in ready:
                rank = [r for r, cc in live.items() if cc is c][0]
                try:
                    msg = c.recv()
                except (EOFError, ConnectionResetError):
                    del live[rank]
                    if rank not in self.res.status:
                        self.res.status[rank] = "died"
                        self.res.err[rank] = "process died"
                    continue
                nmsg += 1
                t0 = time.time()
                kind, rid, meta, sk, payload = msg
                if kind == "waiting":
                    self.waiting[rank] = rid
                    continue
                self.waiting.pop(rank, None)
                ids = self.dec[rank].decode(payload)
                obj = unpack_struct(sk, ids)
                try:
                    self.handle(rank, kind, rid, meta, obj)
                except Desync as e:
                    self.res.desync = str(e)
                    live = {}
                    break
                if kind == "result":
                    live.pop(rank, None)
        for r, c in self.conns.items():
            try:
                c.send(("abort",))
            except Exception:
                pass
        self.res.nmsg = nmsg
        return self.res

    def blocked(self, live):
        return all(r in self.waiting and (r, self.waiting[r]) not in self.answered for r in live)

    def describe(self):
        w = []
        for k, v in self.colls.items():
            w.append(f"group {k[0]} #{k[1]}: " + ", ".join(f"party {r} in {x[1]}" for r, x in sorted(v.items())))
        for r, rid, m in self.recvs:
            w.append(f"party {r} receiving from {m['src']}")
        return "; ".join(w) or "parties waiting"

    def handle(self, rank, kind, rid, meta, obj):
        if kind == "result":
            self.res.status[rank] = meta["status"]
            if meta["err"] is not None:
                self.res.err[rank] = meta["err"]
            self.res.cov.update(meta["cov"])
            self.res.drawn[rank] = set(meta.get("drawn", ()))
            for k, v in meta["ops"].items():
                self.res.ops[k] = self.res.ops.get(k, 0) + v
            if meta["status"] == "ok":
                self.res.out[rank] = obj
        elif kind == "done":
            pass
        elif kind == "init":
            self.reply(rank, rid, None)
        elif kind == "decide":
            n = obj.ids[0]
            i = len(self.res.pc)
            if i < len(self.decisions):
                v = self.decisions[i]
            else:
                t, f = self.feas(self.res.pc, n)
                if t is None or f is None:
                    raise Desync("UNSUPPORTED: path feasibility unknown")
                v = bool(t)
                if t and f:
                    self.res.alternatives.append([d for d in self.taken()] + [False])
            self.res.pc.append(n if v else N.bnot(n))
            self.res._taken = self.taken() + [v]
            self.reply(rank, rid, {"v": v})
        elif kind == "send":
            g = meta["g"][0]
            self.res.transcript.append(("p2p", (rank, meta["dst"]), obj))
            self.sends.setdefault((rank, meta["dst"], g, meta["tag"]), []).append(obj)
            self.match()
        elif kind == "recv":
            self.recvs.append((rank, rid, meta))
            self.match()
        elif kind.startswith("coll:"):
            gid, ranks = meta["g"]
            s = self.seq.get((rank, gid), 0)
            self.seq[(rank, gid)] = s + 1
            d = self.colls.setdefault((gid, s), {})
            d[rank] = (rid, kind[5:], meta, obj)
            for r, x in d.items():
                if x[1] != kind[5:] or any(x[2].get(k) != meta.get(k) for k in ("op", "root")):
                    raise Desync(f"collective mismatch: party {r} issued {x[1]}{ {k: x[2].get(k) for k in ('op', 'root')} }, party {rank} issued {kind[5:]}{ {k: meta.get(k) for k in ('op', 'root')} }")
            if len(d) == len(ranks):
                del self.colls[(gid, s)]
                self.complete(kind[5:], ranks, d)
        else:
            raise Unsupported(kind)

    def taken(self):
        return list(getattr(self.res, "_taken", []))

    def match(self):
        for i, (rank, rid, meta) in enumerate(list(self.recvs)):
            cands = [k for k in self.sends if k[1] == rank and k[2] == meta["g"][0] and k[3] == meta["tag"] and self.sends[k]
                     and (meta["src"] is None or k[0] == meta["src"])]
            if cands:
                # FIFO among this party's receives from the same source
                earlier = [x for x in self.recvs if x[0] == rank and x[2]["src"] == meta["src"] and x[2]["g"][0] == meta["g"][0]]
                if earlier[0][1] != rid:
                    continue
                obj = self.sends[cands[0]].pop(0)
                self.recvs.remove((rank, rid, meta))
                self.reply(rank, rid, {"v": obj})
                return self.match()

    def complete(self, kind, ranks, d):
        tr = self.res.transcript
        meta = next(iter(d.values()))[2]
        root = meta.get("root")
        if kind == "barrier":
            for r in ranks:
                self.reply(r, d[r][0], None)
            return
        if kind in ("all_reduce", "reduce"):
            objs = [d[r][3] for r in ranks]
            if len({(len(o.ids), o.dtype) for o in objs}) > 1:
                raise Desync(f"{kind}: tensor sizes/dtypes differ between parties: {[(o.shape, o.dtype) for o in objs]}")
            v = SymOut(reduce_nodes(meta["op"], objs), objs[0].shape, objs[0].dtype)
            # who sees what: with gloo, any party may see any individual share
            tr.append((kind, (meta["op"], root, tuple(ranks)), {r: d[r][3] for r in ranks}))
            for r in ranks:
                self.reply(r, d[r][0], {"v": v} if kind == "all_reduce" or r == root else None)
            return
        if kind == "broadcast":
            ns = {d[r][2]["n"] for r in ranks}
            if len(ns) > 1:
                raise Desync(f"broadcast: buffer sizes differ between parties: {ns}")
            v = d[root][3]
            tr.append((kind, (root, tuple(ranks)), v))
            for r in ranks:
                self.reply(r, d[r][0], {"v": v} if r != root else None)
            return
        if kind == "scatter":
            lst = d[root][3]
            if len(lst) != len(ranks):
                raise Desync("scatter: list length differs from group size")
            for i, r in enumerate(ranks):
                tr.append(("p2p", (root, r), lst[i]))
                self.reply(r, d[r][0], {"v": lst[i]})
            return
        if kind in ("gather", "all_gather"):
            vs = [d[r][3] for r in ranks]
            if len({(len(o.ids), o.dtype) for o in vs}) > 1:
                raise Desync(f"{kind}: tensor sizes differ between parties")
            tr.append((kind, (root, tuple(ranks)), {r: d[r][3] for r in ranks}))
            for r in ranks:
                self.reply(r, d[r][0], {"v": vs} if kind == "all_gather" or r == root else None)
            return
        raise Unsupported(kind)


def pack_hub(obj, ids):
    if isinstance(obj, SymOut):
        s = ("T", len(ids), len(obj.ids), obj.shape, obj.dtype)
        ids.extend(obj.ids)
        return s
    if isinstance(obj, dict):
        return ("D", [(k, pack_hub(v, ids)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return ("L", [pack_hub(v, ids) for v in obj])
    return ("P", obj)


def reduce_nodes(op, objs):
    out = []
    for tup in zip(*[o.ids for o in objs]):
        s = N.SORTS[tup[0]]
        if op == "SUM":
            r = T.summation(list(tup))
        elif op == "BXOR":
            r = N.xor(*tup)
        elif op == "BAND":
            r = N.band(*tup)
        elif op == "BOR":
            r = tup[0]
            for x in tup[1:]:
                r = N.bor(r, x)
        elif op == "PRODUCT":
            r = tup[0]
            for x in tup[1:]:
                r = T.MUL(r, x)
        elif op in ("MAX", "MIN"):
            r = tup[0]
            for x in tup[1:]:
                r = (T.MAXI if op == "MAX" else T.MINI)(r, x)
        else:
            raise Unsupported("reduce op " + op)
        out.append(r)
    return out


def run_once(fn, ws, cfg_over=None, decisions=(), ttp=False, zero_local=False, feas=None, cov=True, timeout=240):
    """one symbolic run along one path"""
    total = ws + 1 if ttp else ws
    cfg_over = dict(cfg_over or {})
    cfg_over["mpc.provider"] = "TTP" if ttp else "TFP"
    conns, pids = {}, []
    child_ends = []
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(total):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for c in child_ends:
                    c.close()
                party_main_symbolic(b, r, ws, total, fn, cfg_over, decisions, zero_local, cov)
            finally:
                os._exit(9)
        b.close()
        child_ends.append(a)
        conns[r] = a
        pids.append(pid)
    hub = Hub(conns, total, list(decisions), feas)
    try:
        res = hub.run(timeout) if not ttp else _run_ttp(hub, ws, timeout)
    finally:
        for c in conns.values():
            c.close()
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(p, 0)
    return res


def _run_ttp(hub, ws, timeout):
    """the TTP server loops forever: stop when all clients finished"""
    orig = hub.handle
    ttp = ws

    def handle(rank, kind, rid, meta, obj):
        orig(rank, kind, rid, meta, obj)
        if all(r in hub.res.status for r in range(ws)):
            try:
                hub.conns[ttp].send(("abort",))
            except Exception:
                pass

    hub.handle = handle
    res = hub.run(timeout)
    if all(res.status.get(r) == "ok" for r in range(ws)) and res.status.get(ttp) in (None, "aborted", "died"):
        res.status[ttp] = "ok"
        res.err.pop(ttp, None)
    return res


# --------------------------------------------------------------- concrete replay
class PinnedMode(torch.utils._python_dispatch.TorchDispatchMode):
    """only random draws are replaced, by the values of the model"""

    def __init__(self, values, zero_local):
        super().__init__()
        self.values, self.zero_local = values, zero_local

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        if name == "randint" or name == "rand":
            if name == "randint":
                if "low" in str(func):
                    low, high, size = args[:3]
                else:
                    low, (high, size) = 0, args[:2]
            else:
                low, high, size = 0, 1, args[0]
            gen = kwargs.get("generator")
            n = 1
            for s in size:
                n *= s
            out = []
            import crypten

            for _ in range(n):
                g = gen if gen is not None else torch.default_generator
                key = hashlib.blake2b(g.get_state().numpy().tobytes(), digest_size=6).hexdigest()
                if name == "rand":
                    v = torch.rand((1,), generator=gen).item()
                    out.append(self.values.get(f"rand:{key}", v))
                    continue
                v = torch.randint(low, high, (1,), generator=gen).item()
                if self.zero_local and gen is crypten.generators["local"].get(torch.device("cpu")):
                    v = 0
                full = low <= -(2**63) and high >= 2**63 - 1
                k = f"r:{key}" if full else f"r:{key}:{low}:{high}"
                out.append(int(self.values.get(k, v)))
            dt = kwargs.get("dtype") or (torch.int64 if name == "randint" else torch.float32)
            return torch.tensor(out, dtype=dt).reshape(list(size))
        return func(*args, **kwargs)


def record_sends(conn, rank, total):
    """report the contents of every message this party sends (concrete runs)"""
    import torch.distributed as dist

    ranks = {}
    new_group = dist.new_group

    def ng(r=None, *a, **k):
        g = new_group(r, *a, **k)
        ranks[g] = list(r if r is not None else range(total))
        return g

    dist.new_group = ng
    members = lambda g: ranks.get(g, list(range(total)))

    def post(dests, t):
        with torch.utils._python_dispatch._disable_current_modes():
            conn.send(("sent", (sorted(d for d in dests if d != rank), t.detach().reshape(-1).tolist())))

    def wrap(name, f):
        real = getattr(dist, name)

        def g(*a, **k):
            if not busy:
                f(*a, **k)
            busy.append(1)
            try:
                return real(*a, **k)
            finally:
                busy.pop()

        setattr(dist, name, g)

    busy = []

    wrap("send", lambda tensor, dst, group=None, tag=0: post([dst], tensor))
    wrap("isend", lambda tensor, dst, group=None, tag=0: post([dst], tensor))
    wrap("all_reduce", lambda tensor, op=None, group=None, async_op=False: post(members(group), tensor))
    wrap("reduce", lambda tensor, dst, op=None, group=None, async_op=False: post([dst], tensor))
    wrap("broadcast", lambda tensor, src, group=None, async_op=False: post(members(group), tensor) if src == rank else None)
    wrap("gather", lambda tensor, gather_list=None, dst=0, group=None, async_op=False: post([dst], tensor))
    wrap("all_gather", lambda tensor_list, tensor, group=None, async_op=False: post(members(group), tensor))
    wrap("scatter", lambda tensor, scatter_list=None, src=0, group=None, async_op=False: [post([r], t) for r, t in zip(members(group), scatter_list)] if src == rank else None)


def party_main_concrete(conn, rank, ws, total, fn, cfg_over, values, zero_local, rdv, record=False):
    import crypten

    quiet()
    if record:
        record_sends(conn, rank, total)
    party_env(rank, ws, rdv)
    os.urandom = seeded_urandom(rank)
    torch.manual_seed(1000 + rank)
    import random

    random.seed(rank)
    apply_cfg(cfg_over)
    ctx = PartyCtx(rank, ws, False, values)
    try:
        with PinnedMode(values, zero_local):
            if rank < ws:
                crypten.init()
                out = fn(ctx)
            else:
                crypten.mpc.provider.ttp_provider.TTPServer()
                out = None
        ids = []
        msg = ("ok", conc_struct(out))
    except BaseException as e:  # noqa
        msg = ("raise", (type(e).__name__, str(e)[:500], traceback.format_exc()[-2000:]))
    conn.send(msg)
    conn.close()
    time.sleep(0.2)
    os._exit(0)


def conc_struct(o):
    if isinstance(o, torch.Tensor):
        return ("T", o.detach().reshape(-1).tolist(), tuple(o.shape), str(o.dtype))
    if isinstance(o, dict):
        return ("D", [(k, conc_struct(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ("L", [conc_struct(v) for v in o])
    return ("P", o)


def conc_to_symout(s):
    if s[0] == "T":
        dt = getattr(torch, s[3].split(".")[1])
        return SymOut([T.const_node(v, dt) for v in s[1]], s[2], s[3])
    if s[0] == "D":
        return {k: conc_to_symout(v) for k, v in s[1]}
    if s[0] == "L":
        return [conc_to_symout(v) for v in s[1]]
    return s[1]


def run_concrete(fn, ws, values, cfg_over=None, ttp=False, zero_local=False, timeout=60, sent=None):
    """the real code, real gloo. Returns {rank: ('ok', out)|('raise', err)|('hang', None)}"""
    total = ws + 1 if ttp else ws
    cfg_over = dict(cfg_over or {})
    cfg_over["mpc.provider"] = "TTP" if ttp else "TFP"
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    rdv = f"file://{tmp}/rdv"
    conns, pids = {}, []
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(total):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 2)
                party_main_concrete(b, r, ws, total, fn, cfg_over, values, zero_local, rdv, sent is not None)
            finally:
                os._exit(9)
        b.close()
        conns[r] = a
        pids.append(pid)
    out = {}
    t0 = time.time()
    while len([r for r in out if r < ws]) < ws and time.time() - t0 < timeout:
        live = {r: c for r, c in conns.items() if r not in out}
        for c in mpwait(list(live.values()), timeout=1):
            r = [k for k, v in live.items() if v is c][0]
            try:
                st, v = c.recv()
                if st == "sent":
                    sent.setdefault(r, []).append(v)
                    continue
                out[r] = (st, conc_to_symout(v) if st == "ok" else v)
            except EOFError:
                out[r] = ("died", None)
        if any(v[0] != "ok" for v in out.values()) and time.time() - t0 > 10:
            break
    for r in range(ws):
        out.setdefault(r, ("hang", None))
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(p, 0)
    for c in conns.values():
        c.close()
    shutil.rmtree(tmp, ignore_errors=True)
    return {r: out[r] for r in range(ws)}
