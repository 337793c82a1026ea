"""run `fn(rank)` in n real CrypTen parties; exit status 0 iff every party returns without an exception"""
import os
import subprocess
import sys
import tempfile


def main(n, fn, ttp=False, **cfg):
    if "DEMO_RANK" not in os.environ:
        with tempfile.TemporaryDirectory() as d:
            ps = []
            for r in range(n + (1 if ttp else 0)):
                env = dict(os.environ, DEMO_RANK=str(r), RANK=str(r), WORLD_SIZE=str(n), RENDEZVOUS="file://" + os.path.join(d, "rdv"), DISTRIBUTED_BACKEND="gloo",
                           GLOO_SOCKET_IFNAME="lo", OMP_NUM_THREADS="1", PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", CUDA_VISIBLE_DEVICES="")
                ps.append(subprocess.Popen([sys.executable, sys.argv[0]], env=env))
            rc = 0
            for p in ps[:n]:
                try:
                    rc |= p.wait(timeout=200)
                except subprocess.TimeoutExpired:
                    rc = 1
            for p in ps:
                if p.poll() is None:
                    p.kill()
            sys.exit(1 if rc else 0)
    sys.path.insert(0, os.getcwd())
    import crypten
    from crypten.config import cfg as C

    for k, v in cfg.items():
        C[k.replace("__", ".")] = v
    r = int(os.environ["DEMO_RANK"])
    if ttp:
        C.mpc.provider = "TTP"
    if r == n:
        crypten.mpc.provider.TTPServer()
        return
    crypten.init()
    fn(r)
    crypten.print("ok")
    os._exit(0)


def near(a, b, tol=0.02):
    import torch

    a, b = torch.as_tensor(a, dtype=torch.float64), torch.as_tensor(b, dtype=torch.float64)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert ((a - b).abs() <= tol * (1 + b.abs())).all(), (a, b)
