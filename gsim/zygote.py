"""A simulator process with its own hash seed that runs requests in forks of itself."""
import importlib
import os
import pickle
import struct
import subprocess
import sys

from . import boot, engine


class Zygote:
    def __init__(self, hashseed):
        env = boot.child_env(hashseed)
        self.p = subprocess.Popen([boot.PY if os.path.exists(boot.PY) else sys.executable, "-B", "-m", "gsim.zygote"], env=env, cwd=boot.VERIF,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def call(self, mod, fn, *args):
        """mod.fn(*args) in a fresh fork: the same outcomes as engine.fork_call"""
        try:
            b = pickle.dumps((mod, fn, args))
            self.p.stdin.write(struct.pack("<I", len(b)) + b)
            self.p.stdin.flush()
            return pickle.loads(_read(self.p.stdout))
        except (OSError, EOFError) as e:
            raise engine.Died(f"zygote: {e}") from None


_pool = {}


def get(hashseed):
    k = (os.getpid(), hashseed)
    if k not in _pool:
        _pool[k] = Zygote(hashseed)
    return _pool[k]


def _read(f):
    h = f.read(4)
    if len(h) < 4:
        raise EOFError("closed")
    n = struct.unpack("<I", h)[0]
    b = f.read(n)
    if len(b) < n:
        raise EOFError("closed")
    return b


def main():
    out = os.fdopen(os.dup(1), "wb")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    boot.load()
    inp = sys.stdin.buffer
    while True:
        try:
            mod, fn, args = pickle.loads(_read(inp))
        except EOFError:
            return
        m = importlib.import_module(mod)
        res = pickle.dumps(engine.fork_call(lambda: getattr(m, fn)(*args)))
        out.write(struct.pack("<I", len(res)) + res)
        out.flush()


if __name__ == "__main__":
    main()
