"""File system effects as numbered steps, over a real scratch directory.

Every operation that changes the directory (os.replace/rename/remove/unlink/link/makedirs, opening for writing,
torch.save) is one step; a crash or an I/O error can strike at any chosen step.  After a crash the file system is dead:
nothing further takes effect until `revive()`.  torch.save/torch.load carry symbolic tensors through real files by
persistent ids; on replay they are torch's own."""
import builtins
import contextlib
import io
import os
import pickle
import shutil
import tempfile

import torch

from . import symtorch as st
from .engine import ctx, SymxError


class Crash(BaseException):
    """the process is gone"""


class FS:
    def __init__(self, c, crash_at=None, fail_at=None):
        self.c, self.crash_at, self.fail_at = c, crash_at, fail_at
        self.n, self.dead, self.log, self.table = 0, False, [], []
        self.hit = None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="simfs_", dir=os.environ.get("SYMX_SCRATCH")))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def revive(self):
        self.dead, self.crash_at, self.fail_at = False, None, None

    def mine(self, path):
        p = os.path.abspath(os.fspath(path))
        return p.startswith(self.root + os.sep) or p == self.root

    def safe(self, path):
        """may be touched without being part of the model: the check's own scratch area"""
        s = os.environ.get("SYMX_SCRATCH")
        return bool(s) and os.path.abspath(os.fspath(path)).startswith(os.path.abspath(s) + os.sep)

    def step(self, what, path):
        """one effect; raises when the process dies just before it, returns 'torn' when it dies half way"""
        if self.dead:
            raise Crash
        self.n += 1
        self.log.append((what, os.path.basename(os.fspath(path)) if isinstance(path, (str, os.PathLike)) else str(path)))
        if self.crash_at is not None and bool(self.crash_at == self.n):
            self.dead, self.hit = True, self.log[-1]
            return "torn"
        if self.fail_at is not None and bool(self.fail_at == self.n):
            self.hit = self.log[-1]
            return "fail"
        return None

    def effect(self, what, path, do, torn=None):
        r = self.step(what, path)
        if r == "torn":
            if torn is not None:
                torn()
            raise Crash
        if r == "fail":
            if torn is not None:
                torn()
            raise OSError(28, "No space left on device", str(path))
        return do()

    # -- serialisation
    def dumps(self, obj):
        fs = self

        class P(pickle.Pickler):
            def persistent_id(self, o):
                if isinstance(o, st.SymTensor):
                    fs.table.append(st.mk(o.data_array().copy(), o.dtype))
                    return ("t", len(fs.table) - 1)
                if type(o).__name__ in ("SymInt", "SymReal", "SymBool") or type(o).__module__.startswith("symx"):
                    fs.table.append(o)
                    return ("v", len(fs.table) - 1)
                return None
        b = io.BytesIO()
        P(b, protocol=4).dump(obj)
        return b.getvalue()

    def loads(self, data):
        fs = self

        class U(pickle.Unpickler):
            def persistent_load(self, pid):
                k, i = pid
                o = fs.table[i]
                return st.mk(o.data_array().copy(), o.dtype) if k == "t" else o
        return U(io.BytesIO(data)).load()


@contextlib.contextmanager
def install(fs):
    real = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "link", "makedirs", "mkdir", "open", "fdopen", "fsync", "listdir")}
    ropen, rsave, rload = builtins.open, torch.save, torch.load
    fds = {}

    def full(p, dir_fd=None):
        p = os.fspath(p)
        if dir_fd is not None and not os.path.isabs(p):
            return os.path.join(fds.get(dir_fd, "?"), p)
        return p

    def two(name):
        def f(a, b, *r, src_dir_fd=None, dst_dir_fd=None, **k):
            A, B = full(a, src_dir_fd), full(b, dst_dir_fd)
            if not fs.mine(A) or not fs.mine(B):
                if fs.safe(A) and fs.safe(B):
                    return real[name](a, b, *r, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd, **k)
                raise RuntimeError(f"{name} outside the scratch directory: {A} {B}")
            return fs.effect(name, B, lambda: real[name](a, b, *r, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd, **k))
        return f

    def one(name):
        def f(a, *r, dir_fd=None, **k):
            if dir_fd is not None:
                k["dir_fd"] = dir_fd
            A = full(a, dir_fd)
            if not fs.mine(A) and name in ("remove", "unlink") and not fs.safe(A):
                raise RuntimeError(f"{name} outside the scratch directory: {A}")
            if not fs.mine(A) or (name in ("makedirs", "mkdir") and os.path.isdir(A)):
                return real[name](a, *r, **k)
            return fs.effect(name, A, lambda: real[name](a, *r, **k))
        return f

    def sx_open(path, flags, mode=0o777, *, dir_fd=None):
        A = full(path, dir_fd)

        def do():
            fd = real["open"](path, flags, mode, dir_fd=dir_fd)
            fds[fd] = A
            return fd
        if not fs.mine(A) or not flags & (os.O_CREAT | os.O_TRUNC):
            return do()
        return fs.effect("create", A, do)

    def bopen(path, mode="r", *a, **k):
        if isinstance(path, (str, os.PathLike)) and fs.mine(path) and any(ch in mode for ch in "wax+"):
            return fs.effect("open", path, lambda: ropen(path, mode, *a, **k))
        return ropen(path, mode, *a, **k)

    def payload(obj):
        if ctx().symbolic:
            return fs.dumps(obj)
        b = io.BytesIO()
        rsave(obj, b)
        return b.getvalue()

    def save(obj, f, *a, **k):
        data = payload(obj)

        def put(n):
            if hasattr(f, "write"):
                f.write(data[:n])
                f.flush()
            else:
                with ropen(f, "wb") as o:
                    o.write(data[:n])
        if not hasattr(f, "write") and not fs.mine(f):
            raise RuntimeError(f"torch.save outside the scratch directory: {f}")
        name = getattr(f, "name", "file") if hasattr(f, "write") else f
        if isinstance(name, int):
            name = fds.get(name, "file")
        fs.effect("write", name, lambda: put(len(data)), lambda: put(len(data) // 2))

    def load(f, *a, **k):
        if hasattr(f, "read"):
            return fs.loads(f.read()) if ctx().symbolic else rload(f, *a, **k)
        if not ctx().symbolic:
            return rload(f, *a, **k)
        with ropen(f, "rb") as i:
            data = i.read()
        return fs.loads(data)

    put = {"replace": two("replace"), "rename": two("rename"), "link": two("link"), "remove": one("remove"), "unlink": one("unlink"),
           "makedirs": one("makedirs"), "mkdir": one("mkdir"), "open": sx_open,
           "fsync": lambda fd: None,
           # a directory is an unordered set: hand the names out in an unhelpful order
           "listdir": lambda *a: sorted(real["listdir"](*a), key=lambda s: s[::-1])}
    for n, f in put.items():
        setattr(os, n, f)
    builtins.open, torch.save, torch.load = bopen, save, load
    try:
        yield fs
    finally:
        for n in put:
            setattr(os, n, real[n])
        builtins.open, torch.save, torch.load = ropen, rsave, rload
