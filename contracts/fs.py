"""Model of the file operations used by the verified code (assumed dependency contracts).

A file system is a list of (path, content); two paths are equal iff they are built from the
same parts. os.path.join with one argument is the identity.
"""
import z3
from pyvc.driver import *


class Path(Model):
    type_name = "path"

    def __init__(self, parts):
        self.parts = tuple(parts)

    def py_bool(self, ctx):
        return True

    def __repr__(self):
        return "/".join(map(str, self.parts))

    def py_eq(self, ctx, other):
        return same_path(self, other)


def flat(p):
    return p.parts if isinstance(p, Path) else (p,)


def same_path(a, b):
    x, y = flat(a), flat(b)
    return len(x) == len(y) and all(same_text(u, v) for u, v in zip(x, y))


def same_text(u, v):
    if u is v:
        return True
    if isinstance(u, str) or isinstance(v, str):
        return u == v if isinstance(u, str) and isinstance(v, str) else False
    if isinstance(u, StrCat) and isinstance(v, StrCat):
        return len(u.parts) == len(v.parts) and all(same_text(a, b) for a, b in zip(u.parts, v.parts))
    return False


def parts_in(v):
    """All atoms a path or string is built from."""
    if isinstance(v, Path):
        return [a for p in v.parts for a in parts_in(p)]
    if isinstance(v, StrCat):
        return [a for p in v.parts for a in parts_in(p)]
    return [v]


class Handle(Model):
    type_name = "file"

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.closed = False

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.closed = True
        return None

    def m_close(self, ctx):
        self.closed = True

    def m_write(self, ctx, text):
        if self.closed or "r" in self.mode:
            ctx.raise_(ValueError, "write to a closed or read-only file")
        for k, (p, c) in enumerate(self.fs.files):
            if same_path(p, self.path):
                self.fs.files[k] = (p, list(c if isinstance(c, list) else []) + [text])


class FS:
    def __init__(self, ctx, files=()):
        self.ctx, self.files = ctx, list(files)
        self.removed, self.written, self.rmdirs = [], [], []
        ctx.externals.update({
            "os.path.join": self.join, "open": self.open, "pickle.dump": self.dump, "pickle.load": self.load,
            "os.remove": self.remove, "os.unlink": self.remove,
        })

    def say(self, what):
        self.ctx.assumption(f"library contract: {what}")

    def join(self, c, *a):
        self.say("os.path.join (joins its parts; one part is returned as it is)")
        if len(a) == 1:
            return a[0]
        return Path([p for x in a for p in flat(x)])

    def find(self, path):
        for k, (p, _) in enumerate(self.files):
            if same_path(p, path):
                return k
        return None

    def open(self, c, path, mode="r", *a, **k):
        self.say("open")
        k = self.find(path)
        if "r" in mode and "+" not in mode:
            if k is None:
                c.raise_(FileNotFoundError, "no such file")
        else:
            if "w" in mode or k is None:
                if k is not None:
                    del self.files[k]
                self.files.append((path, None))
            self.written.append(path)
        return Handle(self, path, mode)

    def dump(self, c, obj, fh, *a, **k):
        self.say("pickle.dump / pickle.load return equal values")
        if not isinstance(fh, Handle) or "w" not in fh.mode or fh.closed:
            c.raise_(ValueError, "not open for writing")
        k = self.find(fh.path)
        self.files[k] = (self.files[k][0], obj)

    def load(self, c, fh, *a, **k):
        if not isinstance(fh, Handle) or fh.closed:
            c.raise_(ValueError, "not open for reading")
        return self.files[self.find(fh.path)][1]

    def remove(self, c, path):
        self.say("os.remove")
        k = self.find(path)
        self.removed.append(path)
        if k is None:
            c.raise_(FileNotFoundError, "no such file")
        del self.files[k]
