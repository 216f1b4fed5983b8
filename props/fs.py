"""A file system that can stop at any operation.

Every primitive that changes the disk goes through `Disk.op`, which counts
them. The operation that a crash or an error hits is a symbolic number, so the
solver decides at every operation whether it is that one. Changes outside the
scratch directories are refused."""
import builtins
import errno
import io
import os
import pathlib
import shutil
import tempfile


class Crash(BaseException):
    "The process is killed here. Nothing it does afterwards reaches the disk."


REAL = {n: getattr(os, n) for n in "rename replace mkdir rmdir unlink remove open write listdir scandir link symlink truncate ftruncate stat lstat".split()}
REAL_OPEN = io.open
ACCESSOR = pathlib._NormalAccessor


class Out(object):
    "A file being written: what is written reaches the disk when it is flushed or closed."

    def __init__(self, disk, path, raw, mode, encoding):
        self.disk = disk
        self.path = path
        self.raw = raw
        self.text = "b" not in mode
        self.encoding = encoding or "utf-8"
        self.mode = mode
        self.name = path
        self.closed = False
        self.dirty = False
        raw.seek(0)
        old = raw.read() if "w" not in mode and "x" not in mode else b""
        self.base = old
        self.buf = io.BytesIO(old)
        if "a" in mode:
            self.buf.seek(0, 2)

    def write(self, data):
        n = len(data)
        if self.text:
            data = data.encode(self.encoding)
        self.dirty = True
        self.buf.write(data)
        return n

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def seek(self, *a):
        return self.buf.seek(*a)

    def tell(self):
        return self.buf.tell()

    def read(self, *a):
        d = self.buf.read(*a)
        return d.decode(self.encoding) if self.text else d

    def truncate(self, *a):
        self.dirty = True
        return self.buf.truncate(*a)

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.raw.fileno()

    def isatty(self):
        return False

    def _put(self, data):
        self.raw.seek(0)
        self.raw.truncate()
        self.raw.write(data)

    def flush(self):
        if not self.dirty:
            return
        data = self.buf.getvalue()
        n = len(os.path.commonprefix([data, self.base]))
        self.disk.op("write", self.path, lambda: self._put(data), lambda: self._put(data[: (n + len(data)) // 2]))
        self.base = data
        self.dirty = False

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.flush()
        finally:
            self.raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Entries(object):
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Disk(object):
    """`with Disk(...)`: the code inside runs on this disk.

    crash, fault: the number of the operation that is hit, or None
    mounts: directories that are file systems of their own
    backwards: directories are listed in reverse order
    reads: opening files to read them is an operation, too
    looks: and so is everything else that looks at the disk
    watch: is called with the number of each operation on the directory `shared` before it happens"""

    def __init__(self, ctx, scratch, tmp, mounts=(), crash=None, fault=None, errors=(errno.EIO, errno.EACCES), backwards=False, reads=False, looks=False, watch=None, shared=None):
        self.ctx = ctx
        self.scratch = [os.path.realpath(s) for s in scratch]
        self.tmp = tmp
        self.mounts = [os.path.realpath(m) for m in mounts]
        self.crash = crash
        self.fault = fault
        self.errors = list(errors)
        self.backwards = backwards
        self.reads = reads or looks
        self.looks = looks
        self.watch = watch
        self.shared = shared and os.path.realpath(shared)
        self.seen = 0
        self.dead = False
        self.hit = None
        self.n = 0
        self.active = False
        self.log = []

    # ------------------------------------------------------------ operations
    def op(self, kind, path, do, part=None, source=""):
        if self.dead:
            raise Crash()
        i = self.n
        self.n += 1
        self.log.append(kind)
        self.active = False
        try:
            if self.watch is not None and any(p == self.shared or p.startswith(self.shared + os.sep) for p in (path, source)):
                self.seen += 1
                self.watch(self.seen - 1)
            if self.crash is not None and self.hit is None and self.crash == i:
                self.hit = (kind, i)
                if part is not None and self.ctx.flag("torn"):
                    part()
                self.dead = True
                raise Crash()
            if self.fault is not None and self.hit is None and self.fault == i:
                self.hit = (kind, i)
                e = self.ctx.choose("error", self.errors)
                if part is not None and self.ctx.flag("torn"):
                    part()
                raise OSError(e, os.strerror(e), path)
            return do()
        finally:
            self.active = True

    def where(self, path, dir_fd=None):
        if isinstance(path, int):
            return os.readlink("/proc/self/fd/%d" % path)
        path = os.fsdecode(path)
        if dir_fd is not None and not os.path.isabs(path):
            path = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), path)
        path = os.path.abspath(path)
        return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))

    def inside(self, path):
        if not any(path == s or path.startswith(s + os.sep) for s in self.scratch):
            raise PermissionError(errno.EACCES, "outside the scratch directory", path)
        return path

    def mount(self, path):
        best = ""
        for m in self.mounts:
            if (path == m or path.startswith(m + os.sep)) and len(m) > len(best):
                best = m
        return best

    # ------------------------------------------------------------ primitives
    def _two(self, name):
        real = REAL[name]

        def f(src, dst, *a, **kw):
            if not self.active:
                return real(src, dst, *a, **kw)
            s, d = self.where(src, kw.get("src_dir_fd")), self.where(dst, kw.get("dst_dir_fd"))
            if name != "symlink":
                self.inside(s)
            self.inside(d)
            if name != "symlink" and self.mount(s) != self.mount(d):
                if self.dead:
                    raise Crash()
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), s, None, d)
            return self.op(name, d, lambda: real(src, dst, *a, **kw), source=s if name != "symlink" else "")

        return f

    def _one(self, name):
        real = REAL[name]

        def f(path, *a, **kw):
            if not self.active:
                return real(path, *a, **kw)
            p = self.inside(self.where(path, kw.get("dir_fd")))
            return self.op(name, p, lambda: real(path, *a, **kw))

        return f

    def _os_open(self, path, flags, *a, **kw):
        real = REAL["open"]
        if not self.active or not flags & (os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_RDWR):
            return real(path, flags, *a, **kw)
        p = self.inside(self.where(path, kw.get("dir_fd")))
        if flags & os.O_TRUNC or (flags & os.O_CREAT and not os.path.exists(p)):
            return self.op("create", p, lambda: real(path, flags, *a, **kw))
        return real(path, flags, *a, **kw)

    def _os_write(self, fd, data):
        real = REAL["write"]
        if not self.active:
            return real(fd, data)
        try:
            p = self.inside(self.where(fd))
        except OSError:
            return real(fd, data)
        return self.op("write", p, lambda: real(fd, data), lambda: real(fd, bytes(data)[: len(data) // 2]))

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rest = (buffering, encoding, errors, newline, closefd, opener)
        if not self.active:
            return REAL_OPEN(file, mode, *rest)
        if not any(c in mode for c in "wax+"):
            if self.reads and not isinstance(file, int):
                p = self.where(file)
                if any(p.startswith(s + os.sep) for s in self.scratch):
                    return self.op("read", p, lambda: REAL_OPEN(file, mode, *rest))
            return REAL_OPEN(file, mode, *rest)
        if isinstance(file, int):
            try:
                p = self.inside(self.where(file))
            except OSError:
                return REAL_OPEN(file, mode, *rest)
            return Out(self, p, REAL_OPEN(file, "rb+" if "+" in mode else "wb", 0, None, None, None, closefd), mode, encoding)
        p = self.inside(self.where(file))
        if "x" in mode and os.path.exists(p):
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)

        def make():
            return REAL_OPEN(p, "rb+" if os.path.exists(p) and "w" not in mode else "wb+", 0)

        if "w" in mode or not os.path.exists(p):
            if "r" in mode:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            raw = self.op("create", p, make)
        else:
            raw = make()
        return Out(self, p, raw, mode, encoding)

    def _look(self, name):
        real = REAL[name]

        def f(path, *a, **kw):
            if not self.active or isinstance(path, int):
                return real(path, *a, **kw)
            self.active = False
            try:
                p = self.where(path, kw.get("dir_fd"))
            finally:
                self.active = True
            if not any(p.startswith(s + os.sep) for s in self.scratch):
                return real(path, *a, **kw)
            return self.op(name, p, lambda: real(path, *a, **kw))

        return f

    def _listdir(self, *a, **kw):
        if not self.active:
            return REAL["listdir"](*a, **kw)
        if self.looks:
            return self.op("listdir", self.where(a[0] if a else "."), lambda: sorted(REAL["listdir"](*a, **kw), reverse=self.backwards))
        return sorted(REAL["listdir"](*a, **kw), reverse=self.backwards)

    def _scandir(self, *a, **kw):
        if not self.active:
            return REAL["scandir"](*a, **kw)
        with REAL["scandir"](*a, **kw) as it:
            return Entries(sorted(it, key=lambda e: e.name, reverse=self.backwards))

    # --------------------------------------------------------------- patching
    def __enter__(self):
        new = {n: self._two(n) for n in ("rename", "replace", "link", "symlink")}
        new.update({n: self._one(n) for n in ("mkdir", "rmdir", "unlink", "remove", "truncate", "ftruncate")})
        if self.looks:
            new.update({n: self._look(n) for n in ("stat", "lstat")})
        new.update(open=self._os_open, write=self._os_write, listdir=self._listdir, scandir=self._scandir)
        self.saved = []

        def put(owner, name, value):
            self.saved.append((owner, name, owner.__dict__[name]))
            setattr(owner, name, value)

        for n, f in new.items():
            put(os, n, f)
            if n in ACCESSOR.__dict__:
                put(ACCESSOR, n, staticmethod(f))
        if "link_to" in ACCESSOR.__dict__:
            put(ACCESSOR, "link_to", staticmethod(new["link"]))
        put(io, "open", self._open)
        put(builtins, "open", self._open)
        put(shutil, "_USE_CP_SENDFILE", False)
        put(tempfile, "tempdir", self.tmp)
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        for owner, name, value in reversed(self.saved):
            setattr(owner, name, value)
        self.saved = []


def tree(path):
    "All files of a directory with their contents."
    r = {}
    for d, _, files in os.walk(str(path)):
        r[os.path.relpath(d, str(path))] = None
        for f in files:
            with REAL_OPEN(os.path.join(d, f), "rb") as h:
                r[os.path.relpath(os.path.join(d, f), str(path))] = h.read()
    return r
