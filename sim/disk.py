"""Disk seam: every open() of a path below the root of the active SimDisk.

The files are real files in the scratch directory of the run; what sits between them and
the code under test is the raw layer below Python's own buffering: each transfer of the
buffered reader or writer to the "system" can be cut short, interrupted, fail, or be the
last thing the process does.  Buffer sizes are chosen by the plan, so that a fault may
strike in any part of a file.

Faults (counted per kind of operation from the start of the simulation, from 0):

    {"op": "open"|"write"|"read"|"close", "nth": n, "kind": KIND, "frac": 0..1, "persist": bool,
     "match": part of the file name}

    EIO, ENOSPC, EACCES, EMFILE   the operation fails (a write first transfers frac of its data)
    short                         only frac of the data (at least a byte) is transferred
    EINTR                         interrupted without effect
    crash                         the process dies (SimCrash) after frac of the data

With "persist" all later operations of the kind fail as well, until clear().
"""
import builtins
import errno
import io
import os
import weakref

from sim.core import SimCrash

_real_open = io.open
DISK = None


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if d is None or isinstance(file, int) or opener is not None or not d.covers(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return d.open(file, mode, buffering, encoding, errors, newline)


def install():
    builtins.open = _open
    io.open = _open


def activate(disk):
    global DISK
    DISK = disk
    return disk


def deactivate():
    global DISK
    DISK = None


class FaultyRaw(io.FileIO):
    def __init__(self, disk, path, mode):
        self._disk = disk
        self._late = False
        io.FileIO.__init__(self, path, mode)
        self._path = path
        disk.handles.append(weakref.ref(self))

    def _oserror(self, f):
        code = getattr(errno, f["kind"])
        return OSError(code, os.strerror(code), self._path)

    def write(self, b):
        d = self._disk
        b = bytes(b)
        if d.dead:
            return len(b)
        if self._late:
            d.late.append((os.path.basename(self._path), len(b)))
        f = d.next("write", self._path)
        if f is None:
            n = io.FileIO.write(self, b)
            d.bytes += n
            d.writes.append((self._path, bytes(b[:n])))
            return n
        k = f["kind"]
        if k == "EINTR":
            d.fired(f)
            raise InterruptedError(errno.EINTR, "simulated interrupted system call")
        part = int(len(b) * f.get("frac", 0.0))
        if k == "short":
            part = min(max(1, part), len(b))
            if part < len(b):
                d.fired(f)
        else:
            d.fired(f)
            part = min(part, len(b) - 1)
        if part > 0:
            io.FileIO.write(self, b[:part])
            d.writes.append((self._path, bytes(b[:part])))
        if k == "short":
            return part
        if k == "crash":
            d.dead = True
            raise SimCrash("simulated crash while writing %s" % os.path.basename(self._path))
        raise self._oserror(f)

    def readinto(self, b):
        d = self._disk
        f = d.next("read", self._path)
        if f is None:
            return io.FileIO.readinto(self, b)
        k = f["kind"]
        if k == "EINTR":
            d.fired(f)
            raise InterruptedError(errno.EINTR, "simulated interrupted system call")
        if k == "short":
            d.fired(f)
            n = max(1, int(len(b) * f.get("frac", 0.0)))
            return io.FileIO.readinto(self, memoryview(b)[:n])
        if k == "crash":
            d.fired(f)
            d.dead = True
            raise SimCrash("simulated crash while reading")
        d.fired(f)
        raise self._oserror(f)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = []
        while True:
            b = bytearray(self._disk.chunk)
            try:
                n = self.readinto(b)
            except InterruptedError:
                continue
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def close(self):
        if self.closed:
            return
        d = getattr(self, "_disk", None)
        io.FileIO.close(self)
        if d is None or d.dead:
            return
        f = d.next("close", self._path)
        if f is not None and f["kind"] not in ("short", "EINTR"):
            d.fired(f)
            d.clean_close = False
            if f["kind"] == "crash":
                d.dead = True
                raise SimCrash("simulated crash while closing")
            raise self._oserror(f)
        d.clean_close = True

    def _dealloc_warn(self, source):
        pass


class SimDisk(object):
    """A directory whose files are reached through FaultyRaw."""

    def __init__(self, ctx, faults=(), bufsize=0, name="disk"):
        self.ctx = ctx
        self.root = os.path.join(ctx.scratch, name)
        os.makedirs(self.root, exist_ok=True)
        self.bufsize = bufsize or io.DEFAULT_BUFFER_SIZE
        self.chunk = max(1, self.bufsize)
        self.handles = []
        self.late = []
        self.dead = False
        self.bytes = 0
        self.writes = []
        self.firedlist = []
        self.ops = 0
        self.arm(faults)

    def arm(self, faults):
        """Count operations from now on and apply faults to them."""
        self.faults = list(faults)
        self.counts = {"open": 0, "write": 0, "read": 0, "close": 0}
        self.firedlist = []
        self.clean_close = True

    def clear(self):
        self.arm(())

    def next(self, op, path):
        n = self.counts[op]
        self.counts[op] += 1
        self.ops += 1
        for f in self.faults:
            if f["op"] != op:
                continue
            if f.get("match") and f["match"] not in os.path.basename(path):
                continue
            if f["nth"] == n or (f.get("persist") and n > f["nth"]):
                return f
        return None

    def fired(self, f):
        self.firedlist.append((f["op"], f["kind"]))
        self.ctx.fault("disk-%s-%s" % (f["op"], f["kind"]))

    def hard_fired(self):
        """Faults the code under test must notice."""
        return [f for f in self.firedlist if f[1] not in ("short", "EINTR")]

    def covers(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root + os.sep)

    def open(self, file, mode, buffering, encoding, errors, newline):
        path = os.path.abspath(os.fspath(file))
        if self.dead:
            raise SimCrash("the simulated process is dead")
        f = self.next("open", path)
        if f is not None and f["kind"] not in ("short", "EINTR"):
            self.fired(f)
            if f["kind"] == "crash":
                self.dead = True
                raise SimCrash("simulated crash while opening")
            code = getattr(errno, f["kind"])
            raise OSError(code, os.strerror(code), path)
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        raw = FaultyRaw(self, path, rawmode)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else self.bufsize
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif "r" in rawmode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    # --- what the harness does behind the back of the code under test

    def path(self, name):
        return os.path.join(self.root, name)

    def get(self, name):
        """Content of a file, or None."""
        try:
            with _real_open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def put(self, name, data):
        with _real_open(self.path(name), "wb") as f:
            f.write(data)

    def remove(self, name):
        if os.path.exists(self.path(name)):
            os.unlink(self.path(name))

    def names(self):
        return sorted(os.listdir(self.root))

    def still_open(self, since=0):
        """Names of files opened through the seam (as handle number since or later) which are still open."""
        out = []
        for ref in self.handles[since:]:
            h = ref()
            if h is not None and not h.closed:
                out.append(os.path.basename(h._path))
        return sorted(out)

    def end_call(self):
        """The call under test is over: what its handles write from now on is late."""
        for ref in self.handles:
            h = ref()
            if h is not None:
                h._late = True

    def release(self):
        """Close what was left open, without faults."""
        self.clear()
        for ref in self.handles:
            h = ref()
            if h is not None and not h.closed:
                try:
                    io.FileIO.close(h)
                except Exception:
                    pass


def gen_fault(rng, op, kinds, span, match=None):
    f = {"op": op, "nth": rng.randrange(span), "kind": rng.choice(kinds), "frac": rng.choice([0.0, 0.3, 0.5, 0.9])}
    if rng.random() < 0.3 and f["kind"] in ("ENOSPC", "EIO", "short"):
        f["persist"] = True
    if match:
        f["match"] = match
    return f


# --- what a crash may leave of a file ----------------------------------------


def after_crash(rng, old, new, block):
    """Content of a file whose rewriting from old (or None) to new was cut by a crash.

    Nothing was synchronised: any of the blocks written may be missing, stale, zeroed or
    torn, and the length may be any at or before the end."""
    t = rng.random()
    if t < 0.1 and old is not None:
        return old
    if t < 0.2:
        return b""
    cut = rng.randint(0, len(new))
    data = bytearray(new[:cut])
    if t < 0.55:
        return bytes(data)
    nb = (len(data) + block - 1) // block
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not nb:
            break
        b = rng.randrange(nb)
        lo, hi = b * block, min((b + 1) * block, len(data))
        k = rng.random()
        if k < 0.4:
            data[lo:hi] = bytes(hi - lo)  # allocated but never written
        elif k < 0.7 and old is not None and len(old) >= hi:
            data[lo:hi] = old[lo:hi]  # stale
        elif k < 0.85:
            mid = rng.randint(lo, hi)
            data[mid:hi] = bytes(hi - mid)  # torn
        else:
            src = rng.randrange(nb)
            s = data[src * block : src * block + (hi - lo)]
            data[lo : lo + len(s)] = s  # misdirected
    return bytes(data)


def damage(rng, data):
    """Damage of a file at rest: (description, content)."""
    if not data:
        return "empty", data
    t = rng.random()
    if t < 0.3:
        b = bytearray(data)
        n = rng.choice([1, 1, 2, 5])
        for _ in range(n):
            i = rng.randrange(len(b))
            b[i] ^= 1 << rng.randrange(8)
        return "flip", bytes(b)
    lines = data.split(b"\n")
    if t < 0.5:
        n = rng.choice([1, 1, 2, 5])
        i = rng.randrange(len(lines))
        del lines[i : i + n]
        return "lines-lost", b"\n".join(lines)
    if t < 0.65:
        i = rng.randrange(len(lines))
        n = rng.choice([1, 1, 2, 5])
        lines[i:i] = lines[i : i + n]
        return "lines-repeated", b"\n".join(lines)
    if t < 0.75:
        i, j = rng.randrange(len(lines)), rng.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
        return "lines-swapped", b"\n".join(lines)
    if t < 0.9:
        blk = rng.choice([64, 128, 512])
        n = (len(data) + blk - 1) // blk
        i = rng.randrange(n)
        b = bytearray(data)
        if rng.random() < 0.5:
            b[i * blk : (i + 1) * blk] = bytes(len(b[i * blk : (i + 1) * blk]))
            return "block-zeroed", bytes(b)
        del b[i * blk : (i + 1) * blk]
        return "block-lost", bytes(b)
    # a number or word replaced
    i = rng.randrange(len(lines))
    words = lines[i].split(b" ")
    k = rng.randrange(len(words))
    words[k] = rng.choice([b"", b"nan", b"x", b"1e400", b"-1", b"99999", b"None", b"[", b"0"])
    lines[i] = b" ".join(words)
    return "word-changed", b"\n".join(lines)
