"""Model of files, hashes and the compiler, with faults at every operation."""
import hashlib
import posixpath

from .alg import P, ZERO
from .values import Ext, Native, Opq, Stub, Tup, Unknown, SStr

CWD = "/work"


class Crash(BaseException):
    """The process is killed."""


class Gap(Exception):
    """Something the model of files does not cover."""


class Disk:
    """Files by path; contents are bytes or ("library", source bytes, complete)."""

    def __init__(self, files=None):
        self.files = dict(files or {})
        self.dirs = {CWD, "/", "/tmp"}
        self.crash = None     # index of the operation before which the process is killed
        self.fail = None      # {index: mode} of operations that fail
        self.trace = []
        self.loaded = []
        self.pid = 100
        self.serial = 0

    def path(self, p):
        if isinstance(p, Stub) and "path" in p.attrs.get("_file", ()):
            p = p.attrs["_file"]["path"]
        if isinstance(p, bytes):
            p = p.decode()
        if not isinstance(p, str):
            raise Gap(f"path {p!r}"[:100])
        return posixpath.normpath(posixpath.join(CWD, p))

    def event(self, I, what, *where, faults=True):
        """An operation: the process may be killed before it, or it fails."""
        k = len(self.trace)
        self.trace.append((what,) + where)
        if self.crash == k:
            raise Crash()
        if self.fail is not None and self.fail == k and faults:
            raise_(I, "OSError", what)
        return k

    def put(self, I, p, data, what):
        """Contents arrive in two steps."""
        p = self.path(p)
        self.event(I, what, p)
        self.files[p] = partial(data)
        self.event(I, what + " (half)", p)
        self.files[p] = data

    def get(self, I, p):
        p = self.path(p)
        if p not in self.files:
            raise_(I, "FileNotFoundError", p)
        return self.files[p]

    def move(self, I, a, b, what="rename"):
        a, b = self.path(a), self.path(b)
        if a not in self.files:
            raise_(I, "FileNotFoundError", a)
        self.event(I, what, a, b)
        self.files[b] = self.files.pop(a)

    def temp(self, suffix, prefix, d):
        self.serial += 1
        d = self.path(d) if d is not None else "/tmp"
        return f"{d}/{prefix or 'tmp'}{self.pid}_{self.serial}{suffix or ''}"


def partial(data):
    if isinstance(data, tuple):
        return (data[0], data[1], False)
    return data[: len(data) // 2]


def raise_(I, exc, msg=""):
    path = exc if "." in exc else "builtins." + exc
    I.end("raise", Opq("call", Ext(path), str(msg)))


def install(I, disk):
    ov = I.overrides
    z = lambda: disk[0]          # the current disk

    def nat(*names):
        def deco(f):
            def run(i, a, k):
                try:
                    return f(i, a, k)
                except Gap as e:
                    return i.unknown(str(e))
            for n in names:
                ov[n] = Native(n, run)
            return f
        return deco

    def arg(a, k, n, name, default=None):
        return a[n] if len(a) > n else k.get(name, default)

    def num(v, default=None):
        if v is None:
            return default
        p = I.as_num(v)
        c = p.const() if p is not None else None
        if c is None:
            raise Gap("size")
        return int(c)

    # ---- open files
    def handle(path, mode, text):
        pos = [0]
        wr = any(m in mode for m in "wax+")
        buf = [b""]

        def data(i):
            d = z().get(i, path)
            if not isinstance(d, bytes):
                d = ("library:" + repr(d)).encode()
            return d

        out = (lambda b: b.decode("latin1")) if text else (lambda b: b)

        def read(i, a, k):
            d = data(i)
            n = num(a[0] if a else None, len(d))
            if n < 0:
                n = len(d)
            r = d[pos[0]:pos[0] + n]
            pos[0] += len(r)
            return out(r)

        def lines(i):
            d = data(i)[pos[0]:]
            pos[0] += len(d)
            return [out(x) for x in d.splitlines(True)]

        def write(i, a, k):
            d = a[0].encode("latin1") if isinstance(a[0], str) else a[0]
            if not isinstance(d, bytes):
                return i.unknown("what is written to a file")
            if not wr:
                raise_(i, "OSError", "not writable")
            z().event(i, "write", path)
            old = z().files.get(path, b"")
            z().files[path] = (old if isinstance(old, bytes) else b"") + d[: len(d) // 2]
            z().event(i, "write (half)", path)
            z().files[path] = (old if isinstance(old, bytes) else b"") + d
            return P(len(d))

        def seek(i, a, k):
            pos[0] = num(a[0])
            return a[0]
        nothing = Native("nothing", lambda i, a, k: None)
        return Stub("file", attrs={"_file": {"path": path}, "name": path, "read": Native("read", read), "write": Native("write", write), "seek": Native("seek", seek),
                                   "readlines": Native("readlines", lambda i, a, k: i.new_list(lines(i))), "flush": nothing, "close": nothing, "fileno": Native("fileno", lambda i, a, k: P(7))},
                    methods={"items": lambda i: lines(i)})

    @nat("builtins.open", "io.open")
    def open_(i, a, k):
        p, mode = z().path(a[0]), arg(a, k, 1, "mode", "r")
        if not isinstance(mode, str):
            raise Gap("mode")
        if "r" in mode and p not in z().files:
            raise_(i, "FileNotFoundError", p)
        if "x" in mode and p in z().files:
            raise_(i, "FileExistsError", p)
        if "w" in mode or "x" in mode:
            z().event(i, "create", p)
            z().files[p] = b""
        else:
            z().event(i, "open", p)
        return handle(p, mode, "b" not in mode)

    # ---- names and properties of files
    exists = nat("os.path.exists", "os.path.isfile", "os.path.lexists")(lambda i, a, k: z().path(a[0]) in z().files or z().path(a[0]) in z().dirs)

    @nat("os.path.getsize")
    def getsize(i, a, k):
        d = z().get(i, a[0])
        return P(len(d) if isinstance(d, bytes) else len(d[1]))

    nat("os.path.abspath", "os.path.realpath")(lambda i, a, k: z().path(a[0]))
    nat("os.path.normpath")(lambda i, a, k: posixpath.normpath(a[0]) if isinstance(a[0], str) else i.unknown("path"))
    nat("os.getcwd")(lambda i, a, k: CWD)
    nat("os.getpid")(lambda i, a, k: P(z().pid))
    nat("os.path.basename")(lambda i, a, k: posixpath.basename(z().path(a[0])))
    nat("os.path.dirname")(lambda i, a, k: posixpath.dirname(z().path(a[0])))

    @nat("os.path.join")
    def join(i, a, k):
        if all(isinstance(x, str) for x in a):
            return posixpath.join(*a)
        return i.unknown("path")

    @nat("os.path.splitext")
    def splitext(i, a, k):
        return Tup(list(posixpath.splitext(a[0]))) if isinstance(a[0], str) else i.unknown("path")

    # ---- changes
    nat("os.replace", "os.rename", "shutil.move")(lambda i, a, k: z().move(i, a[0], a[1]))

    @nat("shutil.copy", "shutil.copyfile", "shutil.copy2")
    def copy(i, a, k):
        z().put(i, a[1], z().get(i, a[0]), "copy")
        return a[1]

    @nat("os.link", "os.symlink")
    def link(i, a, k):
        p = z().path(a[1])
        if p in z().files:
            raise_(i, "FileExistsError", p)
        z().event(i, "link", p)
        z().files[p] = z().get(i, a[0])

    @nat("os.remove", "os.unlink")
    def remove(i, a, k):
        p = z().path(a[0])
        if p not in z().files:
            raise_(i, "FileNotFoundError", p)
        z().event(i, "remove", p)
        del z().files[p]

    @nat("os.makedirs", "os.mkdir")
    def makedirs(i, a, k):
        z().dirs.add(z().path(a[0]))

    @nat("shutil.rmtree")
    def rmtree(i, a, k):
        p = z().path(a[0])
        for q in [q for q in z().files if q.startswith(p + "/")]:
            z().event(i, "remove", q)
            del z().files[q]

    # ---- temporary names
    @nat("tempfile.mkstemp")
    def mkstemp(i, a, k):
        p = z().temp(arg(a, k, 0, "suffix"), arg(a, k, 1, "prefix"), arg(a, k, 2, "dir"))
        z().event(i, "create", p)
        z().files[p] = b""
        return Tup([P(9), p])

    @nat("tempfile.mkdtemp")
    def mkdtemp(i, a, k):
        p = z().temp(arg(a, k, 0, "suffix"), arg(a, k, 1, "prefix"), arg(a, k, 2, "dir"))
        z().dirs.add(p)
        return p

    ov["tempfile.TemporaryDirectory"] = Native("TemporaryDirectory", lambda i, a, k: mkdtemp(i, a, k))

    @nat("tempfile.NamedTemporaryFile")
    def named(i, a, k):
        p = z().temp(k.get("suffix"), k.get("prefix"), k.get("dir"))
        z().event(i, "create", p)
        z().files[p] = b""
        return handle(p, "w+b", False)
    nat("os.close", "os.fsync", "os.chmod", "os.utime")(lambda i, a, k: None)

    # ---- paths as objects
    def path_object(p):
        """pathlib.Path of an absolute or relative name."""
        def m(f):
            def run(i, a, k):
                try:
                    return f(i, a, k)
                except Gap as e:
                    return i.unknown(str(e))
            return Native("path method", run)

        def getitem(i, o, key):
            return i.unknown("path item")

        def binop(i, op, x, y):
            r = y if x is st else x
            if x is st and isinstance(y, str) and type(op).__name__ == "Div":
                return path_object(posixpath.join(p, y))
            return i.unknown("path")

        def read(i, a, k):
            d = z().get(i, p)
            return d if isinstance(d, bytes) else i.unknown("content of a library")
        st = Stub("path", attrs={
            "_file": {"path": p}, "name": posixpath.basename(p), "suffix": posixpath.splitext(p)[1], "stem": posixpath.splitext(posixpath.basename(p))[0],
            "exists": m(lambda i, a, k: z().path(p) in z().files), "is_file": m(lambda i, a, k: z().path(p) in z().files),
            "read_bytes": m(read), "read_text": m(lambda i, a, k: read(i, a, k).decode("latin1")),
            "write_bytes": m(lambda i, a, k: z().put(i, p, a[0], "write")), "write_text": m(lambda i, a, k: z().put(i, p, a[0].encode("latin1"), "write")),
            "replace": m(lambda i, a, k: z().move(i, p, a[0])), "rename": m(lambda i, a, k: z().move(i, p, a[0])),
            "unlink": m(lambda i, a, k: (None if k.get("missing_ok") is True and z().path(p) not in z().files else remove(i, [p], {}))),
            "with_suffix": m(lambda i, a, k: path_object(posixpath.splitext(p)[0] + a[0])), "with_name": m(lambda i, a, k: path_object(posixpath.join(posixpath.dirname(p), a[0]))),
            "resolve": m(lambda i, a, k: path_object(z().path(p))), "absolute": m(lambda i, a, k: path_object(z().path(p))),
            "joinpath": m(lambda i, a, k: path_object(posixpath.join(p, *a))), "mkdir": m(lambda i, a, k: None), "as_posix": m(lambda i, a, k: p),
            "stat": m(lambda i, a, k: Stub("stat", attrs={"st_size": getsize(i, [p], {})})),
            "open": m(lambda i, a, k: open_(i, [p] + list(a), k)), "__str__": m(lambda i, a, k: p), "__fspath__": m(lambda i, a, k: p)},
            methods={"getitem": getitem, "binop": binop})
        return st

    def make_path(i, a, k):
        parts = [q.attrs["_file"]["path"] if isinstance(q, Stub) and "_file" in q.attrs else q for q in a]
        if not all(isinstance(q, str) for q in parts):
            return i.unknown("path")
        return path_object(posixpath.join(*parts) if parts else ".")
    for n in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
        ov[n] = Native(n, make_path)
    ov["pathlib.Path.cwd"] = Native("cwd", lambda i, a, k: path_object(CWD))
    ov["os.fspath"] = Native("fspath", lambda i, a, k: a[0].attrs["_file"]["path"] if isinstance(a[0], Stub) and "_file" in a[0].attrs else a[0])

    # ---- hashes of bytes
    def hasher(name):
        def make(i, a, k):
            h = hashlib.new(name)

            def update(i2, a2, k2):
                if not isinstance(a2[0], bytes):
                    return i2.unknown("what is hashed")
                h.update(a2[0])
            if a:
                if not isinstance(a[0], bytes):
                    return i.unknown("what is hashed")
                h.update(a[0])
            return Stub("hash", attrs={"update": Native("update", update), "hexdigest": Native("hexdigest", lambda i2, a2, k2: h.hexdigest()), "digest": Native("digest", lambda i2, a2, k2: h.digest())})
        return make
    for n in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_256"):
        ov["hashlib." + n] = Native(n, hasher(n))
    ov["hashlib.new"] = Native("new", lambda i, a, k: hasher(a[0])(i, a[1:], k))

    @nat("hashlib.file_digest")
    def file_digest(i, a, k):
        if not (isinstance(a[0], Stub) and "_file" in a[0].attrs and isinstance(a[1], str)):
            raise Gap("file_digest")
        return hasher(a[1])(i, [i.call(a[0].attrs["read"], [], {})], {})

    # ---- the compiler
    def words(i, v):
        if isinstance(v, str):
            return v.split()
        xs = i.iter_items(v)
        if xs is None:
            raise Gap("command")
        xs = [x.attrs["_file"]["path"] if isinstance(x, Stub) and "_file" in x.attrs else x for x in xs]
        if not all(isinstance(x, str) for x in xs):
            raise Gap(f"command {xs!r}"[:150])
        return xs

    def compiler(i, cmd, cwd=None):
        """Exit status of a compilation."""
        out = None
        src = []
        skip = False
        for n, w in enumerate(cmd):
            if skip:
                skip = False
            elif w == "-o":
                out, skip = cmd[n + 1], True
            elif w.startswith("-o") and "." in w:
                out = w[2:]
            elif w.endswith((".c", ".cpp")):
                src.append(w)
        if out is None or len(src) != 1:
            raise Gap(f"command {cmd!r}"[:150])
        d, s, o = z(), z().path(src[0]), z().path(out)
        k = d.event(i, "start the compiler", o, faults=False)
        if d.fail == k:
            raise_(i, "FileNotFoundError", cmd[0])       # no compiler
        if s not in d.files or not isinstance(d.files[s], bytes):
            return 1
        code = d.files[s]
        d.files[o] = ("library", code, False)
        k = d.event(i, "compile", o, faults=False)
        if d.fail == k:
            return 1                                      # stopped in the middle, with a part of the output left
        k = d.event(i, "compile (late)", o, faults=False)
        if d.fail == k:
            d.files.pop(o)
            return 1                                      # an error: no output is left
        d.files[o] = ("library", code, True)
        d.event(i, "compiled", o, faults=False)
        return 0

    def done(i, cmd, rc):
        def check(i2, a2, k2):
            if rc:
                raise_(i2, "subprocess.CalledProcessError", "exit status")
        return Stub("completed", attrs={"returncode": P(rc), "check_returncode": Native("check_returncode", check), "args": None, "stdout": "", "stderr": ""})

    @nat("subprocess.run")
    def run(i, a, k):
        rc = compiler(i, words(i, a[0] if a else k["args"]))
        c = k.get("check", False)
        if c not in (True, False):
            raise Gap("check")
        if rc and c:
            raise_(i, "subprocess.CalledProcessError", "exit status")
        return done(i, None, rc)

    nat("subprocess.call", "os.system")(lambda i, a, k: P(compiler(i, words(i, a[0]))))

    @nat("subprocess.check_call", "subprocess.check_output")
    def check_call(i, a, k):
        if compiler(i, words(i, a[0])):
            raise_(i, "subprocess.CalledProcessError", "exit status")
        return ZERO

    @nat("subprocess.Popen")
    def popen(i, a, k):
        rc = compiler(i, words(i, a[0]))
        return Stub("process", attrs={"wait": Native("wait", lambda *x: P(rc)), "communicate": Native("communicate", lambda *x: Tup(["", ""])), "returncode": P(rc), "poll": Native("poll", lambda *x: P(rc))})
