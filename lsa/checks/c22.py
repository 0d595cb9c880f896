"""C22: the compiled library that is loaded is the complete build of the code just generated."""
from ..checklib import *
from ..values import Native, Stub, Ref, Tup
from ..filesys import Crash, Disk, install
from . import c21

WHERE = "lumos/models/base.py:StateSpaceModel._make_casadi_model_algebra_cons"

# Codes of models: they agree except at the end, at the start, in the middle, in length.
PAGE = b"/* generated code, the same for many models: " + b"x = y; " * 280 + b" */\n"
BODY = PAGE * 150
CODES = {
    "A": BODY + b"return 1;\n",
    "last": BODY + b"return 2;\n",
    "first": b"?* other" + (BODY + b"return 1;\n")[8:],
    "middle": BODY[:20000] + b"middle!" + BODY[20007:] + b"return 1;\n",
    "later": BODY[:270001] + b"later" + BODY[270006:] + b"return 1;\n",
    "short": BODY,
    "second page": BODY[:8200] + b"second" + BODY[8206:] + b"return 1;\n",
}


class Cached(c21.CasModel):
    """A model whose compiled library is cached on a model of a disk."""

    step = 1

    def setup(self, c):
        super().setup(c)
        I, ov = self.I, self.I.overrides
        self.c = c
        self.disk = [Disk()]
        install(I, self.disk)
        self.code = "A"
        self.functions = {}
        names = {}

        def generator(i, a, k):
            d = self.disk[0]
            p = d.path(a[0])

            def add(i2, a2, k2):
                names[a2[0].attrs["_"].items[0]] = True

            def generate(i2, a2, k2):
                where = d.path((a2[0] if isinstance(a2[0], str) else "") + p.rsplit("/", 1)[1]) if a2 else p
                d.put(i2, where, CODES[self.code], "generate code")
                return where
            return Stub("generator", attrs={"add": Native("add", add), "add_include": Native("add_include", lambda *x: None), "generate": Native("generate", generate),
                                            "dump": Native("dump", lambda i2, a2, k2: CODES[self.code].decode())})
        ov["casadi.CodeGenerator"] = Native("CodeGenerator", generator)

        def external(i, a, k):
            if len(a) < 2 or not isinstance(a[0], str):
                return i.unknown("compiled function")
            d = self.disk[0]
            try:
                p = d.path(a[1])
            except Exception:
                return i.unknown("path of a library")
            d.trace.append(("load", p))
            if p not in d.files:
                i.raise_("RuntimeError", "no library")
            d.loaded.append((a[0], p, d.files[p]))
            return Stub(a[0], attrs={"map": Native("map", lambda *x: Stub("mapped " + a[0])), "name": Native("name", lambda *x: a[0])})
        ov["casadi.external"] = Native("casadi.external", external)

    def build(self):
        self.start = self.I.st

    def process(self):
        """A new process: nothing is left in memory; its number may have been used before."""
        self.I.st = self.start.fork()
        self.disk[0].pid += self.step

    def run(self, code, crash=None, fail=None):
        """One call: 'crash', 'raise' or 'done'; trace and what was loaded stay with the disk."""
        I, d = self.I, self.disk[0]
        self.code = code
        d.trace, d.loaded, d.crash, d.fail = [], [], crash, fail
        n, out, keep = len(I.outcomes), None, I.depth
        frames = list(I.frames)
        decide, left = type(I).decide, []

        def seen(q):
            r = decide(I, q)
            if r is not True and r is not False and not left:
                left.append(f"{I.site}")
            return r
        I.decide = seen
        try:
            v = I.call(I.getattr(self.m, "make_model_algebra_cons"), ["casadi"], {})
            out = "done"
            if any(o.kind == "raise" for o in I.outcomes[n:]):
                raise Und("raises under an undecided condition")
        except Crash:
            out = "crash"
            I.frames[:] = frames
            I.depth = keep
        except Dead:
            out = "raise"
            del I.outcomes[n:]
        finally:
            del I.decide
        if left:
            raise Und(f"undecided branch at {left[0]}"[:200])
        return out

    def right(self, what):
        """What was loaded is the complete build of the code."""
        c, d = self.c, self.disk[0]
        c.count("comparisons", 1)
        if not d.loaded:
            raise Und("nothing was loaded")
        for f, p, v in d.loaded:
            if v == ("library", CODES[self.code], True):
                continue
            if not isinstance(v, tuple):
                raise Bad(f"{what}: {f} is loaded from a file that no compiler wrote")
            if not v[2]:
                raise Bad(f"{what}: {f} is loaded from an incomplete library")
            other = next((n for n, b in CODES.items() if b == v[1]), None)
            if other is None:
                raise Bad(f"{what}: {f} is loaded from the build of an incomplete file")
            raise Bad(f"{what}: {f} is loaded from the build of other code")


def story(what, *parts):
    return ", ".join([what] + [p for p in parts if p])


def clean(z, code, what, new=True):
    if new:
        z.process()
    r = z.run(code)
    if r != "done":
        raise Bad(f"{what}: a later build of correct code {'raises' if r == 'raise' else r}")
    z.right(what)


def files(z):
    return dict(z.disk[0].files)


def again(z, fs):
    z.disk[0].files = dict(fs)


def caches(z):
    """Contents of the cache that earlier complete runs leave."""
    again(z, {})
    yield "an empty cache", {}
    clean(z, "last", "an empty cache")
    fs = files(z)
    yield "a cache with other code", fs
    again(z, {})
    clean(z, "A", "an empty cache")
    yield "a cache with this code", files(z)


def ob_histories(c, new):
    """Any two codes one after the other, and back."""
    z = Cached(c)
    for a in CODES:
        for b in CODES:
            if a == b:
                continue
            again(z, {})
            z.process()
            clean(z, a, "an empty cache", new)
            clean(z, b, "after a build of other code", new)
            clean(z, a, "after two builds", new)


def sites(z, code, fs):
    """Operations of a run."""
    again(z, fs)
    z.process()
    z.run(code)
    return [t for t in z.disk[0].trace if t[0] != "load"]


def ob_crash(c, twice, step):
    z = Cached(c)
    z.step = step
    for what, fs in list(caches(z)):
        n = len(sites(z, "A", fs))
        c.count("crash points", n)
        if not n:
            raise Und("no operations")
        for k in range(n):
            again(z, fs)
            z.process()
            if z.run("A", crash=k) != "crash":
                raise Und("crash point not reached")
            op = z.disk[0].trace[-1][0]
            left = files(z)
            text = story(what, f"killed before: {op}")
            for code in ("A", "last"):
                again(z, left)
                clean(z, code, text)
            if twice:
                for j in range(len(sites(z, "A", left))):
                    again(z, left)
                    z.process()
                    if z.run("A", crash=j) == "crash":
                        t2 = story(text, f"killed again before: {z.disk[0].trace[-1][0]}")
                        l2 = files(z)
                        for code in ("A", "last"):
                            again(z, l2)
                            clean(z, code, t2)


def ob_fault(c):
    """An operation fails: the call raises (or still loads the right library), and later runs are right."""
    z = Cached(c)
    for what, fs in list(caches(z)):
        n = len(sites(z, "A", fs))
        c.count("faults", n)
        for k in range(n):
            again(z, fs)
            z.process()
            r = z.run("A", fail=k)
            op = z.disk[0].trace[k][0]
            text = story(what, f"failed: {op}")
            if r == "done":
                if op.startswith("compile") and not z.disk[0].loaded:
                    raise Bad(f"{text}: the call returns without a library")
                if z.disk[0].loaded:
                    z.right(text)
            left = files(z)
            for new in (True, False):
                for code in ("A", "last"):
                    again(z, left)
                    clean(z, code, text, new)


def ob_functions(c):
    """Every compiled function comes from one library, the one named after the code."""
    z = Cached(c)
    again(z, {})
    clean(z, "A", "an empty cache")
    ps = {p for _, p, _ in z.disk[0].loaded}
    fs = sorted(f for f, _, _ in z.disk[0].loaded)
    c.count("comparisons")
    if len(ps) != 1:
        raise Bad(f"functions are loaded from {len(ps)} libraries")
    if fs != ["forward", "implicit_con", "implicit_hess", "implicit_jac"]:
        raise Und(f"functions {fs}")


def run(c):
    c.explain = ("abstract interpretation of the generation, compilation and loading against a model of the disk: every operation on files and the compiler is a point where the process may be killed or the operation may "
                 "fail; the library that this and every later run loads must be the complete build of the code generated in that run")
    c.assumptions = ["renaming a file is atomic; writing a file and compiling are not", "hashes of different code differ", "one process at a time uses the directory"]
    c.ob("the library is the build of the current code", WHERE + " [new processes]", ob_histories, c, True)
    c.ob("the library is the build of the current code", WHERE + " [one process]", ob_histories, c, False)
    c.ob("one library", WHERE, ob_functions, c)
    c.ob("killed at any point", WHERE, ob_crash, c, False, 1)
    c.ob("killed at any point", WHERE + " [process number used again]", ob_crash, c, False, 0)
    c.ob("failed at any point", WHERE, ob_fault, c)
    if c.tier == "thorough":
        c.ob("killed at any point", WHERE + " [twice]", ob_crash, c, True, 1)
