"""C01: backend selection is scoped and restored."""
import ast
import itertools
import os

from ..checklib import *
from ..alg import sym
from ..interp import Dead
from ..values import Native, Tup, Ref, Ext, ClassV, Stub, Unknown
from ..harness import arr_of, new_interp, REPO
from .. import arrays, jaxfn

NP = "lumos.numpy"
FN = "lumos/numpy/__init__.py"
FU = "lumos/numpy/utils.py:use_backend"
BACKENDS = ("numpy", "jax", "casadi")


# ------------------------------------------------------------------ histories
class Prog:
    """Client programs as text: a tree of statements, and what the backend must be at each point.

    node = (kind, backend, exit, body): kind new/shared/decorated/again/recursive; exit 'end', 'raise', 'return';
    or ('set', backend) for an explicit selection.
    """

    def __init__(self, name, shared, body):
        self.name, self.shared, self.lines, self.n = name, shared, [], 0
        self.defs = {}
        self.put(0, f"def {name}(log):")
        for k, b in shared.items():
            self.put(1, f"shared_{k} = lnp.use_backend({b!r})")
        self.put(1, "try:")
        self.mark(2)
        self.emit(2, body)
        self.put(1, "except Problem:")
        self.put(2, "log.append('caught')")
        self.mark(1)

    def put(self, ind, s):
        self.lines.append("    " * ind + s)

    def mark(self, ind):
        self.put(ind, "log.append(lnp.get_backend())")

    def emit(self, ind, body):
        for node in body:
            if node[0] == "set":
                self.put(ind, f"lnp.set_backend({node[1]!r})")
                self.mark(ind)
                continue
            if node[0] == "try":
                self.put(ind, "try:")
                self.mark(ind + 1)
                self.emit(ind + 1, node[1])
                self.put(ind, "except Problem:")
                self.put(ind + 1, "log.append('caught')")
                self.mark(ind)
                continue
            kind, b, end, inner = node
            self.n += 1
            k = self.n
            exp = f"shared_{b}" if kind in ("shared", "shared decorator") else f"lnp.use_backend({b!r})"
            if kind in ("new", "shared"):
                self.put(ind, f"with {exp}:")
                self.block(ind + 1, inner, end)
            elif kind in ("decorated", "shared decorator"):
                self.put(ind, f"@{exp}")
                self.put(ind, f"def f{k}():")
                self.block(ind + 1, inner, end)
                for again in range(2 if end != "raise" else 1):
                    self.put(ind, f"f{k}()")
                    self.mark(ind)
            elif kind == "recursive":
                self.put(ind, f"@{exp}")
                self.put(ind, f"def f{k}(depth):")
                self.mark(ind + 1)
                self.put(ind + 1, "if depth > 0:")
                self.put(ind + 2, f"f{k}(depth - 1)")
                self.put(ind + 1, "else:")
                self.block(ind + 2, inner, end)
                self.mark(ind + 1)
                self.put(ind, f"f{k}(2)")
            self.mark(ind)

    def block(self, ind, inner, end):
        self.mark(ind)
        self.emit(ind, inner)
        if end == "raise":
            self.put(ind, "raise Problem()")
        elif end == "return":
            self.put(ind, "return None")


class _Raise(Exception):
    pass


class _Return(Exception):
    pass


class Sim:
    """Reference semantics of a program."""

    def __init__(self, start, body):
        self.cur, self.log = start, []
        try:
            self.mark()
            self.run(body)
        except _Raise:
            self.log.append("caught")
        except _Return:
            raise AssertionError
        self.mark()

    def mark(self):
        self.log.append(self.cur)

    def set(self, b):
        if b in BACKENDS:
            self.cur = b

    def block(self, inner, end):
        self.mark()
        self.run(inner)
        if end == "raise":
            raise _Raise()
        if end == "return":
            raise _Return()

    def scope(self, b, f):
        keep = self.cur
        self.set(b)
        try:
            f()
        finally:
            self.cur = keep

    def fun(self, f):
        try:
            f()
        except _Return:
            pass

    def run(self, body):
        for node in body:
            if node[0] == "set":
                self.set(node[1])
                self.mark()
                continue
            if node[0] == "try":
                try:
                    self.mark()
                    self.run(node[1])
                except _Raise:
                    self.log.append("caught")
                self.mark()
                continue
            kind, b, end, inner = node
            if kind in ("new", "shared"):
                self.scope(b, lambda: self.block(inner, end))
            elif kind in ("decorated", "shared decorator"):
                for again in range(2 if end != "raise" else 1):
                    self.fun(lambda: self.scope(b, lambda: self.block(inner, end)))
                    self.mark()
            else:
                def rec(d):
                    def bod():
                        self.mark()
                        if d > 0:
                            self.fun(lambda: self.scope(b, lambda: rec(d - 1)))
                        else:
                            self.block(inner, end)
                        self.mark()
                    bod()
                self.fun(lambda: self.scope(b, lambda: rec(2)))
            self.mark()


KINDS = ("new", "shared", "decorated", "shared decorator", "recursive")
SHARED = {b: b for b in ("jax", "casadi", "numpy")}


def ends(kind):
    return ("end", "raise", "return") if kind in ("decorated", "shared decorator", "recursive") else ("end", "raise")


def scopes(backends, kinds=KINDS):
    for k in kinds:
        for b in backends:
            for e in ends(k):
                yield k, b, e


def programs(level):
    """(class of history, body)"""
    one = list(scopes(("jax", "casadi")))
    for k, b, e in one:
        yield "one scope", [(k, b, e, [])]
    for k, b, e in scopes(("nosuch",), ("new", "decorated", "recursive")):
        yield "unknown backend", [(k, b, e, [])]
        yield "unknown backend", [("new", "jax", "end", [(k, b, e, [])])]
        yield "unknown backend", [(k, b, e, [("set", "jax")])]
    for b in ("nosuch", "", "Jax", "jax "):
        yield "unknown backend", [("set", "jax"), ("set", b)]
        yield "unknown backend", [("set", b), ("new", "casadi", "end", [("set", b)])]
    for a in one:
        for b in scopes(("jax", "casadi", "numpy") if level > 0 else ("jax", "numpy")):
            yield "nested scopes", [(a[0], a[1], a[2], [(b[0], b[1], b[2], [])])]
    for a in one:
        for b in scopes(("jax",) if level == 0 else ("jax", "casadi")):
            first = [("try", [(a[0], a[1], a[2], [])])] if a[2] == "raise" else [(a[0], a[1], a[2], [])]
            yield "one scope after another", first + [(b[0], b[1], b[2], [])]
            inner = [("try", [(b[0], b[1], b[2], [])])]
            yield "caught inside a scope", [(a[0], a[1], a[2], inner)]
    for a in one:
        for s in ("jax", "casadi", "numpy"):
            yield "selection inside a scope", [(a[0], a[1], a[2], [("set", s)])]
            yield "selection inside a scope", [("new", s, "end", [(a[0], a[1], a[2], [("set", "casadi" if s == "jax" else "jax")])])]
    for a in scopes(("jax", "casadi"), ("shared", "shared decorator")):
        for m in scopes(("casadi", "numpy"), ("new", "shared")):
            # the same object inside itself, with another selection in between
            yield "the same scope object inside itself", [(a[0], a[1], "end", [("try", [(m[0], m[1], m[2], [(a[0], a[1], a[2], [])])])])]
    if level > 0:
        few = list(scopes(("jax", "casadi"), ("new", "shared", "shared decorator")))
        for a, b, d in itertools.product(few, repeat=3):
            yield "three nested scopes", [(a[0], a[1], a[2], [("try", [(b[0], b[1], b[2], [(d[0], d[1], d[2], [])])])])]


HEAD = "import lumos.numpy as lnp\n\nclass Problem(Exception):\n    pass\n\n"


def ob_histories(c, cls, part):
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load(NP)
    for n in ("use_backend", "get_backend", "set_backend"):
        if I.mod_get(NP, n) is None or isinstance(I.mod_get(NP, n), Unknown):
            raise Gone(n)
    progs = [Prog(f"p{k}", SHARED, b) for k, b in enumerate(part)]
    I.load_text("history_client", HEAD + "\n".join("\n".join(p.lines) + "\n" for p in progs))
    put = I.mod_get(NP, "set_backend")
    for p, body in zip(progs, part):
        for start in BACKENDS:
            c.count("comparisons")
            call(I, put, start)
            log = I.new_list([])
            call(I, I.mod_get("history_client", p.name), log)
            got = I.iter_items(log)
            if any(not isinstance(x, str) for x in got):
                raise Und(f"backends in force: {got}"[:200])
            want = Sim(start, body).log
            if got != want:
                k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                raise Bad(f"with {start} selected, the history {describe(body)}: backends in force {got} instead of {want} (first difference at point {k})")


def describe(body):
    out = []
    for n in body:
        if n[0] == "set":
            out.append(f"select {n[1]}")
        elif n[0] == "try":
            out.append("try (" + describe(n[1]) + ")")
        else:
            out.append(f"{n[0]} scope of {n[1]}" + (f" ({describe(n[3])})" if n[3] else "") + {"end": "", "raise": " left by an exception", "return": " left by return"}[n[2]])
    return ", ".join(out)


# ------------------------------------------------------------------ library calls
def select(I, b):
    call(I, I.mod_get(NP, "set_backend"), b)


def now(I):
    b = call(I, I.mod_get(NP, "get_backend"))
    if not isinstance(b, str):
        raise Und(f"backend {b!r}")
    return b


def unchanged(c, I, start, what):
    c.count("comparisons")
    got = now(I)
    if got != start:
        raise Bad(f"{what}: the backend is {got!r} afterwards instead of {start!r}")


def ob_conv(c):
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    mod = "lumos.optimal_control.utils"
    I.load(mod)
    f = I.mod_get(mod, "batch_conv1d")
    if f is None or isinstance(f, Unknown):
        raise Gone("batch_conv1d")
    for start in BACKENDS:
        for b in ("numpy", "jax"):
            select(I, start)
            x = I.new_arr(arrays.base_array("x", (P(7), P(2))))
            r = call(I, f, x, P(3), P(2), b)
            if arr_of(I, r) is None:
                raise c.nonarr(I, r, "batch_conv1d")
            unchanged(c, I, start, f"batch_conv1d with the {b} backend")
            x = I.new_arr(arrays.base_array("x", (P(8), P(2))))
            must_raise(c, I, f, {}, "batch_conv1d", (x, P(3), P(2), b))
            unchanged(c, I, start, f"batch_conv1d of an array it rejects, with the {b} backend")


RAISING = '''
import lumos.numpy as lnp
from lumos.optimal_control.nlp import JaxMappedConstraints

class Problem(Exception):
    pass

seen = []
armed = []

def con(x, mesh, params):
    seen.append(lnp.get_backend())
    if armed:
        raise Problem()
    return lnp.array([x[0] * x[1] * mesh + params["a"] * x[2], x[2] * x[2] * x[0] * params["b"] + mesh * mesh])

def attempt(f, *args):
    armed.append(1)
    try:
        f(*args)
    except Problem:
        return "raised"
    finally:
        armed.pop()
    return "returned"
'''


def ob_unit(c, structure):
    from . import c21
    keep = c21.UNIT
    c21.UNIT = RAISING
    try:
        z = c21.Unit(c, structure)
    finally:
        c21.UNIT = keep
    I = z.I
    for start in BACKENDS:
        for what in c21.ROLES:
            select(I, start)
            for tag in ("", "_other"):
                z.evaluate(what, tag)
                unchanged(c, I, start, f"mapped {what}")
            args = [z.params() if r == "params" else I.new_arr(z.d[r]) for r in c21.ROLES[what]]
            r = call(I, I.mod_get("unit_client", "attempt"), I.getattr(z.obj, "mapped_" + what), *args)
            if r != "raised":
                continue        # compiled once: the function is not called again
            c.count("raising evaluations")
            unchanged(c, I, start, f"mapped {what} of a function that raises")
    seen = set(I.iter_items(I.mod_get("unit_client", "seen")))
    if seen != {"jax"}:
        raise Bad(f"the unit function is evaluated with the backends {sorted(map(str, seen))}")


def ob_model(c, backend, start):
    """Building and evaluating a model leaves the backend alone."""
    from . import c21
    I0 = {}
    keep = c21.Model_.setup
    cls = {"jax": c21.Model_, "custom": c21.CustomModel, "casadi": c21.CasModel}[backend]
    base = cls.setup

    def setup(self, c_):
        base(self, c_)
        I0["I"] = self.I
        select(self.I, start)
    cls.setup = setup
    kp = c21.Model_.params
    try:
        z = cls(c, backend, "Custom") if backend == "custom" else cls(c) if backend == "casadi" else cls(c, backend)
    finally:
        cls.setup = base
        if cls is not c21.Model_:
            c21.Model_.setup = keep
    I = z.I
    unchanged(c, I, start, f"make_model_algebra_cons({backend!r})")
    for what in c21.ROLES:
        for tag in ("_new", "_newer"):
            I.call(I.getattr(z.alg, "mapped_" + what), z.args(what, 2, tag), {})
            unchanged(c, I, start, f"mapped {what} of the {backend} backend")
        if what != "constraints":
            call(I, I.getattr(z.alg, what + "structure"))
            unchanged(c, I, start, f"{what} structure of the {backend} backend")
    if backend == "casadi":
        call(I, I.getattr(z.m, "export_c_code"), "file.c")
        unchanged(c, I, start, "export_c_code")
    B = arrays.base_array
    for tag in ("_new", "_newer"):
        X, U, M = B("bs", (P(2), P(c21.NX))), B("bu", (P(2), P(c21.NU))), B("bm", (P(2),))
        call(I, I.getattr(z.m, "batched_forward"), I.new_arr(X), I.new_arr(U), I.new_arr(M), z.tree(tag))
        unchanged(c, I, start, f"batched_forward of the {backend} backend")


def ob_model_raise(c, backend, start, point=None):
    """A model whose equations raise while it is built."""
    from . import c21
    from ..models import Lib
    lib = Lib(c)
    I = lib.I
    jaxfn.install(I)
    I.load_text("raising_client", MODEL)
    cls = I.mod_get("raising_client", "Raising")
    if not isinstance(cls, ClassV):
        raise Und("client")
    m = call(I, cls)
    z = None
    if backend == "casadi":
        z = c21.CasModel.__new__(c21.CasModel)
        z.functions, z.symbols, z.problem, z.lib, z.I, z.backend, z.m = {}, [], [], lib, I, "casadi", m
        z.setup(c)
        I.setattr(m, point, I.mod_get("raising_client", "raiser"))
    select(I, start)
    if backend == "casadi" and point == "forward_with_arrays":
        r = call(I, I.mod_get("raising_client", "attempt"), I.getattr(m, "export_c_code"), "file.c")
        if r != "raised":
            raise Und(f"export of a raising model: {r!r}"[:200])
        unchanged(c, I, start, "export_c_code of a model that raises")
    r = call(I, I.mod_get("raising_client", "attempt"), I.getattr(m, "make_model_algebra_cons"), backend)
    c.count("raising builds")
    if r == "raised":
        unchanged(c, I, start, f"make_model_algebra_cons({backend!r}) of a model that raises")
    elif r != "returned":
        raise Und(f"build of a raising model: {r!r}"[:200])
    if r == "returned":
        # built lazily: the first evaluation raises
        alg = I.getattr(m, "model_algebra")
        d = c21.data(2, x=c21.NV, mult=c21.NG, mesh=0)
        par = call(I, I.getattr(m, "get_recursive_params"))
        for what in c21.ROLES:
            select(I, start)
            args = [par if r_ == "params" else I.new_arr(d[r_]) for r_ in c21.ROLES[what]]
            q = call(I, I.mod_get("raising_client", "attempt"), I.getattr(alg, "mapped_" + what), *args)
            if q == "raised":
                c.count("raising evaluations")
                unchanged(c, I, start, f"mapped {what} ({backend}) of a model that raises")
            elif q != "returned":
                raise Und(f"evaluation of a raising model: {q!r}"[:200])


MODEL = '''
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io

class Problem(Exception):
    pass

@state_space_io(states=("a", "b"), inputs=("u", "v", "w", "z"), outputs=("y1", "y2", "y3"), con_outputs=("y3",), residuals=("y2",))
class Raising(StateSpaceModel):
    def forward(self, states, inputs, mesh):
        raise Problem()
    @classmethod
    def get_default_params(cls):
        return {"k": 3.0, "j": 2.0}

def raiser(*args, **kw):
    raise Problem()

def attempt(f, *args):
    try:
        f(*args)
    except Problem:
        return "raised"
    return "returned"
'''

TESTS = '''
import lumos.numpy as lnp
from lumos.models.test_utils import use_backends

class Problem(Exception):
    pass

class Sub:
    def __enter__(self):
        pass
    def __exit__(self, *exc):
        return True

class Strict:
    def __enter__(self):
        pass
    def __exit__(self, *exc):
        return False

class Case:
    def __init__(self, sub, problem):
        self.sub, self.problem, self.log = sub, problem, []
    def subTest(self, **kw):
        return Sub() if self.sub == "lenient" else Strict()
    @use_backends(backends=["jax", "numpy", "casadi"])
    def test(self):
        self.log.append(lnp.get_backend())
        if self.problem == "assertion":
            raise AssertionError("no")
        if self.problem == "error":
            raise Problem("no")
        if self.problem == "select":
            lnp.set_backend("jax")

def attempt(case):
    try:
        case.test()
    except Exception:
        return "raised"
    return "returned"
'''


def ob_tests(c):
    """The decorator with which users test their models over all backends."""
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load(NP)
    I.overrides["unittest"] = Stub("unittest", attrs={"skip": Native("skip", lambda i, a, k: Native("skipped", lambda i2, a2, k2: a2[0]))})
    I.load_text("tests_client", TESTS)
    for start in BACKENDS:
        for sub in ("lenient", "strict"):
            for problem in ("none", "assertion", "error", "select"):
                select(I, start)
                case = call(I, I.mod_get("tests_client", "Case"), sub, problem)
                call(I, I.mod_get("tests_client", "attempt"), case)
                unchanged(c, I, start, f"use_backends around a test ({problem}, {sub})")
                log = I.iter_items(I.getattr(case, "log"))
                want = ["jax", "numpy", "casadi"]
                if sub == "strict" and problem in ("assertion", "error"):
                    want = want[:1]
                if log != want:
                    raise Bad(f"use_backends ran the test with {log} instead of {want}")


# ------------------------------------------------------------------ who selects
ALLOWED = ("lumos/numpy/__init__.py", "lumos/numpy/utils.py", "lumos/models/test_utils.py")


def ob_writers(c, root):
    """No other library code selects a backend or touches the selection."""
    bad, n = [], 0
    for d, _, fs in sorted(os.walk(os.path.join(root, "lumos"))):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if rel in ALLOWED:
                continue
            t = ast.parse(open(p).read())
            n += 1
            guarded = protected(t)
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and x.attr == "set_backend" or isinstance(x, ast.Name) and x.id == "set_backend" or isinstance(x, ast.alias) and x.name == "set_backend":
                    if not isinstance(x, ast.alias) and id(x) in guarded:
                        continue
                    bad.append(f"{rel}:{getattr(x, 'lineno', 0)} uses set_backend outside a scope")
                if isinstance(x, ast.Attribute) and x.attr.endswith("__BACKEND") and isinstance(x.ctx, (ast.Store, ast.Del)):
                    bad.append(f"{rel}:{x.lineno} writes the selected backend")
    c.count("modules", n)
    if bad:
        raise Bad("; ".join(bad)[:600])


def protected(t):
    """Uses of set_backend in a try whose finally selects a saved get_backend(), and those just before such a try."""
    ok = set()
    for f in ast.walk(t):
        for field in ("body", "orelse", "finalbody"):
            body = getattr(f, field, None)
            if not isinstance(body, list):
                continue
            for k, s in enumerate(body):
                if isinstance(s, ast.Try) and any("set_backend" in ast.dump(x) for x in s.finalbody):
                    for x in ast.walk(s):
                        ok.add(id(x))
                    for prev in body[:k]:
                        for x in ast.walk(prev):
                            ok.add(id(x))
    return ok


# ------------------------------------------------------------------ dispatch
def names_used(root):
    out = {}
    for d, _, fs in sorted(os.walk(os.path.join(root, "lumos"))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".py") or "/lumos/numpy" in p:
                continue
            t = ast.parse(open(p).read())
            al = {a.asname or a.name for x in ast.walk(t) if isinstance(x, ast.Import) for a in x.names if a.name == "lumos.numpy" and a.asname}
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in al:
                    out.setdefault(x.attr, os.path.relpath(p, root))
    return out


OWN = {"get_backend", "set_backend", "use_backend", "is_jax_array", "vector_concat", "vector_split", "assert_allclose", "vector_tile", "cmap", "lmap", "ndarray"}
COMMON = {"abs", "arccos", "arctan", "array", "concatenate", "cos", "cross", "dot", "exp", "expand_dims", "hstack", "minimum", "maximum", "pi", "reshape", "sign", "sin", "split", "sqrt", "sum", "tan", "tanh",
          "tile", "vstack", "where", "arctan2", "log", "zeros", "ones", "interp", "linspace", "floor", "stack", "eye", "mean", "max", "min"}


def ob_dispatch(c, root):
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    I.load(NP)
    names = sorted((set(names_used(root)) | COMMON) - OWN)
    I.load_text("dispatch_client", "import lumos.numpy as lnp\n\ndef get(b):\n    with lnp.use_backend(b):\n        return [" + ", ".join("lnp." + n for n in names) + "]\n")
    vals = {b: I.iter_items(call(I, I.mod_get("dispatch_client", "get"), b)) for b in BACKENDS}
    for b in ("numpy", "jax"):
        lib = {"numpy": "numpy", "jax": "jax.numpy"}[b]
        for n, v in zip(names, vals[b]):
            c.count("names")
            want = I.getattr(Ext(lib), n)
            if v != want and vkey_(v) != vkey_(want):
                raise Bad(f"lnp.{n} is {v!r} with the {b} backend instead of {lib}.{n}"[:300])
    mod = "lumos.numpy.casadi_numpy"
    I.load(mod)
    for n, v in zip(names, vals["casadi"]):
        c.count("names")
        want = I.mod_get(mod, n)
        if v != want and vkey_(v) != vkey_(want):
            raise Bad(f"lnp.{n} is {v!r} with the casadi backend instead of casadi_numpy.{n}"[:300])


def vkey_(v):
    return repr(v)


def run(c):
    c.explain = ("abstract interpretation of client programs over use_backend, set_backend and get_backend: every tree of scopes (as context, as decorator, one object reused or entered inside itself, recursive functions, selections and exceptions "
                 "inside, every starting backend) against a reference stack; library functions that select backends from every starting backend, also when the functions they call raise; "
                 "a rule over the syntax tree that no other code selects a backend; the array names used in the library resolve to the selected library")
    c.assumptions = ["one thread", "contextlib.ContextDecorator enters the scope anew on every call"]
    deep = c.tier == "thorough"
    by = {}
    for k, b in programs(1 if deep else 0):
        by.setdefault(k, []).append(b)
    for k, ps in by.items():
        size = 120
        for n in range(0, len(ps), size):
            c.ob("the backend of the time of entry is restored", f"{FU} [{k}{', part %d' % (n // size + 1) if len(ps) > size else ''}]", ob_histories, c, k, ps[n:n + size])
    c.ob("library calls leave the backend alone", "lumos/optimal_control/utils.py:batch_conv1d", ob_conv, c)
    for st in (True, False):
        c.ob("library calls leave the backend alone", f"lumos/optimal_control/nlp.py:JaxMappedConstraints [{'sparse' if st else 'dense'}]", ob_unit, c, st)
    for b in ("jax", "casadi", "custom"):
        for s in BACKENDS:
            c.ob("library calls leave the backend alone", f"lumos/models/base.py:StateSpaceModel [{b} model, {s} selected]", ob_model, c, b, s)
            if b == "casadi":
                for point in ("forward_with_arrays", "_apply_and_flat_implicit"):
                    c.ob("library calls leave the backend alone when they raise", f"lumos/models/base.py:StateSpaceModel [{b} model, {s} selected, {point} raises]", ob_model_raise, c, b, s, point)
            if b == "jax":
                c.ob("library calls leave the backend alone when they raise", f"lumos/models/base.py:StateSpaceModel [{b} model, {s} selected]", ob_model_raise, c, b, s)
    c.ob("library calls leave the backend alone", "lumos/models/test_utils.py:use_backends", ob_tests, c)
    c.ob("only scopes select a backend", "lumos/", ob_writers, c, REPO)
    c.ob("names of the selected array library", FN, ob_dispatch, c, REPO)
