"""C20: model equations are backend independent."""
import ast
import os
from ..checklib import *
from ..harness import arr_of, new_interp
from ..arrays import Arr, base_array, akey
from ..alg import ZERO, ONE, sym
from ..interp import Dead
from ..values import Native, Tup, Ref, Ext, ClassV, FuncV, Stub
from .. import alg, arrays, casmat, traced, extnames
from ..casmat import Cas
from ..traced import Traced
from ..models import Lib, BASE
from .c33 import library

BACKENDS = ("numpy", "jax", "casadi")
SMALL = {"num_points": 2, "layer_dim": 2}


class Side:
    """One model evaluated with one backend: all values are arrays of that backend."""

    def __init__(self, c, qual, b, kind="casadi.MX"):
        self.b, self.kind = b, kind
        self.lib = lib = Lib(c)
        self.I = I = lib.I
        casmat.install(I)
        call(I, I.mod_get("lumos.numpy", "set_backend"), b)
        if call(I, I.mod_get("lumos.numpy", "get_backend")) != b:
            raise Und(f"the backend {b}")
        k = lib.cls(qual)
        for n, v in SMALL.items():
            if not isinstance(I.getattr(k, n), Unknown):
                I.setattr(k, n, P(v))
        self.m = lib.make(qual)
        names = I.getattr(self.m, "names")
        self.state = "states" in (I.iter_items(I.getattr(names, "_fields")) or ())
        self.calls = []
        d = I.getattr(self.m, "_params")
        vals = []
        for n in lib.params(self.m):
            v = I.getitem(d, n)
            a = arr_of(I, v)
            if a is not None and a.ndim:
                if any(s.const() is None for s in a.shape):
                    raise Und(f"size of the parameter {n}")
                vals.append((n, self.value(Arr(a.shape, lambda ix, n=n, r=a.ndim: element(n, ix)))))
            elif I.as_num(v) is not None or a is not None:
                vals.append((n, self.value(sym("p_" + n))))
            else:
                raise Und(f"parameter {n}: {v!r}"[:150])
        I.setattr(self.m, "_params", I.new_dict(vals))
        for n, s in lib.submodels(self.m).items():
            self.stand_in(n, s)

    def value(self, v):
        I = self.I
        if self.b == "numpy":
            return I.new_arr(v) if isinstance(v, Arr) else v
        if self.b == "jax":
            return Traced(I.new_arr(v) if isinstance(v, Arr) else v)
        return Cas(casmat.matrix(I, I.new_arr(v) if isinstance(v, Arr) else v), self.kind)

    def num(self, v, what):
        """The term of a value, which has to be a number of the backend (or a constant)."""
        I = self.I
        if isinstance(v, Unknown):
            raise Und(f"{what}: {v.reason}"[:250])
        if isinstance(v, Traced):
            v = v.value
        if isinstance(v, Cas):
            if self.b != "casadi":
                raise Bad(f"{what} is a casadi matrix with the {self.b} backend")
            if not casmat.is_one(v.arr):
                raise Bad(f"{what} is a matrix of shape {v.arr.shape} with the casadi backend, not a number")
            return arrays.topoly(v.arr.get((ZERO, ZERO)))
        p = I.as_num(v)
        a = arr_of(I, v)
        if p is None and a is not None:
            if a.ndim:
                raise Bad(f"{what} is an array of shape {a.shape} with the {self.b} backend, not a number")
            p = arrays.topoly(a.get(()))
        if p is None:
            raise Und(f"{what}: {v!r}"[:200])
        return p

    def dict_of(self, d, what):
        I = self.I
        ks = I.iter_items(d)
        if ks is None or any(not isinstance(x, str) for x in ks):
            raise Und(f"names of {what}")
        return {k: self.num(I.getitem(d, k), f"{what} {k!r}") for k in ks}

    def stand_in(self, name, sub):
        I, lib = self.I, self.lib
        nm = I.getattr(sub, "names")
        state = "states" in (I.iter_items(I.getattr(nm, "_fields")) or ())
        outs = [(o, self.value(sym(f"{name}.{o}"))) for o in lib.names(sub, "outputs")]
        dots = [(o, self.value(sym(f"{name}.{o}"))) for o in (lib.names(sub, "states_dot") if state else ())]

        def forward(i, a, k):
            d = dict(zip(("states", "inputs", "mesh") if state else ("inputs",), a))
            d.update(k)
            self.calls.append((name, {g: self.dict_of(v, f"{g} of the submodel {name}") for g, v in d.items() if g != "mesh"}))
            if state:
                return call(i, I.mod_get(BASE, "StateSpaceModelReturn"), states_dot=i.new_dict(list(dots)), outputs=i.new_dict(list(outs)))
            return call(i, I.mod_get(BASE, "ModelReturn"), outputs=i.new_dict(list(outs)))
        I.setattr(sub, "forward", Native(name + ".forward", forward))

    def run(self):
        I, lib, m = self.I, self.lib, self.m
        group = lambda g: I.new_dict([(n, self.value(sym(n))) for n in lib.names(m, g)])
        kw = {"inputs": group("inputs")}
        if self.state:
            kw["states"] = group("states")
            kw["mesh"] = self.value(sym("mesh"))
        n = len(I.outcomes)
        r = call(I, I.getattr(m, "forward"), **kw)
        if isinstance(r, Unknown):
            raise Und(f"{self.b}: {r.reason}"[:250])
        for o in I.outcomes[n:]:
            if o.kind == "raise":
                raise Und(f"{self.b}: raises under an undecided condition {o.value!r} {o.site}"[:250])
        return {g: self.dict_of(I.getattr(r, g), f"{g} value") for g in (("states_dot", "outputs", "residuals") if self.state else ("outputs", "residuals"))}


def element(n, ix):
    q = [P(k).const() for k in ix]
    if None in q:
        return fn_at(n, ix)
    return sym(f"p_{n}[{','.join(str(int(k)) for k in q)}]")


def fn_at(n, ix):
    raise arrays.Undecidable(f"entry of the parameter {n}")


def ob_model(c, qual, b, kind="casadi.MX"):
    want = Side(c, qual, "numpy")
    W = want.run()
    got = Side(c, qual, b, kind)
    try:
        G = got.run()
    except Bad as e:
        raise Bad(f"with the {b} backend: {e}")
    if [n for n, _ in want.calls] != [n for n, _ in got.calls]:
        raise Bad(f"submodels called with numpy: {[n for n, _ in want.calls]}, with {b}: {[n for n, _ in got.calls]}")
    for (n, x), (_, y) in zip(want.calls, got.calls):
        for g in x:
            same(c, x[g], y.get(g, {}), f"{g} of the submodel {n}", b)
    for g in W:
        same(c, W[g], G[g], g, b)


def same(c, want, got, what, b):
    if sorted(want) != sorted(got):
        raise Bad(f"{what} with numpy: {sorted(want)}, with {b}: {sorted(got)}"[:250])
    for n in want:
        c.eq_rat(got[n], want[n], f"{what} {n!r} with {b}, compared with numpy")


# ------------------------------------------------------------------ the namespace
def sources(root):
    for d, _, fs in sorted(os.walk(os.path.join(root, "lumos"))):
        for f in sorted(fs):
            if f.endswith(".py") and "test" not in f:
                p = os.path.join(d, f)
                yield os.path.relpath(p, root), open(p).read()


def aliases(tree):
    """Names which mean the switchable namespace, and names imported from it."""
    mods, direct = set(), {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name == "lumos.numpy":
                    mods.add(a.asname or "lumos.numpy")
        elif isinstance(n, ast.ImportFrom):
            if n.module == "lumos" and n.level == 0:
                mods |= {a.asname or a.name for a in n.names if a.name == "numpy"}
    return mods


def uses(tree, mods):
    """(name, position) of every attribute taken from the namespace."""
    parents = {}
    for n in ast.walk(tree):
        for k in ast.iter_child_nodes(n):
            parents[k] = n
    for n in ast.walk(tree):
        if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
            continue
        if isinstance(n.value, ast.Name) and n.value.id in mods or isinstance(n.value, ast.Attribute) and ast.unparse(n.value) in mods:
            path, k = [n.attr], n
            while isinstance(parents.get(k), ast.Attribute) and path[0] in ("linalg", "random", "fft"):
                k = parents[k]
                path.append(k.attr)
            yield ".".join(path), n.lineno


def ob_names(c, path, text):
    I = new_interp()
    c._interps[id(I)] = I
    I.check = c
    t = ast.parse(text)
    own = I.load("lumos.numpy")
    env = I.rec(own).vars
    for name, line in uses(t, aliases(t)):
        c.count("names")
        head = name.split(".")[0]
        if head in env and head != "__getattr__":
            continue
        for b in ("numpy", "jax.numpy"):
            lib, n = (b, head) if "." not in name else (f"{b}.{head}", name.split(".")[1])
            known = extnames.names(lib)
            if known is None:
                raise Und(f"names of {lib}")
            if n not in known and n not in extnames.HIDDEN.get(lib, ()):
                raise Bad(f"{path}:{line}: the {b} backend has no {name}")
        I.load("lumos.numpy.casadi_numpy")
        v = I.mod_get("lumos.numpy.casadi_numpy", head)
        if v is None or isinstance(v, Unknown) and "name" not in v.reason:
            raise Bad(f"{path}:{line}: the casadi backend has no {name}")
        if "." in name:
            w = I.getattr(v, name.split(".")[1])
            if isinstance(w, Unknown) or w is None:
                raise Und(f"{path}:{line}: {name} in the casadi backend")


def run(c):
    c.explain = ("abstract interpretation of every model's forward, once with each backend: inputs, states, parameters and results of submodels are numbers (numpy), traced arrays (jax) or symbolic matrices (casadi), "
                 "which raise on what the real ones refuse (branches, conversions, functions of another library, assignment); the results, and what submodels are given, must be the terms numpy yields. "
                 "Syntax-tree query: every name taken from the switchable namespace must exist in each backend")
    c.assumptions = ["the stand-ins refuse and accept what casadi 3.6 matrices and jax tracers do, as found by experiment", "sizes of array-valued parameters are reduced to 2 (points, neurons)",
                     "names of numpy and jax.numpy are read from the stub files of the installed versions"]
    lib, ks = library(c)
    lib_I = lib.I
    n = 0
    for q, k in ks.items():
        if not concrete(lib, k):
            continue
        n += 1
        f = f"{q.rsplit('.', 1)[0].replace('.', '/')}.py:{q.rsplit('.', 1)[1]}.forward"
        c.ob("a model computes the same with jax as with numpy", f, ob_model, c, q, "jax")
        c.ob("a model computes the same with casadi as with numpy", f, ob_model, c, q, "casadi")
        if c.tier == "thorough":
            c.ob("a model computes the same with casadi (SX) as with numpy", f, ob_model, c, q, "casadi", "casadi.SX")
    if not n:
        raise Gone("models")
    for path, text in sources(lib_I.root):
        if "lumos.numpy" in text or "from lumos import" in text:
            c.ob("names of the array namespace exist in every backend", path, ob_names, c, path, text, group="names")


    for n, t in FNS.items():
        for kind in ("casadi.MX", "casadi.SX") if c.tier == "thorough" else ("casadi.MX",):
            c.ob("functions of the casadi backend compute what numpy's do, or refuse", f"lumos/numpy/casadi_numpy [{n}, {kind}]", ob_fn, c, t, kind, group="np")
    for b in BACKENDS:
        c.ob("vector helpers compute the same with each backend", f"lumos/numpy/utils.py [{b}]", ob_fn, c, t_vectors, "casadi.MX", b, group="np")


def concrete(lib, k):
    """Does the class have a forward method of its own or of a base other than the abstract ones?"""
    I = lib.I
    f = I.find_attr(k, "forward")
    return isinstance(f, FuncV) and f.module != BASE and not isinstance(I.getattr(k, "_direct_names"), Unknown)


# ------------------------------------------------------------------ functions of the casadi backend against numpy's
CN = "lumos.numpy.casadi_numpy"


class Fn:
    """One function of the casadi backend next to numpy's."""

    def __init__(self, c, kind="casadi.MX"):
        self.c, self.kind = c, kind
        self.I = I = new_interp()
        c._interps[id(I)] = I
        I.check = c
        casmat.install(I)
        I.load(CN)
        self.n = 0
        self.accepted, self.refused = set(), {}

    def vec(self, n, name="v"):
        a = Arr((P(n),), lambda ix: element(name, ix))
        return self.I.new_arr(a), Cas(Arr((P(n), ONE), lambda ix: a.get((ix[0],))), self.kind)

    def mat(self, r, q, name="m"):
        a = Arr((P(r), P(q)), lambda ix: element(name, ix))
        return self.I.new_arr(a), Cas(a, self.kind)

    def num(self, name="s"):
        return sym("p_" + name), Cas(Arr((ONE, ONE), lambda ix: sym("p_" + name)), self.kind)

    def seq(self, *xs):
        return Tup([x[0] for x in xs]), Tup([x[1] for x in xs])

    def fn(self, name):
        f = self.I.mod_get(CN, name.split(".")[0])
        for p in name.split(".")[1:]:
            f = self.I.getattr(f, p) if f is not None else None
        if f is None or isinstance(f, Unknown):
            raise Gone(f"{CN}.{name}")
        return f

    def check(self, name, *args, want=None, np=None, **kw):
        """Arguments are pairs (numpy, casadi) or plain values; want: the oracle if it is not numpy's own function."""
        I, c = self.I, self.c
        lab = f"{name}({', '.join(show(a) for a in args)}{''.join(f', {k}={v!r}' for k, v in kw.items())})"
        pick = lambda k: [a[k] if isinstance(a, tuple) else a for a in args]
        st = I.st
        I.st = st.fork()
        try:
            n = len(I.outcomes)
            r = outcome(I, self.fn(name), pick(1), kw)
            if r is None:
                self.refused.setdefault(name, lab)
                return False
            self.accepted.add(name)
            if isinstance(r, Unknown):
                raise Und(f"{lab}: {r.reason}"[:200])
            if any(o.kind == "raise" for o in I.outcomes[n:]):
                raise Und(f"{lab}: raises under an undecided condition")
            w = want if want is not None else I.call(Ext("numpy." + (np or name)), pick(0), dict(kw))
            if isinstance(w, Unknown):
                raise Und(f"numpy's {lab}: {w.reason}"[:200])
            self.equal(r, w, lab)
            return True
        finally:
            I.st = st

    def equal(self, r, w, lab):
        I, c = self.I, self.c
        self.n += 1
        if isinstance(w, Tup) or isinstance(w, Ref) and I.rec(w).kind == "list":
            ws, rs = I.iter_items(w), I.iter_items(r) if not isinstance(r, Cas) else None
            if rs is None or len(rs) != len(ws):
                raise Bad(f"{lab}: numpy gives {len(ws)} arrays, casadi {'one' if rs is None else len(rs)}")
            for k, (x, y) in enumerate(zip(rs, ws)):
                self.equal(x, y, f"part {k} of {lab}")
            return
        a = arr_of(I, w)
        if a is None:
            p = I.as_num(w)
            if p is None:
                raise Und(f"numpy's {lab}: {w!r}"[:150])
            a = Arr((), lambda ix: p)
        m = casmat.matrix(I, r)
        if m is None:
            raise Und(f"{lab}: {r!r}"[:150])
        shapes = [(ONE, ONE)] if a.ndim == 0 else [(a.shape[0], ONE), (ONE, a.shape[0])] if a.ndim == 1 else [a.shape]
        if not any(all(arrays.same_dim(p, q) for p, q in zip(s, m.shape)) for s in shapes):
            raise Bad(f"{lab}: numpy gives shape {a.shape}, casadi {m.shape}")
        for i in range(int(m.shape[0].const())):
            for j in range(int(m.shape[1].const())):
                ix = () if a.ndim == 0 else (P(i + j),) if a.ndim == 1 else (P(i), P(j))
                c.eq_rat(arrays.topoly(m.get((P(i), P(j)))), arrays.topoly(a.get(ix)), f"entry {i, j} of {lab} compared with numpy")


def show(a):
    if isinstance(a, tuple):
        a = a[1]
    if isinstance(a, Cas):
        return "x".join(str(s) for s in a.arr.shape)
    if isinstance(a, Tup):
        return "[" + ", ".join(show(x) for x in a.items) + "]"
    return repr(a)


def outcome(I, f, args, kw):
    """The result, None if the call is refused."""
    try:
        v = I.call(f, list(args), dict(kw))
    except Dead:
        return None
    return v


def entries(z, pair):
    a = arr_of(z.I, pair[0])
    if a.ndim == 1:
        return [arrays.topoly(a.get((P(k),))) for k in range(int(a.shape[0].const()))]
    return [[arrays.topoly(a.get((P(i), P(j)))) for j in range(int(a.shape[1].const()))] for i in range(int(a.shape[0].const()))]


def norm_oracle(z, e, o):
    """Norm of a list of terms."""
    u = z.I.lib.np.uf
    from ..interp import mathfn
    if o in (None, 2, "fro"):
        return u("sqrt", sum((x * x for x in e), ZERO))
    if o == 1:
        return sum((u("abs", x) for x in e), ZERO)
    if o in ("inf", "-inf"):
        r = u("abs", e[0])
        for x in e[1:]:
            r = z.I.as_num(z.I.call(Ext("numpy.maximum" if o == "inf" else "numpy.minimum"), [r, u("abs", x)], {}))
        return r
    s = sum((arrays.topoly(z.I.scalar_op(ast.Pow(), u("abs", x), P(o))) for x in e), ZERO)
    return arrays.topoly(z.I.scalar_op(ast.Pow(), s, ONE * alg.inverse(P(o))))


def t_arith(z):
    v, w, m, n, s = z.vec(3), z.vec(3, "w"), z.mat(2, 3), z.mat(2, 3, "n"), z.num()
    for x in (v, m, s, z.mat(1, 3), z.mat(3, 1)):
        z.check("abs", x)
        for f in ("sum", "mean"):
            if x is not s:
                z.check(f, x)
                for k in (0, 1):
                    if k == 0 or x is not v:
                        z.check(f, x, axis=P(k))
    for f in ("minimum", "maximum"):
        for x, y in ((v, w), (m, n), (v, s), (s, m), (v, P(2)), (s, P(0))):
            z.check(f, x, y)
    for f in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "tanh", "sqrt", "exp", "log", "sign"):
        for x in (s, v, m):
            z.check(f, x)
    z.check("arctan2", v, w)
    z.check("power", v, P(2))
    for f, g in (("degrees", lambda x, pi: x * 180 * alg.inverse(pi)), ("radians", lambda x, pi: x * pi * alg.inverse(P(180)))):
        z.check(f, s, want=g(s[0], z.I.as_num(z.I.getattr(Ext("numpy"), "pi"))))


def t_where(z):
    v, w = z.vec(3), z.vec(3, "w")
    cmp = lambda op: (z.I.compare(op, v[0], w[0]), z.I.compare(op, v[1], w[1]))
    for op in (ast.Lt(), ast.GtE()):
        z.check("where", cmp(op), v, w)
        z.check("where", cmp(op), v, P(1))


def t_join(z):
    v, w, m, n, r = z.vec(3), z.vec(3, "w"), z.mat(2, 3), z.mat(2, 3, "n"), z.mat(1, 3, "r")
    for k in (0, 1):
        z.check("concatenate", z.seq(m, n), axis=P(k))
        z.check("stack", z.seq(v, w), axis=P(k))
        z.check("stack", z.seq(v, w), axis=P(k - 2))
    z.check("concatenate", z.seq(m, r, n))
    z.check("concatenate", z.seq(v, z.vec(2, "u")))
    for f in ("vstack", "hstack"):
        z.check(f, z.seq(m, n))
        z.check(f, z.seq(m, n, m))
    z.check("vstack", z.seq(m, r))
    z.check("hstack", z.seq(z.mat(3, 1, "a"), z.mat(3, 2, "b")))
    z.check("column_stack", z.seq(v, w))
    z.check("row_stack", z.seq(v, w), np="vstack")
    a, b = z.num("a"), z.num("b")
    for rows in ([a, b], [[a, b], [b, a]], [[a, P(0)], [P(1), b]], [a, P(2), b], [[a, b, P(0)], [P(0), P(1), P(2)]]):
        pick = lambda k: z.I.new_list([z.I.new_list([x[k] if isinstance(x, tuple) else x for x in q]) if isinstance(q, list) else q[k] if isinstance(q, tuple) else q for q in rows])
        z.check("array", (pick(0), pick(1)))
    z.check("array", m)


def t_split(z):
    m, v = z.mat(4, 6), z.vec(6)
    L = lambda *k: z.I.new_list([P(x) for x in k])
    for ax, parts in ((0, (1, 2, 4)), (1, (1, 2, 3))):
        for k in parts:
            z.check("split", m, P(k), axis=P(ax))
        for at in ((1,), (1, 3), (2, 3)):
            z.check("split", m, L(*at), axis=P(ax))
    z.check("split", m, P(2), axis=P(-1))
    z.check("split", m, L(1, 2), axis=P(-1))
    z.check("split", v, P(3), axis=P(0))
    z.check("split", v, L(2), axis=P(0))
    for f, k, ax in (("vsplit", 2, 0), ("hsplit", 3, 1)):
        z.check(f, m, P(k), want=z.I.call(Ext("numpy.split"), [m[0], P(k)], {"axis": P(ax)}))


def t_shape(z):
    v, m = z.vec(6), z.mat(2, 3)
    T = lambda *k: Tup([P(x) for x in k])
    for x, s in ((v, (2, 3)), (v, (6, 1)), (v, (1, 6)), (v, (-1, 2)), (m, (3, 2)), (m, (6, 1)), (m, (1, -1)), (m, (2, 3))):
        z.check("reshape", x, T(*s))
    w = z.vec(4)
    e = entries(z, w)
    z.check("diag", z.vec(3), want=z.I.call(Ext("numpy.diag"), [z.vec(3)[0]], {}))
    for k in (0, 1, 2, 3, -1, -2, 4, 5):
        z.check("roll", w, P(k), want=z.I.new_list([e[(j - k) % 4] for j in range(4)]) and arr_list(z, [e[(j - k) % 4] for j in range(4)]))
    q = z.mat(3, 4)
    E = entries(z, q)
    for k in (0, 1, 2, -1, 3):
        z.check("roll", q, P(k), axis=P(0), want=arr_list(z, [[E[(i - k) % 3][j] for j in range(4)] for i in range(3)]))
        z.check("roll", q, P(k), axis=P(1), want=arr_list(z, [[E[i][(j - k) % 4] for j in range(4)] for i in range(3)]))
    z.check("length", w, want=P(4))


def t_roll_all(z):
    q = z.mat(3, 4)
    flat = [x for row in entries(z, q) for x in row]
    for k in (0, 1, 2, -1, 3):
        z.check("roll", q, P(k), want=arr_list(z, [[flat[(4 * i + j - k) % 12] for j in range(4)] for i in range(3)]))


def arr_list(z, e):
    f = (lambda ix: e[int(ix[0].const())]) if not isinstance(e[0], list) else (lambda ix: e[int(ix[0].const())][int(ix[1].const())])
    return z.I.new_arr(Arr((P(len(e)),) if not isinstance(e[0], list) else (P(len(e)), P(len(e[0]))), f))


def t_linalg(z):
    v, w, m, n = z.vec(3), z.vec(3, "w"), z.mat(2, 3), z.mat(3, 2, "n")
    e, f = entries(z, v), entries(z, w)
    inner = sum((x * y for x, y in zip(e, f)), ZERO)
    z.check("dot", v, w, want=inner)
    z.check("linalg.inner", v, w, want=inner)
    z.check("linalg.outer", v, w, want=arr_list(z, [[x * y for y in f] for x in e]))
    mul = lambda a, b: z.I.new_arr(arrays.matmul(arr_of(z.I, a[0]), arr_of(z.I, b[0])))
    q = z.mat(3, 3, "q")
    for a, b in ((m, n), (n, m), (q, q), (m, v), (q, v), (z.mat(2, 2), z.mat(2, 2, "o")), (z.mat(1, 3, "r"), v)):
        z.check("dot", a, b, want=mul(a, b))
    x = [e[1] * f[2] - e[2] * f[1], e[2] * f[0] - e[0] * f[2], e[0] * f[1] - e[1] * f[0]]
    z.check("cross", v, w, want=arr_list(z, x))
    for o in (None, 1, 2, 3, "fro", "inf", "-inf"):
        kw = {} if o is None else {"ord": z.I.getattr(Ext("numpy"), "inf") if o == "inf" else -z.I.getattr(Ext("numpy"), "inf") if o == "-inf" else o if isinstance(o, str) else P(o)}
        if o != "fro":
            z.check("linalg.norm", v, want=norm_oracle(z, e, o), **kw)
        E = entries(z, q)
        for ax in (0, 1):
            if o == "fro":
                continue
            z.check("linalg.norm", q, axis=P(ax), want=arr_list(z, [norm_oracle(z, [E[i][j] if ax == 0 else E[j][i] for i in range(3)], o) for j in range(3)]), **kw)
        flat = [x for r in E for x in r]
        mx = lambda g, xs: norm_oracle_max(z, xs, g)
        cols = [sum((z.I.lib.np.uf("abs", E[i][j]) for i in range(3)), ZERO) for j in range(3)]
        rows = [sum((z.I.lib.np.uf("abs", E[i][j]) for j in range(3)), ZERO) for i in range(3)]
        whole = {None: lambda: norm_oracle(z, flat, None), "fro": lambda: norm_oracle(z, flat, None), 1: lambda: mx("maximum", cols), "inf": lambda: mx("maximum", rows), "-inf": lambda: mx("minimum", rows)}.get(o)
        # the spectral norm, and those numpy refuses, have no closed form here: they must not look like another norm
        z.check("linalg.norm", q, want=whole() if whole else sym(f"matrix norm of order {o}"), **kw)


def norm_oracle_max(z, xs, g):
    r = xs[0]
    for x in xs[1:]:
        r = z.I.as_num(z.I.call(Ext("numpy." + g), [r, x], {}))
    return r


def t_diff(z):
    v, m, r = z.vec(4), z.mat(3, 4), z.mat(1, 4, "r")
    d = lambda e: [y - x for x, y in zip(e, e[1:])]
    e = entries(z, v)
    z.check("diff", v, want=arr_list(z, d(e)))
    z.check("diff", v, n=P(2), want=arr_list(z, d(d(e))))
    z.check("diff", m, want=arr_list(z, [d(x) for x in entries(z, m)]))
    z.check("diff", r, want=arr_list(z, [d(x) for x in entries(z, r)]))


def t_vectors(z, b):
    """vector_concat, vector_split and vector_tile with each backend."""
    c = z.c
    I = z.I
    call(I, I.mod_get("lumos.numpy", "set_backend"), b)
    U = "lumos.numpy.utils"
    f = lambda n: I.mod_get(U, n)
    wrap = lambda p: p[1] if b == "casadi" else Traced(p[0]) if b == "jax" else p[0]
    un = lambda v: v.value if isinstance(v, Traced) else v
    v, w = z.vec(3), z.vec(2, "w")
    r = call(I, f("vector_concat"), I.new_list([wrap(v), wrap(w), wrap(v)]))
    ev, ew = entries(z, v), entries(z, w)
    z.equal(un(r), arr_list(z, ev + ew + ev), f"vector_concat with {b}")
    for at in ((1,), (1, 2), (2,), (1, 3)):
        u = z.vec(4, "u")
        eu = entries(z, u)
        r = call(I, f("vector_split"), wrap(u), I.new_list([P(k) for k in at]))
        cut = [0, *at, 4]
        got = I.iter_items(r)
        if got is None or len(got) != len(at) + 1:
            raise Bad(f"vector_split at {at} with {b} gives {r!r}"[:200]) if got is not None else Und(f"vector_split: {r!r}"[:150])
        for x, lo, hi in zip(got, cut, cut[1:]):
            z.equal(un(x), arr_list(z, eu[lo:hi]), f"part {lo}:{hi} of vector_split with {b}")
    for k in (1, 2, 4):
        r = call(I, f("vector_tile"), wrap(v), P(k))
        z.equal(un(r), arr_list(z, [ev] * k), f"{k} rows of vector_tile with {b}")


def ob_fn(c, test, kind, *a):
    z = Fn(c, kind)
    test(z, *a)
    if not z.n:
        raise Und("no call is accepted")
    for n in sorted(set(z.refused) - z.accepted):
        raise Bad(f"{n} accepts none of the calls it is offered for, such as {z.refused[n]}")


FNS = {"arithmetic": t_arith, "conditionals": t_where, "joining": t_join, "splitting": t_split, "shapes": t_shape, "linear algebra": t_linalg, "differences": t_diff, "rolling a matrix without an axis": t_roll_all}
