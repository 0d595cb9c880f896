"""Stand-ins for dense casadi matrices: column-major, always two-dimensional, values of the entries as terms."""
import ast
from . import arrays, alg
from .alg import P, ZERO, ONE, Poly
from .arrays import Arr, Cond, topoly
from .values import Stub, Tup, Native, Ref, Unknown, Ext
from .harness import arr_of

# numpy's functions a symbolic casadi matrix supports; it refuses the others
UNARY = {"sin", "cos", "tan", "arccos", "arctan", "arcsin", "exp", "tanh", "sqrt", "sign", "log", "fabs", "floor", "ceil", "log10", "expm1", "log1p", "sinh", "cosh", "arcsinh", "arccosh", "arctanh"}
BINARY = {"arctan2", "add", "subtract", "multiply", "divide", "true_divide", "power", "copysign"}
OPS = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div, "power": ast.Pow}
# numpy's questions about values that do not convert them
HARMLESS = {"shape", "isscalar", "size"}


def c1(x):
    return x.const() if isinstance(x, Poly) else None


def is_one(m):
    return c1(m.shape[0]) == 1 and c1(m.shape[1]) == 1


class Cas(Stub):
    def __init__(self, arr, kind="casadi.SX"):
        assert arr.ndim == 2
        super().__init__("casadi matrix", isa=(kind,))
        self.arr, self.kind = arr, kind
        self.attrs = {"shape": Tup(arr.shape), "T": lambda s: Cas(Arr((arr.shape[1], arr.shape[0]), lambda ix: arr.get((ix[1], ix[0]))), kind)}
        n = arr.shape[0] * arr.shape[1]
        self.methods = {
            "numel": lambda i, a, k: n, "size1": lambda i, a, k: arr.shape[0], "size2": lambda i, a, k: arr.shape[1],
            "size": lambda i, a, k: arr.shape[i.as_num(a[0]).const() - 1] if a else Tup(arr.shape),
            "reshape": lambda i, a, k: self.reshape(i, a[0] if len(a) == 1 else Tup(a)),
            "getitem": lambda i, o, k: self.item(i, k),
            "binop": binop, "unop": lambda i, op, v: self.each(lambda x: -topoly(x)),
            "ext": ext, "truth": self.truth, "compare": compare, "items": self.no_iter, "missing": missing,
            "is_empty": lambda i, a, k: False, "is_scalar": lambda i, a, k: is_one(arr), "is_vector": lambda i, a, k: c1(arr.shape[0]) == 1 or c1(arr.shape[1]) == 1,
            "__deepcopy__": lambda i, a, k: self, "__copy__": lambda i, a, k: self,
        }

    def __repr__(self):
        a = self.arr
        if a.size.const() is not None and a.size.const() <= 4:
            return f"<casadi {a.shape}: " + ", ".join(alg.show(topoly(self.col().get((P(k),)))) for k in range(int(a.size.const()))) + ">"
        return f"<casadi {a.shape}>"

    def vkey(self):
        return f"cas{self.kind}{arrays.akey(self.arr)}"

    def each(self, f):
        a = self.arr
        return Cas(Arr(a.shape, lambda ix: f(topoly(a.get(ix)))), self.kind)

    def col(self):
        """Column-major list of the entries, as a function of the position."""
        a = self.arr
        t = arrays.ravel(Arr((a.shape[1], a.shape[0]), lambda ix: a.get((ix[1], ix[0]))))
        return t

    def reshape(self, I, shape):
        s = [I.as_num(x) for x in (I.iter_items(shape) or [])]
        if len(s) != 2 or any(x is None for x in s):
            I.raise_("NotImplementedError", "shape of a casadi matrix has two sizes")
        n = self.arr.size
        for k in (0, 1):
            if c1(s[k]) == -1:
                if c1(n) is None or c1(s[1 - k]) is None:
                    return I.unknown("reshape")
                s[k] = P(int(c1(n)) // int(c1(s[1 - k])))
        if c1(n) is not None and c1(s[0] * s[1]) is not None and c1(n) != c1(s[0] * s[1]):
            I.raise_("RuntimeError", "reshape changes the number of entries")
        m = arrays.reshape(self.col(), (s[1], s[0]))
        return Cas(Arr((m.shape[1], m.shape[0]), lambda ix: m.get((ix[1], ix[0]))), self.kind)

    def item(self, I, k):
        from .interp import Slice
        a = self.arr
        if isinstance(k, Tup):
            if len(k.items) != 2:
                I.raise_("RuntimeError", "a casadi matrix has two axes")
            ks = []
            for q, n in zip(k.items, a.shape):
                x = I.as_num(q) if not isinstance(q, Slice) else None
                if x is not None:
                    self.bounds(I, x, n)
                    if c1(x) is not None and c1(x) < 0:
                        x = x + n
                    q = Slice(x, x + 1, None)
                ks.append(q)
            r = arr_of(I, I.getitem(I.new_arr(a), Tup(ks)))
            if r is None:
                return I.unknown("entries of a casadi matrix")
            return Cas(r, self.kind)
        x = I.as_num(k) if not isinstance(k, Slice) else None
        if x is not None:
            self.bounds(I, x, a.size)
            if c1(x) is not None and c1(x) < 0:
                x = x + a.size
            e = self.col().get((x,))
            return Cas(Arr((ONE, ONE), lambda ix: e), self.kind)
        r = arr_of(I, I.getitem(I.new_arr(self.col()), k))
        if r is None or r.ndim != 1:
            return I.unknown("entries of a casadi matrix")
        if c1(a.shape[0]) == 1 and c1(a.shape[1]) != 1:
            return Cas(Arr((ONE, r.shape[0]), lambda ix: r.get((ix[1],))), self.kind)
        return Cas(Arr((r.shape[0], ONE), lambda ix: r.get((ix[0],))), self.kind)

    def bounds(self, I, x, n):
        if c1(x) is not None and c1(n) is not None and not -c1(n) <= c1(x) < c1(n):
            I.raise_("RuntimeError", "out of bounds")

    def truth(self, I):
        if all(topoly(self.col().get((P(k),))).const() is not None for k in range(int(self.arr.size.const() or 0))) and self.arr.size.const() == 1 and self.kind == "casadi.DM":
            return topoly(self.col().get((ZERO,))).const() != 0
        I.raise_("RuntimeError", "Can only determine truth value of a numeric MX.")

    def no_iter(self, I):
        I.raise_("Exception", "CasADi matrices are not iterable by design.")


def matrix(I, v):
    """The two-dimensional array of a casadi matrix, a number or a numeric array; None if it is none."""
    if isinstance(v, Cas):
        return v.arr
    if isinstance(v, (bool, Cond)):
        p = topoly(v)
        return Arr((ONE, ONE), lambda ix: p)
    if isinstance(v, Stub) or v is None or isinstance(v, (str, Unknown)):
        return None
    p = I.as_num(v)
    if p is not None:
        return Arr((ONE, ONE), lambda ix: p)
    a = arr_of(I, v)
    if not isinstance(a, Arr):
        return None
    if a.ndim == 0:
        return Arr((ONE, ONE), lambda ix: a.get(()))
    if a.ndim == 1:
        return Arr((a.shape[0], ONE), lambda ix: a.get((ix[0],)))
    return a if a.ndim == 2 else None


def kind_of(*vs):
    ks = [v.kind for v in vs if isinstance(v, Cas)]
    for k in ("casadi.MX", "casadi.SX"):
        if k in ks:
            return k
    return ks[0] if ks else "casadi.DM"


def combine(I, f, a, b):
    x, y = matrix(I, a), matrix(I, b)
    if x is None or y is None:
        if any(isinstance(v, Unknown) for v in (a, b)):
            return I.unknown("operand of a casadi matrix")
        I.raise_("TypeError", "unsupported operand of a casadi matrix")
    kind = kind_of(a, b)
    if is_one(x) or is_one(y):
        big, shape = (y, y.shape) if is_one(x) else (x, x.shape)
        gx = (lambda ix: x.get((ZERO, ZERO))) if is_one(x) else x.get
        gy = (lambda ix: y.get((ZERO, ZERO))) if is_one(y) else y.get
        return Cas(Arr(shape, lambda ix: f(gx(ix), gy(ix))), kind)
    if not all(arrays.same_dim(p, q) for p, q in zip(x.shape, y.shape)):
        n = [c1(s) for s in x.shape + y.shape]
        if None in n:
            return I.unknown("shapes of casadi matrices")
        if n[0] == n[2] and n[1] % n[3] == 0:
            return Cas(Arr(x.shape, lambda ix: f(x.get(ix), y.get((ix[0], P(int(c1(ix[1])) % int(n[3])))))), kind)
        if n[0] == n[2] and n[3] % n[1] == 0:
            return Cas(Arr(y.shape, lambda ix: f(x.get((ix[0], P(int(c1(ix[1])) % int(n[1])))), y.get(ix))), kind)
        I.raise_("RuntimeError", "Dimension mismatch of casadi matrices")
    return Cas(Arr(x.shape, lambda ix: f(x.get(ix), y.get(ix))), kind)


def binop(I, op, a, b):
    if isinstance(op, ast.MatMult):
        x, y = matrix(I, a), matrix(I, b)
        if x is None or y is None:
            return I.unknown("matrix product")
        if is_one(x) or is_one(y):
            return combine(I, lambda u, w: topoly(u) * topoly(w), a, b)
        if not isinstance(a, Cas) and arr_of(I, a) is not None and arr_of(I, a).ndim == 1:
            I.raise_("TypeError", "operand type(s) all returned NotImplemented from __array_ufunc__")
        if not arrays.same_dim(x.shape[1], y.shape[0]):
            if c1(x.shape[1]) is None or c1(y.shape[0]) is None:
                return I.unknown("shapes of casadi matrices")
            I.raise_("RuntimeError", "Matrix product with incompatible dimensions")
        return Cas(arrays.matmul(x, y), kind_of(a, b))
    if isinstance(op, (ast.FloorDiv, ast.Mod)) or not isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)):
        I.raise_("TypeError", "unsupported operand type(s)")
    return combine(I, lambda u, w: topoly(I.scalar_op(op, topoly(u), topoly(w))), a, b)


def compare(I, op, a, b):
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return I.unknown("comparison")
    if isinstance(op, (ast.Eq, ast.NotEq)) and (matrix(I, a) is None or matrix(I, b) is None):
        return isinstance(op, ast.NotEq)
    return combine(I, lambda u, w: topoly(I.scalar_cmp(op, topoly(u), topoly(w))), a, b)


# attributes of numeric arrays that casadi matrices lack
LACKS = {"dot", "ndim", "flatten", "ravel", "dtype", "at", "item", "sum", "mean", "max", "min", "astype", "squeeze", "tolist", "std", "var", "prod", "cumsum", "argmax", "argmin", "transpose", "copy_", "fill", "swapaxes",
         "clip", "round", "trace", "diagonal", "all", "any", "conj", "real", "imag", "flat", "itemsize", "nbytes", "base", "strides", "data", "view", "sort", "argsort", "take", "repeat", "put", "resize"}


def items(I, v):
    for x in v.items if isinstance(v, Tup) else I.rec(v).items if isinstance(v, Ref) and I.rec(v).kind == "list" else ():
        yield x
        yield from items(I, x)


def in_list(I, path, args):
    """Lists with casadi matrices: numpy keeps numbers as objects and refuses matrices."""
    root, _, name = path.partition(".")
    ms = [x for a in args for x in items(I, a) if isinstance(x, Cas)]
    if root == "numpy" and name not in ("shape",):
        if any(not is_one(m.arr) for m in ms):
            I.raise_("Exception", "Implicit conversion of symbolic CasADi type to numeric matrix not supported.")
        if name == "sum":
            return NotImplemented
        if name in ("max", "min", "amax", "amin", "sort", "argmax", "argmin", "where", "clip", "all", "any"):
            ms[0].truth(I)
        return I.unknown(f"{path} of casadi matrices as objects")
    if path in ("builtins.max", "builtins.min", "builtins.sorted", "builtins.any", "builtins.all") and len(ms) > 1:
        ms[0].truth(I)
    if root == "math":
        I.raise_("TypeError", f"{path} of a casadi matrix")
    return NotImplemented


def missing(I, name):
    if name in LACKS:
        I.raise_("AttributeError", f"a casadi matrix has no attribute {name}")
    return I.unknown(f"attribute {name} of a casadi matrix")


def ext(I, path, args, kwargs):
    """An external function called with a casadi matrix."""
    from .interp import mathfn
    root, _, name = path.partition(".")
    if root == "casadi":
        return NotImplemented
    if not any(isinstance(a, Cas) for a in args):
        return in_list(I, path, args)
    if root == "numpy":
        if name in UNARY and len(args) == 1:
            return args[0].each(lambda x: I.lib.np.uf(name, x))
        if name in OPS and len(args) == 2:
            return binop(I, OPS[name](), *args)
        if name in BINARY and len(args) == 2:
            return combine(I, lambda u, w: mathfn(name, u, w), *args)
        if name == "shape":
            return args[0].attrs["shape"]
        if name == "isscalar":
            return False
        if name in ("array", "asarray") and args:
            return NotImplemented
        I.raise_("TypeError", f"numpy.{name} does not support casadi matrices")
    if path in ("builtins.isinstance", "builtins.type", "builtins.hasattr", "builtins.getattr", "builtins.id", "builtins.repr", "builtins.str", "builtins.print", "builtins.callable", "copy.deepcopy", "copy.copy",
                "builtins.list", "builtins.tuple", "builtins.dict", "builtins.zip", "builtins.setattr"):
        if path in ("builtins.list", "builtins.tuple") and args and isinstance(args[0], Cas):
            args[0].no_iter(I)
        return NotImplemented
    if path in ("builtins.bool", "builtins.float") or root == "math":
        I.raise_("RuntimeError", "'to_double' not defined for a symbolic casadi matrix")
    if path in ("builtins.len", "builtins.int", "builtins.abs", "builtins.round"):
        I.raise_("TypeError", f"{path} of a casadi matrix")
    if path in ("builtins.max", "builtins.min"):
        args[0].truth(I)
    return NotImplemented


def install(I, sym=True):
    def mats(I, vs):
        ms = [matrix(I, v) for v in vs]
        if not vs or any(m is None for m in ms):
            return None
        return ms

    def cat(axis):
        def f(i, a, k):
            if len(a) == 1 and not isinstance(a[0], Cas):
                a = i.iter_items(a[0]) or []
            for v in a:
                if isinstance(v, (Tup,)) or isinstance(v, Ref) and i.rec(v).kind == "list":
                    i.raise_("NotImplementedError", "a list is no casadi matrix")
            ms = mats(i, a)
            if ms is None:
                return i.unknown("vertcat" if axis == 0 else "horzcat")
            n = [c1(m.shape[1 - axis]) for m in ms]
            if None not in n and len(set(n)) > 1:
                i.raise_("RuntimeError", "dimension mismatch in concatenation")
            return Cas(arrays.concat(ms, axis), kind_of(*a))
        return f

    def split(axis):
        def f(i, a, k):
            m = a[0]
            if not isinstance(m, Cas):
                return i.unknown("split of a casadi matrix")
            if i.iter_items(a[1]) is None:
                step, n = i.as_num(a[1]), m.arr.shape[axis]
                if step is None or c1(step) is None or c1(n) is None:
                    return i.unknown("split of a casadi matrix")
                off = [P(j) for j in range(0, int(c1(n)), int(c1(step)))] + [n]
            else:
                off = [i.as_num(x) for x in i.iter_items(a[1])]
            if len(off) < 2 or any(o is None for o in off):
                return i.unknown("split of a casadi matrix")
            if c1(off[-1]) is not None and c1(m.arr.shape[axis]) is not None and (c1(off[-1]) != c1(m.arr.shape[axis]) or c1(off[0]) != 0):
                i.raise_("RuntimeError", "offsets of a split")
            out = []
            for lo, hi in zip(off, off[1:]):
                sh = [m.arr.shape[0], m.arr.shape[1]]
                sh[axis] = hi - lo
                out.append(Cas(Arr(tuple(sh), lambda ix, lo=lo: m.arr.get((ix[0] + lo, ix[1]) if axis == 0 else (ix[0], ix[1] + lo))), m.kind))
            return i.new_list(out)
        return f

    def total(axis):
        def f(i, a, k):
            m = matrix(i, a[0])
            n = c1(m.shape[axis]) if m is not None else None
            if n is None:
                return i.unknown("sum of a casadi matrix")
            sh = (ONE, m.shape[1]) if axis == 0 else (m.shape[0], ONE)
            return Cas(Arr(sh, lambda ix: sum((topoly(m.get((P(j), ix[1]) if axis == 0 else (ix[0], P(j)))) for j in range(int(n))), ZERO)), kind_of(a[0]))
        return f

    def entries(i, v):
        m = matrix(i, v)
        if m is None or m.size.const() is None:
            return None
        return [topoly(Cas(m).col().get((P(j),))) for j in range(int(m.size.const()))]

    def reduce_(g):
        def f(i, a, k):
            e = entries(i, a[0])
            if e is None:
                return i.unknown("norm of a casadi matrix")
            r = g(i, e)
            return Cas(Arr((ONE, ONE), lambda ix: r), kind_of(a[0]))
        return f

    def largest(i, e, name="maximum"):
        r = e[0]
        for x in e[1:]:
            r = topoly(i.as_num(i.call(Ext("numpy." + name), [r, x], {})))
        return r

    def dot(i, a, k):
        x, y = entries(i, a[0]), entries(i, a[1])
        if x is None or y is None:
            return i.unknown("dot")
        if len(x) != len(y) or not all(arrays.same_dim(p, q) for p, q in zip(matrix(i, a[0]).shape, matrix(i, a[1]).shape)):
            i.raise_("RuntimeError", "dot of casadi matrices of different shapes")
        r = sum((p * q for p, q in zip(x, y)), ZERO)
        return Cas(Arr((ONE, ONE), lambda ix: r), kind_of(*a))

    def cross(i, a, k):
        x, y = matrix(i, a[0]), matrix(i, a[1])
        if x is None or y is None or x.size.const() != 3 or y.size.const() != 3 or c1(x.shape[0]) not in (1, 3):
            return i.unknown("cross")
        if c1(x.shape[0]) != c1(y.shape[0]):
            i.raise_("RuntimeError", "cross of casadi matrices of different shapes")
        p, q = entries(i, a[0]), entries(i, a[1])
        v = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
        return Cas(Arr(x.shape, lambda ix: v[int(c1(ix[0] + ix[1]))]), kind_of(*a))

    def mtimes(i, a, k):
        return binop(i, ast.MatMult(), *a)

    def repmat(i, a, k):
        m = matrix(i, a[0])
        r = [i.as_num(x) for x in (i.iter_items(a[1]) if len(a) == 2 and i.iter_items(a[1]) is not None else a[1:])]
        if len(r) == 1:
            r.append(ONE)
        if m is None or any(x is None or c1(x) is None for x in r) or None in (c1(m.shape[0]), c1(m.shape[1])):
            return i.unknown("repmat")
        n = (int(c1(m.shape[0])), int(c1(m.shape[1])))
        return Cas(Arr((m.shape[0] * r[0], m.shape[1] * r[1]), lambda ix: m.get(tuple(P(int(c1(p)) % q) for p, q in zip(ix, n)))), kind_of(a[0]))

    def diff(i, a, k):
        m = matrix(i, a[0])
        n = i.as_num(a[1]) if len(a) > 1 else ONE
        ax = i.as_num(a[2]) if len(a) > 2 else P(-1)
        if m is None or n is None or ax is None or None in (c1(n), c1(ax)):
            return i.unknown("diff")
        axis = int(c1(ax)) if c1(ax) >= 0 else (1 if c1(m.shape[0]) == 1 else 0)
        for _ in range(int(c1(n))):
            sh = list(m.shape)
            sh[axis] = sh[axis] - 1
            m = Arr(tuple(sh), lambda ix, m=m: topoly(m.get((ix[0] + 1, ix[1]) if axis == 0 else (ix[0], ix[1] + 1))) - topoly(m.get(ix)))
        return Cas(m, kind_of(a[0]))

    def diag(i, a, k):
        m = matrix(i, a[0])
        if m is None or None in (c1(m.shape[0]), c1(m.shape[1])):
            return i.unknown("diag")
        if 1 not in (c1(m.shape[0]), c1(m.shape[1])):
            return Cas(Arr((m.shape[0], ONE), lambda ix: m.get((ix[0], ix[0]))), kind_of(a[0]))
        v, n = Cas(m).col(), m.size
        return Cas(Arr((n, n), lambda ix: v.get((ix[0],)) if c1(ix[0] - ix[1]) == 0 else ZERO), kind_of(a[0]))

    def unary(name):
        return lambda i, a, k: a[0].each(lambda x: i.lib.np.uf(name, x)) if isinstance(a[0], Cas) else i.call(Ext("numpy." + name), list(a), {})

    def binary(name):
        return lambda i, a, k: combine(i, lambda u, w: i.as_num(i.call(Ext("numpy." + name), [topoly(u), topoly(w)], {})), *a) if any(isinstance(x, Cas) for x in a) else i.call(Ext("numpy." + name), list(a), {})

    def if_else(i, a, k):
        c, x, y = (matrix(i, v) for v in a[:3])
        if c is None or x is None or y is None:
            return i.unknown("if_else")
        sel = combine(i, lambda u, w: topoly(u) * topoly(w), a[0], a[1]) if isinstance(a[0], Cas) or isinstance(a[1], Cas) else None
        if sel is None:
            return i.unknown("if_else")
        non = binop(i, ast.Sub(), ONE, a[0]) if isinstance(a[0], Cas) else i.unknown("if_else")
        if isinstance(non, Unknown):
            return non
        return binop(i, ast.Add(), sel, combine(i, lambda u, w: topoly(u) * topoly(w), non, a[2]))
    fs = {
        "vertcat": cat(0), "horzcat": cat(1), "vertsplit": split(0), "horzsplit": split(1), "sum1": total(0), "sum2": total(1),
        "transpose": lambda i, a, k: i.getattr(a[0], "T"), "reshape": lambda i, a, k: a[0].reshape(i, a[1] if len(a) == 2 else Tup(a[1:])),
        "norm_fro": reduce_(lambda i, e: i.lib.np.uf("sqrt", sum((x * x for x in e), ZERO))), "norm_inf": reduce_(lambda i, e: largest(i, [i.lib.np.uf("abs", x) for x in e])),
        "mmax": reduce_(lambda i, e: largest(i, e)), "mmin": reduce_(lambda i, e: largest(i, e, "minimum")), "dot": dot, "cross": cross, "mtimes": mtimes, "repmat": repmat, "diff": diff, "diag": diag, "if_else": if_else,
    }
    for n in sorted(UNARY):
        fs[n] = unary(n)
    fs["fabs"] = unary("abs")
    for n, m in (("fmin", "minimum"), ("fmax", "maximum"), ("atan2", "arctan2"), ("arctan2", "arctan2")):
        fs[n] = binary(m)
    for n, m in (("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan")):
        fs[n] = unary(m)
    for n, f in fs.items():
        I.overrides["casadi." + n] = Native("casadi." + n, f)
