"""Abstract semantics of the builtins and libraries used by the analysed code."""
import ast
from . import alg, arrays
from .alg import P, Poly, Atom, ZERO, ONE, subst
from .arrays import (Arr, Cond, NeedSplit, Undecidable, ShapeError, c_and, c_or, c_not, select,
                     elementwise, base_array, index, Rep)
from .values import *

EXCEPTIONS = {"Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError",
              "NotImplementedError", "AttributeError", "AssertionError", "NameError", "StopIteration", "OSError",
              "FileNotFoundError", "ImportError", "ZeroDivisionError", "LookupError", "ArithmeticError",
              "DeprecationWarning", "UserWarning", "Warning", "FileExistsError", "OverflowError", "Exception"}
BUILTINS = EXCEPTIONS | {"len", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "frozenset", "str", "int",
                         "float", "bool", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "delattr", "callable",
                         "sum", "min", "max", "abs", "any", "all", "sorted", "reversed", "map", "filter", "print",
                         "type", "next", "iter", "super", "property", "classmethod", "staticmethod", "id", "round",
                         "repr", "open", "slice", "object", "complex", "bytes", "vars", "dir", "pow", "divmod",
                         "NotImplemented", "Ellipsis", "hash", "globals", "locals", "input", "exec", "eval", "format",
                         "bytearray", "memoryview", "chr", "ord", "hex"}

UFUNCS = {"sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh",
          "exp", "log", "log10", "log2", "log1p", "expm1", "sqrt", "abs", "sign", "floor", "ceil", "deg2rad", "rad2deg",
          "square", "cbrt", "fabs", "isnan", "isfinite", "isinf", "radians", "degrees", "absolute", "conj", "real"}
UBIN = {"arctan2", "hypot", "fmod", "logaddexp", "copysign"}
IDENT_JAX = {"jax.jit", "jax.named_call", "jax.checkpoint", "functools.lru_cache", "jax.tree_util.register_pytree_node_class",
             "functools.wraps"}
INERT = ("logging", "timeit", "time", "warnings", "tqdm")


def memory_order(x, order):
    """C or F for an order argument; A and K depend on how the array lies in memory."""
    if order in ("C", "F", None):
        return order
    if order not in ("A", "K"):
        raise Undecidable(f"order {order!r}")
    if x.ndim <= 1:
        return "C"
    if x.meta.get("layout") is None:
        raise Undecidable("the order of the entries depends on the memory layout")
    return x.meta["layout"]


def memo(arr):
    """An array of concrete shape that computes every entry once."""
    if arr.size.const() is None or arr.meta.get("memo"):
        return arr
    seen = {}

    def get(ix):
        k = tuple(P(x).const() for x in ix)
        if None in k:
            return arr.get(ix)
        if k not in seen:
            seen[k] = arr.get(ix)
        return seen[k]
    return Arr(arr.shape, get, **dict(arr.meta, memo=True))


BINARY_UFUNCS = {"add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "mod", "remainder", "arctan2", "fmod", "floor_divide", "hypot"}
UNARY_UFUNCS = {"negative", "sqrt", "exp", "log", "sin", "cos", "tan", "abs", "absolute", "square", "reciprocal", "tanh", "arctan"}


class SparseV(Value):
    """Sparse matrix: dense access function, plus the triplet it was built from."""
    count = 0

    def __init__(self, arr, triplet=None):
        self.arr, self.triplet = memo(arr), triplet
        SparseV.count += 1
        self.uid = SparseV.count

    @property
    def key(self):
        return "sparse" + vkey(self.arr)

    def __repr__(self):
        return f"<sparse {self.arr!r}>"


def kwd(args, kwargs, pos, name, default=None):
    if len(args) > pos:
        return args[pos]
    return kwargs.get(name, default)


class Lib:
    def __init__(self, interp):
        self.i = interp
        self.np = NP(self)

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in BUILTINS:
            return Ext("builtins." + name)
        return None

    def ext_value(self, path):
        q = path.replace("jax.numpy.", "numpy.") if path.startswith("jax.numpy.") else path
        if q in ("numpy.pi", "math.pi"):
            return alg.sym("pi")
        if q in ("numpy.e", "math.e"):
            return alg.sym("euler")
        if q in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty"):
            return alg.sym("inf")
        if q == "numpy.newaxis":
            return None
        if q in ("numpy.nan", "math.nan"):
            return alg.sym("nan")
        return Ext(path)

    # ------------------------------------------------------------ calls
    def in_place(self, path, args, kwargs):
        """numpy functions that write into an array they are given."""
        i = self.i
        q = path[len("numpy."):]
        args, out = list(args), kwargs.get("out")
        if out is None and (q in BINARY_UFUNCS and len(args) == 3 or q in UNARY_UFUNCS and len(args) == 2):
            out, args = args[-1], args[:-1]
        if out is not None:
            if isinstance(out, Tup) and len(out.items) == 1:
                out = out.items[0]
            kw = {k: v for k, v in kwargs.items() if k != "out"}
            r = self.call_ext(path, args, kw)
            if not (isinstance(out, Ref) and isinstance(i.rec(out), ArrR)):
                return i.unknown(f"{path} with out")
            n = i.as_num(r)
            a = i.to_arr(r) if n is None else None
            sh = i.rec(out).arr.shape
            if n is not None:
                i.write_arr(out, arrays.const_array(sh, n))
            elif a is not None and "where" not in kw and len(a.shape) == len(sh) and all(arrays.same_dim(x, y) for x, y in zip(a.shape, sh)):
                i.write_arr(out, a)
            else:
                i.write_arr(out, None)
            return out
        if q in ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "random.shuffle", "add.at", "subtract.at", "multiply.at") and args and isinstance(args[0], Ref) and isinstance(i.rec(args[0]), ArrR):
            n = i.as_num(args[1]) if q == "copyto" and len(args) == 2 and not kwargs else None
            i.write_arr(args[0], arrays.const_array(i.rec(args[0]).arr.shape, n) if n is not None else None)
            return None
        return NotImplemented

    def ext_hook(self, args, depth=2):
        """An argument, or an item of a list of arguments, which handles external functions itself."""
        for a in args:
            if isinstance(a, Stub) and "ext" in a.methods:
                return a
            if depth and (isinstance(a, Tup) or isinstance(a, Ref) and self.i.rec(a).kind == "list"):
                r = self.ext_hook(a.items if isinstance(a, Tup) else self.i.rec(a).items, depth - 1)
                if r is not None:
                    return r
        return None

    def call_ext(self, path, args, kwargs):
        i = self.i
        if path in i.overrides:
            return i.call(i.overrides[path], args, kwargs)
        for a in list(args) + [v for k, v in kwargs.items() if isinstance(k, str)]:
            if isinstance(a, Phi) and not path.startswith(("logging", "builtins.isinstance")):
                idx = next((n for n, x in enumerate(args) if x is a), None)
                if idx is not None:
                    return i.lift(a, lambda x: self.call_ext(path, list(args[:idx]) + [x] + list(args[idx + 1:]), kwargs))
        root = path.split(".")[0]
        a = self.ext_hook(args)
        if a is not None:
            r = a.methods["ext"](i, path, args, kwargs)
            if r is not NotImplemented:
                return r
        if root == "numpy":
            r = self.in_place(path, args, kwargs)
            if r is not NotImplemented:
                return r
        try:
            if root == "builtins":
                f = getattr(self, "b_" + path.split(".", 1)[1], None)
                if f is not None:
                    return f(args, kwargs)
                if path.split(".")[1] in EXCEPTIONS:
                    return Opq("call", Ext(path), *[a if not isinstance(a, Unknown) else "?" for a in args])
            elif root == "numpy" or path.startswith("jax.numpy."):
                q = path[len("jax.numpy."):] if root == "jax" else path[len("numpy."):]
                r = self.np.call(q, args, kwargs)
                if r is not NotImplemented:
                    return r
                path = "numpy." + q
            elif root in INERT or path == "builtins.print":
                if path == "logging.getLogger":
                    return Stub("logger", methods={m: (lambda i_, a, k: None) for m in
                                                   ("info", "debug", "warning", "warn", "error", "exception", "critical", "setLevel", "addHandler")})
                return Opq("inert")
            else:
                f = getattr(self, "f_" + path.replace(".", "_"), None)
                if f is not None:
                    return f(args, kwargs)
                if root == "operator":
                    r = self.op_call(path.split(".")[1], args)
                    if r is not None:
                        return r
                if path in IDENT_JAX:
                    if args:
                        return args[0]
                    return Native("identity", lambda i_, a, k: a[0])
        except (Undecidable, ShapeError) as e:
            i.shape_error(e)
            return i.unknown(f"{path}: {e}")
        except NeedSplit as e:
            if i.loopvars and any(alg.contains(e.d, u) for u in i.loopvars):
                raise
            return i.unknown(f"{path}: undecided {e}")
        return self.opaque_call(path, args, kwargs)

    def opaque_call(self, path, args, kwargs):
        i = self.i
        i.effect("ext", path, tuple(args), dict((k, v) for k, v in kwargs.items() if isinstance(k, str)))
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, Unknown):
                return i.unknown(f"{path} of {a.reason}")
        fa = [i.freeze(a) for a in args]
        fk = [Tup([k if isinstance(k, str) else "**", i.freeze(v) if not isinstance(v, list) else "**"])
              for k, v in sorted(kwargs.items(), key=lambda kv: str(kv[0]))]
        return Opq("call", Ext(path), *fa, *fk)

    def op_call(self, name, args):
        t = {"mul": ast.Mult, "add": ast.Add, "sub": ast.Sub, "truediv": ast.Div, "matmul": ast.MatMult}.get(name)
        if t and len(args) == 2:
            return self.i.binop(t(), *args)
        if name == "neg":
            return self.i.unop(ast.USub(), args[0])
        if name == "itemgetter":
            k = args
            return Native("itemgetter", lambda i, a, kw: i.getitem(a[0], k[0]) if len(k) == 1 else Tup([i.getitem(a[0], x) for x in k]))
        if name == "attrgetter":
            return Native("attrgetter", lambda i, a, kw: i.getattr(a[0], args[0]))
        return None

    # ---- builtins
    def b_staticmethod(self, a, k):
        return Wrapped("staticmethod", a[0])

    def b_classmethod(self, a, k):
        return Wrapped("classmethod", a[0])

    def b_len(self, a, k):
        v = a[0]
        if isinstance(v, Unknown):
            return v
        n = self.i.length(v)
        if n is None:
            x = self.i.as_num(v)
            return P(Atom("app", "len", x)) if x is not None and isinstance(v, Opq) else self.i.unknown(f"len({v!r})"[:60])
        return n

    def b_range(self, a, k):
        p = [self.i.as_num(x) for x in a]
        if any(x is None for x in p):
            return self.i.unknown("range")
        lo, hi, step = (ZERO, p[0], ONE) if len(p) == 1 else (p[0], p[1], ONE) if len(p) == 2 else p
        s = step.const()
        if s is None or s == 0:
            return self.i.unknown("range step")
        if s == -1:
            n = lo - hi
        elif s == 1:
            n = hi - lo
        else:
            c = (hi - lo).const()
            if c is None:
                return self.i.unknown("range step")
            n = P(max(0, -((-c) // s) if s > 0 else -((c) // (-s)) if False else len(range(int(lo.const()), int(hi.const()), int(s)))))
        c = n.const()
        if c is not None and c <= 0:
            return Tup([])
        if c is not None and c <= 64:
            return Tup([lo + P(j) * s for j in range(int(c))])
        v = index(n, "r")
        return Tup([Seg(v, n, lo + P(v) * s)])

    def pairs(self, its):
        """zip of item lists."""
        i = self.i
        its = [list(x) for x in its]
        out = []
        while all(its):
            heads = [x[0] for x in its]
            if not any(isinstance(h, Seg) for h in heads):
                out.append(Tup(heads))
                for x in its:
                    x.pop(0)
                continue
            ns = [h.n if isinstance(h, Seg) else ONE for h in heads]
            n = ns[0]
            for m in ns[1:]:
                d = arrays.neg(m - n)
                if d is None and (m - n).terms:
                    return None
                if d:
                    n = m
            if any(isinstance(h, Seg) and isinstance(h.body, Splice_) for h in heads):
                return None
            if n.const() == 1:
                its2 = []
                vals = []
                for x in its:
                    h = x[0]
                    if isinstance(h, Seg):
                        vals.append(i.inst(h, ZERO))
                        rest = h.n - 1
                        if rest.terms:
                            v = index(rest, "z")
                            x[0] = Seg(v, rest, i.subst_val(h.body, {h.var: P(v) + 1}))
                        else:
                            x.pop(0)
                    else:
                        vals.append(h)
                        x.pop(0)
                out.append(Tup(vals))
                continue
            v = index(n, "z")
            vals = []
            for x in its:
                h = x[0]
                if not isinstance(h, Seg):
                    return None
                vals.append(i.subst_val(h.body, {h.var: P(v)}))
                rest = h.n - n
                if rest.terms:
                    w = index(rest, "z")
                    x[0] = Seg(w, rest, i.subst_val(h.body, {h.var: P(w) + n}))
                else:
                    x.pop(0)
            out.append(Seg(v, n, Tup(vals)))
        return out

    def b_enumerate(self, a, k):
        start = self.i.as_num(kwd(a, k, 1, "start", ZERO))
        items = self.i.iter_items(a[0])
        if items is None:
            return self.i.unknown("enumerate")
        out = []
        n = start
        for it in items:
            if isinstance(it, Seg):
                if isinstance(it.body, Splice_):
                    return self.i.unknown("enumerate of spliced list")
                out.append(Seg(it.var, it.n, Tup([n + P(it.var), it.body])))
                n = n + it.n
            else:
                out.append(Tup([n, it]))
                n = n + 1
        return Tup(out)

    def b_zip(self, a, k):
        its = [self.i.iter_items(x) for x in a]
        if any(x is None for x in its):
            return self.i.unknown("zip")
        r = self.pairs(its)
        return self.i.unknown("zip of sequences of incomparable length") if r is None else Tup(r)

    def b_list(self, a, k):
        if not a:
            return self.i.new_list([])
        it = self.i.iter_items(a[0])
        return self.i.unknown(f"list({a[0]!r})"[:60]) if it is None else self.i.new_list(it)

    def b_tuple(self, a, k):
        if not a:
            return Tup([])
        if isinstance(a[0], Tup) and a[0].nt is None:
            return a[0]
        it = self.i.iter_items(a[0])
        return (Opq("tuple", a[0]) if isinstance(a[0], Opq) else self.i.unknown(f"tuple({a[0]!r})"[:60])) if it is None else Tup(it)

    def b_set(self, a, k):
        it = self.i.iter_items(a[0]) if a else []
        if it is None:
            return self.i.unknown("set")
        out = []
        for x in it:
            if isinstance(x, Seg) or self.i.find_pos(out, x)[0] != "found":
                out.append(x)
        return self.i.alloc(SetR(out))

    b_frozenset = b_set

    def b_dict(self, a, k):
        d = self.i.new_dict([])
        if a:
            ents = self.i.dict_entries(a[0])
            if ents is not None:
                self.i.put(d, DictR(ents))
            else:
                items = self.i.iter_items(a[0])
                if items is None:
                    return self.i.unknown("dict()")
                for it in items:
                    if isinstance(it, Seg):
                        b = it.body
                        if not isinstance(b, Tup) or len(b.items) != 2:
                            return self.i.unknown("dict()")
                        r = self.i.rec(d)
                        if r.kind == "havoc":
                            return self.i.unknown(r.reason)
                        self.i.put(d, DictR(r.entries + (KV(it.var, it.n, b.items[0], b.items[1]),)))
                    else:
                        kv = self.i.iter_items(it)
                        self.i.dict_set(d, kv[0], kv[1])
        for kk, v in k.items():
            if isinstance(kk, str):
                self.i.dict_set(d, kk, v)
        return d

    def b_str(self, a, k):
        if not a:
            return ""
        p = self.i.to_str_part(a[0])
        if p is None:
            return self.i.unknown("str()")
        return mkstr(p)

    b_repr = b_str

    def b_int(self, a, k):
        v = a[0]
        if isinstance(v, Unknown):
            return v
        p = self.i.as_num(v)
        if p is None:
            if isinstance(v, str):
                try:
                    return P(int(v))
                except ValueError:
                    self.i.raise_("ValueError")
            return self.opaque_call("builtins.int", a, k)
        if p.const() is not None:
            return P(int(p.const()))
        if arrays.integral(p):
            return p
        r = Atom("app", "int", p)
        arrays.INTEGRAL.add(r)
        return P(r)

    def b_float(self, a, k):
        v = a[0]
        if isinstance(v, str):
            if v in ("inf", "nan"):
                return alg.sym(v)
            try:
                return P(float(v))
            except ValueError:
                self.i.raise_("ValueError")
        if isinstance(v, SStr):
            return P(Atom("app", "float", Atom("sym", v.key)))
        p = self.i.as_num(v)
        return p if p is not None else self.opaque_call("builtins.float", a, k)

    def b_bool(self, a, k):
        return self.i.decide(self.i.truth(a[0])) if a else False

    def b_abs(self, a, k):
        return self.np.call("abs", a, k)

    def b_round(self, a, k):
        p = self.i.as_num(a[0])
        return P(Atom("app", "round", p)) if p is not None else self.i.unknown("round")

    def b_callable(self, a, k):
        v = a[0]
        if isinstance(v, (FuncV, Method, Native, ClassV, Partial, BL())):
            return True
        if isinstance(v, (Poly, str, Tup)) or v is None:
            return False
        return Cond("opaque", "callable" + vkey(v))

    def b_type(self, a, k):
        v = a[0]
        if isinstance(v, Ref):
            r = self.i.rec(v)
            if r.kind == "obj" and r.cls is not None:
                return r.cls
            if r.kind in ("list", "dict", "set"):
                return Ext("builtins." + r.kind)
            if r.kind == "arr":
                return Ext("numpy.ndarray")
        if isinstance(v, Tup):
            return v.nt if v.nt else Ext("builtins.tuple")
        if isinstance(v, (str, SStr)):
            return Ext("builtins.str")
        return Opq("type", self.i.freeze(v)) if not isinstance(v, Unknown) else v

    def isinst(self, v, t):
        i = self.i
        if isinstance(t, Tup):
            paths = {x.path for x in t.items if isinstance(x, Ext)}
            if isinstance(v, (Poly,)) and {"builtins.int", "builtins.float"} <= paths:
                return True
            return c_or(*[self.isinst(v, x) for x in t.items])
        if isinstance(v, Phi):
            return c_or(c_and(v.cond, self.isinst(v.a, t)), c_and(c_not(v.cond), self.isinst(v.b, t)))
        if isinstance(v, Unknown):
            return Cond("opaque", i.freshname("isinstance"))
        if isinstance(v, Stub):
            nm = t.qual if isinstance(t, ClassV) else t.path if isinstance(t, Ext) else "?"
            for x in v.isa:
                if isinstance(x, ClassV):
                    if isinstance(t, ClassV) and i.is_subclass(x, t):
                        return True
                elif nm == x or nm.endswith("." + x):
                    return True
            return False
        if isinstance(t, Ext):
            p = t.path
            if p == "builtins.object":
                return True
            if p in ("typing.Iterable", "collections.abc.Iterable", "typing.Sequence", "collections.abc.Sequence"):
                return isinstance(v, (Tup, str)) or (isinstance(v, Ref) and i.rec(v).kind in ("list", "arr", "dict", "set"))
            kind = None
            if isinstance(v, Ref):
                r = i.rec(v)
                kind = r.kind
                if kind == "havoc":
                    return Cond("opaque", i.freshname("isinstance"))
                if kind == "obj":
                    if r.cls is not None:
                        s = i.is_subclass(r.cls, t)
                        return bool(s)
                    return False
                if kind == "arr":
                    if p in ("numpy.ndarray", "jax.numpy.ndarray"):
                        return p == "numpy.ndarray"
                    return False
                return p in {"list": ("builtins.list",), "dict": ("builtins.dict", "typing.Mapping", "collections.abc.Mapping"),
                             "set": ("builtins.set",)}.get(kind, ())
            if isinstance(v, Tup):
                return p == "builtins.tuple"
            if isinstance(v, (str, SStr)):
                return p == "builtins.str"
            if isinstance(v, bool):
                return p in ("builtins.bool", "builtins.int")
            if isinstance(v, Cond):
                return p in ("builtins.bool", "builtins.int")
            if v is None:
                return p == "builtins.NoneType"
            if isinstance(v, Poly):
                if p == "builtins.int":
                    if arrays.integral(v):
                        return True
                    if v.const() is not None:
                        return v.const().denominator == 1
                    return False if any(a.kind == "sym" for a in v.atoms()) else Cond("opaque", "isint" + v.key)
                if p == "builtins.float":
                    return not arrays.integral(v)
                if p in ("numbers.Number", "numbers.Real"):
                    return True
                if p in ("numpy.ndarray", "jax.numpy.ndarray") or p.startswith("casadi."):
                    return False
                return False
            if isinstance(v, (FuncV, Method, Native, Partial)):
                return p in ("typing.Callable", "collections.abc.Callable")
            if isinstance(v, SparseV):
                return p.startswith("scipy.sparse")
            if isinstance(v, Opq):
                if v.op == "call" and isinstance(v.args[0], Ext):
                    q = v.args[0].path
                    if q == p:
                        return True
                    if p.startswith("casadi.") and q.startswith(p + "."):
                        return True
            return Cond("opaque", "isinstance:" + vkey(v) + vkey(t))
        if isinstance(t, ClassV):
            if isinstance(v, Ref):
                r = i.rec(v)
                if r.kind == "obj" and r.cls is not None:
                    return i.is_subclass(r.cls, t)
                if r.kind == "havoc":
                    return Cond("opaque", i.freshname("isinstance"))
                return False
            if isinstance(v, Tup):
                return v.nt is not None and (v.nt is t or i.is_subclass(v.nt, t))
            if isinstance(v, Opq):
                return Cond("opaque", "isinstance:" + vkey(v) + vkey(t))
            return False
        return Cond("opaque", "isinstance:" + vkey(v) + vkey(t))

    def b_isinstance(self, a, k):
        return self.i.decide(self.isinst(a[0], a[1]))

    def b_issubclass(self, a, k):
        if isinstance(a[0], ClassV):
            if isinstance(a[1], Tup):
                return c_or(*[self.i.is_subclass(a[0], t) for t in a[1].items])
            return self.i.is_subclass(a[0], a[1])
        return Cond("opaque", "issubclass" + vkey(a[0]) + vkey(a[1]))

    def b_hasattr(self, a, k):
        o, n = a
        i = self.i
        if isinstance(o, Ref):
            r = i.rec(o)
            if r.kind == "obj":
                if n in r.attrs:
                    v = r.attrs[n]
                    if isinstance(v, Phi) and (v.a is i.MISSING or v.b is i.MISSING):
                        return c_not(v.cond) if v.a is i.MISSING else v.cond
                    return True
                if r.cls is not None and i.find_attr(r.cls, n) is not None:
                    return True
                return False
            if r.kind == "arr":
                return n in ("shape", "ndim", "T", "size", "dtype", "ravel", "reshape", "astype", "flatten", "sum")
            return Cond("opaque", "hasattr" + vkey(o) + vkey(n))
        if isinstance(o, (FuncV, Native, Method)):
            v = i.st.store.get(("fnattr", id(o), n))
            return v is not None
        if isinstance(o, ClassV):
            return i.find_attr(o, n) is not None
        if isinstance(o, Stub):
            return n in o.attrs or n in o.methods
        if isinstance(o, Tup) and o.nt:
            return any(f == n for f, _ in o.nt.fields)
        if isinstance(o, ModV):
            return i.mod_get(o.name, n) is not None
        if isinstance(o, (Poly, str, bool, Tup)) or o is None:
            return False
        return Cond("opaque", "hasattr" + vkey(o) + vkey(n))

    def b_getattr(self, a, k):
        i = self.i
        if len(a) == 3:
            h = self.b_hasattr(a[:2], {})
            if h is False:
                return a[2]
            if h is not True:
                return i.branch(h, lambda: i.getattr(a[0], a[1]), lambda: a[2])
        return i.getattr(a[0], a[1])

    def b_setattr(self, a, k):
        if isinstance(a[1], str):
            self.i.setattr(a[0], a[1], a[2])
        else:
            self.i.notes.append("setattr with a symbolic name")

    def b_sum(self, a, k):
        i = self.i
        items = i.iter_items(a[0])
        if items is None:
            return i.unknown("sum")
        tot = a[1] if len(a) > 1 else k.get("start", ZERO)
        for it in items:
            if isinstance(it, Seg):
                b = it.body

                def at(j):
                    p = i.as_num(i.inst(it, j))
                    if p is None:
                        raise Undecidable("sum")
                    return p
                tot = i.binop(ast.Add(), tot, arrays.sumover(it.n, at))
            else:
                tot = i.binop(ast.Add(), tot, it)
        return tot

    def minmax(self, a, k, name):
        i = self.i
        items = i.iter_items(a[0]) if len(a) == 1 else list(a)
        if items is None or any(isinstance(x, Seg) for x in items) or "key" in k:
            if items is not None and "key" not in k:
                arr = i.to_arr(a[0])
                if isinstance(arr, Arr):
                    return P(Atom("app", "r" + name, arrays.akey(arr)))
            return i.unknown(name)
        ps = [i.as_num(x) for x in items]
        if any(p is None for p in ps):
            return i.unknown(name)
        r = ps[0]
        for p in ps[1:]:
            r = self.np.min2(r, p) if name == "min" else self.np.max2(r, p)
        return r

    def b_min(self, a, k):
        return self.minmax(a, k, "min")

    def b_max(self, a, k):
        return self.minmax(a, k, "max")

    def anyall(self, v, isany):
        i = self.i
        items = i.iter_items(v)
        if items is None:
            return Cond("opaque", i.freshname("any"))
        cs = []
        for it in items:
            if isinstance(it, Seg):
                c = i.decide(i.truth(it.body if not isinstance(it.body, (Arr, Frozen)) else i.thaw(it.body)))
                if isinstance(c, bool):
                    cs.append(c)
                    continue
                cs.append(Cond("opaque", ("any" if isany else "all") + c.key + it.n.key))
            else:
                cs.append(i.decide(i.truth(it)))
        return c_or(*cs) if isany else c_and(*cs)

    def b_any(self, a, k):
        return self.anyall(a[0], True)

    def b_all(self, a, k):
        return self.anyall(a[0], False)

    def b_sorted(self, a, k):
        items = self.i.iter_items(a[0])
        if items is None:
            return self.i.unknown("sorted")
        if "key" not in k and all(isinstance(x, str) for x in items):
            return self.i.new_list(sorted(items, reverse=k.get("reverse") is True))
        if "key" not in k and all(isinstance(x, Poly) and x.const() is not None for x in items):
            return self.i.new_list(sorted(items, key=lambda x: x.const(), reverse=k.get("reverse") is True))
        if len(items) <= 1 and not any(isinstance(x, Seg) for x in items):
            return self.i.new_list(items)
        return self.i.unknown("sorted")

    def b_reversed(self, a, k):
        items = self.i.iter_items(a[0])
        if items is None or any(isinstance(x, Seg) for x in items):
            return self.i.unknown("reversed")
        return self.i.new_list(items[::-1])

    def b_map(self, a, k):
        i = self.i
        its = [i.iter_items(x) for x in a[1:]]
        if any(x is None for x in its):
            return i.unknown("map")
        pr = self.pairs(its)
        if pr is None:
            return i.unknown("map")
        out = []
        for x in pr:
            if isinstance(x, Seg):
                i.loopvars.append(x.var)
                try:
                    r = i.call(a[0], [i.thaw(y) for y in x.body.items], {})
                    out.append(Seg(x.var, x.n, i.freeze(r)))
                finally:
                    i.loopvars.pop()
            else:
                out.append(i.call(a[0], list(x.items), {}))
        return i.new_list(out)

    def b_filter(self, a, k):
        i = self.i
        items = i.iter_items(a[1])
        if items is None or any(isinstance(x, Seg) for x in items):
            return i.unknown("filter")
        out = []
        for x in items:
            c = i.decide(i.truth(i.call(a[0], [x], {}) if a[0] is not None else x))
            if c is True:
                out.append(x)
            elif c is not False:
                return i.unknown("filter")
        return i.new_list(out)

    def b_next(self, a, k):
        items = self.i.iter_items(a[0])
        if items:
            x = items[0]
            return self.i.inst(x, ZERO) if isinstance(x, Seg) else x
        if len(a) > 1:
            return a[1]
        return self.i.unknown("next")

    def b_iter(self, a, k):
        if len(a) == 2:
            # called until the given value is returned
            out = []
            for _ in range(500):
                v = self.i.call(a[0], [], {})
                if isinstance(v, Unknown):
                    return v
                same = v == a[1] if isinstance(v, (str, bytes)) and isinstance(a[1], (str, bytes)) else None
                if same is None:
                    return self.i.unknown("iter of a function")
                if same:
                    return self.i.new_list(out)
                out.append(v)
            return self.i.unknown("iter of a function")
        return a[0]

    def b_print(self, a, k):
        return None

    def b_id(self, a, k):
        return P(Atom("sym", "id" + vkey(a[0])))

    def b_object(self, a, k):
        return self.i.alloc(ObjR(None, {}))

    def b_slice(self, a, k):
        from .interp import Slice
        a = list(a) + [None] * 3
        return Slice(None, a[0], None) if a[1] is None else Slice(a[0], a[1], a[2])

    def b_globals(self, a, k):
        i = self.i
        mod = i.frames[-1].module
        loc = i.modules.get(mod)
        if loc is None:
            return i.unknown("globals()")

        def vars():
            return i.st.store[loc].vars

        def put(interp, o, key, v):
            if not isinstance(key, str):
                raise Undecidable("name in globals()")
            r = i.st.store[loc]
            d = dict(r.vars)
            d[key] = v
            i.effect("global", mod + "." + key, v)
            i.st.store[loc] = type(r)(d, r.parent)

        def get(interp, o, key):
            if not isinstance(key, str):
                return i.unknown("name in globals()")
            if key not in vars():
                i.raise_("KeyError", key)
            return vars()[key]
        return Stub("globals", methods={"getitem": get, "setitem": put, "entries": lambda interp: tuple(vars().items()),
                                        "get": lambda interp, a, k: vars().get(a[0], a[1] if len(a) > 1 else None)})

    def b_vars(self, a, k):
        return self.i.getattr(a[0], "__dict__")

    # ---- other modules
    def f_functools_partial(self, a, k):
        return Partial(a[0], list(a[1:]), dict(k))

    def f_functools_reduce(self, a, k):
        i = self.i
        items = i.iter_items(a[1])
        if items is None or any(isinstance(x, Seg) for x in items):
            return i.unknown("reduce")
        items = list(items)
        acc = a[2] if len(a) > 2 else items.pop(0)
        for x in items:
            acc = i.call(a[0], [acc, x], {})
        return acc

    def f_functools_wraps(self, a, k):
        return Native("wraps", lambda i, x, kw: x[0])

    def f_collections_namedtuple(self, a, k):
        i = self.i
        names = a[1]
        if isinstance(names, str):
            names = names.replace(",", " ").split()
        else:
            names = i.iter_items(names)
        if names is None or any(isinstance(x, Seg) for x in names):
            return i.unknown("namedtuple with symbolic fields")
        d = k.get("defaults")
        dl = i.iter_items(d) if d is not None else []
        c = ClassV(a[0] if isinstance(a[0], str) else "nt", "namedtuple." + str(a[0]), [], i.alloc(ObjR(None, {})).loc, "namedtuple")
        c.fields = [(n, dl[j - len(names) + len(dl)] if j >= len(names) - len(dl) else None) for j, n in enumerate(names)]
        return c

    f_typing_NamedTuple = f_collections_namedtuple

    def f_collections_OrderedDict(self, a, k):
        return self.b_dict(a, k)

    def f_collections_defaultdict(self, a, k):
        return self.b_dict(a[1:], k)

    def f_enum_IntEnum(self, a, k):
        i = self.i
        names = a[1]
        items = names.split() if isinstance(names, str) else i.iter_items(names)
        start = i.as_num(k.get("start", a[2] if len(a) > 2 else ONE))
        if items is None or start is None:
            return i.unknown("enum of unknown names")

        def getitem(i2, o, key):
            r = i2.find_pos(items, key)
            if r[0] == "found":
                return start + r[1]
            if r[0] == "absent":
                i2.raise_("KeyError", key)
            return i2.unknown(f"enum member {key!r}")
        s = Stub("enum", methods={"getitem": getitem})
        s.enum_items = items
        s.enum_start = start
        return s

    f_enum_Enum = f_enum_IntEnum

    def f_dataclasses_dataclass(self, a, k):
        def deco(i, x, kw):
            x[0].kind = "dataclass"
            return x[0]
        if a and isinstance(a[0], ClassV):
            return deco(self.i, a, k)
        return Native("dataclass", deco)

    def f_dataclasses_field(self, a, k):
        return Opq("dataclasses.field", *[Tup([n, v]) for n, v in sorted(k.items())])

    def f_dataclasses_asdict(self, a, k):
        return self.plain(a[0])

    def f_dataclasses_astuple(self, a, k):
        r = self.i.rec(a[0])
        return Tup([self.plain(r.attrs[n], Tup) for n in self.i.dataclass_fields(r.cls)])

    def plain(self, v, kind=None):
        """Dataclasses become dictionaries, containers are rebuilt, the rest is copied deeply."""
        i = self.i
        if isinstance(v, Tup):
            return Tup([x if isinstance(x, Seg) else self.plain(x, kind) for x in v.items], v.nt)
        if isinstance(v, Ref):
            r = i.rec(v)
            if r.kind == "obj" and isinstance(r.cls, ClassV) and any(isinstance(b, ClassV) and b.kind == "dataclass" for b in i.mro(r.cls)):
                fs = [(n, self.plain(i.getattr(v, n), kind)) for n in i.dataclass_fields(r.cls)]
                return Tup([x for _, x in fs]) if kind else i.new_dict(fs)
            if r.kind == "list":
                return i.new_list([x if isinstance(x, Seg) else self.plain(x, kind) for x in r.items])
            if r.kind == "dict":
                return i.alloc(DictR([e if isinstance(e, KV) else (e[0], self.plain(e[1], kind)) for e in r.entries]))
        return self.copy(v, True)

    def f_dataclasses_replace(self, a, k):
        r = self.i.rec(a[0])
        fs = {n: self.i.getattr(a[0], n) for n in self.i.dataclass_fields(r.cls)}
        return self.i.call(r.cls, [], {**fs, **k})

    def f_copy_copy(self, a, k):
        return self.copy(a[0], False)

    def f_copy_deepcopy(self, a, k):
        return self.copy(a[0], True)

    def copy(self, v, deep, memo=None):
        i = self.i
        memo = {} if memo is None else memo
        if isinstance(v, Ref):
            if v.loc in memo:
                return memo[v.loc]
            r = i.rec(v)
            f = (lambda x: self.copy(x, True, memo)) if deep else (lambda x: x)
            if r.kind in ("list", "set"):
                n = i.alloc(type(r)([]))
                memo[v.loc] = n
                i.put(n, type(r)([x if isinstance(x, Seg) else f(x) for x in r.items]))
                return n
            if r.kind == "dict":
                n = i.alloc(DictR([]))
                memo[v.loc] = n
                i.put(n, DictR([e if isinstance(e, KV) else (e[0], f(e[1])) for e in r.entries]))
                return n
            if r.kind == "arr":
                n = i.new_arr(r.arr)
                memo[v.loc] = n
                return n
            if r.kind == "obj":
                n = i.alloc(ObjR(r.cls, {}))
                memo[v.loc] = n
                i.put(n, ObjR(r.cls, {k: f(x) for k, x in r.attrs.items()}))
                return n
            return i.unknown("copy")
        if isinstance(v, Tup) and deep:
            return Tup([x if isinstance(x, Seg) else self.copy(x, True, memo) for x in v.items], v.nt)
        return v

    def f_itertools_chain(self, a, k):
        out = []
        for x in a:
            it = self.i.iter_items(x)
            if it is None:
                return self.i.unknown("chain")
            out += it
        return self.i.new_list(out)

    def f_itertools_chain_from_iterable(self, a, k):
        it = self.i.iter_items(a[0])
        if it is None or any(isinstance(x, Seg) for x in it):
            return self.i.unknown("chain")
        return self.f_itertools_chain(it, k)

    def f_itertools_accumulate(self, a, k):
        i = self.i
        it = i.iter_items(a[0])
        if it is None or any(isinstance(x, Seg) for x in it) or len(a) > 1:
            return i.unknown("accumulate")
        out, acc = [], None
        for x in it:
            acc = x if acc is None else i.binop(ast.Add(), acc, x)
            out.append(acc)
        return i.new_list(out)

    def f_itertools_product(self, a, k):
        import itertools
        its = [self.i.iter_items(x) for x in a]
        if any(x is None or any(isinstance(y, Seg) for y in x) for x in its):
            return self.i.unknown("product")
        return self.i.new_list([Tup(x) for x in itertools.product(*its)])

    def f_math_prod(self, a, k):
        i = self.i
        it = i.iter_items(a[0])
        if it is None or any(isinstance(x, Seg) for x in it):
            return i.unknown("prod")
        r = ONE
        for x in it:
            r = i.binop(ast.Mult(), r, x)
        return r

    def f_os_path_join(self, a, k):
        if all(isinstance(x, (str, SStr)) for x in a):
            parts = []
            for j, x in enumerate(a):
                if j:
                    parts.append("/")
                parts.append(x)
            return mkstr(*parts)
        return self.opaque_call("os.path.join", a, k)

    def math1(self, name, a):
        p = self.i.as_num(a[0])
        return self.np.uf(name, p) if p is not None else self.i.unknown("math")

    def f_math_sqrt(self, a, k):
        return self.math1("sqrt", a)

    def f_math_sin(self, a, k):
        return self.math1("sin", a)

    def f_math_cos(self, a, k):
        return self.math1("cos", a)

    def f_scipy_sparse_csc_matrix(self, a, k):
        return self.sparse_from(a, k)

    f_scipy_sparse_csr_matrix = f_scipy_sparse_coo_matrix = f_scipy_sparse_csc_matrix
    f_scipy_sparse_csc_array = f_scipy_sparse_csr_array = f_scipy_sparse_coo_array = f_scipy_sparse_csc_matrix

    def sparse_from(self, a, k):
        i = self.i
        x = a[0]
        s = self.as_sparse(x)
        if s is not None:
            return s
        arr = i.as_arr(x)
        if arr is not None:
            return SparseV(arr)
        it = i.iter_items(x)
        if it and len(it) == 2:
            rc = i.iter_items(it[1]) if isinstance(it[1], (Tup, Ref)) else None
            if rc and len(rc) == 2:
                data, rows, cols = i.to_arr(it[0]), i.to_arr(rc[0]), i.to_arr(rc[1])
                sh = kwd(a, k, 1, "shape")
                shape = [i.as_num(q) for q in i.iter_items(sh)] if sh is not None and i.iter_items(sh) else None
                if isinstance(data, Arr) and isinstance(rows, Arr) and isinstance(cols, Arr) and shape:
                    data, rows, cols = arrays.ravel(data), arrays.ravel(rows), arrays.ravel(cols)
                    if not arrays.same_shape(data.shape, rows.shape) or not arrays.same_shape(rows.shape, cols.shape):
                        raise ShapeError("sparse triplet lengths differ")

                    tab = None
                    if data.size.const() is not None:
                        tab = {}
                        for q in range(int(data.size.const())):
                            e = tuple(arrays.topoly(x.get((P(q),))).const() for x in (rows, cols))
                            if None in e:
                                tab = None
                                break
                            tab.setdefault(e, []).append(P(q))

                    def get(idx):
                        if tab is not None:
                            e = tuple(P(x).const() for x in idx)
                            if None not in e:
                                return sum((arrays.topoly(data.get((q,))) for q in tab.get(e, ())), ZERO)
                        return arrays.sumover(data.shape[0], lambda q: arrays.topoly(data.get((q,))) *
                                              alg.delta(arrays.topoly(rows.get((q,))) - idx[0]) *
                                              alg.delta(arrays.topoly(cols.get((q,))) - idx[1]))
                    return SparseV(Arr(shape, get), (data, rows, cols))
        return i.unknown("sparse matrix")

    def f_scipy_sparse_vstack(self, a, k):
        return self.sparse_stack(a, 0)

    def f_scipy_sparse_hstack(self, a, k):
        return self.sparse_stack(a, 1)

    def sparse_stack(self, a, axis):
        it = self.i.iter_items(a[0])
        if it is None or any(isinstance(x, Seg) for x in it):
            return self.i.unknown("sparse stack")
        ps = [self.as_sparse(x) or (SparseV(self.i.as_arr(x)) if self.i.as_arr(x) is not None else None) for x in it]
        if any(p is None for p in ps):
            return self.i.unknown("sparse stack")
        return SparseV(arrays.concat([p.arr for p in ps], axis))

    def f_scipy_sparse_eye(self, a, k):
        n = self.i.as_num(a[0])
        return SparseV(Arr((n, n), lambda ix: alg.delta(ix[0] - ix[1])))

    f_scipy_sparse_identity = f_scipy_sparse_eye

    def f_scipy_sparse_diags(self, a, k):
        i = self.i
        k = dict(k)
        ds = a[0] if a else k.get("diagonals")
        offs = a[1] if len(a) > 1 else k.get("offsets", ZERO)
        shape = a[2] if len(a) > 2 else k.get("shape")
        if set(k) - {"diagonals", "offsets", "shape", "format", "dtype"}:
            return self.opaque_call("scipy.sparse.diags", a, k)
        n = i.as_num(offs)
        if n is not None:
            offs, rows = [n], [ds]
            one = i.iter_items(ds)
            if one is not None and len(one) == 1 and i.as_num(one[0]) is None:
                rows = one
        else:
            offs = i.iter_items(offs)
            rows = i.iter_items(ds)
            offs = [i.as_num(x) for x in offs] if offs is not None else None
        if rows is None or offs is None or len(rows) != len(offs) or any(x is None or x.const() is None for x in offs):
            return i.unknown("scipy.sparse.diags")
        offs = [int(x.const()) for x in offs]
        vals = []
        for r in rows:
            x = i.as_num(r)
            if x is None:
                x = i.as_arr(r)
                if x is None:
                    its = i.iter_items(r)
                    its = [i.as_num(q) for q in its] if its is not None else [None]
                    if any(q is None for q in its):
                        return i.unknown("scipy.sparse.diags")
                    x = arrays.stack([Arr((), lambda ix, q=q: q) for q in its])
                if x.ndim == 0 or x.size.const() == 1:
                    x = arrays.topoly(x.get((ZERO,) * x.ndim))
            vals.append(x)
        if shape is None or shape is False:
            if isinstance(vals[0], Poly):
                return i.unknown("scipy.sparse.diags without a shape")
            m = vals[0].shape[0] + abs(offs[0])
            shape = (m, m)
        else:
            shape = i.iter_items(shape)
            shape = tuple(i.as_num(x) for x in shape) if shape is not None else None
            if shape is None or any(x is None for x in shape):
                return i.unknown("scipy.sparse.diags")

        def get(ix):
            r = ZERO
            for o, v in zip(offs, vals):
                e = v if isinstance(v, Poly) else arrays.topoly(v.get((ix[0] if o >= 0 else ix[1],)))
                r = r + alg.delta(ix[1] - ix[0] - o) * e
            return r
        return SparseV(Arr(shape, get))

    def as_sparse(self, v):
        return v if isinstance(v, SparseV) else None

    def sparse_binop(self, op, a, b):
        i = self.i
        x = a.arr if isinstance(a, SparseV) else i.as_arr(a) if i.as_arr(a) is not None else i.as_num(a)
        y = b.arr if isinstance(b, SparseV) else i.as_arr(b) if i.as_arr(b) is not None else i.as_num(b)
        if x is None or y is None:
            return i.unknown("sparse operation")
        if isinstance(op, ast.MatMult) or (isinstance(op, ast.Mult) and isinstance(x, Arr) and isinstance(y, Arr)):
            r = arrays.matmul(x, y)
            if isinstance(a, SparseV) and isinstance(b, SparseV):
                return SparseV(r)
            return i.new_arr(r) if isinstance(r, Arr) else r
        r = elementwise(lambda u, w: i.scalar_op(op, u, w), x, y)
        return SparseV(r)

    # ------------------------------------------------------------ attributes
    def attr(self, o, name):
        i = self.i
        if isinstance(o, (str, SStr, bytes)):
            return BL()(o, name)
        if isinstance(o, Tup):
            if o.nt is not None:
                for n, (f, _) in enumerate(o.nt.fields):
                    if f == name:
                        return o.items[n]
                if name == "_fields":
                    return Tup([f for f, _ in o.nt.fields])
                if name == "__class__":
                    return o.nt
                if name in ("_asdict", "_replace", "_make"):
                    return BL()(o, name)
                m = i.find_attr(o.nt, name)
                if m is not None:
                    return i.bind_attr(o, o.nt, m)
            if name in ("index", "count"):
                return BL()(o, name)
            if o.nt is not None:
                i.effect("missing-attr", o, name)
                i.raise_("AttributeError", name)
            return i.unknown(f"tuple attribute {name}")
        a = i.as_arr(o)
        if a is not None:
            return self.arr_attr(o, a, name)
        if isinstance(o, SparseV):
            if name == "shape":
                return Tup(o.arr.shape)
            if name == "T":
                return SparseV(arrays.transpose(o.arr))
            if name == "data":
                return Opq("sparse.data", f"#{o.uid}")
            return BL()(o, name)
        if isinstance(o, Ref):
            r = i.rec(o)
            if r.kind in ("list", "dict", "set"):
                return BL()(o, name)
            if r.kind == "obj" and r.cls is None:
                return r.attrs.get(name, i.unknown("attribute"))
        if isinstance(o, Poly):
            if name == "shape":
                return Tup([])
            if name == "ndim":
                return ZERO
            if name in ("T", "real"):
                return o
            if name == "size":
                return ONE
            return BL()(o, name)
        if isinstance(o, Opq):
            return Opq("attr", o, name)
        if isinstance(o, (bool, Cond)):
            return BL()(o, name)
        if o is None:
            i.effect("missing-attr", o, name)
            i.raise_("AttributeError", name)
        from .interp import Slice
        if isinstance(o, Slice):
            return {"start": o.lo, "stop": o.hi, "step": o.step}.get(name)
        return i.unknown(f"attribute {name} of {o!r}"[:80])

    def arr_attr(self, o, a, name):
        i = self.i
        if name == "shape":
            return Tup(a.shape)
        if name == "ndim":
            return P(a.ndim)
        if name == "size":
            return a.size
        if name == "T":
            return i.new_arr(arrays.transpose(a), o if isinstance(o, Ref) else None)
        if name in ("real",):
            return o
        if name == "dtype":
            return Opq("dtype")
        if name == "at":
            def at_get(i2, s, k):
                def setter(i3, args, kw):
                    return i3.new_arr(self.arr_setitem(a, k, args[0]))

                def adder(i3, args, kw):
                    cur = self.arr_getitem(None, a, k)
                    return i3.new_arr(self.arr_setitem(a, k, i3.binop(ast.Add(), cur, args[0])))
                return Stub("at", methods={"set": setter, "add": adder})
            return Stub("at", methods={"getitem": at_get})
        return BL()(o, name)

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kwargs, silent=False, delete=False):
        i = self.i
        try:
            if isinstance(o, Phi):
                return i.lift(o, lambda x: self.method(x, name, args, kwargs, silent, delete))
            if isinstance(o, bytes) or isinstance(o, str) and name == "encode":
                return self.m_bytes(o, name, args, kwargs)
            if isinstance(o, (str, SStr)):
                return self.m_str(o, name, args, kwargs)
            if isinstance(o, Tup):
                return self.m_tuple(o, name, args, kwargs)
            if isinstance(o, SparseV):
                return self.m_sparse(o, name, args, kwargs)
            if i.as_arr(o) is not None:
                return self.m_arr(o, i.as_arr(o), name, args, kwargs)
            if isinstance(o, Ref):
                r = i.rec(o)
                if r.kind == "dict":
                    return self.m_dict(o, r, name, args, kwargs, silent, delete)
                if r.kind == "list":
                    return self.m_list(o, r, name, args, kwargs)
                if r.kind == "set":
                    return self.m_set(o, r, name, args, kwargs)
                if r.kind == "havoc":
                    return i.unknown(r.reason)
                if r.kind == "obj":
                    if delete:
                        m = i.find_attr(r.cls, "__delitem__") if r.cls else None
                        if m is not None:
                            return i.call(i.bind_attr(o, r.cls, m), args, {})
                    if "__dict_data__" in r.attrs:
                        return self.method(r.attrs["__dict_data__"], name, args, kwargs, silent, delete)
                    return i.call(i.getattr(o, name), args, kwargs)
            if isinstance(o, (Poly, bool, Cond)):
                return self.m_num(o, name, args, kwargs)
            if isinstance(o, Opq):
                return self.opaque_method(o, name, args, kwargs)
        except (Undecidable, ShapeError) as e:
            i.shape_error(e)
            return i.unknown(f".{name}: {e}")
        except NeedSplit as e:
            if i.loopvars and any(alg.contains(e.d, u) for u in i.loopvars):
                raise
            return i.unknown(f".{name}: undecided {e}")
        return i.unknown(f"method {name} of {o!r}"[:80])

    def opaque_method(self, o, name, args, kwargs):
        self.i.effect("ext", Opq("attr", o, name), tuple(args), dict(kwargs))
        return Opq("call", Opq("attr", o, name), *[self.i.freeze(a) for a in args])

    def m_num(self, o, name, args, kwargs):
        if name in ("item", "copy", "astype", "squeeze", "flatten", "ravel", "__float__"):
            if name in ("flatten", "ravel"):
                return self.i.new_arr(Arr((ONE,), lambda ix: o))
            return o
        if name == "reshape":
            return self.m_arr(o, Arr((), lambda ix: o), name, args, kwargs)
        if name in ("is_integer",):
            return Cond("opaque", "isint" + vkey(o))
        if name in ("sum", "mean", "min", "max"):
            return o
        if name in ("any", "all"):
            return o
        return self.i.unknown(f"number method {name}")

    def m_bytes(self, o, name, a, k):
        i = self.i
        aa = []
        for x in a:
            if isinstance(x, Poly) and x.const() is not None:
                x = int(x.const())
            elif isinstance(x, Tup):
                x = tuple(x.items)
            elif isinstance(x, Ref):
                x = i.iter_items(x)
            aa.append(x)
        flat = [y for x in aa for y in (x if isinstance(x, (list, tuple)) else [x])]
        if k or not all(isinstance(y, (bytes, str, int)) for y in flat):
            return i.unknown("bytes method")
        try:
            r = getattr(o, name)(*aa)
        except (TypeError, AttributeError, ValueError) as e:
            i.raise_(type(e).__name__, str(e))
        if isinstance(r, list):
            return i.new_list(r)
        if isinstance(r, tuple):
            return Tup(r)
        return r if isinstance(r, (bool, str, bytes)) else P(r)

    def m_str(self, o, name, a, k):
        i = self.i
        if isinstance(o, str) and all(isinstance(x, (str, int, bool, type(None))) or (isinstance(x, Poly) and x.const() is not None) or isinstance(x, Tup) and all(isinstance(y, str) for y in x.items) for x in a) \
                and not k and name in ("split", "startswith", "endswith", "replace", "lower", "upper", "strip", "lstrip", "rstrip", "find", "rsplit", "partition", "title", "isdigit", "count", "rpartition", "capitalize", "isidentifier"):
            aa = [int(x.const()) if isinstance(x, Poly) else tuple(x.items) if isinstance(x, Tup) else x for x in a]
            r = getattr(o, name)(*aa)
            if isinstance(r, list):
                return i.new_list(r)
            if isinstance(r, tuple):
                return Tup(r)
            if isinstance(r, bool) or isinstance(r, str):
                return r
            return P(r)
        if name == "join":
            items = i.iter_items(a[0])
            if items is None:
                return i.unknown("join")
            if not any(isinstance(x, Seg) for x in items) and all(isinstance(x, (str, SStr)) for x in items):
                parts = []
                for n, x in enumerate(items):
                    if n:
                        parts.append(o)
                    parts.append(x)
                return mkstr(*parts)
            return SStr([Atom("sym", "join" + vkey(o) + vkey(i.freeze(a[0])))])
        if isinstance(o, SStr):
            if name in ("split", "rsplit") and a and isinstance(a[0], str):
                pieces = [[]]
                for p in o.parts:
                    if isinstance(p, str):
                        sp = p.split(a[0])
                        pieces[-1].append(sp[0])
                        for q in sp[1:]:
                            pieces.append([q])
                    else:
                        pieces[-1].append(p)
                mx = a[1] if len(a) > 1 else k.get("maxsplit")
                if mx is not None:
                    m = int(mx.const())
                    if len(pieces) > m + 1:
                        if name == "split":
                            tail = pieces[m:]
                            pieces = pieces[:m]
                        else:
                            tail = pieces[:len(pieces) - m]
                            rest = pieces[len(pieces) - m:]
                        j = []
                        for n, q in enumerate(tail):
                            if n:
                                j.append(a[0])
                            j += q
                        pieces = pieces + [j] if name == "split" else [j] + rest
                return i.new_list([mkstr(*p) for p in pieces])
            if name == "startswith" and isinstance(a[0], str) and isinstance(o.parts[0], str):
                p = o.parts[0]
                if p.startswith(a[0]):
                    return True
                if not a[0].startswith(p):
                    return False
            if name == "endswith" and isinstance(a[0], str) and isinstance(o.parts[-1], str):
                p = o.parts[-1]
                if p.endswith(a[0]):
                    return True
                if not a[0].endswith(p):
                    return False
            if name in ("startswith", "endswith"):
                return Cond("opaque", name + vkey(o) + vkey(a[0]))
        if name == "format":
            if isinstance(o, str) and "{" in o:
                return SStr([Atom("sym", "fmt" + vkey(o) + "".join(vkey(x) for x in a))])
        if name in ("encode", "decode"):
            return Opq("str." + name, o)
        return Opq("str." + name, o, *[i.freeze(x) for x in a])

    def m_tuple(self, o, name, a, k):
        i = self.i
        if name == "index":
            r = i.find_pos(list(o.items), a[0])
            if r[0] == "found":
                return r[1]
            if r[0] == "absent":
                i.raise_("ValueError", "not in tuple")
            return i.unknown("tuple.index")
        if name == "_asdict":
            return i.new_dict([(f, v) for (f, _), v in zip(o.nt.fields, o.items)])
        if name == "_replace":
            items = list(o.items)
            for n, (f, _) in enumerate(o.nt.fields):
                if f in k:
                    items[n] = k[f]
            return Tup(items, o.nt)
        if name == "_make":
            return Tup(i.iter_items(a[0]) or [], o.nt)
        if name == "count":
            return i.unknown("count")
        return i.unknown(f"tuple method {name}")

    def m_list(self, o, r, name, a, k):
        i = self.i
        if name in ("append", "extend", "remove", "insert", "pop", "clear", "sort", "reverse"):
            i.effect("mutate", o)
        if name == "append":
            i.put(o, ListR(r.items + (a[0],)))
            return None
        if name == "extend":
            it = i.iter_items(a[0])
            i.put(o, ListR(r.items + tuple(it)) if it is not None else HavocR("extend by unknown"))
            return None
        if name == "copy":
            return i.new_list(r.items)
        if name == "index":
            p = i.find_pos(r.items, a[0])
            if p[0] == "found":
                return p[1]
            if p[0] == "absent":
                i.raise_("ValueError", "not in list")
            return i.unknown("list.index")
        if name == "remove":
            p = i.find_pos(r.items, a[0])
            if p[0] == "found" and not any(isinstance(x, Seg) for x in r.items):
                n = int(p[1].const())
                i.put(o, ListR(r.items[:n] + r.items[n + 1:]))
                return None
            if p[0] == "found":
                # remove from a segment
                out, base = [], ZERO
                pos_ = p[1]
                done = False
                for it in r.items:
                    m = it.n if isinstance(it, Seg) else ONE
                    if not done and it is p[2]:
                        if isinstance(it, Seg):
                            q = pos_ - base
                            for lo, hi in ((ZERO, q), (q + 1, m)):
                                if (hi - lo).terms:
                                    v = index(hi - lo, "s")
                                    out.append(Seg(v, hi - lo, i.subst_val(it.body, {it.var: P(v) + lo})))
                        done = True
                    else:
                        out.append(it)
                    base = base + m
                i.put(o, ListR(out))
                return None
            if p[0] == "absent":
                i.raise_("ValueError", "list.remove")
            i.put(o, HavocR("list.remove of an undecided item"))
            return None
        if name == "insert":
            p = i.as_num(a[0])
            if p is not None and p.const() == 0:
                i.put(o, ListR((a[1],) + r.items))
            elif p is not None and p.const() is not None and not any(isinstance(x, Seg) for x in r.items):
                items = list(r.items)
                items.insert(int(p.const()), a[1])
                i.put(o, ListR(items))
            else:
                i.put(o, HavocR("list.insert"))
            return None
        if name == "pop":
            p = i.as_num(a[0]) if a else P(-1)
            if r.items and not any(isinstance(x, Seg) for x in r.items) and p is not None and p.const() is not None:
                items = list(r.items)
                if not -len(items) <= p.const() < len(items):
                    i.raise_("IndexError", "pop index out of range")
                x = items.pop(int(p.const()))
                i.put(o, ListR(items))
                return x
            if not r.items:
                i.raise_("IndexError", "pop from empty list")
            i.put(o, HavocR("list.pop"))
            return i.unknown("list.pop")
        if name == "clear":
            i.put(o, ListR(()))
            return None
        if name == "reverse":
            if any(isinstance(x, Seg) for x in r.items):
                i.put(o, HavocR("list.reverse"))
            else:
                i.put(o, ListR(r.items[::-1]))
            return None
        if name == "sort":
            v = self.b_sorted([o], k)
            i.put(o, i.rec(v) if isinstance(v, Ref) else HavocR("sort"))
            return None
        i.effect("mutate", o)
        i.put(o, HavocR("list." + name))
        return i.unknown(f"list method {name}")

    def m_set(self, o, r, name, a, k):
        i = self.i
        if name == "add":
            i.effect("mutate", o)
            p = i.find_pos(r.items, a[0])
            if p[0] == "absent":
                i.put(o, SetR(r.items + (a[0],)))
            elif p[0] == "unknown":
                i.put(o, HavocR("set.add"))
            return None
        if name in ("difference", "union", "intersection", "symmetric_difference") and len(a) == 1:
            import ast as _ast
            b = a[0] if isinstance(a[0], Ref) and i.rec(a[0]).kind == "set" else i.lib.b_set([a[0]], {})
            v = i.set_op({"difference": _ast.Sub(), "union": _ast.BitOr(), "intersection": _ast.BitAnd(), "symmetric_difference": _ast.BitXor()}[name], r, i.rec(b))
            return v if v is not None else i.unknown("set." + name)
        if name in ("issubset", "issuperset"):
            x = i.rec(i.lib.b_set([a[0]], {})) if not (isinstance(a[0], Ref) and i.rec(a[0]).kind == "set") else i.rec(a[0])
            s, t = (r, x) if name == "issubset" else (x, r)
            for it in s.items:
                if isinstance(it, Seg):
                    if not any(isinstance(y, Seg) and vkey(i.subst_val(y.body, {y.var: P(it.var)})) == vkey(it.body) and y.n == it.n for y in t.items):
                        return Cond("opaque", "subset" + vkey(i.freeze(o)) + vkey(i.freeze(a[0])))
                else:
                    q = i.find_pos(t.items, it)
                    if q[0] == "absent":
                        return False
                    if q[0] == "unknown":
                        return Cond("opaque", "subset" + vkey(i.freeze(o)) + vkey(i.freeze(a[0])))
            return True
        if name in ("union", "difference", "intersection"):
            if all(isinstance(x, str) for x in r.items) and a and isinstance(a[0], Ref):
                it = i.iter_items(a[0])
                if it is not None and all(isinstance(x, str) for x in it):
                    if name == "union":
                        return i.alloc(SetR(list(r.items) + [x for x in it if x not in r.items]))
                    if name == "difference":
                        return i.alloc(SetR([x for x in r.items if x not in it]))
                    return i.alloc(SetR([x for x in r.items if x in it]))
            return Opq("set." + name, i.freeze(o), *[i.freeze(x) for x in a])
        if name in ("update", "discard", "remove", "clear", "pop"):
            i.effect("mutate", o)
            i.put(o, HavocR("set." + name))
            return None
        if name == "copy":
            return i.alloc(SetR(r.items))
        i.effect("mutate", o)
        i.put(o, HavocR("set." + name))
        return i.unknown(f"set method {name}")

    def m_dict(self, o, r, name, a, k, silent, delete):
        i = self.i
        if name == "get":
            g = i.dict_get(o, a[0])
            if g[0] == "found":
                return g[1]
            if g[0] == "absent":
                return a[1] if len(a) > 1 else None
            return i.unknown(g[1])
        if name == "keys":
            return i.new_list([Seg(e.var, e.n, e.k) if isinstance(e, KV) else e[0] for e in r.entries])
        if name == "values":
            return i.new_list([Seg(e.var, e.n, e.v) if isinstance(e, KV) else e[1] for e in r.entries])
        if name == "items":
            return i.new_list([Seg(e.var, e.n, Tup([e.k, e.v])) if isinstance(e, KV) else Tup(e) for e in r.entries])
        if name == "copy":
            return i.new_dict(r.entries)
        if name == "update":
            if not silent:
                i.effect("mutate", o)
            if a:
                if isinstance(a[0], Phi):
                    i.lift(a[0], lambda x: self.m_dict(o, i.rec(o), "update", [x], {}, True, False))
                    return None
                ents = i.dict_entries(a[0])
                if ents is None:
                    its = i.iter_items(a[0])
                    ents = None
                    if its is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in its):
                        ents = [tuple(x.items) for x in its]
                if ents is None:
                    i.put(o, HavocR(f"update by {a[0]!r}"[:80]))
                    return None
                for e in ents:
                    if i.rec(o).kind != "dict":
                        return None
                    if isinstance(e, KV):
                        # distinct from every existing key?
                        es = i.rec(o).entries
                        clash = None
                        for x in es:
                            if isinstance(x, KV):
                                w = P(x.var)
                                s, _ = i.unify(i.subst_val(x.k, {x.var: P(Atom("idx", "w"))}), Atom("idx", "w"), e.k) if i.depends(x.k, x.var) else (i.key_eq(x.k, e.k), None)
                                if s is True and x.n == e.n and vkey(i.subst_val(x.k, {x.var: P(e.var)})) == vkey(e.k):
                                    clash = x
                                    break
                                if s is not False:
                                    clash = "?"
                                    break
                            else:
                                s, p = i.unify(e.k, e.var, x[0]) if i.depends(e.k, e.var) else (i.key_eq(e.k, x[0]), None)
                                if s is True and p is not None and (arrays.neg(p) is True or arrays.neg(p - e.n) is False):
                                    s = False
                                if s is not False:
                                    clash = "?"
                                    break
                        if clash is None:
                            i.put(o, DictR(es + (e,)))
                        elif isinstance(clash, KV):
                            i.put(o, DictR([e if x is clash else x for x in es]))
                        else:
                            i.put(o, HavocR("dictionary update with undecided keys"))
                    else:
                        i.dict_set(o, e[0], e[1])
            for kk, v in k.items():
                if isinstance(kk, str):
                    i.dict_set(o, kk, v)
            return None
        if name == "pop":
            i.effect("mutate", o)
            g = i.dict_get(o, a[0])
            if g[0] == "absent":
                if len(a) > 1:
                    return a[1]
                i.raise_("KeyError", a[0])
            if g[0] == "unknown":
                i.put(o, HavocR("pop of an undecided key"))
                return i.unknown(g[1])
            es = [e for e in r.entries if isinstance(e, KV) or i.key_eq(e[0], a[0]) is not True]
            if len(es) == len(r.entries):
                i.put(o, HavocR("pop of a symbolic entry"))
            else:
                i.put(o, DictR(es))
            return g[1]
        if name == "setdefault":
            g = i.dict_get(o, a[0])
            if g[0] == "found":
                return g[1]
            v = a[1] if len(a) > 1 else None
            i.effect("setitem", o, a[0], v)
            i.dict_set(o, a[0], v)
            return v
        if name == "clear":
            i.effect("mutate", o)
            i.put(o, DictR(()))
            return None
        if name == "popitem":
            i.effect("mutate", o)
            if r.entries and not isinstance(r.entries[-1], KV):
                i.put(o, DictR(r.entries[:-1]))
                return Tup(r.entries[-1])
            if not r.entries:
                i.raise_("KeyError", "popitem(): dictionary is empty")
            i.put(o, HavocR("popitem"))
            return i.unknown("popitem")
        i.effect("mutate", o)
        i.put(o, HavocR("dict." + name))
        return i.unknown(f"dict method {name}")

    def sparse_getitem(self, o, k):
        """Indexing of a sparse matrix: always two axes, except for two numbers or two index arrays."""
        from .interp import Slice
        i = self.i
        it = i.iter_items(k) if isinstance(k, Tup) else [k]
        if it is None or len(it) not in (1, 2):
            return i.unknown("sparse subscript")
        it = list(it) + [Slice(None, None, None)] * (2 - len(it))
        nums = [isinstance(x, (Poly, bool, int)) or (i.as_num(x) is not None and i.as_arr(x) is None) for x in it]
        if all(nums):
            return self.arr_getitem(None, o.arr, Tup(it))
        isarr = [i.as_arr(x) is not None or isinstance(x, Arr) for x in it]
        if all(isarr):
            r = self.arr_getitem(None, o.arr, Tup(it))
            a = i.as_arr(r)
            if a is None or a.ndim != 1:
                return i.unknown("sparse subscript")
            return i.new_arr(Arr((ONE, a.shape[0]), lambda ix: a.get((ix[1],))))
        key = []
        for x, n, d in zip(it, nums, o.arr.shape):
            if n:
                p = i.as_num(x)
                if p.const() is not None and p.const() < 0:
                    p = d + p
                x = Slice(p, p + 1, None)
            key.append(x)
        r = self.arr_getitem(None, o.arr, Tup(key))
        a = i.as_arr(r)
        if a is None or a.ndim != 2:
            return i.unknown("sparse subscript")
        return SparseV(a)

    @staticmethod
    def literal(vals):
        vals = [P(v) for v in vals]
        if not vals:
            return arrays.const_array((P(0),), P(0))

        def get(ix):
            k = P(ix[0]).const()
            if k is None:
                if len(vals) > 60:
                    raise Undecidable("entry of a literal array")
                return sum((alg.delta(P(ix[0]) - e) * w for e, w in enumerate(vals)), ZERO)
            return vals[int(k)]
        return Arr((P(len(vals)),), get)

    @staticmethod
    def const_nonzero(arr, limit=6000):
        """Positions of the entries of a matrix of numbers that are not zero, column by column."""
        n = arr.size.const()
        if n is None or n > limit or arr.ndim != 2:
            return None
        out = []
        for q in range(int(arr.shape[1].const())):
            for r in range(int(arr.shape[0].const())):
                v = arrays.topoly(arr.get((P(r), P(q)))).const()
                if v is None:
                    return None
                if v:
                    out.append((r, q))
        return out

    def m_sparse(self, o, name, a, k):
        i = self.i
        if name in ("tocsc", "tocsr", "tocoo", "copy", "asformat", "astype"):
            return o
        if name in ("toarray", "todense"):
            return i.new_arr(o.arr)
        if name == "transpose":
            return SparseV(arrays.transpose(o.arr))
        if name == "multiply":
            return i.lib.sparse_binop(ast.Mult(), o, a[0]) if not isinstance(a[0], SparseV) else SparseV(elementwise(lambda x, y: x * y, o.arr, a[0].arr))
        if name == "dot":
            return self.sparse_binop(ast.MatMult(), o, a[0])
        if name == "nonzero":
            hit = self.const_nonzero(o.arr)
            if hit is not None:
                return Tup([i.new_arr(self.literal([h[k] for h in hit])) for k in range(2)])
            self.selected("nonzero entries of a sparse matrix", o.arr)
            nz = Opq("nonzero", o.arr)
            n = alg.dim("nnz" + str(abs(hash(nz.key)) % 10 ** 8), 0)
            rows = Arr((n,), lambda ix: P(Atom("elem", "nzrow" + nz.key, ix)))
            cols = Arr((n,), lambda ix: P(Atom("elem", "nzcol" + nz.key, ix)))
            rows.meta["nonzero"] = (o.arr, 0)
            cols.meta["nonzero"] = (o.arr, 1)
            return Tup([i.new_arr(rows), i.new_arr(cols)])
        if name == "sum":
            ax = kwd(a, k, 0, "axis")
            r = arrays.reduce_axis(o.arr, None if ax is None else int(ax.const()))
            return i.new_arr(r) if isinstance(r, Arr) else r
        return i.unknown(f"sparse method {name}")

    def m_arr(self, o, a, name, args, k):
        i = self.i
        view = o if isinstance(o, Ref) else None
        if name in ("ravel", "reshape", "transpose", "squeeze", "view", "swapaxes"):
            r = self.np.call(name, [o] + list(args), k) if name != "reshape" else self.np.reshape_m(o, args, k)
            if isinstance(r, Ref) and view is not None:
                rr = i.rec(r)
                if rr.kind == "arr":
                    rr.arr.meta.update({q: v for q, v in a.meta.items() if q in ("parts",) and rr.arr.ndim == 1 and a.ndim == 1})
                    i.put(r, ArrR(rr.arr, view))
            return r
        if name == "flatten":
            order = args[0] if args else k.get("order", "C")
            return i.new_arr(arrays.ravel(arrays.transpose(a) if memory_order(a, order) == "F" else a))
        if name in ("astype",):
            return self.np.astype(o, a, args, k)
        if name in ("copy",):
            return i.new_arr(Arr(a.shape, a.get, **a.meta))
        if name == "tolist":
            return self.tolist(a)
        if name == "item":
            return a.get(tuple(ZERO for _ in a.shape))
        if name == "fill":
            v = i.as_num(args[0])
            i.write_arr(o, arrays.const_array(a.shape, v))
            return None
        if name in ("sort",):
            i.write_arr(o, None)
            return None
        if name in ("sum", "mean", "min", "max", "prod", "any", "all", "dot", "cumsum", "argmin", "argmax", "std", "var",
                    "clip", "repeat", "round", "nonzero", "argsort", "diff", "take", "trace", "diagonal"):
            r = self.np.call(name, [o] + list(args), k)
            if r is not NotImplemented:
                return r
        return i.unknown(f"array method {name}")

    def tolist(self, a):
        i = self.i
        if a.ndim == 0:
            return a.get(())
        r = i.new_arr(a)
        items = i.iter_items(r)
        if items is None:
            return i.unknown("tolist")
        if a.ndim == 1:
            return i.new_list(items)
        return i.new_list([self.tolist(i.as_arr(x)) if not isinstance(x, Seg) else x for x in items])

    # ------------------------------------------------------------ masks
    def selected(self, what, arr):
        """Note a selection whose size is decided by values that are not known."""
        log = self.i.selections
        if log is None or not isinstance(arr, Arr):
            return
        n = arr.size.const()
        if n is None or n > 6000:
            return
        r = arrays.ravel(arr)
        for j in range(int(n)):
            v = r.get((P(j),))
            if isinstance(v, Poly):
                if v.const() is not None:
                    continue
                v = arrays.topoly(v)
            elif isinstance(v, bool):
                continue
            log.append((what, self.i.site, str(alg.show(v) if isinstance(v, Poly) else v)[:100]))
            return

    def masked(self, src, mask):
        if isinstance(mask, Arr):
            sel = self.mask_select(mask)
            if sel is not None:
                if sel is False:
                    return Arr((ZERO,) + src.shape[1:], lambda ix: ZERO)
                n, pos_ = sel
                return Arr((n,) + src.shape[mask.ndim:], lambda ix: src.get((pos_(ix[0]),) + ix[1:]))
        self.selected("elements selected by a mask", mask)
        n = alg.dim("count" + str(abs(hash(vkey(mask))) % 10 ** 10), 0)
        m = Arr((n,) + src.shape[mask.ndim:], lambda ix: P(Atom("unk", "element of a masked array")))
        m.meta["masked"] = (src, mask)
        return m

    def mask_select(self, mask):
        """Closed form of the positions selected by a 1-d mask: (count, position function)."""
        if mask.ndim != 1:
            return None
        size = mask.size.const()
        if size is not None and size <= 400:
            hits = []
            for j in range(int(size)):
                val = mask.get((P(j),))
                if isinstance(val, Poly):
                    z = alg.is_zero(val)
                    val = None if z is None else not z
                val = self.i.decide(val) if val is not None else None
                if val is None or not isinstance(val, bool):
                    hits = None
                    break
                if val:
                    hits.append(j)
            if hits is not None:
                if not hits:
                    return False
                at = arrays.concat([Arr((ONE,), lambda ix, j=j: P(j)) for j in hits], 0)
                return P(len(hits)), lambda q: arrays.topoly(at.get((q,)))
        try:
            leaves = arrays.enum_cases(mask, 60)
        except (NeedSplit, Undecidable):
            return None
        sel = []
        for ix, vs, val in leaves:
            if isinstance(val, Poly):
                z = alg.is_zero(val)
                val = None if z is None else not z
            val = self.i.decide(val) if val is not None else None
            if val is True:
                sel.append((ix[0], vs))
            elif val is not False:
                return None
        if not sel:
            return False
        if len(sel) == 1:
            p, vs = sel[0]
            return self.lex(p, vs)
        if all(len(vs) <= 1 for _, vs in sel):
            parts = []
            n = ZERO
            for p, vs in sel:
                if vs and alg.linear_in(p, vs[0])[0].const() != 1:
                    return None
                off = subst(p, {vs[0]: ZERO}) if vs else p
                m = alg.UPPER[vs[0]] if vs else ONE
                parts.append((off, n, m))
                n = n + m

            def pos_(q):
                for off, base, m in parts[:-1]:
                    if arrays.lt(q, base + m):
                        return off + q - base
                off, base, m = parts[-1]
                return off + q - base
            return n, pos_
        return None

    def lex(self, p, vs):
        """p increasing lexicographically in an ordering of vs by decreasing stride."""
        if not vs:
            return ONE, (lambda q: p)
        co = []
        for v in vs:
            lin = alg.linear_in(p, v)
            if lin is None:
                return None
            co.append((v, lin[0]))
        order = []
        rem = list(co)
        while rem:
            for x in rem:
                if all(y is x or alg.pos(x[1] - y[1]) or (x[1] - y[1]).terms == {} for y in rem):
                    order.append(x)
                    rem.remove(x)
                    break
            else:
                return None
        n = ONE
        for v, _ in order:
            n = n * alg.UPPER[v]

        def pos_(q):
            idx = arrays.unflatten_index(q, [alg.UPPER[v] for v, _ in order])
            return subst(p, {v: x for (v, _), x in zip(order, idx)})
        return n, pos_

    def masked_op(self, fn, q):
        src, mask = q.meta["masked"]
        return self.i.new_arr(self.masked(elementwise(fn, src), mask))

    def masked_binop(self, op, x, y):
        mx, my = x.meta.get("masked"), y.meta.get("masked")
        if mx and my and vkey(mx[1]) == vkey(my[1]):
            return self.i.new_arr(self.masked(elementwise(lambda u, w: self.i.scalar_op(op, u, w), mx[0], my[0]), mx[1]))
        return self.i.unknown("masked arrays")

    # ------------------------------------------------------------ array indexing
    def is_bool_arr(self, a):
        if not isinstance(a, Arr) or a.ndim == 0:
            return False
        if "cmp" in a.meta or a.meta.get("bool"):
            return True
        c = a.meta.get("const", None)
        if isinstance(c, bool):
            return True
        try:
            v = a.get(tuple(P(index(s)) for s in a.shape))
            return isinstance(v, (bool, Cond))
        except NeedSplit:
            try:
                for _, _, v in arrays.enum_cases(a, 40):
                    return isinstance(v, (bool, Cond))
            except (NeedSplit, Undecidable):
                return False
        return False

    def norm_key(self, a, k):
        from .interp import Slice
        ks = list(k.items) if isinstance(k, Tup) else [k]
        out = []
        for x in ks:
            if isinstance(x, Ref) and self.i.rec(x).kind == "list":
                items = self.i.iter_items(x)
                if items and all(isinstance(y, Slice) for y in items if not isinstance(y, Seg)) and len(ks) == 1:
                    out += items
                    continue
                x = self.i.to_arr(x)
            elif isinstance(x, Tup):
                x = self.i.to_arr(x)
            else:
                ar = self.i.as_arr(x)
                if ar is not None:
                    x = ar if ar.ndim else self.i.as_num(x)
                elif isinstance(x, (Opq,)):
                    x = self.i.as_num(x)
            out.append(x)
        used = 0
        for x in out:
            if x is None or x is Ellipsis:
                continue
            used += x.ndim if isinstance(x, Arr) and self.is_bool_arr(x) else 1
        if Ellipsis in [x for x in out if not isinstance(x, (Arr, Poly))]:
            n = next(j for j, x in enumerate(out) if x is Ellipsis)
            out[n:n + 1] = [Slice(None, None, None)] * (a.ndim - used)
        else:
            out += [Slice(None, None, None)] * (a.ndim - used)
        return out

    def slice_of(self, s, n):
        i = self.i
        step = s.step
        st = 1 if step is None else int(i.as_num(step).const())
        lo_, hi_ = (i.as_num(s.lo) if s.lo is not None else None), (i.as_num(s.hi) if s.hi is not None else None)
        if st == 1:
            lo = arrays.norm_bound(lo_, n, ZERO)
            hi = arrays.norm_bound(hi_, n, n)
            if arrays.neg(hi - lo) is True:
                hi = lo
            return lo, hi - lo, 1
        if st == -1 and lo_ is None and hi_ is None:
            return n - 1, n, -1
        if st > 1:
            lo = arrays.norm_bound(lo_, n, ZERO)
            hi = arrays.norm_bound(hi_, n, n)
            L = hi - lo
            c = L.const()
            if c is not None:
                return lo, P(-(-c // st)), st
            for r in range(st):
                q = (L + r) * P(1) / st
                if arrays.integral(q):
                    return lo, q, st
        raise Undecidable("slice step")

    def arr_getitem(self, ref, a, k):
        from .interp import Slice
        i = self.i
        if "masked" in a.meta and not isinstance(k, Slice):
            raise Undecidable("index into a masked array")
        ks = self.norm_key(a, k)
        # boolean mask as the first index
        for n, x in enumerate(ks):
            if isinstance(x, Arr) and self.is_bool_arr(x):
                if n == 0 and all(isinstance(y, Slice) and y.lo is None and y.hi is None and y.step is None for y in ks[1:]):
                    r = self.masked(a if x.ndim == 1 or True else a, x)
                    return i.new_arr(r)
                raise Undecidable("boolean mask on another axis")
        if sum(1 for x in ks if x is not None) > a.ndim:
            i.raise_("IndexError", "too many indices")
        plan = []      # per source axis: function(out idx)->poly ; out axes list
        shape = []
        adv = [x for x in ks if isinstance(x, Arr)]
        advshape = arrays.broadcast_shapes(*[x.shape for x in adv]) if adv else None
        adv_at = None
        src = []
        ax = 0
        sep = False
        last_adv = None
        for n, x in enumerate(ks):
            if x is None:
                shape.append(("new", ONE))
                continue
            N = a.shape[ax]
            if isinstance(x, Slice):
                lo, L, st = self.slice_of(x, N)
                shape.append(("ax", L))
                src.append(("s", len(shape) - 1, lo, st))
            elif isinstance(x, Arr):
                if adv_at is None:
                    adv_at = len(shape)
                    shape.append(("adv", None))
                elif last_adv is not None and n != last_adv + 1:
                    sep = True
                last_adv = n
                src.append(("a", x, N))
            elif isinstance(x, (Poly, bool, Cond)):
                p = arrays.topoly(x)
                if arrays.neg(p) is True:
                    p = p + N
                elif arrays.neg(p) is None and not alg.nonneg(p):
                    # python allows negative indices; an undecided sign stays as is
                    pass
                c, cn = p.const(), N.const()
                if (c is not None and cn is not None and not 0 <= c < cn) or arrays.neg(N - 1 - p) is True:
                    i.raise_("IndexError", "index out of bounds")
                if adv and adv_at is not None and last_adv is not None and n == last_adv + 1:
                    last_adv = n
                src.append(("i", p))
            elif isinstance(x, Unknown):
                return x
            else:
                raise Undecidable(f"index {x!r}")
            ax += 1
        if sep:
            shape.remove(("adv", None))
            shape.insert(0, ("adv", None))
            src = [(t[0], t[1] + (1 if t[1] < adv_at else 0), *t[2:]) if t[0] == "s" else t for t in src]
            adv_at = 0
        outshape = []
        start = []
        for kind, L in shape:
            start.append(len(outshape))
            if kind == "adv":
                outshape += list(advshape)
            else:
                outshape.append(L)

        def get(idx):
            pos_ = []
            for t in src:
                if t[0] == "s":
                    j = idx[start[t[1]]]
                    pos_.append(t[2] + j * t[3])
                elif t[0] == "i":
                    pos_.append(t[1])
                else:
                    ai = idx[start[adv_at]:start[adv_at] + len(advshape)]
                    p = arrays.topoly(arrays.bget(t[1], ai, advshape))
                    if arrays.neg(p) is True:
                        p = p + t[2]
                    pos_.append(p)
            return a.get(tuple(pos_))
        if not outshape:
            return a.get(tuple(t[1] for t in src)) if not adv else get(())
        meta = {}
        if not adv and ref is not None:
            return i.new_arr(Arr(outshape, get), ref)
        return i.new_arr(Arr(outshape, get, **meta))

    def invert_index(self, ia, i_):
        """Positions q with ia[q] == i_: list of (condition-free) solutions under splits."""
        ia1 = arrays.ravel(ia)
        sols = []
        for ix, vs, val in arrays.enum_cases(ia1, 60):
            p = arrays.topoly(val)
            if not vs:
                z = alg.is_zero(i_ - p)
                if z is None:
                    if arrays.neg(i_ - p) is None:
                        d = arrays.reduce_lt(i_ - p)
                        if arrays.neg(d) is None:
                            raise NeedSplit("lt", i_ - p)
                    if arrays.neg(p - i_) is None:
                        raise NeedSplit("lt", p - i_)
                    z = alg.is_zero(i_ - p)
                if z is True:
                    sols.append((ix[0], True))
                continue
            co = []
            for v in vs:
                lin = alg.linear_in(p, v)
                if lin is None:
                    raise Undecidable("index array is not affine")
                co.append((v, lin[0]))
            order = []
            rem = list(co)
            while rem:
                for x in rem:
                    if all(y is x or alg.pos(x[1] - y[1]) for y in rem):
                        order.append(x)
                        rem.remove(x)
                        break
                else:
                    raise Undecidable("index array strides")
            d = subst(p, {v: ZERO for v in vs})
            ok = True
            sol = {}
            # with 0 <= d < largest stride the position splits without the offset: the same
            # coordinates serve every such index array
            small = arrays.neg(d) is False and arrays.neg(d - order[0][1]) is True and d.terms
            r = i_ if small else i_ - d
            if not small and arrays.lt(r, ZERO):
                continue
            for n, (v, c) in enumerate(order):
                q, r = arrays.divmod_(r, c)
                if small and n == 0:
                    r = r - d
                    if len(order) > 1 and arrays.lt(r, ZERO):
                        ok = False
                        break
                if not arrays.lt(q, alg.UPPER[v]):
                    ok = False
                    break
                sol[v] = q
            if ok:
                z = alg.is_zero(r)
                if z is None:
                    if not arrays.integral(r):
                        raise Undecidable("index array remainder")
                    from .interp import norm_sign
                    sols.append((subst(ix[0], sol), Cond("eq", norm_sign(r))))
                elif z:
                    sols.append((subst(ix[0], sol), True))
        return sols

    def arr_setitem(self, a, k, v):
        from .interp import Slice
        i = self.i
        ks = self.norm_key(a, k)
        va = i.to_arr(v)
        if va is None:
            raise Undecidable(f"assigned value {v!r}"[:60])
        if len(ks) == 1 and isinstance(ks[0], Arr) and self.is_bool_arr(ks[0]):
            m = ks[0]
            if isinstance(va, Arr):
                raise Undecidable("masked assignment")
            return Arr(a.shape, lambda ix: self.sel(m.get(ix), va, a.get(ix)))
        if any(x is None for x in ks):
            raise Undecidable("newaxis in assignment")
        adv = [(n, x) for n, x in enumerate(ks) if isinstance(x, Arr)]
        if len(adv) > 1:
            # coordinate assignment a[rows, cols] = v
            if len(adv) == len(ks) == a.ndim:
                raise Undecidable("coordinate assignment")
            raise Undecidable("several index arrays")
        plan = []
        vshape = []
        for n, x in enumerate(ks):
            N = a.shape[n]
            if isinstance(x, Slice):
                lo, L, st = self.slice_of(x, N)
                if st not in (1,):
                    raise Undecidable("strided assignment")
                plan.append(("s", lo, L, len(vshape)))
                vshape.append(L)
            elif isinstance(x, Arr):
                plan.append(("a", x, None, len(vshape)))
                vshape += list(x.shape)
            else:
                p = arrays.topoly(x)
                if arrays.neg(p) is True:
                    p = p + N
                plan.append(("i", p, None, None))
        vshape = tuple(vshape)

        def get(ix):
            vi = [None] * len(vshape)
            cond, sols = True, None
            for n, t in enumerate(plan):
                if t[0] == "s":
                    q = ix[n] - t[1]
                    if arrays.lt(q, ZERO) or not arrays.lt(q, t[2]):
                        return a.get(ix)
                    vi[t[3]] = q
                elif t[0] == "i":
                    d = ix[n] - t[1]
                    z = alg.is_zero(d)
                    if z is False:
                        return a.get(ix)
                    if z is None:
                        from .interp import norm_sign
                        cond = c_and(cond, Cond("eq", norm_sign(d)))
                else:
                    sols = self.invert_index(t[1], ix[n])
                    if not sols:
                        return a.get(ix)
                    inv_ = t
            if sols is None:
                sols = [(None, True)]
            out = a.get(ix)
            for pos_, cd in sols:
                if pos_ is not None:
                    un = arrays.unflatten_index(pos_, inv_[1].shape)
                    for j, q in enumerate(un):
                        vi[inv_[3] + j] = q
                val = arrays.bget(va, tuple(vi), vshape) if isinstance(va, Arr) else va
                out = self.sel(c_and(cond, cd), val, out)
            return out
        return Arr(a.shape, get)

    def sel(self, c, x, y):
        if c is True:
            return x
        if c is False:
            return y
        if isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond)):
            return c_or(c_and(c, x), c_and(c_not(c), y))
        return select(c, x, y)


def BL():
    from .interp import BoundLib
    return BoundLib


class _Splice:
    pass


def _get_splice():
    from . import interp
    return interp.Splice


class _SpliceProxy(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _get_splice())


class Splice_(metaclass=_SpliceProxy):
    pass


class NP:
    """numpy-like functions on abstract arrays."""

    def __init__(self, lib):
        self.lib = lib

    @property
    def i(self):
        return self.lib.i

    def call(self, name, a, k):
        i = self.i
        for x in a:
            if isinstance(x, Unknown):
                return x
        if name in UFUNCS or name in UBIN:
            return self.ufunc(name, a)
        f = getattr(self, "n_" + name.replace(".", "_"), None)
        if f is None:
            return NotImplemented
        return f(a, k)

    def arr(self, v):
        """Arr or Poly or None"""
        i = self.i
        r = i.to_arr(v)
        if r is None and isinstance(v, Stub) is False:
            x = i.as_num(v)
            return x
        return r

    def uf(self, name, p):
        from .interp import mathfn
        name = {"absolute": "abs", "fabs": "abs", "radians": "deg2rad", "degrees": "rad2deg"}.get(name, name)
        p = arrays.topoly(p)
        if name == "square":
            return p * p
        if name in ("conj", "real"):
            return p
        if name == "deg2rad":
            return p * alg.sym("pi") * P(1) / 180
        if name == "rad2deg":
            return p * 180 / alg.sym("pi")
        if name in ("isinf", "isfinite", "isnan"):
            from .interp import INF
            inf = alg.equal(p, INF) or alg.equal(p, -INF)
            if inf or p.const() is not None:
                return P(1 if (name == "isinf") == inf and name != "isnan" else 0)
        return mathfn(name, p)

    def ufunc(self, name, a):
        i = self.i
        xs = [self.arr(x) for x in a]
        if any(x is None for x in xs):
            return self.lib.opaque_call("numpy." + name, a, {})
        from .interp import mathfn
        if len(xs) == 2:
            f = lambda u, w: mathfn(name, u, w)
        else:
            f = lambda u: self.uf(name, u)
            if isinstance(xs[0], Arr) and "masked" in xs[0].meta:
                return self.lib.masked_op(f, xs[0])
        if any(isinstance(x, Arr) for x in xs):
            return i.new_arr(elementwise(f, *xs))
        return f(*[arrays.topoly(x) for x in xs])

    def ret(self, r):
        return self.i.new_arr(r) if isinstance(r, Arr) else r

    def shape(self, v):
        i = self.i
        p = i.as_num(v)
        if p is not None and not isinstance(v, Opq):
            return (p,)
        items = i.iter_items(v)
        if items is None or any(isinstance(x, Seg) for x in items):
            return None
        out = [i.as_num(x) for x in items]
        return None if any(x is None for x in out) else tuple(out)

    def axis(self, v):
        if v is None:
            return None
        p = self.i.as_num(v)
        if p is None or p.const() is None:
            raise Undecidable("axis")
        return int(p.const())

    # -- construction
    def n_array(self, a, k):
        i = self.i
        v = a[0]
        if isinstance(v, Ref) and i.rec(v).kind == "list" and not i.rec(v).items:
            return i.new_arr(Arr((ZERO,), lambda ix: ZERO))
        r = self.arr(v)
        if r is None:
            if isinstance(v, SparseV):
                return i.new_arr(v.arr)
            if isinstance(v, Stub) and isinstance(v.attrs.get("__array__"), Arr):
                return i.new_arr(v.attrs["__array__"])
            return self.lib.opaque_call("numpy.array", a[:1], {})
        if isinstance(r, Arr):
            return i.new_arr(Arr(r.shape, r.get, **r.meta))
        return i.new_arr(Arr((), lambda ix: r))

    def n_asarray(self, a, k):
        if self.i.as_arr(a[0]) is not None and isinstance(a[0], Ref):
            return a[0]
        return self.n_array(a, k)

    n_asanyarray = n_ascontiguousarray = n_asarray

    def n_copy(self, a, k):
        return self.n_array(a, k)

    def n_matrix(self, a, k):
        return self.n_array(a, k)

    def const(self, a, k, val):
        sh = self.shape(kwd(a, k, 0, "shape"))
        if sh is None:
            return self.i.unknown("array shape")
        return self.i.new_arr(arrays.const_array(sh, val))

    def n_ones(self, a, k):
        return self.const(a, k, ONE)

    def n_zeros(self, a, k):
        return self.const(a, k, ZERO)

    def n_empty(self, a, k):
        return self.const(a, k, P(Atom("unk", "np.empty")))

    def n_full(self, a, k):
        v = kwd(a, k, 1, "fill_value")
        if isinstance(v, (bool, Cond)):
            return self.const(a, k, v)
        p = self.i.as_num(v)
        return self.const(a, k, p) if p is not None else self.i.unknown("np.full")

    def like(self, a, val):
        x = self.arr(a[0])
        if x is None:
            return self.i.unknown("like")
        return self.i.new_arr(arrays.const_array(x.shape, val)) if isinstance(x, Arr) else val

    def n_ones_like(self, a, k):
        return self.like(a, ONE)

    def n_zeros_like(self, a, k):
        return self.like(a, ZERO)

    def n_full_like(self, a, k):
        return self.like(a, self.i.as_num(a[1]))

    def n_empty_like(self, a, k):
        return self.like(a, P(Atom("unk", "np.empty")))

    def n_eye(self, a, k):
        n = self.i.as_num(a[0])
        m = self.i.as_num(a[1]) if len(a) > 1 and a[1] is not None else n
        return self.i.new_arr(Arr((n, m), lambda ix: alg.delta(ix[0] - ix[1])))

    n_identity = n_eye

    def n_arange(self, a, k):
        p = [self.i.as_num(x) for x in a]
        if any(x is None for x in p):
            return self.i.unknown("arange")
        if len(p) == 1:
            return self.i.new_arr(arrays.arange(p[0]))
        st = p[2] if len(p) > 2 else ONE
        n = (p[1] - p[0]) / st
        if not arrays.integral(n):
            return self.lib.opaque_call("numpy.arange", a, k)
        return self.i.new_arr(arrays.arange(n, p[0], st))

    def n_linspace(self, a, k):
        lo, hi = self.i.as_num(a[0]), self.i.as_num(a[1])
        n = self.i.as_num(kwd(a, k, 2, "num", P(50)))
        if lo is None or hi is None or n is None:
            return self.i.unknown("linspace")
        if kwd(a, k, 3, "endpoint", True) is False:
            return self.i.new_arr(Arr((n,), lambda ix: lo + (hi - lo) * ix[0] / n))
        return self.i.new_arr(Arr((n,), lambda ix: lo + (hi - lo) * ix[0] / (n - 1)))

    # -- shape manipulation
    def n_reshape(self, a, k):
        i = self.i
        v = a[0]
        x = self.arr(v)
        if x is None:
            return self.lib.opaque_call("numpy.reshape", a, k)
        if not isinstance(x, Arr):
            x = Arr((), lambda ix, p=x: p)
        order = k.get("order", a[2] if len(a) > 2 else "C")
        sh = self.shape(kwd(a, k, 1, "newshape", k.get("shape")))
        if sh is None:
            return i.unknown("reshape")
        if "masked" in x.meta:
            if len(sh) == 1:
                return i.new_arr(x)
            raise Undecidable("reshape of a masked array")
        if memory_order(x, order) == "F":
            r = arrays.transpose(arrays.reshape(arrays.ravel(arrays.transpose(x)), tuple(reversed(sh))))
        else:
            r = arrays.reshape(x, sh)
        return i.new_arr(r)

    def reshape_m(self, o, args, k):
        if len(args) == 1 and self.shape(args[0]) is not None and not isinstance(args[0], Poly):
            return self.n_reshape([o, args[0]], k)
        return self.n_reshape([o, Tup(list(args))], k)

    def n_ravel(self, a, k):
        x = self.arr(a[0])
        if x is None:
            return self.lib.opaque_call("numpy.ravel", a, k)
        if not isinstance(x, Arr):
            return self.i.new_arr(Arr((ONE,), lambda ix: x))
        if "masked" in x.meta and x.ndim == 1:
            return self.i.new_arr(x)
        if x.ndim == 0:
            return self.i.new_arr(Arr((ONE,), lambda ix: x.get(())))
        order = kwd(a, k, 1, "order", "C")
        if memory_order(x, order) == "F":
            x = arrays.transpose(x)
        base = a[0] if isinstance(a[0], Ref) and self.i.as_arr(a[0]) is not None else None
        return self.i.new_arr(arrays.ravel(x), base)

    def n_squeeze(self, a, k):
        x = self.arr(a[0])
        if x is None:
            return self.lib.opaque_call("numpy.squeeze", a, k)
        if not isinstance(x, Arr):
            return x
        ax = self.axis(kwd(a, k, 1, "axis"))
        keep = [n for n, s in enumerate(x.shape) if (s.const() != 1 if ax is None else n != ax % x.ndim)]

        def get(ix):
            full = [ZERO] * x.ndim
            for j, n in zip(ix, keep):
                full[n] = j
            return x.get(tuple(full))
        if not keep:
            return x.get(tuple(ZERO for _ in x.shape))
        return self.i.new_arr(Arr([x.shape[n] for n in keep], get))

    def n_expand_dims(self, a, k):
        x = self.arr(a[0])
        ax = self.axis(kwd(a, k, 1, "axis"))
        if not isinstance(x, Arr):
            return self.i.new_arr(Arr((ONE,), lambda ix: x)) if x is not None else self.i.unknown("expand_dims")
        ax = ax % (x.ndim + 1)
        return self.i.new_arr(Arr(x.shape[:ax] + (ONE,) + x.shape[ax:], lambda ix: x.get(ix[:ax] + ix[ax + 1:])))

    def n_transpose(self, a, k):
        x = self.arr(a[0])
        ax = kwd(a, k, 1, "axes")
        if not isinstance(x, Arr):
            return a[0]
        if len(a) > 2:
            axes = [self.axis(q) for q in a[1:]]
        else:
            axes = [int(q.const()) for q in self.shape(ax)] if ax is not None else None
        return self.i.new_arr(arrays.transpose(x, axes))

    def n_swapaxes(self, a, k):
        x = self.arr(a[0])
        p, q = self.axis(a[1]), self.axis(a[2])
        ax = list(range(x.ndim))
        ax[p], ax[q] = ax[q], ax[p]
        return self.i.new_arr(arrays.transpose(x, ax))

    def n_moveaxis(self, a, k):
        x = self.arr(a[0])
        p, q = self.axis(a[1]) % x.ndim, self.axis(a[2]) % x.ndim
        ax = [n for n in range(x.ndim) if n != p]
        ax.insert(q, p)
        return self.i.new_arr(arrays.transpose(x, ax))

    def parts(self, v):
        """List of Arr / Rep of a sequence of arrays."""
        i = self.i
        if i.as_arr(v) is not None:
            x = i.as_arr(v)
            c = x.shape[0].const()
            if c is not None and c <= 64:
                return [Arr(x.shape[1:], lambda ix, n=n: x.get((P(n),) + ix)) for n in range(int(c))]
            u = index(x.shape[0])
            return [Rep(u, x.shape[0], lambda q: Arr(x.shape[1:], lambda ix: x.get((q,) + ix)))]
        items = i.iter_items(v)
        if items is None:
            return None
        out = []
        for it in items:
            if isinstance(it, Seg):
                if isinstance(it.body, Splice_):
                    n = len(it.body.items)

                    def mk2(q, it=it, n=n):
                        raise Undecidable("concatenation of spliced items")
                    # interleaved items of equal shape: repetition of the concatenated group
                    out.append(("splice", it))
                    continue

                def mk(q, it=it):
                    x = i.to_arr(i.inst(it, q))
                    if x is None:
                        raise Undecidable("non-array part")
                    return x if isinstance(x, Arr) else Arr((), lambda ix: x)
                try:
                    mk(P(it.var))
                except Undecidable:
                    return None
                out.append(Rep(it.var, it.n, mk))
            else:
                x = self.arr(it)
                if x is None:
                    return None
                out.append(x if isinstance(x, Arr) else Arr((), lambda ix, x=x: x))
        return out

    def resolve_splices(self, ps, axis, lift):
        i = self.i
        out = []
        for p in ps:
            if isinstance(p, tuple) and p[0] == "splice":
                it = p[1]

                def mk(q, it=it):
                    xs = []
                    for b in it.body.items:
                        x = i.to_arr(i.thaw(i.subst_val(b, {it.var: q})))
                        if x is None:
                            raise Undecidable("non-array part")
                        xs.append(lift(x if isinstance(x, Arr) else Arr((), lambda ix, x=x: x)))
                    return arrays.concat(xs, axis)
                out.append(Rep(it.var, it.n, mk))
            elif isinstance(p, Rep):
                out.append(Rep(p.var, p.n, lambda q, p=p: lift(p.make(q))))
            else:
                out.append(lift(p))
        return out

    @staticmethod
    def at1d(x):
        return x if x.ndim else Arr((ONE,), lambda ix: x.get(()))

    @staticmethod
    def at2d(x):
        if x.ndim == 0:
            return Arr((ONE, ONE), lambda ix: x.get(()))
        if x.ndim == 1:
            return Arr((ONE,) + x.shape, lambda ix: x.get(ix[1:]))
        return x

    def cat(self, v, axis, lift):
        ps = self.parts(v)
        if ps is None:
            return self.lib.opaque_call("numpy.concatenate", [v], {})
        if not ps:
            self.i.raise_("ValueError", "need at least one array to concatenate")
        if any(isinstance(p, Arr) and "masked" in p.meta for p in ps):
            raise Undecidable("concatenation of masked arrays")
        ps = self.resolve_splices(ps, axis, lift)
        # one-element stacks of different rank
        ps2 = [p for p in ps if not (isinstance(p, Arr) and p.ndim == 1 and p.shape[0].const() == 0)]
        if ps2 and any(isinstance(p, Arr) and p.ndim > 1 for p in ps2) is False:
            ps = ps2
        return self.i.new_arr(arrays.concat(ps, axis))

    def n_concatenate(self, a, k):
        ax = kwd(a, k, 1, "axis", ZERO)
        if ax is None:
            return self.cat(a[0], 0, arrays.ravel)
        return self.cat(a[0], self.axis(ax), lambda x: x)

    def n_hstack(self, a, k):
        ps = self.parts(a[0])
        if ps is not None and ps:
            f = ps[0]
            nd = f.ndim if isinstance(f, Arr) else f.make(P(f.var)).ndim if isinstance(f, Rep) else 1
            return self.cat(a[0], 0 if nd <= 1 else 1, self.at1d)
        return self.cat(a[0], 0, self.at1d)

    def n_vstack(self, a, k):
        return self.cat(a[0], 0, self.at2d)

    n_row_stack = n_vstack

    def n_append(self, a, k):
        ax = kwd(a, k, 2, "axis")
        if ax is None:
            return self.cat(Tup([a[0], a[1]]), 0, lambda x: arrays.ravel(self.at1d(x)))
        return self.cat(Tup([a[0], a[1]]), self.axis(ax), lambda x: x)

    def n_stack(self, a, k):
        ps = self.parts(a[0])
        ax = self.axis(kwd(a, k, 1, "axis", ZERO))
        if ps is None:
            return self.lib.opaque_call("numpy.stack", a, k)
        if not ps:
            self.i.raise_("ValueError", "need at least one array to stack")
        nd = None
        for p in ps:
            nd = p.ndim if isinstance(p, Arr) else p.make(P(p.var)).ndim if isinstance(p, Rep) else nd
        ax = ax % (nd + 1)

        def lift(x):
            return Arr(x.shape[:ax] + (ONE,) + x.shape[ax:], lambda ix: x.get(ix[:ax] + ix[ax + 1:]))
        return self.i.new_arr(arrays.concat(self.resolve_splices(ps, ax, lift), ax))

    def n_dstack(self, a, k):
        def lift(x):
            x = self.at2d(x)
            return x if x.ndim > 2 else Arr(x.shape + (ONE,), lambda ix: x.get(ix[:2]))
        return self.cat(a[0], 2, lift)

    def n_column_stack(self, a, k):
        def lift(x):
            return x if x.ndim > 1 else Arr(x.shape + (ONE,), lambda ix: x.get(ix[:1]))
        return self.cat(a[0], 1, lift)

    def n_split(self, a, k):
        i = self.i
        x = self.arr(a[0])
        sec = kwd(a, k, 1, "indices_or_sections")
        ax = self.axis(kwd(a, k, 2, "axis", ZERO))
        if not isinstance(x, Arr):
            return self.lib.opaque_call("numpy.split", a, k)
        ax = ax % x.ndim
        N = x.shape[ax]
        if isinstance(sec, Poly):
            c = sec.const()
            if c is None:
                m = alg.exact_div(N, sec)
                if m is None:
                    return i.unknown("split into symbolic sections")
                v = index(sec, "p")
                return i.new_list([Seg(v, sec, arrays.take_slice(x, ax, P(v) * m, P(v) * m + m))])
            m = alg.exact_div(N, sec)
            if m is None:
                return i.unknown("split")
            cuts = [m * j for j in range(1, int(c))]
        else:
            items = i.iter_items(sec)
            if items is None:
                return i.unknown("split indices")
            if any(isinstance(it, Seg) for it in items):
                return i.unknown("split at symbolically many indices")
            cuts = [i.as_num(q) for q in items]
            if any(q is None for q in cuts):
                return i.unknown("split indices")
        out = []
        lo = ZERO
        for hi in cuts + [N]:
            h = arrays.norm_bound(hi, N, N)
            out.append(i.new_arr(arrays.take_slice(x, ax, lo, h), a[0] if isinstance(a[0], Ref) else None))
            lo = h
        return i.new_list(out)

    n_array_split = n_split

    def n_tile(self, a, k):
        x = self.arr(a[0])
        r = self.shape(kwd(a, k, 1, "reps"))
        if x is None or r is None:
            return self.i.unknown("tile")
        if not isinstance(x, Arr):
            x = Arr((), lambda ix, p=x: p)
        return self.i.new_arr(arrays.tile(x, r))

    def n_repeat(self, a, k):
        x = self.arr(a[0])
        n = self.i.as_num(kwd(a, k, 1, "repeats"))
        if not isinstance(x, Arr):
            x = Arr((ONE,), lambda ix, p=x: p) if x is not None else None
        if x is None or n is None:
            return self.i.unknown("repeat")
        ax = self.axis(kwd(a, k, 2, "axis"))
        return self.i.new_arr(arrays.repeat(x, n, ax % x.ndim if ax is not None else None))

    def n_insert(self, a, k):
        x = self.arr(a[0])
        p = self.i.as_num(a[1])
        v = self.arr(a[2])
        if not isinstance(x, Arr) or x.ndim != 1 or p is None or v is None:
            return self.i.unknown("insert")
        v = v if isinstance(v, Arr) else Arr((ONE,), lambda ix, q=v: q)
        if arrays.neg(p) is True:
            p = p + x.shape[0]
        parts = [arrays.take_slice(x, 0, ZERO, p), self.at1d(v), arrays.take_slice(x, 0, p, x.shape[0])]
        parts = [q for q in parts if q.shape[0].const() != 0]
        return self.i.new_arr(arrays.concat(parts, 0))

    def n_delete(self, a, k):
        x = self.arr(a[0])
        p = self.i.as_num(a[1])
        if not isinstance(x, Arr) or x.ndim != 1 or p is None:
            return self.i.unknown("delete")
        return self.i.new_arr(arrays.concat([arrays.take_slice(x, 0, ZERO, p), arrays.take_slice(x, 0, p + 1, x.shape[0])], 0))

    def n_flip(self, a, k):
        x = self.arr(a[0])
        ax = self.axis(kwd(a, k, 1, "axis", ZERO))
        return self.i.new_arr(arrays.take_slice(x, ax % x.ndim, None, None, -1))

    def n_flipud(self, a, k):
        return self.n_flip([a[0], ZERO], {})

    def n_roll(self, a, k):
        x = self.arr(a[0])
        s = self.i.as_num(a[1])
        if not isinstance(x, Arr) or x.ndim != 1 or s is None or s.const() is None:
            return self.i.unknown("roll")
        n = x.shape[0]
        c = s if s.const() > 0 else n + s
        return self.i.new_arr(arrays.concat([arrays.take_slice(x, 0, n - c, n), arrays.take_slice(x, 0, ZERO, n - c)], 0))

    def n_diag(self, a, k):
        x = self.arr(a[0])
        if not isinstance(x, Arr):
            return self.i.unknown("diag")
        if x.ndim == 1:
            n = x.shape[0]
            return self.i.new_arr(Arr((n, n), lambda ix: alg.delta(ix[0] - ix[1]) * arrays.topoly(x.get((ix[0],)))))
        return self.i.new_arr(Arr((x.shape[0],), lambda ix: x.get((ix[0], ix[0]))))

    def n_meshgrid(self, a, k):
        return NotImplemented

    def n_broadcast_to(self, a, k):
        x = self.arr(a[0])
        sh = self.shape(a[1])
        if x is None or sh is None:
            return self.i.unknown("broadcast_to")
        if not isinstance(x, Arr):
            return self.i.new_arr(arrays.const_array(sh, x))
        return self.i.new_arr(Arr(sh, lambda ix: arrays.bget(x, ix, sh)))

    def n_atleast_1d(self, a, k):
        x = self.arr(a[0])
        return self.i.new_arr(self.at1d(x)) if isinstance(x, Arr) else self.i.new_arr(Arr((ONE,), lambda ix: x))

    def n_atleast_2d(self, a, k):
        x = self.arr(a[0])
        return self.i.new_arr(self.at2d(x if isinstance(x, Arr) else Arr((), lambda ix: x)))

    # -- reductions
    def n_sum(self, a, k):
        x = self.arr(a[0])
        if x is None:
            return self.lib.opaque_call("numpy.sum", a, k)
        if not isinstance(x, Arr):
            return arrays.topoly(x)
        r = arrays.reduce_axis(x, self.axis(kwd(a, k, 1, "axis")))
        return self.ret(r)

    def n_mean(self, a, k):
        x = self.arr(a[0])
        if not isinstance(x, Arr):
            return a[0]
        ax = self.axis(kwd(a, k, 1, "axis"))
        r = arrays.reduce_axis(x, ax)
        n = x.size if ax is None else x.shape[ax % x.ndim]
        return self.ret(elementwise(lambda u: arrays.topoly(u) / n, r)) if isinstance(r, Arr) else r / n

    def n_prod(self, a, k):
        x = self.arr(a[0])
        if not isinstance(x, Arr):
            return x
        n = x.size.const()
        if n is None or x.ndim != 1:
            return P(Atom("app", "prod", arrays.akey(x)))
        r = ONE
        for j in range(int(n)):
            r = r * arrays.topoly(x.get((P(j),)))
        return r

    def n_cumsum(self, a, k):
        x = self.arr(a[0])
        if x is None or not isinstance(x, Arr):
            return self.i.unknown("cumsum")
        return self.i.new_arr(arrays.cumsum(x))

    def red(self, name, a, k):
        x = self.arr(a[0])
        if x is None:
            return self.lib.opaque_call("numpy." + name, a, k)
        if not isinstance(x, Arr):
            return x
        ax = self.axis(kwd(a, k, 1, "axis"))
        if ax is None:
            n = x.size.const()
            if n is not None and n <= 6 and x.ndim == 1 and name in ("min", "max"):
                r = arrays.topoly(x.get((ZERO,)))
                for j in range(1, int(n)):
                    q = arrays.topoly(x.get((P(j),)))
                    r = self.min2(r, q) if name == "min" else self.max2(r, q)
                return r
            return P(Atom("app", "r" + name, arrays.akey(x)))
        return self.i.new_arr(Arr(x.shape[:ax % x.ndim] + x.shape[ax % x.ndim + 1:],
                                  lambda ix: P(Atom("app", "r" + name, arrays.akey(Arr((x.shape[ax % x.ndim],), lambda j: x.get(ix[:ax % x.ndim] + j + ix[ax % x.ndim:])))))))

    def n_min(self, a, k):
        return self.red("min", a, k)

    def n_max(self, a, k):
        return self.red("max", a, k)

    n_amin, n_amax = n_min, n_max

    def n_argmin(self, a, k):
        return self.red("argmin", a, k)

    def n_argmax(self, a, k):
        return self.red("argmax", a, k)

    def n_any(self, a, k):
        return self.bred(a, True)

    def n_all(self, a, k):
        return self.bred(a, False)

    def bred(self, a, isany):
        i = self.i
        v = a[0]
        if isinstance(v, (bool, Cond)):
            return v
        x = self.arr(v)
        if x is None:
            return Cond("opaque", i.freshname("any"))
        if not isinstance(x, Arr):
            return i.truth(x)
        res = []
        try:
            for ix, vs, val in arrays.enum_cases(x, 60):
                c = i.decide(i.truth(val))
                if isinstance(c, bool):
                    res.append(c)
                else:
                    q = ("any" if isany else "all") + vkey(x)
                    return Cond("opaque", q)
        except (NeedSplit, Undecidable):
            return Cond("opaque", i.freshname("any"))
        return any(res) if isany else all(res)

    def n_count_nonzero(self, a, k):
        x = self.arr(a[0])
        return P(Atom("app", "count_nonzero", arrays.akey(x))) if isinstance(x, Arr) else self.i.unknown("count_nonzero")

    # -- elementwise with two or more arguments
    def min2(self, u, w):
        u, w = arrays.topoly(u), arrays.topoly(w)
        if u == w:
            return u
        d = arrays.neg(u - w)
        if d is not None:
            return u if d else w
        x, y = sorted((u, w), key=lambda p: p.key)
        return P(Atom("app", "min", x, y))

    def max2(self, u, w):
        u, w = arrays.topoly(u), arrays.topoly(w)
        if u == w:
            return u
        d = arrays.neg(u - w)
        if d is not None:
            return w if d else u
        x, y = sorted((u, w), key=lambda p: p.key)
        return P(Atom("app", "max", x, y))

    def ew(self, f, a):
        xs = [self.arr(x) for x in a]
        if any(x is None for x in xs):
            return self.i.unknown("elementwise operation")
        if any(isinstance(x, Arr) for x in xs):
            return self.i.new_arr(elementwise(f, *xs))
        return f(*xs)

    def n_minimum(self, a, k):
        return self.ew(self.min2, a)

    def n_maximum(self, a, k):
        return self.ew(self.max2, a)

    n_fmin, n_fmax = n_minimum, n_maximum

    def n_clip(self, a, k):
        lo, hi = kwd(a, k, 1, "a_min"), kwd(a, k, 2, "a_max")
        r = a[0]
        if lo is not None:
            r = self.ew(self.max2, [r, lo])
        if hi is not None:
            r = self.ew(self.min2, [r, hi])
        return r

    def n_power(self, a, k):
        return self.i.binop(ast.Pow(), a[0], a[1])

    def n_add(self, a, k):
        return self.i.binop(ast.Add(), a[0], a[1])

    def n_subtract(self, a, k):
        return self.i.binop(ast.Sub(), a[0], a[1])

    def n_multiply(self, a, k):
        return self.i.binop(ast.Mult(), a[0], a[1])

    def n_divide(self, a, k):
        return self.i.binop(ast.Div(), a[0], a[1])

    n_true_divide = n_divide

    def n_negative(self, a, k):
        return self.i.unop(ast.USub(), a[0])

    def n_mod(self, a, k):
        return self.i.binop(ast.Mod(), a[0], a[1])

    n_remainder = n_mod

    def n_where(self, a, k):
        if len(a) == 1:
            return self.n_nonzero(a, k)
        c = a[0]
        ca = self.i.as_arr(c)
        cc = ca if ca is not None else c
        if isinstance(cc, Poly):
            cc = self.i.truth(cc)
        x, y = self.arr(a[1]), self.arr(a[2])
        if x is None or y is None or not isinstance(cc, (Arr, bool, Cond)):
            return self.i.unknown("where")
        f = lambda c_, u, w: self.lib.sel(c_ if isinstance(c_, (bool, Cond)) else self.i.truth(c_), u, w)
        if any(isinstance(q, Arr) for q in (cc, x, y)):
            return self.i.new_arr(elementwise(f, cc, x, y))
        return f(cc, x, y)

    def logical(self, a, f):
        xs = []
        for v in a:
            q = self.i.as_arr(v)
            xs.append(q if q is not None else self.i.truth(v))
        g = lambda *u: f(*[x if isinstance(x, (bool, Cond)) else self.i.truth(x) for x in u])
        if any(isinstance(x, Arr) for x in xs):
            return self.i.new_arr(elementwise(g, *xs))
        return g(*xs)

    def n_logical_and(self, a, k):
        return self.logical(a, c_and)

    def n_logical_or(self, a, k):
        return self.logical(a, c_or)

    def n_logical_not(self, a, k):
        return self.logical(a, c_not)

    n_invert = n_logical_not

    def cmp(self, op, a):
        return self.i.compare(op, a[0], a[1])

    def n_less(self, a, k):
        return self.cmp(ast.Lt(), a)

    def n_less_equal(self, a, k):
        return self.cmp(ast.LtE(), a)

    def n_greater(self, a, k):
        return self.cmp(ast.Gt(), a)

    def n_greater_equal(self, a, k):
        return self.cmp(ast.GtE(), a)

    def n_equal(self, a, k):
        return self.cmp(ast.Eq(), a)

    def n_allclose(self, a, k):
        return Cond("opaque", "allclose" + vkey(self.i.freeze(a[0])) + vkey(self.i.freeze(a[1])))

    def n_isclose(self, a, k):
        return self.n_allclose(a, k)

    def n_array_equal(self, a, k):
        x, y = self.arr(a[0]), self.arr(a[1])
        if isinstance(x, Arr) and isinstance(y, Arr):
            try:
                if not arrays.compare(x, y):
                    return True
            except (NeedSplit, Undecidable):
                pass
        return Cond("opaque", "array_equal" + vkey(self.i.freeze(a[0])) + vkey(self.i.freeze(a[1])))

    def n_isin(self, a, k):
        from .interp import InArr
        x, y = self.arr(a[0]), self.arr(a[1])
        if not isinstance(y, Arr):
            return self.i.unknown("isin")
        y = arrays.ravel(y)

        def f(u):
            u = arrays.topoly(u)
            try:
                r = False
                for _, cd in self.lib.invert_index(y, u):
                    r = c_or(r, cd)
                return r
            except (Undecidable,):
                return InArr(u, y)
            except NeedSplit:
                if any(at.kind == "elem" for at in alg.all_atoms(u)):
                    return InArr(u, y)
                raise
        if isinstance(x, Arr):
            r = elementwise(f, x)
            r.meta["bool"] = True
            return self.i.new_arr(r)
        return f(x)

    n_in1d = n_isin

    def n_unique(self, a, k):
        return NotImplemented

    # -- linear algebra
    def n_dot(self, a, k):
        return self.i.binop(ast.MatMult(), a[0], a[1]) if self.ndim(a[0]) and self.ndim(a[1]) else self.i.binop(ast.Mult(), a[0], a[1])

    def ndim(self, v):
        x = self.arr(v)
        return x.ndim if isinstance(x, Arr) else 0

    n_matmul = n_inner = n_dot

    def n_vdot(self, a, k):
        return self.n_dot(a, k)

    def n_outer(self, a, k):
        x, y = self.arr(a[0]), self.arr(a[1])
        x, y = arrays.ravel(x), arrays.ravel(y)
        return self.i.new_arr(Arr(x.shape + y.shape, lambda ix: arrays.topoly(x.get(ix[:1])) * arrays.topoly(y.get(ix[1:]))))

    def n_cross(self, a, k):
        x, y = self.arr(a[0]), self.arr(a[1])
        if not (isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == 1 and y.ndim == 1):
            return self.i.unknown("cross")
        g = lambda v, n: arrays.topoly(v.get((P(n),)))
        if x.shape[0].const() == 2:
            return g(x, 0) * g(y, 1) - g(x, 1) * g(y, 0)
        vals = [g(x, 1) * g(y, 2) - g(x, 2) * g(y, 1), g(x, 2) * g(y, 0) - g(x, 0) * g(y, 2), g(x, 0) * g(y, 1) - g(x, 1) * g(y, 0)]
        return self.vec(vals)

    def vec(self, vals):
        def get(ix):
            c = ix[0].const()
            if c is None:
                for n in range(len(vals) - 1):
                    if arrays.lt(ix[0], P(n + 1)):
                        return vals[n]
                return vals[-1]
            return vals[int(c)]
        return self.i.new_arr(Arr((P(len(vals)),), get))

    def n_einsum(self, a, k):
        if not isinstance(a[0], str):
            return self.i.unknown("einsum")
        ops = [self.arr(x) for x in a[1:]]
        if any(not isinstance(x, Arr) for x in ops):
            return self.i.unknown("einsum operands")
        return self.ret(arrays.einsum(a[0], ops))

    def n_linalg_norm(self, a, k):
        x = self.arr(a[0])
        if not isinstance(x, Arr):
            return self.uf("abs", x) if x is not None else self.i.unknown("norm")
        if len(a) > 1 or k:
            return P(Atom("app", "norm", arrays.akey(x), vkey(Tup(list(a[1:]) + [Tup([q, v]) for q, v in k.items()]))))
        s = arrays.reduce_axis(elementwise(lambda u: arrays.topoly(u) * arrays.topoly(u), x), None)
        return self.uf("sqrt", s)

    def n_linalg_inv(self, a, k):
        x = self.arr(a[0])
        if not isinstance(x, Arr):
            return self.i.unknown("inv")
        key = arrays.akey(x)
        return self.i.new_arr(Arr(x.shape, lambda ix: P(Atom("app", "inv_elem", key, ix))))

    def n_linalg_solve(self, a, k):
        x, y = self.arr(a[0]), self.arr(a[1])
        if not isinstance(x, Arr) or not isinstance(y, Arr):
            return self.i.unknown("solve")
        key = (arrays.akey(x), arrays.akey(y))
        return self.i.new_arr(Arr(y.shape, lambda ix: P(Atom("app", "solve_elem", key, ix))))

    def n_diff(self, a, k):
        x = self.arr(a[0])
        n = kwd(a, k, 1, "n", ONE)
        ax = self.axis(kwd(a, k, 2, "axis", P(-1)))
        if not isinstance(x, Arr) or self.i.as_num(n).const() != 1:
            return self.i.unknown("diff")
        ax = ax % x.ndim
        sh = x.shape[:ax] + (x.shape[ax] - 1,) + x.shape[ax + 1:]
        return self.i.new_arr(Arr(sh, lambda ix: arrays.topoly(x.get(ix[:ax] + (ix[ax] + 1,) + ix[ax + 1:])) - arrays.topoly(x.get(ix))))

    def n_gradient(self, a, k):
        xs = [self.arr(x) for x in a]
        if any(not isinstance(x, Arr) for x in xs[:1]) or any(x is None for x in xs):
            return self.i.unknown("gradient")
        key = tuple(arrays.akey(x) for x in xs)
        return self.i.new_arr(Arr(xs[0].shape, lambda ix: P(Atom("app", "gradient", key, ix))))

    def n_interp(self, a, k):
        x, xp, fp = (self.arr(v) for v in a[:3])
        if x is None or not isinstance(xp, Arr) or not isinstance(fp, Arr):
            return self.lib.opaque_call("numpy.interp", a, k)
        kx, kf = arrays.akey(xp), arrays.akey(fp)
        extra = tuple((q, vkey(v)) for q, v in sorted(k.items()))
        f = lambda u: P(Atom("app", "interp", arrays.topoly(u), kx, kf, extra)) if extra else P(Atom("app", "interp", arrays.topoly(u), kx, kf))
        return self.i.new_arr(elementwise(f, x)) if isinstance(x, Arr) else f(x)

    def n_nonzero(self, a, k):
        i = self.i
        x = self.arr(a[0])
        if not isinstance(x, Arr):
            return i.unknown("nonzero")
        try:
            leaves = arrays.enum_cases(x, 60)
        except (NeedSplit, Undecidable):
            leaves = None
        if leaves is not None and all(isinstance(v, Poly) and alg.is_zero(v) is False or v is True for _, _, v in leaves):
            n = x.size
            out = []
            for d in range(x.ndim):
                out.append(i.new_arr(Arr((n,), lambda ix, d=d: arrays.unflatten_index(ix[0], x.shape)[d])))
            return Tup(out)
        if x.ndim == 1:
            sel = self.lib.mask_select(Arr(x.shape, lambda ix: self.i.truth(x.get(ix))))
            if sel:
                return Tup([i.new_arr(Arr((sel[0],), lambda ix: sel[1](ix[0])))])
        self.lib.selected("nonzero elements", x)
        return self.lib.opaque_call("numpy.nonzero", a, k)

    def n_triu_indices(self, a, k):
        return NotImplemented

    def n_shape(self, a, k):
        x = self.arr(a[0])
        return Tup(x.shape) if isinstance(x, Arr) else Tup([]) if x is not None else self.i.unknown("shape")

    def n_ndim(self, a, k):
        return P(self.ndim(a[0]))

    def n_size(self, a, k):
        x = self.arr(a[0])
        return x.size if isinstance(x, Arr) else ONE if x is not None else self.i.unknown("size")

    def n_isscalar(self, a, k):
        v = a[0]
        if isinstance(v, (Poly, str)):
            return True
        if isinstance(v, (Tup, Ref)) and not isinstance(v, Unknown):
            return False
        if v is None:
            return False
        return Cond("opaque", "isscalar" + vkey(v))

    def astype(self, o, a, args, k):
        t = args[0] if args else k.get("dtype")
        isint = isinstance(t, Ext) and ("int" in t.path) or t in ("int", "int32", "int64")
        if isint:
            def f(u):
                u = arrays.topoly(u)
                return u if arrays.integral(u) else P(Atom("app", "int", u))
            return self.i.new_arr(elementwise(f, a)) if a.ndim else self.i.new_arr(a)
        if isinstance(t, Ext) and t.path == "builtins.bool":
            r = elementwise(lambda u: self.i.truth(u), a)
            r.meta["bool"] = True
            return self.i.new_arr(r)
        return self.i.new_arr(Arr(a.shape, a.get, **{q: v for q, v in a.meta.items()}))

    def n_random_randn(self, a, k):
        sh = tuple(self.i.as_num(x) for x in a)
        if not sh:
            return alg.sym(self.i.freshname("rand"))
        nm = self.i.freshname("rand")
        return self.i.new_arr(base_array(nm, sh))

    def n_random_rand(self, a, k):
        return self.n_random_randn(a, k)

    def n_random_seed(self, a, k):
        return None

    def n_double(self, a, k):
        return a[0]

    n_float64 = n_float32 = n_double

    def n_int32(self, a, k):
        x = self.i.as_arr(a[0])
        if x is not None:
            return self.astype(a[0], x, [Ext("builtins.int")], {})
        return self.lib.b_int(a, k)

    n_int64 = n_int_ = n_int32

    def n_bool_(self, a, k):
        return self.lib.b_bool(a, k)

    def n_vectorize(self, a, k):
        f = a[0]
        return Native("vectorize", lambda i, x, kw: i.unknown("vectorize"))

    def n_trapz(self, a, k):
        xs = [self.arr(x) for x in a]
        if any(x is None for x in xs):
            return self.i.unknown("trapz")
        return P(Atom("app", "trapz", *[arrays.akey(x) for x in xs]))
