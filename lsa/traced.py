"""Stand-ins for arrays traced by jax: immutable, their values unknown to the program, accepted by jax's own functions only."""
from . import arrays
from .values import Stub, Tup, Native, Ref, Unknown, Ext
from .harness import arr_of

# functions of jax.numpy that take a sequence of arrays; the others refuse a list
LISTS = {"array", "asarray", "concatenate", "stack", "hstack", "vstack", "dstack", "column_stack", "row_stack", "block", "append", "meshgrid", "broadcast_arrays", "select",
         "zeros", "ones", "full", "empty", "ix_", "result_type", "promote_types", "eye", "einsum"}
# operations that ask for the value
VALUES = {"item", "tolist", "__float__", "__int__", "__bool__", "__index__", "fill", "sort", "tofile", "tobytes", "put", "itemset", "resize", "setflags"}
PLAIN = {"shape", "ndim", "size", "dtype", "isscalar", "result_type", "iscomplexobj", "isrealobj"}
HARMLESS = {"builtins." + n for n in ("isinstance", "type", "hasattr", "getattr", "setattr", "id", "repr", "str", "print", "callable", "list", "tuple", "dict", "zip", "enumerate", "len", "abs", "sum", "iter",
                                      "next", "reversed", "map", "filter", "super", "issubclass")}


class Traced(Stub):
    def __init__(self, value):
        super().__init__("traced array", isa=("jax.numpy.ndarray", "jax.core.Tracer", "jax.Array"))
        self.value = value
        self.attrs = {}
        self.methods = {"getitem": lambda i, o, k: wrap(i, i.getitem(i.new_arr(self.arr(i)), unwrap(i, k))), "setitem": self.setitem,
                        "binop": lambda i, op, a, b: binop(i, op, a, b), "unop": lambda i, op, v: wrap(i, i.unop(op, v.value)),
                        "compare": lambda i, op, a, b: wrap(i, i.compare(op, unwrap(i, a), unwrap(i, b))), "truth": self.truth, "ext": ext, "items": self.rows, "missing": self.missing}

    def __repr__(self):
        return f"<traced {self.value!r}>"

    def vkey(self):
        from .interp import vkey
        return "traced" + vkey(self.value)

    def arr(self, I):
        a = arr_of(I, self.value)
        if a is None:
            p = I.as_num(self.value)
            if p is None:
                raise arrays.Undecidable("traced value")
            return arrays.Arr((), lambda ix: p)
        return a

    def setitem(self, I, *a):
        I.raise_("TypeError", "JAX arrays are immutable")

    def truth(self, I):
        I.raise_("TypeError", "Attempted boolean conversion of traced array")

    def rows(self, I):
        a = self.arr(I)
        if a.ndim == 0:
            I.raise_("TypeError", "iteration over a 0-d array")
        its = I.iter_items(self.value)
        return None if its is None else [wrap(I, x) for x in its]

    def missing(self, I, name):
        if name in VALUES:
            I.raise_("TypeError", f"{name} needs the value of a traced array")
        if name == "at":
            return I.unknown("update of a traced array")
        v = I.getattr(I.new_arr(self.arr(I)), name)
        if isinstance(v, (Unknown, str)) or name in ("shape", "ndim", "size", "dtype"):
            return v
        if isinstance(v, Ref) or I.as_num(v) is not None:
            return wrap(I, v)
        return Native("traced." + name, lambda i, a, k: wrap(i, i.call(v, [unwrap(i, x) for x in a], {n: unwrap(i, x) for n, x in k.items()})))


def wrap(I, v):
    """A result computed from traced arrays is traced."""
    if isinstance(v, (Unknown, Stub, str)) or v is None:
        return v
    if isinstance(v, Tup):
        return Tup([wrap(I, x) for x in v.items], v.nt)
    if isinstance(v, Ref) and I.rec(v).kind == "list":
        its = I.iter_items(v)
        return v if its is None else I.new_list([wrap(I, x) for x in its])
    if arr_of(I, v) is not None or I.as_num(v) is not None:
        return Traced(v)
    return v


def unwrap(I, v):
    if isinstance(v, Traced):
        return v.value
    if isinstance(v, Tup):
        return Tup([unwrap(I, x) for x in v.items], v.nt)
    if isinstance(v, Ref) and I.rec(v).kind == "list" and contains(I, v):
        return I.new_list([unwrap(I, x) for x in I.iter_items(v)])
    return v


def contains(I, v):
    if isinstance(v, Traced):
        return True
    if isinstance(v, Tup) or isinstance(v, Ref) and I.rec(v).kind == "list":
        return any(contains(I, x) for x in I.iter_items(v) or ())
    return False


def is_list(I, v):
    return isinstance(v, Tup) or isinstance(v, Ref) and I.rec(v).kind == "list"


def binop(I, op, a, b):
    if is_list(I, a) or is_list(I, b):
        I.raise_("TypeError", "unsupported operand of a traced array")
    return wrap(I, I.binop(op, unwrap(I, a), unwrap(I, b)))


def ext(I, path, args, kwargs):
    root, _, name = path.partition(".")
    if root == "jax":
        if name.startswith("numpy.") and args and is_list(I, args[0]) and name[6:] not in LISTS:
            I.raise_("TypeError", f"{path} requires ndarray or scalar arguments, got a list")
        return wrap(I, I.call(Ext(path), [unwrap(I, a) for a in args], {n: unwrap(I, x) for n, x in kwargs.items()}))
    if root == "numpy":
        if name in PLAIN:
            return I.call(Ext(path), [unwrap(I, a) for a in args], kwargs)
        I.raise_("TypeError", f"TracerArrayConversionError: {path} was called on a traced array")
    if path in ("builtins.float", "builtins.int", "builtins.bool", "builtins.complex", "builtins.round", "builtins.range", "builtins.format", "builtins.divmod", "builtins.min", "builtins.max", "builtins.sorted",
                "builtins.any", "builtins.all") or root in ("math", "casadi"):
        if path in ("builtins.max", "builtins.min", "builtins.sorted", "builtins.any", "builtins.all") and len(args) == 1 and not isinstance(args[0], Traced) and len(I.iter_items(args[0]) or ()) < 2:
            return NotImplemented
        I.raise_("TypeError", f"ConcretizationTypeError: {path} needs the value of a traced array")
    if path in ("builtins.abs",):
        return wrap(I, I.call(Ext(path), [unwrap(I, a) for a in args], {}))
    if path == "builtins.len" and isinstance(args[0], Traced):
        return I.call(Ext(path), [I.new_arr(args[0].arr(I))], {})
    return NotImplemented
