"""Abstract values of the interpreter."""
from . import alg
from .alg import P, Poly, Atom, ZERO, ONE, subst
from .arrays import Arr, Cond


class Value:
    pass


class Unknown(Value):
    """The analysis does not know: any verdict that depends on it is 'undecided'."""

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"<unknown: {self.reason}>"


class SStr(Value):
    """String with opaque parts: tuple of str / Atom / Poly."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def norm(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return self

    @property
    def key(self):
        return "s" + repr([p if isinstance(p, str) else ("@" + p.key) for p in self.parts])

    def __eq__(self, o):
        return isinstance(o, SStr) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "'" + "".join(p if isinstance(p, str) else "{" + alg.show_any(p) + "}" for p in self.parts) + "'"


def mkstr(*parts):
    return SStr(parts).norm()


class Tup(Value):
    """Tuple; items may contain Seg (symbolic repetition).  nt: namedtuple class or None."""
    __slots__ = ("items", "nt")

    def __init__(self, items, nt=None):
        self.items, self.nt = tuple(items), nt

    def __repr__(self):
        return (self.nt.name if self.nt else "") + "(" + ", ".join(map(repr, self.items)) + ")"


class Seg:
    """n items given by a template in var."""
    __slots__ = ("var", "n", "body")

    def __init__(self, var, n, body):
        self.var, self.n, self.body = var, P(n), body

    def __repr__(self):
        return f"[{self.body!r} for {self.var} < {alg.show(self.n)}]"


class KV:
    """Dictionary segment: n entries given by templates."""
    __slots__ = ("var", "n", "k", "v")

    def __init__(self, var, n, k, v):
        self.var, self.n, self.k, self.v = var, P(n), k, v

    def __repr__(self):
        return f"{{{self.k!r}: {self.v!r} for {self.var} < {alg.show(self.n)}}}"


class Ref(Value):
    """Pointer into the abstract heap."""
    __slots__ = ("loc", "kind")

    def __init__(self, loc, kind):
        self.loc, self.kind = loc, kind

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(self.loc)

    def __repr__(self):
        return f"<{self.kind} #{self.loc}>"


class ListR:
    __slots__ = ("items",)
    kind = "list"

    def __init__(self, items):
        self.items = tuple(items)


class SetR(ListR):
    kind = "set"


class DictR:
    __slots__ = ("entries",)
    kind = "dict"

    def __init__(self, entries):
        self.entries = tuple(entries)   # (k, v) or KV


class ArrR:
    __slots__ = ("arr", "base")
    kind = "arr"

    def __init__(self, arr, base=None):
        self.arr, self.base = arr, base


class ObjR:
    __slots__ = ("cls", "attrs")
    kind = "obj"

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class EnvR:
    __slots__ = ("vars", "parent")
    kind = "env"

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


class HavocR:
    """Heap record whose content is unknown."""
    __slots__ = ("reason",)
    kind = "havoc"

    def __init__(self, reason):
        self.reason = reason


class Frozen:
    """A heap structure turned into a template value."""
    __slots__ = ("rec",)

    def __init__(self, rec):
        self.rec = rec

    def __repr__(self):
        return f"<frozen {self.rec.kind}>"


class ClassV(Value):
    def __init__(self, name, qual, bases, attrs_loc, kind="class", node=None):
        self.name, self.qual, self.bases, self.attrs_loc = name, qual, bases, attrs_loc
        self.kind = kind          # class, namedtuple, enum, dataclass
        self.fields = []          # namedtuple / dataclass fields [(name, default or None, factory)]
        self.node = node

    def __repr__(self):
        return f"<class {self.qual}>"


class FuncV(Value):
    def __init__(self, node, qual, env, defaults, kwdefaults, module, owner=None, wraps=None):
        self.node, self.qual, self.env = node, qual, env
        self.defaults, self.kwdefaults, self.module, self.owner = defaults, kwdefaults, module, owner
        self.kind = "function"
        self.ctxmanager = False

    def __repr__(self):
        return f"<function {self.qual}>"


class Method(Value):
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __eq__(self, o):
        return isinstance(o, Method) and o.self_ == self.self_ and o.func is self.func

    def __hash__(self):
        return hash((self.self_, id(self.func)))

    def __repr__(self):
        return f"<method {self.func!r} of {self.self_!r}>"


class Wrapped(Value):
    """property / classmethod / staticmethod objects."""

    def __init__(self, kind, func, setter=None):
        self.kind, self.func, self.setter = kind, func, setter


class Partial(Value):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class ModV(Value):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class Ext(Value):
    """Named object outside the project (module, class, function)."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    @property
    def key(self):
        return "ext:" + self.path

    def __repr__(self):
        return f"<ext {self.path}>"


class Opq(Value):
    """Uninterpreted term over external operations."""
    __slots__ = ("op", "args", "_key")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = "o:" + self.op + "(" + ",".join(vkey(a) for a in self.args) + ")"
        return self._key

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"{self.op}(" + ", ".join(map(repr, self.args)) + ")"


class Phi(Value):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"({self.a!r} if {self.cond!r} else {self.b!r})"


class Stub(Value):
    """Model of an object supplied by the analysis context."""

    def __init__(self, name, attrs=None, call=None, methods=None, isa=()):
        self.name = name
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.call = call
        self.isa = isa
        self.items = None

    def __repr__(self):
        return f"<stub {self.name}>"


class Native(Value):
    """Function implemented by the analysis: fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class Super(Value):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


def vkey(v):
    if hasattr(v, "key"):
        return v.key
    if isinstance(v, Tup):
        return "(" + ",".join(vkey(x) for x in v.items) + ")"
    if isinstance(v, Ref):
        return f"#{v.loc}"
    if isinstance(v, (tuple, list)):
        return "(" + ",".join(vkey(x) for x in v) + ")"
    if isinstance(v, Seg):
        return f"seg[{v.n.key}:{v.var.key}:{vkey(v.body)}]"
    if isinstance(v, Frozen):
        r = v.rec
        if r.kind in ("list", "set"):
            return r.kind + "[" + ",".join(vkey(x) for x in r.items) + "]"
        if r.kind == "dict":
            return "{" + ",".join(vkey(x) for x in r.entries) + "}"
        if r.kind == "arr":
            return vkey(r.arr)
        return f"frozen@{id(r)}"
    if isinstance(v, Arr):
        from .arrays import akey
        try:
            return "arr" + alg._key(akey(v))
        except Exception:
            return f"arr@{id(v)}"
    if isinstance(v, KV):
        return f"kv[{v.n.key}:{v.var.key}:{vkey(v.k)}:{vkey(v.v)}]"
    if isinstance(v, ClassV):
        return "class:" + v.qual
    if isinstance(v, FuncV):
        return f"func:{v.qual}:{v.env}"
    if isinstance(v, Method):
        return f"meth:{vkey(v.self_)}:{vkey(v.func)}"
    if isinstance(v, (str, bool, type(None), bytes)):
        return repr(v)
    if isinstance(v, Stub):
        return "stub:" + v.name
    return f"{type(v).__name__}@{id(v)}"
