"""Abstract interpreter for the Python subset used in the analysed repository.

Works on the syntax trees of the current source only: nothing of the repository is
imported or executed.  Control flow is joined (phi values) at merge points, loops over
symbolic ranges are summarised, arrays are access functions over symbolic dimensions."""
import ast
import os
from fractions import Fraction
from . import alg, arrays, extnames
from .alg import P, Poly, Atom, ZERO, ONE, subst
from .arrays import (Arr, Cond, NeedSplit, Undecidable, ShapeError, c_and, c_or, c_not, select,
                     elementwise, base_array, index, Rep)
from .values import *


class Dead(Exception):
    """The current path ended (return / raise / break / continue)."""


class Outcome:
    __slots__ = ("kind", "pc", "value", "state", "frame", "site")

    def __init__(self, kind, pc, value, state, frame, site):
        self.kind, self.pc, self.value, self.state, self.frame, self.site = kind, pc, value, state, frame, site


BUILTIN_TYPES = {"builtins." + n for n in ("dict", "str", "list", "tuple", "set", "int", "float", "bool", "bytes", "complex", "frozenset", "object", "type")}


class State:
    __slots__ = ("store", "effects")

    def __init__(self, store=None, effects=None):
        self.store = store if store is not None else {}
        self.effects = effects if effects is not None else []

    def fork(self):
        return State(dict(self.store), list(self.effects))


class Frame:
    def __init__(self, env, func, module, owner=None):
        self.env, self.func, self.module, self.owner = env, func, module, owner
        self.globals = set()
        self.nonlocals = set()
        self.on_yield = None
        self.cls_body = None
        self.self_val = None


class Effect:
    __slots__ = ("kind", "data", "site", "pc", "func")

    def __init__(self, kind, data, site, pc, func):
        self.kind, self.data, self.site, self.pc, self.func = kind, data, site, pc, func

    def __repr__(self):
        return f"{self.kind}{self.data}@{self.site}"


MAXDEPTH = 60


def literal_vs_name(x, y):
    """A symbolic variable name is none of the names the context gives literally."""
    a, b = (x, y) if isinstance(x, Atom) else (y, x)
    return isinstance(a, Atom) and a.kind == "name" and isinstance(b, str) and b != ""


BLIND = []


class Interp:
    LOG_SELECTIONS = False
    def __init__(self, root="/repo"):
        self.root = root
        self.st = State()
        self.nloc = 0
        self.modules = {}       # name -> env loc
        self.trees = {}
        self.overrides = {}     # qualified name -> Value
        self.outcomes = []
        self.handling = []
        self.stars = {}
        self.frames = []
        self.pc = []
        self.loopvars = []
        self.depth = 0
        self.site = ("?", 0)
        self.selections = [] if Interp.LOG_SELECTIONS else None
        self.visited = set()    # functions analysed
        self.notes = []
        self.facts = []
        self.steps = 0
        self.max_steps = 3_000_000
        self.fresh = 0
        self.subs = {}          # classes defined, by qual
        from . import builtin_fns
        self.lib = builtin_fns.Lib(self)

    # ------------------------------------------------------------- heap
    def alloc(self, rec):
        self.nloc += 1
        self.st.store[self.nloc] = rec
        return Ref(self.nloc, rec.kind)

    def rec(self, ref):
        loc = ref.loc if isinstance(ref, Ref) else ref
        r = self.st.store.get(loc)
        if r is None:
            return HavocR("dangling")
        return r

    def put(self, ref, rec):
        loc = ref.loc if isinstance(ref, Ref) else ref
        self.st.store[loc] = rec

    def effect(self, kind, *data):
        fn = self.frames[-1].func.qual if self.frames and self.frames[-1].func else "<module>"
        self.st.effects.append(Effect(kind, data, self.site, tuple(self.pc), fn))

    def shape_error(self, e):
        """Records shapes that can never be combined (for reports); the value becomes unknown."""
        if isinstance(e, ShapeError):
            self.effect("shape", str(e), tuple(e.pairs))

    def new_list(self, items):
        return self.alloc(ListR(items))

    def new_dict(self, entries):
        return self.alloc(DictR(entries))

    def new_arr(self, arr, base=None):
        return self.alloc(ArrR(arr, base))

    def freshname(self, base):
        self.fresh += 1
        return f"{base}#{self.fresh}"

    def unknown(self, reason):
        return Unknown(f"{reason} ({os.path.basename(self.site[0])}:{self.site[1]})")

    # ------------------------------------------------------------- modules
    def module_path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def is_project(self, name):
        return name.split(".")[0] == "lumos"

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            return None
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        tree = self.trees.get(name)
        if tree is None:
            with open(path) as f:
                tree = ast.parse(f.read(), path)
            self.trees[name] = tree
        return self.run_module(name, tree)

    def load_text(self, name, text):
        """A client module given by its text."""
        return self.run_module(name, ast.parse(text, f"<{name}>"))

    def run_module(self, name, tree):
        env = self.alloc(EnvR({"__name__": name}, None)).loc
        self.modules[name] = env
        fr = Frame(env, None, name)
        saved = (self.frames, self.pc, self.loopvars)
        self.frames, self.pc, self.loopvars = [fr], [], []
        try:
            self.exec_block(tree.body)
        except Dead:
            self.notes.append(f"module {name} raises at import")
        finally:
            self.frames, self.pc, self.loopvars = saved
        return env

    def mod_get(self, name, attr):
        q = name + "." + attr
        if q in self.overrides:
            return self.overrides[q]
        env = self.load(name)
        if env is None:
            return self.unknown(f"no module {name}")
        vars = self.rec(env).vars
        if attr in vars:
            return vars[attr]
        if self.module_path(q):
            self.load(q)
            return ModV(q)
        v = self.star_name(name, attr)
        if v is not None:
            return v
        if "__getattr__" in vars:
            return self.call(vars["__getattr__"], [attr], {})
        return None

    def star_name(self, module, name):
        """A name imported by 'from library import *'."""
        for lib in reversed(self.stars.get(module, ())):
            known = extnames.star(lib)
            if known is None:
                return self.unknown(f"name {name}: names of {lib}")
            if name in known:
                return self.ext(lib + "." + name)
        return None

    # ------------------------------------------------------------- names
    def lookup(self, name):
        fr = self.frames[-1]
        loc = fr.env
        if name in fr.globals:
            loc = self.modules[fr.module]
        while loc is not None:
            r = self.st.store[loc]
            if name in r.vars:
                if r.parent is None and loc == self.modules.get(fr.module):
                    q = fr.module + "." + name
                    if q in self.overrides:
                        return self.overrides[q]
                return r.vars[name]
            loc = r.parent
        if fr.module in self.stars:
            v = self.star_name(fr.module, name)
            if v is not None:
                return v
        b = self.lib.builtin(name)
        if b is not None:
            return b
        if fr.func is not None and self.local_only(fr.func, name):
            self.raise_("UnboundLocalError", name)
        return self.unknown(f"name {name}")

    def local_only(self, f, name):
        """Is the name only bound by plain assignments outside of loops, so that not finding it means that none ran?"""
        node = getattr(f, "node", None)
        if node is None or isinstance(node, ast.Lambda):
            return False
        found = False
        todo = [(b, False) for b in node.body]
        while todo:
            n, loop = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                if getattr(n, "name", None) == name:
                    return False
                continue
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                if loop:
                    return False
                found = True
            if isinstance(n, (ast.Delete, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
                if name in ast.dump(n):
                    return False
            inner = loop or isinstance(n, (ast.For, ast.While, ast.With, ast.Try, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))
            todo += [(k, inner) for k in ast.iter_child_nodes(n)]
        return found

    def bind(self, name, val):
        fr = self.frames[-1]
        loc = fr.env
        if name in fr.globals:
            loc = self.modules[fr.module]
            self.effect("global", fr.module + "." + name, val)
        elif name in fr.nonlocals:
            l = self.st.store[fr.env].parent
            while l is not None:
                if name in self.st.store[l].vars:
                    loc = l
                    break
                l = self.st.store[l].parent
        r = self.st.store[loc]
        v = dict(r.vars)
        v[name] = val
        self.st.store[loc] = EnvR(v, r.parent)

    def unbind(self, name):
        fr = self.frames[-1]
        r = self.st.store[fr.env]
        v = dict(r.vars)
        v.pop(name, None)
        self.st.store[fr.env] = EnvR(v, r.parent)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecidable("analysis budget exceeded")
        fr = self.frames[-1]
        self.site = (fr.module, s.lineno)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.notes.append(f"statement {type(s).__name__} at {self.site}")
            return
        m(s)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield,)):
            fr = self.frames[-1]
            v = self.eval(s.value.value) if s.value.value else None
            if fr.on_yield:
                fr.on_yield(v)
            return
        self.eval(s.value)

    def x_Import(self, s):
        for a in s.names:
            if self.is_project(a.name):
                self.load(a.name)
                if a.asname:
                    self.bind(a.asname, ModV(a.name))
                else:
                    self.bind(a.name.split(".")[0], ModV(a.name.split(".")[0]))
            else:
                self.bind(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))

    def x_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            base = self.frames[-1].module.split(".")
            if self.module_path(self.frames[-1].module).endswith("__init__.py"):
                base = base + ["_"]
            base = base[:len(base) - s.level]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            if self.is_project(mod):
                if a.name == "*":
                    env = self.load(mod)
                    if env is not None:
                        for k, v in list(self.rec(env).vars.items()):
                            if not k.startswith("_"):
                                self.bind(k, v)
                    continue
                v = self.mod_get(mod, a.name)
                if v is None:
                    v = self.unknown(f"import {mod}.{a.name}")
                self.bind(a.asname or a.name, v)
            else:
                if a.name == "*":
                    self.stars.setdefault(self.frames[-1].module, []).append(mod)
                    continue
                self.bind(a.asname or a.name, self.ext(mod + "." + a.name))

    def ext(self, path):
        return self.lib.ext_value(path)

    def x_FunctionDef(self, s):
        self.bind(s.name, self.make_func(s))

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, lam=False):
        fr = self.frames[-1]
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = "<lambda>" if lam else s.name
        qual = (fr.cls_body + "." + name) if fr.cls_body else (
            (fr.func.qual + ".<locals>." + name) if fr.func else fr.module + "." + name)
        f = FuncV(s, qual, fr.env if not fr.cls_body else self.st.store[fr.env].parent, defaults, kwd, fr.module)
        f.is_lambda = lam
        if lam:
            return f
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr == "setter" and isinstance(v, FuncV):
                old = self.st.store[fr.env].vars.get(s.name)
                v = Wrapped("property", old.func if isinstance(old, Wrapped) else None, v)
                continue
            dv = self.eval(d)
            v = self.decorate(dv, v)
        return v

    def decorate(self, d, f):
        if isinstance(d, Ext):
            p = d.path
            if p in ("builtins.property", "functools.cached_property"):
                return Wrapped("property" if p == "builtins.property" else "cached_property", f)
            if p in ("builtins.classmethod", "builtins.staticmethod"):
                return Wrapped(p.split(".")[1], f)
            if p in ("abc.abstractmethod",):
                if isinstance(f, FuncV):
                    f.abstract = True
                return f
            if p == "contextlib.contextmanager":
                if isinstance(f, FuncV):
                    f.ctxmanager = True
                return f
        return self.call(d, [f], {})

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.eval(b) for b in s.bases if not isinstance(b, ast.Starred)]
        qual = fr.module + "." + s.name if not fr.func else fr.func.qual + ".<locals>." + s.name
        env = self.alloc(EnvR({}, fr.env)).loc
        f2 = Frame(env, fr.func, fr.module)
        f2.cls_body = qual
        self.frames.append(f2)
        annotated = []
        try:
            for st in s.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    annotated.append(st.target.id)
                self.exec(st)
        finally:
            self.frames.pop()
        vars = self.st.store[env].vars
        kind = "class"
        for b in bases:
            if isinstance(b, Ext) and b.path in ("enum.IntEnum", "enum.Enum"):
                kind = "enum"
            elif isinstance(b, Ext) and b.path == "typing.NamedTuple":
                kind = "namedtuple"
            elif isinstance(b, ClassV) and b.kind in ("dataclass", "namedtuple"):
                pass
        c = ClassV(s.name, qual, bases, self.alloc(ObjR(None, dict(vars))).loc, kind, s)
        c.module = fr.module
        c.annotated = annotated
        if kind == "namedtuple":
            c.fields = [(n, vars.get(n)) for n in annotated]
        for b in bases:
            # a class derived from a named tuple adds no fields
            if kind == "class" and isinstance(b, ClassV) and b.kind == "namedtuple":
                c.kind, c.fields = "namedtuple", b.fields
        if kind == "enum":
            c.members = [n for n, v in vars.items() if not n.startswith("_") and not isinstance(v, (FuncV, Wrapped))]
            if any(isinstance(b, Ext) and b.path == "enum.Enum" for b in bases):
                for n in c.members:
                    vars[n] = self.alloc(ObjR(c, {"name": n, "value": vars[n]}))
                    self.st.store[c.attrs_loc].attrs[n] = vars[n]
        for n, v in vars.items():
            for g in (v, getattr(v, "func", None), getattr(v, "setter", None)):
                if isinstance(g, FuncV) and g.owner is None:
                    g.owner = c
        self.subs[qual] = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d), v)
        self.bind(s.name, v)

    def x_Global(self, s):
        self.frames[-1].globals |= set(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def end(self, kind, value):
        fr = self.frames[-1] if self.frames else None
        self.outcomes.append(Outcome(kind, tuple(self.pc), value, self.st, fr, self.site))
        raise Dead()

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.end("return", v)

    def x_Raise(self, s):
        if s.exc is None:
            self.end("raise", self.handling[-1] if self.handling else Opq("reraise"))
        v = self.eval(s.exc)
        if isinstance(v, (Ext, ClassV)):
            v = self.call(v, [], {})
        self.end("raise", v)

    def raise_(self, exc, msg=""):
        self.end("raise", Opq("call", Ext("builtins." + exc), msg))

    def x_Break(self, s):
        self.end("break", None)

    def x_Continue(self, s):
        self.end("continue", None)

    def x_Assert(self, s):
        c = self.decide(self.truth(self.eval(s.test)))
        site = self.site
        if c is True:
            self.effect("assert", True)
            return
        if c is False:
            self.raise_("AssertionError")
        self.effect("assert", c)
        self.outcomes.append(Outcome("raise", tuple(self.pc) + (c_not(c),), Opq("call", Ext("builtins.AssertionError")),
                                     self.st.fork(), self.frames[-1], site))
        self.pc_assume(c)

    def pc_assume(self, c):
        self.facts.append(c)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.unbind(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                self.lib.method(o, "pop", [k], {}, delete=True)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Ref):
                    r = self.rec(o)
                    if isinstance(r, ObjR):
                        a = dict(r.attrs)
                        a.pop(t.attr, None)
                        self.put(o, ObjR(r.cls, a))
                        self.effect("delattr", o, t.attr)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            r = self.iop(s.op, cur, self.eval(s.value))
            self.bind(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            r = self.iop(s.op, cur, self.eval(s.value))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            cur = self.getitem(o, k)
            if isinstance(cur, Ref) and self.rec(cur).kind == "arr" and not (isinstance(o, Ref) and self.rec(o).kind in ("dict", "list")):
                cur = self.rec(cur).arr
            r = self.iop(s.op, cur, self.eval(s.value))
            self.setitem(o, k, r)

    def iop(self, op, cur, v):
        if isinstance(cur, Ref):
            r = self.rec(cur)
            if r.kind == "arr":
                new = self.binop(op, cur, v)
                na = self.as_arr(new)
                if na is None:
                    self.write_arr(cur, None)
                    return cur
                self.write_arr(cur, Arr(r.arr.shape, na.get))
                return cur
            if r.kind == "list" and isinstance(op, ast.Add):
                items = self.iter_items(v)
                self.effect("mutate", cur)
                if items is None:
                    self.put(cur, HavocR("extend by unknown"))
                else:
                    self.put(cur, ListR(r.items + tuple(items)))
                return cur
            if r.kind == "dict" and isinstance(op, ast.BitOr):
                self.lib.method(cur, "update", [v], {})
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.iter_items(v)
        if items is None or any(isinstance(i, Seg) for i in items):
            if isinstance(v, Phi):
                a = None
            if items is not None and not star:
                # single segment of known size
                items2 = self.expand(items)
                if items2 is not None and len(items2) == len(elts):
                    for e, x in zip(elts, items2):
                        self.assign(e, x)
                    return
            for i, e in enumerate(elts):
                if isinstance(v, Opq):
                    self.assign(e, Opq("item", v, P(i)))
                else:
                    self.assign(e, self.unknown("unpack"))
            return
        if not star:
            if len(items) != len(elts):
                self.raise_("ValueError", "unpack")
            for e, x in zip(elts, items):
                self.assign(e, x)
        else:
            k = star[0]
            after = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                self.raise_("ValueError", "unpack")
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x)
            self.assign(elts[k], self.new_list(items[k:len(items) - after]))
            for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x)

    def expand(self, items):
        out = []
        for i in items:
            if isinstance(i, Seg):
                n = i.n.const()
                if n is None or n > 64:
                    return None
                for k in range(int(n)):
                    out.append(self.inst(i, P(k)))
            else:
                out.append(i)
        return out

    # --------------------------------------------------------- branching
    def decide(self, c):
        """True / False / Cond."""
        if c is True or c is False:
            return c
        if isinstance(c, Cond):
            if c.op == "not":
                d = self.decide(c.args[0])
                return (not d) if d in (True, False) and not isinstance(d, Cond) else c_not(d)
            if c.op == "and":
                return c_and(*[self.decide(x) for x in c.args])
            if c.op == "or":
                return c_or(*[self.decide(x) for x in c.args])
            if c.op == "lt":
                n = arrays.neg(c.args[0])
                if n is not None:
                    return n
                n = arrays.neg(arrays.reduce_lt(c.args[0]))
                if n is not None:
                    return n
            if c.op == "eq":
                z = alg.is_zero(c.args[0])
                if z is not None:
                    return z
            for f in list(self.pc) + self.facts:
                if f == c:
                    return True
                if c_not(f) == c:
                    return False
                if isinstance(f, Cond) and f.op == "and":
                    if c in f.args:
                        return True
                    if c_not(c) in f.args:
                        return False
            return c
        return c

    def loop_split(self, c):
        """Ask the enclosing loop summariser to split its range on an undecided condition."""
        if not self.loopvars or not isinstance(c, Cond):
            return
        for a in ([c] if c.op not in ("and", "or") else list(c.args)):
            if a.op == "not":
                a = a.args[0]
            if a.op == "lt":
                ds = [a.args[0]]
            elif a.op == "eq":
                ds = [a.args[0], a.args[0] - 1]
            else:
                continue
            for d in ds:
                if arrays.neg(d) is not None:
                    continue
                for v in reversed(self.loopvars):
                    if alg.contains(d, v):
                        e = NeedSplit("lt", d)
                        if arrays.refine(e, [v]) is not None:
                            raise e
                        e = NeedSplit("lt", arrays.reduce_lt(d))
                        if arrays.refine(e, [v]) is not None:
                            raise e

    def branch(self, c, fa, fb):
        """Evaluate fa under c and fb under not c, join values and states."""
        c = self.decide(c)
        if c is True:
            return fa()
        if c is False:
            return fb()
        if not isinstance(c, Cond):
            c = Cond("opaque", self.freshname("cond"))
        self.loop_split(c)
        s0 = self.st
        nfacts = len(self.facts)
        res = []
        for cond, f in ((c, fa), (c_not(c), fb)):
            self.st = s0.fork()
            self.pc.append(cond)
            try:
                v = f()
                res.append((cond, v, self.st))
            except Dead:
                pass
            finally:
                self.pc.pop()
                del self.facts[nfacts:]
        if not res:
            self.st = s0
            raise Dead()
        if len(res) == 1:
            self.st = res[0][2]
            # the other branch ended: its negation holds from here on
            self.facts.append(res[0][0])
            return res[0][1]
        (ca, va, sa), (cb, vb, sb) = res
        self.st = self.merge_state(ca, sa, sb, s0)
        return self.phi(ca, va, vb)

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def merge_state(self, cond, sa, sb, s0=None):
        out = State(dict(sa.store), list(sa.effects))
        n = 0
        m = min(len(sa.effects), len(sb.effects))
        while n < m and sa.effects[n] is sb.effects[n]:
            n += 1
        out.effects += sb.effects[n:]
        save = self.st
        self.st = out
        for loc, rb in sb.store.items():
            ra = sa.store.get(loc)
            if ra is rb:
                continue
            if ra is None:
                out.store[loc] = rb
                continue
            out.store[loc] = self.merge_rec(cond, ra, rb)
        self.st = save
        return out

    MISSING = Unknown("possibly unbound")

    def own_or_class(self, r, name):
        """Value of an attribute of an object record; a plain class attribute stands in for a missing one."""
        if name in r.attrs:
            return r.attrs[name]
        if r.cls is None:
            return self.MISSING
        v = self.find_attr(r.cls, name)
        if v is None:
            return None if self.none_attr(r.cls, name) else self.MISSING
        return self.MISSING if isinstance(v, (FuncV, Wrapped, Native)) else v

    def merge_rec(self, c, a, b):
        if a.kind != b.kind:
            return HavocR("join of different records")
        if a.kind == "env":
            v = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                v[k] = self.phi(c, a.vars.get(k, self.MISSING), b.vars.get(k, self.MISSING))
            return EnvR(v, a.parent)
        if a.kind == "obj":
            v = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                v[k] = self.phi(c, self.own_or_class(a, k), self.own_or_class(b, k))
            return ObjR(a.cls, v)
        if a.kind in ("list", "set"):
            if len(a.items) == len(b.items) and not any(isinstance(x, Seg) and x is not y for x, y in zip(a.items, b.items)):
                return type(a)([x if x is y else self.phi(c, x, y) for x, y in zip(a.items, b.items)])
            if all(self.same(x, y) for x, y in zip(a.items, b.items)) and len(a.items) == len(b.items):
                return a
            return HavocR("join of lists")
        if a.kind == "dict":
            if len(a.entries) == len(b.entries):
                es = []
                for x, y in zip(a.entries, b.entries):
                    if x is y:
                        es.append(x)
                    elif isinstance(x, KV) or isinstance(y, KV) or not self.same(x[0], y[0]):
                        return HavocR("join of dictionaries")
                    else:
                        es.append((x[0], self.phi(c, x[1], y[1])))
                return DictR(es)
            return HavocR("join of dictionaries")
        if a.kind == "arr":
            if a.arr is b.arr:
                return a
            if arrays.same_shape(a.arr.shape, b.arr.shape):
                x, y = a.arr, b.arr
                return ArrR(Arr(x.shape, lambda i: select(c, x.get(i), y.get(i))), a.base if a.base == b.base else None)
            return HavocR("join of arrays")
        return a if a is b else HavocR("join")

    def same(self, a, b):
        if a is b:
            return True
        try:
            return vkey(a) == vkey(b)
        except Exception:
            return False

    def phi(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (Poly, bool, Cond)) and isinstance(b, (Poly, bool, Cond)):
            if isinstance(a, Poly) and isinstance(b, Poly):
                return select(c, a, b)
            if not isinstance(a, Poly) and not isinstance(b, Poly):
                return c_or(c_and(c, a), c_and(c_not(c), b))
        if a is self.MISSING or b is self.MISSING:
            return Phi(c, a, b)
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if self.same(a, b):
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.nt is b.nt and \
                not any(isinstance(x, Seg) for x in a.items + b.items):
            return Tup([self.phi(c, x, y) for x, y in zip(a.items, b.items)], a.nt)
        aa, ab = self.as_arr(a), self.as_arr(b)
        if aa is not None and ab is not None and isinstance(a, Ref) and isinstance(b, Ref):
            if arrays.same_shape(aa.shape, ab.shape) and "masked" not in aa.meta:
                return self.new_arr(Arr(aa.shape, lambda i: select(c, aa.get(i), ab.get(i))))
        if isinstance(a, Arr) and isinstance(b, Arr) and arrays.same_shape(a.shape, b.shape):
            return Arr(a.shape, lambda i: select(c, a.get(i), b.get(i)))
        return Phi(c, a, b)

    def lift(self, v, fn):
        """Apply fn to a possibly phi value."""
        if isinstance(v, Phi):
            if v.a is self.MISSING:
                return self.lift(v.b, fn)
            if v.b is self.MISSING:
                return self.lift(v.a, fn)
            return self.branch(v.cond, lambda: self.lift(v.a, fn), lambda: self.lift(v.b, fn))
        return fn(v)

    # --------------------------------------------------------- loops
    def x_For(self, s):
        it = self.eval(s.iter)
        if isinstance(it, Phi):
            self.lift(it, lambda x: self.for_over(s, x))
            return
        self.for_over(s, it)

    def for_over(self, s, it):
        items = self.iter_items(it)
        if items is None:
            self.havoc_loop(s, f"loop over {it!r}"[:80])
            return
        broken = []
        done = False
        for item in items:
            if isinstance(item, Seg):
                c = item.n.const()
                if c is not None and c <= 12:
                    for k in range(int(c)):
                        self.iterate(s, self.inst(item, P(k)), broken)
                else:
                    self.sym_loop(s, item, broken)
            else:
                try:
                    self.iterate(s, item, broken)
                except Dead:
                    if broken:
                        done = True
                        break
                    raise
        if not done and s.orelse:
            self.exec_block(s.orelse)
        self.join_outs(broken, not done)

    def iterate(self, s, item, broken):
        n0 = len(self.outcomes)
        fr = self.frames[-1]
        alive = True
        try:
            self.assign(s.target, item)
            self.exec_block(s.body)
        except Dead:
            alive = False
        conts = []
        rest = []
        for o in self.outcomes[n0:]:
            if o.frame is fr and o.kind == "continue":
                conts.append(o)
            elif o.frame is fr and o.kind == "break":
                broken.append(o)
            else:
                rest.append(o)
        self.outcomes[n0:] = rest
        self.join_outs(conts, alive)

    def join_outs(self, outs, alive):
        base = len(self.pc)
        if not outs:
            if not alive:
                raise Dead()
            return
        st = self.st if alive else None
        for o in reversed(outs):
            cond = c_and(*o.pc[base:]) if len(o.pc) > base else True
            if st is None:
                st = o.state
            else:
                st = o.state if cond is True else self.merge_state(cond, o.state, st)
        self.st = st

    def havoc_loop(self, s, why):
        """Loop over unknown values: everything the body may assign becomes unknown."""
        self.notes.append(f"unresolved loop at {self.site}: {why}")
        s0 = self.st
        self.st = s0.fork()
        n0 = len(self.outcomes)
        try:
            self.assign(s.target, self.unknown(why)) if isinstance(s, ast.For) else None
            self.exec_block(s.body)
        except Dead:
            pass
        after = self.st
        self.st = s0
        self.outcomes[n0:] = [o for o in self.outcomes[n0:] if o.kind in ("return", "raise")]
        for loc, r in list(after.store.items()):
            r0 = s0.store.get(loc)
            if r0 is r:
                continue
            if r0 is None:
                s0.store[loc] = r
            elif r.kind == "env":
                v = dict(r0.vars)
                for k, x in r.vars.items():
                    if v.get(k) is not x:
                        v[k] = self.unknown(why)
                s0.store[loc] = EnvR(v, r.parent)
            elif r.kind == "obj":
                v = dict(r0.attrs)
                for k, x in r.attrs.items():
                    if v.get(k) is not x:
                        v[k] = self.unknown(why)
                s0.store[loc] = ObjR(r.cls, v)
            else:
                s0.store[loc] = HavocR(why)
        s0.effects += after.effects[len(s0.effects):]

    def sym_loop(self, s, seg, broken):
        """Summarise `for target in seg: body`."""
        work = [(ZERO, seg.n)]
        while work:
            off, n = work.pop(0)
            if not n.terms:
                continue
            if n.const() == 1:
                self.iterate(s, self.inst(seg, off), broken)
                continue
            saved = self.st.fork(), len(self.outcomes), len(self.notes)
            v = index(n, "l")
            try:
                self.summarise(s, seg, off, n, v, broken)
            except NeedSplit as e:
                r = arrays.refine(e, [v])
                self.st = saved[0]
                del self.outcomes[saved[1]:]
                if r is None:
                    if self.loopvars and any(alg.contains(e.d, u) for u in self.loopvars):
                        raise
                    self.havoc_loop(s, f"undecided {e.kind} in loop")
                    continue
                new = []
                for poly, nv in r[1]:
                    o = subst(poly, {u: ZERO for u in nv})
                    k = alg.UPPER[nv[0]] if nv else ONE
                    new.append((off + o, k))
                work = new + work

    def changed(self, s0, s1):
        out = []
        for loc, r in s1.store.items():
            r0 = s0.store.get(loc)
            if r0 is None or r0 is r:
                continue
            if r.kind != r0.kind:
                out.append((loc, None))
            elif r.kind == "env":
                for k in r.vars:
                    if k not in r0.vars or r0.vars[k] is not r.vars[k]:
                        out.append((loc, k))
            elif r.kind == "obj":
                for k in r.attrs:
                    if k not in r0.attrs or r0.attrs[k] is not r.attrs[k]:
                        out.append((loc, k))
            else:
                out.append((loc, None))
        return out

    def summarise(self, s, seg, off, n, v, broken):
        base = self.st
        fr = self.frames[-1]

        def run(state):
            self.st = state
            n0 = len(self.outcomes)
            self.loopvars.append(v)
            alive = True
            try:
                self.assign(s.target, self.inst(seg, off + P(v)))
                self.exec_block(s.body)
            except Dead:
                alive = False
            finally:
                self.loopvars.pop()
            outs = self.outcomes[n0:]
            special = [o for o in outs if o.frame is fr and o.kind in ("break", "continue")]
            conts = [o for o in special if o.kind == "continue"]
            if any(o.kind == "break" for o in special) or any(o.kind == "return" and o.frame is fr for o in outs):
                raise Undecidable("break/return in a summarised loop")
            self.outcomes[n0:] = [o for o in outs if o not in special]
            self.join_outs(conts, alive)
            return self.st
        try:
            n0 = len(self.outcomes)
            trial = run(base.fork())
            del self.outcomes[n0:]
            mods = self.changed(base, trial)
            # second run with havocked loop-carried values
            st = base.fork()
            self.st = st
            hs = {}
            for loc, k in mods:
                r0 = base.store[loc]
                if r0.kind in ("env", "obj"):
                    vars = dict(st.store[loc].vars if r0.kind == "env" else st.store[loc].attrs)
                    if k not in vars:
                        continue
                    old = vars[k]
                    oa = None
                    if isinstance(old, Poly):
                        h = Atom("sym", self.freshname("h"))
                        if arrays.integral(old):
                            arrays.INTEGRAL.add(h)
                        hs[(loc, k)] = h
                        vars[k] = P(h)
                    elif isinstance(old, Ref) and self.same(old, trial.store[loc].vars.get(k) if r0.kind == "env" else trial.store[loc].attrs.get(k)):
                        pass
                    else:
                        vars[k] = Unknown("loop-carried " + str(k))
                    st.store[loc] = EnvR(vars, r0.parent) if r0.kind == "env" else ObjR(r0.cls, vars)
                elif r0.kind == "arr":
                    nm = self.freshname("H")
                    hs[(loc, None)] = nm
                    st.store[loc] = ArrR(base_array(nm, r0.arr.shape), r0.base)
            pre = st.fork()
            fin = run(st)
        except Dead:
            self.st = base
            raise
        except Undecidable as e:
            self.st = base
            self.havoc_loop(s, str(e))
            return
        hatoms = {h for h in hs.values() if isinstance(h, Atom)}
        closed = {}
        final = {}
        # numeric loop-carried variables
        todo = [(key, h) for key, h in hs.items() if isinstance(h, Atom)]
        for _ in range(3):
            rest = []
            for (loc, k), h in todo:
                r0, r1 = base.store[loc], fin.store[loc]
                old = (r0.vars if r0.kind == "env" else r0.attrs)[k]
                e = (r1.vars if r1.kind == "env" else r1.attrs)[k]
                if not isinstance(e, Poly):
                    closed[h] = P(Atom("unk", f"loop-carried {k}"))
                    final[(loc, k)] = Unknown(f"loop-carried {k}")
                    continue
                e = subst(e, {a: q for a, q in closed.items()})
                if e == P(h):
                    closed[h] = old
                    final[(loc, k)] = old
                    continue
                d = e - P(h)
                free = not any(a in alg.all_atoms(d) for a in hatoms)
                if free:
                    u = index(P(v), "u")
                    closed[h] = old + alg.psum(u, subst(d, {v: P(u)}))
                    final[(loc, k)] = old + arrays.sumover(n, lambda i, d=d: subst(d, {v: i}))
                elif not any(a in alg.all_atoms(e) for a in hatoms):
                    closed[h] = select(Cond("eq", P(v)), old, subst(e, {v: P(v) - 1}))
                    final[(loc, k)] = subst(e, {v: n - 1})
                else:
                    rest.append(((loc, k), h))
            todo = rest
        for (loc, k), h in todo:
            closed[h] = P(Atom("unk", f"loop-carried {k}"))
            final[(loc, k)] = Unknown(f"loop-carried {k}")
        last = {v: n - 1}
        sub = dict(closed)

        def fix(x):
            return self.subst_val(x, sub)
        out = base.fork()
        self.st = fin
        for loc, k in self.changed(pre, fin) + [m for m in mods if m in hs]:
            r0, r1 = base.store.get(loc), fin.store[loc]
            if r0 is None:
                continue
            if r0.kind in ("env", "obj") and r1.kind == r0.kind:
                get = (lambda r: r.vars) if r0.kind == "env" else (lambda r: r.attrs)
                cur = dict(get(out.store[loc]))
                if (loc, k) in final:
                    cur[k] = final[(loc, k)]
                else:
                    e = get(r1)[k]
                    if k in get(r0) and get(r0)[k] is e:
                        continue
                    self.st = fin
                    fz = self.freeze(e)
                    self.st = out
                    cur[k] = self.thaw(self.subst_val(fix(fz), last))
                out.store[loc] = EnvR(cur, r0.parent) if r0.kind == "env" else ObjR(r0.cls, cur)
            elif r0.kind == "list" and r1.kind == "list" and len(r1.items) >= len(r0.items) and \
                    all(x is y for x, y in zip(r0.items, r1.items)):
                added = r1.items[len(r0.items):]
                self.st = fin
                added = [fix(self.freeze(a)) for a in added]
                self.st = out
                if len(added) == 1 and not isinstance(added[0], Seg):
                    segs = [Seg(v, n, added[0])]
                elif not added:
                    segs = []
                else:
                    segs = [Seg(v, n, Splice(tuple(added)))]
                out.store[loc] = ListR(r0.items + tuple(segs))
            elif r0.kind == "dict" and r1.kind == "dict" and len(r1.entries) >= len(r0.entries) and \
                    all(x is y for x, y in zip(r0.entries, r1.entries)):
                added = r1.entries[len(r0.entries):]
                es = []
                self.st = fin
                for a in added:
                    if isinstance(a, KV):
                        es = None
                        break
                    es.append(KV(v, n, fix(self.freeze(a[0])), fix(self.freeze(a[1]))))
                self.st = out
                if es is None or len(es) > 1:
                    out.store[loc] = HavocR("dictionary built in a loop")
                else:
                    out.store[loc] = DictR(r0.entries + tuple(es))
            elif r0.kind == "arr" and r1.kind == "arr" and (loc, None) in hs:
                out.store[loc] = self.array_recurrence(r0, r1, hs[(loc, None)], v, n, sub)
            else:
                out.store[loc] = HavocR("modified in a loop")
        for loc, r in fin.store.items():
            if loc not in out.store:
                out.store[loc] = r
        out.effects += fin.effects[len(base.effects):]
        self.st = out

    def array_recurrence(self, r0, r1, name, v, n, sub):
        old, new = r0.arr, r1.arr
        if not arrays.same_shape(old.shape, new.shape):
            return HavocR("array reshaped in a loop")

        def get(idx):
            h = Atom("elem", name, idx)

            def one(i):
                e = arrays.topoly(new.get(idx))
                e = subst(subst(e, sub), {v: i})
                lin = alg.linear_in(e, h)
                if lin is None:
                    raise Undecidable("array recurrence")
                return lin
            w = index(n, "w")
            a, b = one(P(w))
            for q in (a, b):
                if any(x.kind == "elem" and x.args[0] == name for x in alg.all_atoms(q)):
                    raise Undecidable("array recurrence reads other elements")
            D = ONE - a
            hits = arrays.sumover(n, lambda i: ONE - one(i)[0])
            if D.terms and not all(any(t.kind == "delta" and alg.contains(t, w) for t, _ in m) or True for m in D.terms):
                raise Undecidable("array recurrence")
            if D.terms and not alg.contains(D, w):
                # same element written in every iteration: the last one wins
                al, bl = one(n - 1)
                return arrays.topoly(old.get(idx)) * al + bl
            return arrays.topoly(old.get(idx)) * (ONE - hits) + arrays.sumover(n, lambda i: one(i)[1])
        return ArrR(Arr(old.shape, get), r0.base)

    def x_While(self, s):
        for _ in range(64):
            c = self.decide(self.truth(self.eval(s.test)))
            if c is False:
                self.exec_block(s.orelse)
                return
            if c is not True:
                break
            n0 = len(self.outcomes)
            fr = self.frames[-1]
            broken = []
            alive = True
            try:
                self.exec_block(s.body)
            except Dead:
                alive = False
            outs = self.outcomes[n0:]
            conts = [o for o in outs if o.frame is fr and o.kind == "continue"]
            brk = [o for o in outs if o.frame is fr and o.kind == "break"]
            self.outcomes[n0:] = [o for o in outs if o not in conts and o not in brk]
            if brk:
                if alive or conts:
                    self.havoc_loop(s, "conditional break in while")
                    return
                self.join_outs(brk, False)
                return
            self.join_outs(conts, alive)
        self.havoc_loop(s, "while loop")

    # --------------------------------------------------------- try / with
    def x_Try(self, s):
        n0 = len(self.outcomes)
        depth = len(self.pc)
        alive = True
        s_pre = self.st.fork()
        try:
            self.exec_block(s.body)
        except Dead:
            alive = False
        raised = [o for o in self.outcomes[n0:] if o.kind == "raise"]
        if alive and s.orelse:
            try:
                self.exec_block(s.orelse)
            except Dead:
                alive = False
        if s.handlers and raised:
            handled = []
            keep = []
            for o in self.outcomes[n0:]:
                if any(o is r for r in raised) and self.catches(s.handlers, o):
                    handled.append(o)
                else:
                    keep.append(o)
            self.outcomes[n0:] = keep
            if handled:
                st_alive = self.st if alive else None
                for o in handled:
                    h = self.catches(s.handlers, o)
                    self.st = o.state
                    extra = list(o.pc[depth:])
                    self.pc += extra
                    self.frames_guard = None
                    self.handling.append(o.value)
                    try:
                        if h.name:
                            self.bind(h.name, o.value)
                        self.exec_block(h.body)
                        cond = c_and(*extra) if extra else True
                        if st_alive is None:
                            st_alive = self.st
                        else:
                            st_alive = self.st if cond is True else self.merge_state(cond, self.st, st_alive)
                    except Dead:
                        pass
                    finally:
                        self.handling.pop()
                        del self.pc[depth:]
                if st_alive is not None:
                    self.st = st_alive
                    alive = True
        elif s.handlers:
            self.effect("handler", tuple(ast.dump(h.type) if h.type else "*" for h in s.handlers))
        if s.finalbody:
            outs = self.outcomes[n0:]
            cur = self.st
            for o in outs:
                n1 = len(self.outcomes)
                self.st = o.state.fork()
                self.pc, savepc = list(o.pc), self.pc
                try:
                    self.exec_block(s.finalbody)
                    o.state = self.st
                except Dead:
                    o.kind = "dead"
                finally:
                    self.pc = savepc
            self.st = cur
            if alive:
                self.exec_block(s.finalbody)
        if not alive:
            raise Dead()

    def exc_class(self, v):
        if isinstance(v, Opq) and v.op == "call" and isinstance(v.args[0], Ext):
            return v.args[0]
        if isinstance(v, Ref) and v.loc in self.st.store:
            r = self.rec(v)
            if isinstance(r, ObjR):
                return r.cls
        return v if isinstance(v, (ClassV, Ext)) else None

    def exc_matches(self, c, t):
        """Is exception class c caught as t?  None: unknown."""
        import builtins

        def py(x):
            k = getattr(builtins, x.path.split(".")[-1], None) if isinstance(x, Ext) and x.path.startswith("builtins.") else None
            return k if isinstance(k, type) and issubclass(k, BaseException) else None
        if isinstance(t, Tup):
            rs = [self.exc_matches(c, x) for x in t.items]
            return True if any(r is True for r in rs) else None if any(r is None for r in rs) else False
        if isinstance(c, ClassV):
            m = self.mro(c)
            if any(b is t for b in m):
                return True
            if isinstance(t, ClassV):
                return False
            known = [py(b) for b in m if isinstance(b, Ext)]
            if py(t) is not None and any(k is not None and issubclass(k, py(t)) for k in known):
                return True
            return False if py(t) is not None and all(isinstance(b, ClassV) or py(b) is not None or b == Ext("builtins.object") for b in m) else None
        if isinstance(c, Ext):
            if py(c) is not None and py(t) is not None:
                return issubclass(py(c), py(t))
            if c == t:
                return True
            if isinstance(t, ClassV):
                return False
            return True if py(t) in (Exception, BaseException) else None
        return True if py(t) in (Exception, BaseException) else None

    def catches(self, handlers, o):
        c = self.exc_class(o.value)
        name = c.path.split(".")[-1] if isinstance(c, Ext) else None
        for h in handlers:
            if h.type is None:
                return h
            keep = self.st
            self.st = o.state
            try:
                t = self.eval(h.type)
            finally:
                self.st = keep
            m = self.exc_matches(c, t)
            if m is None and name is not None:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                m = any((t.id if isinstance(t, ast.Name) else getattr(t, "attr", None)) == name for t in ts)
            if m:
                return h
        return None

    def x_With(self, s, k=0):
        if k >= len(s.items):
            self.exec_block(s.body)
            return
        item = s.items[k]
        cm = self.eval(item.context_expr)

        def body(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
            self.x_With(s, k + 1)
        self.enter_ctx(cm, body)

    def enter_ctx(self, cm, body):
        if not self.frames:
            self.frames = [Frame(None, None, "lumos")]
            try:
                return self.enter_ctx(cm, body)
            finally:
                self.frames = []
        fr = self.frames[-1]
        if isinstance(cm, CtxCall):
            pending = []

            def on_yield(v):
                saved = self.frames
                self.frames = self.frames[:self.frames.index(fr) + 1]
                n0, npc, alive = len(self.outcomes), len(self.pc), True
                try:
                    try:
                        body(v)
                    except Dead:
                        alive = False
                    # leaving the block by return, break or continue resumes the generator normally
                    left = [o for o in self.outcomes[n0:] if o.frame is fr and o.kind in ("return", "break", "continue")]
                    if not left:
                        if not alive:
                            raise Dead()
                        return
                    self.outcomes[n0:] = [o for o in self.outcomes[n0:] if not any(o is q for q in left)]
                    st = self.st if alive else None
                    for o in reversed(left):
                        cond = c_and(*o.pc[npc:]) if len(o.pc) > npc else True
                        st = o.state if st is None or cond is True else self.merge_state(cond, o.state, st)
                        self.st = st
                    pending.append((left, alive))
                finally:
                    self.frames = saved
            self.run_function(cm.func, cm.args, cm.kwargs, on_yield=on_yield)
            for left, alive in pending:
                for o in left:
                    o.state = self.st.fork() if alive or len(left) > 1 else self.st
                    self.outcomes.append(o)
                if not alive:
                    raise Dead()
            return
        if isinstance(cm, Ref) and self.rec(cm).kind == "obj":
            enter = self.getattr(cm, "__enter__")
            v = self.call(enter, [], {})
            n0 = len(self.outcomes)
            alive = True
            try:
                body(v)
            except Dead:
                alive = False
            ex = self.getattr(cm, "__exit__")
            outs = self.outcomes[n0:]
            if alive:
                self.call(ex, [None, None, None], {})
            cur = self.st
            for o in outs:
                self.st = o.state.fork()
                err = [self.exc_class(o.value) or Unknown("exception"), o.value, Opq("traceback")] if o.kind == "raise" else [None, None, None]
                stop = self.call(ex, err, {})
                o.state = self.st
                if o.kind == "raise" and stop is True:
                    self.outcomes = [q for q in self.outcomes if q is not o]
                    extra = o.pc[len(self.pc):]
                    cur = self.merge_state(c_and(*extra), o.state, cur) if extra and alive else o.state
                    alive = True
            self.st = cur
            if not alive:
                raise Dead()
            return
        v = cm
        if isinstance(cm, Opq):
            v = Opq("enter", cm)
        body(v)

    # ------------------------------------------------------------- expressions
    def eval(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecidable("analysis budget exceeded")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, (int, float)):
            return P(v)
        return self.unknown("constant")

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Tuple(self, e):
        return Tup(self.elements(e.elts))

    def e_List(self, e):
        return self.new_list(self.elements(e.elts))

    def e_Set(self, e):
        return self.alloc(SetR(self.elements(e.elts)))

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                it = self.iter_items(v)
                if it is None:
                    out.append(Seg(index(alg.dim(self.freshname("len"), 0)), alg.dim(self.freshname("len"), 0), Unknown(f"elements of {v!r}"[:80])))
                else:
                    out += it
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = self.new_dict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.method(d, "update", [self.eval(v)], {}, silent=True)
            else:
                kv = self.eval(k)
                self.dict_set(d, kv, self.eval(v))
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                parts.append(self.to_str_part(x))
        if any(p is None for p in parts):
            return SStr([p if p is not None else Atom("sym", self.freshname("str")) for p in parts])
        return mkstr(*parts)

    def to_str_part(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, SStr):
            return x
        if x is None or isinstance(x, bool):
            return str(x)
        if isinstance(x, Poly):
            c = x.const()
            if c is not None:
                return str(int(c)) if c.denominator == 1 else str(float(c))
            return Atom("app", "str", x)
        return Atom("sym", "str:" + vkey(x)) if not isinstance(x, Unknown) else None

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_Lambda(self, e):
        return self.make_func(e, lam=True)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def rec(k):
            v = self.eval(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = self.decide(self.truth(v))
            if isand:
                if c is False:
                    return v
                if c is True:
                    return rec(k + 1)
                return self.branch(c, lambda: rec(k + 1), lambda: v if not isinstance(v, Cond) else False)
            if c is True:
                return v
            if c is False:
                return rec(k + 1)
            return self.branch(c, lambda: v if not isinstance(v, Cond) else True, lambda: rec(k + 1))
        return rec(0)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.lift(v, lambda x: self.unop(e.op, x))

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            return c_not_any(self.truth(v))
        if isinstance(v, Unknown):
            return v
        a = self.as_arr(v)
        if isinstance(v, Stub) and "unop" in v.methods and isinstance(op, ast.USub):
            return v.methods["unop"](self, op, v)
        if isinstance(op, ast.USub):
            if a is not None:
                return self.new_arr(elementwise(lambda x: -arrays.topoly(x), a))
            p = self.as_num(v)
            if p is not None:
                return -p
            return Opq("neg", v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if a is not None:
                r = elementwise(lambda x: c_not(x) if isinstance(x, (bool, Cond)) else arrays.topoly(x) * -1 - 1, a)
                if self.lib.is_bool_arr(a):
                    r.meta["bool"] = True
                return self.new_arr(r)
            if isinstance(v, (bool, Cond)):
                return c_not(v)
            return Opq("invert", v)
        return self.unknown("unary operator")

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(a, lambda x: self.lift(b, lambda y: self.binop(e.op, x, y)))
        return self.binop(e.op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            if isinstance(left, Phi) or isinstance(right, Phi):
                c = self.lift(left, lambda x: self.lift(right, lambda y: self.compare(op, x, y)))
            else:
                c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            res = c_and_any(res, c)
            left = right
        return res

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.lift(o, lambda x: self.getitem(x, k))

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return Slice(*(self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out += self.iter_items(self.eval(x.value)) or [self.unknown("starred index")]
                else:
                    out.append(self.eval_index(x))
            return Tup(out)
        return self.eval(s)

    def e_Slice(self, e):
        return self.eval_index(e)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_ListComp(self, e):
        items = self.comp(e.generators, lambda: self.eval(e.elt))
        if items is None:
            return self.unknown("list comprehension")
        return self.new_list(items)

    def e_GeneratorExp(self, e):
        items = self.comp(e.generators, lambda: self.eval(e.elt))
        if items is None:
            return self.unknown("generator expression")
        return self.new_list(items)

    def e_SetComp(self, e):
        items = self.comp(e.generators, lambda: self.eval(e.elt))
        if items is None:
            return self.unknown("set comprehension")
        return self.alloc(SetR(items))

    def e_DictComp(self, e):
        items = self.comp(e.generators, lambda: Tup([self.eval(e.key), self.eval(e.value)]))
        if items is None:
            return self.unknown("dict comprehension")
        d = self.new_dict([])
        for i in items:
            if isinstance(i, Seg):
                r = self.rec(d)
                self.put(d, DictR(r.entries + (KV(i.var, i.n, i.body.items[0], i.body.items[1]),)))
            else:
                self.dict_set(d, i.items[0], i.items[1])
        return d

    def comp(self, gens, elt):
        fr = self.frames[-1]
        env = self.alloc(EnvR({}, fr.env)).loc
        f2 = Frame(env, fr.func, fr.module, fr.owner)
        f2.cls_body = None
        f2.globals = set(fr.globals)
        f2.self_val = fr.self_val
        if fr.cls_body:
            pass
        self.frames.append(f2)
        try:
            return self._comp(gens, 0, elt)
        finally:
            if self.frames[-1] is f2:
                self.frames.pop()

    def _comp(self, gens, k, elt):
        if k == len(gens):
            return [elt()]
        g = gens[k]
        it = self.eval(g.iter)
        if isinstance(it, Phi):
            return None
        items = self.iter_items(it)
        if items is None:
            return None
        out = []
        for item in items:
            if isinstance(item, Seg):
                c = item.n.const()
                if c is not None and c <= 64 or c is not None and c <= 400 and self.has_const_shape(it):
                    sub = [self.inst(item, P(j)) for j in range(int(c))]
                else:
                    r = self.comp_seg(g, item, gens, k, elt)
                    if r is None:
                        return None
                    out += r
                    continue
            else:
                sub = [item]
            for x in sub:
                self.assign(g.target, x)
                ok = True
                for t in g.ifs:
                    c = self.decide(self.truth(self.eval(t)))
                    if c is False:
                        ok = False
                        break
                    if c is not True:
                        return None
                if ok:
                    r = self._comp(gens, k + 1, elt)
                    if r is None:
                        return None
                    out += r
        return out

    def has_const_shape(self, v):
        a = self.as_arr(v)
        return a is not None and a.size.const() is not None

    def comp_seg(self, g, seg, gens, k, elt):
        out = []
        work = [(ZERO, seg.n)]
        while work:
            off, n = work.pop(0)
            if not n.terms:
                continue
            if n.const() == 1:
                v = None
                p = ZERO
            else:
                v = index(n, "c")
                p = P(v)
            saved = self.st.fork()
            if v is not None:
                self.loopvars.append(v)
            try:
                self.assign(g.target, self.inst(seg, off + p))
                ok = True
                for t in g.ifs:
                    c = self.decide(self.truth(self.eval(t)))
                    if c is False:
                        ok = False
                        break
                    if c is not True:
                        self.loop_split(c)
                        return None
                if not ok:
                    continue
                r = self._comp(gens, k + 1, elt)
                if r is None:
                    return None
                if v is None:
                    out += r
                elif len(r) == 1 and not isinstance(r[0], Seg):
                    out.append(Seg(v, n, self.freeze(r[0])))
                elif len(r) == 0:
                    pass
                else:
                    out.append(Seg(v, n, Splice(tuple(self.freeze(x) for x in r))))
            except NeedSplit as e:
                if v is None:
                    raise
                rr = arrays.refine(e, [v])
                if rr is None:
                    if self.loopvars[:-1] and any(alg.contains(e.d, u) for u in self.loopvars[:-1]):
                        raise
                    return None
                self.st = saved
                new = []
                for poly, nv in rr[1]:
                    o = subst(poly, {u: ZERO for u in nv})
                    new.append((off + o, alg.UPPER[nv[0]] if nv else ONE))
                work = new + work
            finally:
                if v is not None:
                    self.loopvars.pop()
        return out

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        return self.unknown("yield expression")

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            for f in reversed(self.frames):
                if f.func is not None and f.func.owner is not None and f.self_val is not None:
                    return Super(f.self_val, f.func.owner)
            return self.unknown("super()")
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                it = self.iter_items(v)
                if it is not None and any(isinstance(i, Seg) for i in it):
                    ex = self.expand(it)
                    it = ex if ex is not None else [StarSeg(i) if isinstance(i, Seg) else i for i in it]
                if it is None:
                    if isinstance(v, Opq):
                        args.append(Opq("star", v))
                    elif v is None or isinstance(v, (Poly, bool)):
                        self.raise_("TypeError", "argument after * must be an iterable")
                    else:
                        return self.unknown(f"starred argument {v!r}"[:80])
                else:
                    args += it
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, Phi):
                    return self.unknown("keyword expansion of a joined value")
                ents = self.dict_entries(d)
                if ents is None:
                    return self.unknown(f"keyword expansion {d!r}"[:80])
                for en in ents:
                    if isinstance(en, KV):
                        kwargs.setdefault(KVARGS, []).append(en)
                    else:
                        key = en[0]
                        kwargs[key if isinstance(key, str) else SKey(key)] = en[1]
            else:
                kwargs[k.arg] = self.eval(k.value)
        self.site = (self.frames[-1].module, e.lineno)
        return self.lift(f, lambda g: self.call(g, args, kwargs))

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if isinstance(f, Unknown):
            return f
        if isinstance(f, Phi):
            return self.lift(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, Native):
            try:
                return f.fn(self, args, kwargs)
            except (Undecidable, ShapeError) as e:
                self.shape_error(e)
                return self.unknown(f"{f.name}: {e}")
            except NeedSplit as e:
                if self.loopvars and any(alg.contains(e.d, u) for u in self.loopvars):
                    raise
                return self.unknown(f"{f.name}: undecided {e}")
        if isinstance(f, Method):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            if f.ctxmanager:
                return CtxCall(f, args, kwargs)
            return self.run_function(f, args, kwargs)
        if isinstance(f, Wrapped):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.lib.call_ext(f.path, args, kwargs)
        if isinstance(f, Stub):
            if f.call is not None:
                try:
                    return f.call(self, args, kwargs)
                except (Undecidable, ShapeError) as e:
                    self.shape_error(e)
                    return self.unknown(f"{f.name}: {e}")
            return self.unknown(f"call of stub {f.name}")
        if isinstance(f, BoundLib):
            return self.lib.method(f.obj, f.name, args, kwargs)
        if isinstance(f, Opq):
            self.effect("ext", f, tuple(args), dict(kwargs))
            return Opq("call", f, *args, *[Tup([str(k), v]) for k, v in sorted(kwargs.items(), key=lambda kv: str(kv[0]))])
        if isinstance(f, Ref):
            r = self.rec(f)
            if isinstance(r, ObjR):
                c = self.find_attr(r.cls, "__call__")
                if c is not None:
                    return self.call(self.bind_attr(f, r.cls, c), args, kwargs)
                if self.is_subclass(r.cls, Ext("contextlib.ContextDecorator")) is True and len(args) == 1:
                    inner, me = args[0], f

                    def wrapped(interp, a, k):
                        box = []

                        def body(_):
                            box.append(interp.call(inner, a, k))
                        interp.enter_ctx(me, body)
                        return box[-1] if box else interp.unknown("decorated call")
                    n = Native("ctxdecorated", wrapped)
                    n.inner = inner
                    return n
        return self.unknown(f"call of {f!r}"[:100])

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        vars = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        n = len(pos)
        for name, v in zip(pos, args):
            vars[name] = v
        extra = args[n:]
        if extra and not a.vararg:
            if any(isinstance(x, StarSeg) for x in extra):
                return None
            self.raise_("TypeError", f"too many arguments for {f.qual}")
        if a.vararg:
            vars[a.vararg.arg] = Tup([x.seg if isinstance(x, StarSeg) else x for x in extra])
        for k in a.kwonlyargs:
            pos.append(k.arg)
        rest = []
        for k, v in kwargs.items():
            if k is KVARGS:
                rest += v
            elif isinstance(k, str) and k in pos and k not in [x.arg for x in a.posonlyargs]:
                if k in vars:
                    self.raise_("TypeError", f"multiple values for {k} in {f.qual}")
                vars[k] = v
            else:
                rest.append((k if isinstance(k, str) else k.key_value, v))
        if rest and not a.kwarg:
            if any(isinstance(r, KV) for r in rest):
                return None
            self.raise_("TypeError", f"unexpected keyword {rest[0][0]} for {f.qual}")
        if a.kwarg:
            vars[a.kwarg.arg] = self.new_dict(rest)
        posn = [x.arg for x in a.posonlyargs + a.args]
        for name, d in zip(posn[len(posn) - len(f.defaults):], f.defaults):
            if name not in vars:
                vars[name] = d
        for name, d in f.kwdefaults.items():
            if name not in vars:
                vars[name] = d
        for name in pos:
            if name not in vars:
                self.raise_("TypeError", f"missing argument {name} of {f.qual}")
        return vars

    def run_function(self, f, args, kwargs, on_yield=None):
        if f.qual in self.overrides:
            return self.call(self.overrides[f.qual], args, kwargs)
        if self.depth > MAXDEPTH:
            raise Undecidable("call depth")
        vars = self.bind_args(f, args, kwargs)
        if vars is None:
            return self.unknown(f"arguments of {f.qual}")
        self.visited.add(f.qual)
        env = self.alloc(EnvR(vars, f.env)).loc
        fr = Frame(env, f, f.module, f.owner)
        fr.on_yield = on_yield
        if args and f.owner is not None:
            fr.self_val = args[0]
        saved_site = self.site
        saved_frames = list(self.frames)
        n0 = len(self.outcomes)
        npc = len(self.pc)
        nfacts = len(self.facts)
        self.frames = saved_frames + [fr]
        self.depth += 1
        fall = True
        result = None
        try:
            if getattr(f, "is_lambda", False):
                result = self.eval(f.node.body)
            else:
                self.exec_block(f.node.body)
        except Dead:
            fall = False
        finally:
            self.depth -= 1
            self.frames = saved_frames
            self.site = saved_site
        rets = [o for o in self.outcomes[n0:] if o.kind == "return" and o.frame is fr]
        self.outcomes[n0:] = [o for o in self.outcomes[n0:] if o not in rets]
        del self.facts[nfacts:]
        if fall:
            if getattr(f, "is_lambda", False) or True:
                tail = (None if not getattr(f, "is_lambda", False) else result, self.st)
        else:
            tail = None
        if not rets and tail is None:
            raise Dead()
        for o in reversed(rets):
            cond = c_and(*o.pc[npc:]) if len(o.pc) > npc else True
            if tail is None or cond is True:
                tail = (o.value, o.state)
            else:
                v, st = tail
                ns = self.merge_state(cond, o.state, st)
                self.st = ns
                tail = (self.phi(cond, o.value, v), self.st)
        self.st = tail[1]
        return tail[0]

    def method_of(self, obj, name):
        return self.getattr(obj, name)

    def instantiate(self, c, args, kwargs):
        q = "new:" + c.qual
        if q in self.overrides:
            return self.call(self.overrides[q], args, kwargs)
        new = self.find_attr(c, "__new__")
        if isinstance(new, Wrapped) and isinstance(new.func, FuncV):
            new = new.func
        if isinstance(new, FuncV):
            o = self.run_function(new, [c] + list(args), kwargs)
            init = self.find_attr(c, "__init__")
            if isinstance(o, Ref) and isinstance(self.rec(o), ObjR) and isinstance(self.rec(o).cls, ClassV) and self.is_subclass(self.rec(o).cls, c) and isinstance(init, FuncV):
                self.run_function(init, [o] + list(args), kwargs)
            return o
        if c.kind == "namedtuple":
            return self.make_namedtuple(c, args, kwargs)
        if c.kind == "enum":
            if len(args) == 1:
                return args[0]
            return self.unknown("enum call")
        for b in self.mro(c):
            if isinstance(b, ClassV) and b.kind == "namedtuple":
                return self.make_namedtuple(b, args, kwargs)
        o = self.alloc(ObjR(c, {}))
        if c.kind == "dataclass" or any(isinstance(b, ClassV) and b.kind == "dataclass" for b in self.mro(c)):
            init = self.find_attr(c, "__init__")
            if init is None:
                self.dataclass_init(o, c, args, kwargs)
                return o
        init = self.find_attr(c, "__init__")
        if init is not None and isinstance(init, FuncV):
            self.run_function(init, [o] + list(args), kwargs)
        elif any(isinstance(b, Ext) and b.path not in ("abc.ABC", "builtins.object", "contextlib.ContextDecorator", "typing.Generic") for b in self.mro(c)):
            for b in self.mro(c):
                if isinstance(b, Ext) and b.path == "builtins.dict":
                    self.setattr(o, "__dict_data__", self.lib.call_ext("builtins.dict", args, kwargs))
        elif init is None and (args or kwargs) and KVARGS not in kwargs and not any(isinstance(a, StarSeg) for a in args):
            self.raise_("TypeError", f"{c.name}() takes no arguments")
        return o

    def make_namedtuple(self, c, args, kwargs):
        vals = []
        args = list(args)
        if any(isinstance(a, StarSeg) for a in args):
            return self.unknown("namedtuple of unknown arguments")
        kw = dict(kwargs)
        if KVARGS in kw:
            return self.unknown("namedtuple of symbolic keywords")
        if len(args) > len(c.fields):
            self.raise_("TypeError", f"too many values for {c.name}")
        for k, (n, d) in enumerate(c.fields):
            if k < len(args):
                vals.append(args[k])
            elif n in kw:
                vals.append(kw.pop(n))
            elif d is not None:
                vals.append(d)
            else:
                self.raise_("TypeError", f"missing {n} for {c.name}")
        if kw:
            self.raise_("TypeError", f"unexpected {list(kw)} for {c.name}")
        return Tup(vals, c)

    def dataclass_fields(self, c):
        out = {}
        for b in reversed(self.mro(c)):
            if isinstance(b, ClassV) and b.kind == "dataclass":
                attrs = self.rec(b.attrs_loc).attrs
                for n in b.annotated:
                    out[n] = (attrs.get(n, self.MISSING), b)
            elif isinstance(b, ClassV):
                pass
        return out

    def dataclass_init(self, o, c, args, kwargs):
        fields = self.dataclass_fields(c)
        names = list(fields)
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kwargs.items():
            if k is KVARGS:
                self.notes.append("symbolic keywords for a dataclass")
                continue
            if k not in fields:
                self.raise_("TypeError", f"unexpected {k}")
            vals[k] = v
        for n in names:
            if n not in vals:
                d = fields[n][0]
                if d is self.MISSING:
                    self.raise_("TypeError", f"missing {n}")
                if isinstance(d, Opq) and d.op == "dataclasses.field":
                    fac = [a for a in d.args if isinstance(a, Tup) and a.items[0] == "default_factory"]
                    dv = [a for a in d.args if isinstance(a, Tup) and a.items[0] == "default"]
                    if fac:
                        vals[n] = self.call(fac[0].items[1], [], {})
                    elif dv:
                        vals[n] = dv[0].items[1]
                    else:
                        self.raise_("TypeError", f"missing {n}")
                else:
                    vals[n] = d
            self.put(o, ObjR(c, {**self.rec(o).attrs, n: vals[n]}))
        post = self.find_attr(c, "__post_init__")
        if post is not None:
            self.call(self.bind_attr(o, c, post), [], {})

    # ------------------------------------------------------------- classes
    def mro(self, c):
        if isinstance(c, Ext):
            return [c]
        if getattr(c, "_mro", None):
            return c._mro
        seqs = [list(self.mro(b)) for b in c.bases if isinstance(b, (ClassV, Ext))] + [[b for b in c.bases if isinstance(b, (ClassV, Ext))]]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
        c._mro = out
        return out

    def is_subclass(self, c, d):
        if isinstance(c, ClassV):
            for b in self.mro(c):
                if b is d or (isinstance(b, Ext) and isinstance(d, Ext) and b == d):
                    return True
            if isinstance(d, Ext) and d.path == "builtins.object":
                return True
            return False
        if isinstance(c, Ext) and isinstance(d, Ext):
            return True if c == d else None
        return None

    def find_attr(self, c, name, after=None):
        seen = after is None
        for b in self.mro(c):
            if not seen:
                if b is after:
                    seen = True
                continue
            if isinstance(b, ClassV):
                q = b.qual + "." + name
                if q in self.overrides:
                    return self.overrides[q]
                a = self.rec(b.attrs_loc).attrs
                if name in a:
                    return a[name]
        return None

    def none_attr(self, c, name):
        """The class defines the name, as None."""
        for b in self.mro(c):
            if isinstance(b, ClassV):
                a = self.rec(b.attrs_loc).attrs
                if name in a:
                    return a[name] is None
        return False

    def bind_attr(self, obj, cls, v):
        if isinstance(v, FuncV):
            return Method(obj, v)
        if isinstance(v, Wrapped):
            if v.kind == "property" or v.kind == "cached_property":
                return self.call(v.func, [obj], {})
            if v.kind == "classmethod":
                return Method(cls, v.func)
            if v.kind == "staticmethod":
                return v.func
        if isinstance(v, Native) and getattr(v, "is_method", False):
            return Method(obj, v)
        return v

    def getattr(self, o, name, default=None):
        if isinstance(o, Unknown):
            return o
        if isinstance(o, Phi):
            return self.lift(o, lambda x: self.getattr(x, name))
        if isinstance(name, Phi):
            return self.lift(name, lambda x: self.getattr(o, x))
        if not isinstance(name, str):
            return self.unknown("symbolic attribute name")
        if isinstance(o, ModV):
            v = self.mod_get(o.name, name)
            if v is None:
                return self.unknown(f"{o.name}.{name}")
            return v
        if isinstance(o, Ext):
            return self.ext(o.path + "." + name)
        if isinstance(o, Super):
            obj = o.obj
            if isinstance(obj, ClassV):
                cls = obj
            else:
                r = self.rec(obj) if isinstance(obj, Ref) else None
                cls = r.cls if isinstance(r, ObjR) else None
            if cls is None:
                return self.unknown("super")
            v = self.find_attr(cls, name, after=o.cls)
            if v is None:
                if name == "__init__":
                    return Native("object.__init__", lambda i, a, k: None)
                if name == "__new__":
                    def new(i, a, k):
                        if not a or not isinstance(a[0], ClassV):
                            return i.unknown("__new__ without a class")
                        return i.make_namedtuple(a[0], a[1:], k) if a[0].kind == "namedtuple" else i.alloc(ObjR(a[0], {}))
                    return Native("object.__new__", new)
                return self.unknown(f"super().{name}")
            if isinstance(obj, ClassV):
                return Method(obj, v.func) if isinstance(v, Wrapped) and v.kind == "classmethod" else v
            return self.bind_attr(obj, cls, v)
        if isinstance(o, Ref):
            r = self.rec(o)
            if isinstance(r, HavocR):
                return self.unknown(r.reason)
            if isinstance(r, ObjR) and r.cls is not None:
                cv = self.find_attr(r.cls, name)
                if isinstance(cv, Wrapped) and cv.kind == "property":
                    return self.bind_attr(o, r.cls, cv)
                if name in r.attrs:
                    v = r.attrs[name]
                    return v
                if cv is not None:
                    return self.bind_attr(o, r.cls, cv)
                if self.none_attr(r.cls, name):
                    return None
                if name == "__class__":
                    return r.cls
                if name == "__dict__":
                    return self.new_dict(list(r.attrs.items()))
                g = self.find_attr(r.cls, "__getattr__")
                if g is not None:
                    return self.call(self.bind_attr(o, r.cls, g), [name], {})
                if "__dict_data__" in r.attrs:
                    return self.getattr(r.attrs["__dict_data__"], name)
                if any(isinstance(b, Ext) and b.path not in ("abc.ABC", "contextlib.ContextDecorator", "builtins.object") for b in self.mro(r.cls)):
                    return Opq("attr", o, name)
                if default is not None:
                    return default
                self.effect("missing-attr", o, name)
                return self.unknown(f"no attribute {name} on {r.cls.name}")
            return self.lib.attr(o, name)
        if isinstance(o, ClassV):
            v = self.find_attr(o, name)
            if v is not None:
                if isinstance(v, Wrapped) and v.kind == "classmethod":
                    return Method(o, v.func)
                if isinstance(v, Wrapped) and v.kind == "staticmethod":
                    return v.func
                if o.kind == "enum" and name in getattr(o, "members", ()):
                    return v
                return v
            if self.none_attr(o, name):
                return None
            if name == "__name__":
                return o.name
            if name == "_fields" and o.kind == "namedtuple":
                return Tup([n for n, _ in o.fields])
            if name == "_make":
                return Native("_make", lambda i, a, k: i.make_namedtuple(o, i.iter_items(a[0]) or [], {}))
            return self.unknown(f"class attribute {o.name}.{name}")
        if isinstance(o, Stub):
            if name in o.attrs:
                v = o.attrs[name]
                return v(self) if callable(v) and not isinstance(v, Value) else v
            if name in o.methods:
                m = o.methods[name]
                return Native(f"{o.name}.{name}", lambda i, a, k, m=m: m(i, a, k))
            if "missing" in o.methods:
                return o.methods["missing"](self, name)
            return self.unknown(f"stub attribute {o.name}.{name}")
        if isinstance(o, (FuncV, Native, Method, Partial)):
            if name == "__name__":
                return o.node.name if isinstance(o, FuncV) and hasattr(o.node, "name") else "<fn>"
            key = ("fnattr", id(o), name)
            d = self.st.store.get(key)
            if d is not None:
                return d.v if isinstance(d, FnAttr) else d
            return self.unknown(f"function attribute {name}")
        return self.lib.attr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Phi):
            self.lift(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Ref):
            r = self.rec(o)
            if isinstance(r, ObjR):
                if r.cls is not None:
                    cv = self.find_attr(r.cls, name)
                    if isinstance(cv, Wrapped) and cv.kind == "property" and cv.setter is not None:
                        self.call(cv.setter, [o, v], {})
                        return
                self.effect("setattr", o, name, v, r.attrs.get(name))
                a = dict(r.attrs)
                a[name] = v
                self.put(o, ObjR(r.cls, a))
                return
            self.notes.append(f"setattr on {o!r}")
            return
        if isinstance(o, ClassV):
            r = self.rec(o.attrs_loc)
            self.effect("setclassattr", o, name, v)
            self.put(o.attrs_loc, ObjR(None, {**r.attrs, name: v}))
            return
        if isinstance(o, (FuncV, Native)):
            self.st.store[("fnattr", id(o), name)] = FnAttr(v)
            return
        if isinstance(o, Stub):
            o.attrs[name] = v
            self.effect("setattr", o, name, v, None)
            return
        self.notes.append(f"setattr {name} on {o!r} at {self.site}"[:120])
        self.blind(o)

    def blind(self, o):
        """A store through an unknown reference: it may change any object, so no difference found later is certain."""
        if isinstance(o, Unknown):
            BLIND.append(f"store through {o!r} at {self.site}"[:200])

    # ------------------------------------------------------------- data access
    def as_num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return P(int(v))
        if isinstance(v, Cond):
            return arrays.indicator(v)
        if isinstance(v, Opq):
            return P(Atom("opq", v.key))
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "arr" and r.arr.ndim == 0:
                return arrays.topoly(r.arr.get(()))
        if isinstance(v, Phi):
            a, b = self.as_num(v.a), self.as_num(v.b)
            if a is not None and b is not None:
                return select(v.cond, a, b)
        return None

    def as_arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "arr":
                return r.arr
        return None

    def to_arr(self, v):
        """Array-like (lists of numbers included) to Arr, Poly for scalars, None if unknown."""
        a = self.as_arr(v)
        if a is not None:
            return a
        if isinstance(v, (Poly, bool, Cond)):
            return v if isinstance(v, Poly) else v
        items = None
        if isinstance(v, Tup) or (isinstance(v, Ref) and self.rec(v).kind in ("list",)):
            items = self.iter_items(v)
        if isinstance(v, Stub) and v.name == "enum":
            return None
        if items is None:
            if isinstance(v, Opq):
                return self.as_num(v)
            return None
        if not items:
            return Arr((ZERO,), lambda i: ZERO)
        parts = []
        for it in items:
            if isinstance(it, Seg):
                def mk(i, it=it):
                    x = self.to_arr(self.inst(it, i))
                    if x is None:
                        raise Undecidable("array of non-numbers")
                    return x if isinstance(x, Arr) else Arr((), lambda _: x)
                try:
                    mk(P(it.var))
                except Undecidable:
                    return None
                parts.append(Rep(it.var, it.n, mk))
            else:
                x = self.to_arr(it)
                if x is None:
                    return None
                parts.append(x if isinstance(x, Arr) else Arr((), lambda _, x=x: x))
        if len(parts) == 1 and not isinstance(parts[0], Rep):
            p = parts[0]
            r = Arr((ONE,) + p.shape, lambda i: p.get(i[1:]))
        else:
            r = arrays.stack(parts, 0)
        if all(isinstance(it, (bool, Cond)) for it in items):
            r.meta["bool"] = True
        return r

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool) or isinstance(v, Cond):
            return v
        if isinstance(v, Poly):
            z = alg.is_zero(v)
            if z is not None:
                return not z
            return c_not(Cond("eq", v))
        if isinstance(v, (str, bytes)):
            return bool(v)
        if isinstance(v, SStr):
            return True if any(isinstance(p, str) for p in v.parts) else Cond("opaque", "nonempty" + v.key)
        if isinstance(v, Unknown):
            return Cond("opaque", self.freshname("unknown:" + v.reason))
        if isinstance(v, Tup):
            return self.truth(self.length(v))
        if isinstance(v, Phi):
            return c_or(c_and(v.cond, self.truth(v.a)), c_and(c_not(v.cond), self.truth(v.b)))
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "set", "dict"):
                return self.truth(self.length(v))
            if r.kind == "obj":
                if r.cls is not None and self.find_attr(r.cls, "__len__") is None and self.find_attr(r.cls, "__bool__") is None:
                    return True
                return Cond("opaque", "truth" + vkey(v))
            if r.kind == "arr":
                if r.arr.ndim == 0 or r.arr.size.const() == 1:
                    return self.truth(r.arr.get(tuple(ZERO for _ in r.arr.shape)))
            return Cond("opaque", self.freshname("truth"))
        if isinstance(v, Stub) and "truth" in v.methods:
            return v.methods["truth"](self)
        if isinstance(v, (FuncV, ClassV, Method, Native, ModV, Ext, Stub, Partial)):
            return True
        return Cond("opaque", "truth:" + vkey(v))

    def length(self, v):
        items = None
        if isinstance(v, (str, bytes)):
            return P(len(v))
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "set"):
                items = r.items
            elif r.kind == "dict":
                n = ZERO
                for e in r.entries:
                    n = n + (e.n if isinstance(e, KV) else 1)
                return n
            elif r.kind == "arr":
                if r.arr.ndim == 0:
                    return None
                return r.arr.shape[0]
            elif r.kind == "obj":
                f = self.find_attr(r.cls, "__len__") if r.cls else None
                if f is not None:
                    return self.call(self.bind_attr(v, r.cls, f), [], {})
                if "__dict_data__" in r.attrs:
                    return self.length(r.attrs["__dict_data__"])
                return None
        elif isinstance(v, Arr):
            return v.shape[0]
        elif isinstance(v, Stub) and v.items is not None:
            items = v.items
        if items is None:
            return None
        n = ZERO
        for i in items:
            if isinstance(i, Seg):
                n = n + i.n * (len(i.body.items) if isinstance(i.body, Splice) else 1)
            else:
                n = n + 1
        return n

    def iter_items(self, v):
        """List of items (or Seg) of an iterable, None if unknown."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "set"):
                return self.unsplice(list(r.items))
            if r.kind == "dict":
                return [Seg(e.var, e.n, e.k) if isinstance(e, KV) else e[0] for e in r.entries]
            if r.kind == "arr":
                a = r.arr
                if a.ndim == 0:
                    return None
                if "masked" in a.meta:
                    return None
                c = a.shape[0].const()

                def row(i):
                    if a.ndim == 1:
                        return arrays.topoly(a.get((i,))) if not isinstance(a.get((i,)), (bool, Cond)) else a.get((i,))
                    return Arr(a.shape[1:], lambda j: a.get((i,) + j))
                if c is not None and c <= 400:
                    return [self.thaw(row(P(k))) for k in range(int(c))]
                u = index(a.shape[0], "r")
                try:
                    b = row(P(u))
                except NeedSplit:
                    return None
                return [Seg(u, a.shape[0], b)]
            if r.kind == "obj":
                if r.cls is not None:
                    f = self.find_attr(r.cls, "__iter__")
                    if f is not None:
                        return self.iter_items(self.call(self.bind_attr(v, r.cls, f), [], {}))
                if "__dict_data__" in r.attrs:
                    return self.iter_items(r.attrs["__dict_data__"])
            return None
        if isinstance(v, Stub) and v.items is not None:
            return list(v.items)
        if isinstance(v, Stub) and "items" in v.methods:
            return v.methods["items"](self)
        if isinstance(v, ClassV) and v.kind == "enum":
            return [self.rec(v.attrs_loc).attrs[m] for m in v.members]
        if isinstance(v, Slice):
            return None
        return None

    def unsplice(self, items):
        return items

    def dict_entries(self, v):
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "dict":
                return list(r.entries)
            if r.kind == "obj" and "__dict_data__" in r.attrs:
                return self.dict_entries(r.attrs["__dict_data__"])
            if r.kind == "obj" and r.cls is not None:
                ks = self.find_attr(r.cls, "keys")
                gi = self.find_attr(r.cls, "__getitem__")
                if ks is not None and gi is not None:
                    items = self.iter_items(self.call(self.bind_attr(v, r.cls, ks), [], {}))
                    if items is None or any(isinstance(i, Seg) for i in items):
                        return None
                    return [(k, self.getitem(v, k)) for k in items]
        if isinstance(v, Stub) and "entries" in v.methods:
            return v.methods["entries"](self)
        return None

    def inst(self, seg, i):
        """Item i of a segment."""
        b = seg.body
        return self.thaw(self.subst_val(b, {seg.var: P(i)}))

    def item_at(self, items, i):
        base = ZERO
        for k, it in enumerate(items):
            n = it.n if isinstance(it, Seg) else ONE
            if isinstance(it, Seg) and isinstance(it.body, Splice):
                raise Undecidable("index into spliced list")
            last = k == len(items) - 1
            if last or arrays.lt(i, base + n):
                return self.inst(it, i - base) if isinstance(it, Seg) else it
            base = base + n
        raise Undecidable("index out of range")

    def key_eq(self, a, b):
        """Equality of keys: True / False / None."""
        if isinstance(a, Poly) and isinstance(b, Poly):
            return alg.is_zero(a - b)
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            if isinstance(a, (Unknown, Opq, Phi, Cond)) or isinstance(b, (Unknown, Opq, Phi, Cond)):
                return None
            if isinstance(a, Poly) or isinstance(b, Poly):
                return None
            return a is b
        if isinstance(a, bytes) or isinstance(b, bytes):
            return a == b if isinstance(a, bytes) and isinstance(b, bytes) else None
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.str_eq(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False if not any(isinstance(x, Seg) for x in a.items + b.items) else None
            r = True
            for x, y in zip(a.items, b.items):
                e = self.key_eq(x, y)
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        if isinstance(a, (ClassV, FuncV)) or isinstance(b, (ClassV, FuncV)):
            return a is b
        if isinstance(a, (Ext, Opq)) and a == b:
            return True
        return None

    def str_eq(self, a, b):
        pa = list(a.parts) if isinstance(a, SStr) else [a]
        pb = list(b.parts) if isinstance(b, SStr) else [b]
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa[0], pb[0] = x[n:], y[n:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
                continue
            if isinstance(x, Atom) and isinstance(y, Atom):
                if x is y:
                    pa.pop(0)
                    pb.pop(0)
                    continue
                if len(pa) == len(pb) == 1 and x.kind == "name" and y.kind == "name" and x.args[0] == y.args[0]:
                    return alg.is_zero(x.args[1] - y.args[1])
                break
            if len(pa) == len(pb) == 1 and literal_vs_name(x, y):
                return False
            break
        if not pa and not pb:
            return True
        # suffix comparison
        while pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = min(len(pa[-1]), len(pb[-1]))
            if pa[-1][len(pa[-1]) - n:] != pb[-1][len(pb[-1]) - n:]:
                return False
            x, y = pa[-1][:len(pa[-1]) - n], pb[-1][:len(pb[-1]) - n]
            pa.pop()
            pb.pop()
            if x:
                pa.append(x)
            if y:
                pb.append(y)
            if not x and not y:
                continue
            if (x and y):
                return False
        if not pa and not pb:
            return True
        if (not pa and any(isinstance(q, str) for q in pb)) or (not pb and any(isinstance(q, str) for q in pa)):
            return False
        r = self.name_vs_literal(pa, pb)
        return r

    def name_vs_literal(self, pa, pb):
        return None

    def unify(self, tmpl, var, key):
        """Solve tmpl(var) == key for var: (status, poly) with status True/False/None."""
        if isinstance(tmpl, Poly) and isinstance(key, Poly):
            lin = alg.linear_in(tmpl, var)
            if lin is None:
                return None, None
            k, r = lin
            if k.const() not in (1, -1):
                return None, None
            return True, (key - r) * (Fraction(1) / k.const())
        if isinstance(tmpl, (str, SStr)) and isinstance(key, (str, SStr)):
            pt = list(tmpl.parts) if isinstance(tmpl, SStr) else [tmpl]
            pk = list(key.parts) if isinstance(key, SStr) else [key]
            sol = None
            while pt and pk:
                x, y = pt[0], pk[0]
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if x[:n] != y[:n]:
                        return False, None
                    pt[0], pk[0] = x[n:], y[n:]
                    if not pt[0]:
                        pt.pop(0)
                    if not pk[0]:
                        pk.pop(0)
                    continue
                if isinstance(x, Atom) and isinstance(y, Atom) and x.kind == y.kind == "name":
                    if x.args[0] != y.args[0]:
                        if len(pt) == 1 and len(pk) == 1:
                            return False, None     # different groups: distinct variables
                        return None, None
                    lin = alg.linear_in(x.args[1], var)
                    if lin is None or lin[0].const() != 1:
                        return None, None
                    s = y.args[1] - lin[1]
                    if sol is not None and sol != s:
                        return None, None
                    sol = s
                    pt.pop(0)
                    pk.pop(0)
                    continue
                if len(pt) == len(pk) == 1 and literal_vs_name(x, y):
                    return False, None
                return None, None
            if pt or pk:
                return None if not (pt and isinstance(pt[0], str) or pk and isinstance(pk[0], str)) else False, None
            if sol is None:
                return None, None
            return True, sol
        if isinstance(tmpl, Tup) and isinstance(key, Tup) and len(tmpl.items) == len(key.items):
            sol = None
            for a, b in zip(tmpl.items, key.items):
                if not self.depends(a, var):
                    e = self.key_eq(a, b)
                    if e is not True:
                        return e, None
                    continue
                s, p = self.unify(a, var, b)
                if s is not True:
                    return s, None
                sol = p
            return (True, sol) if sol is not None else (None, None)
        return None, None

    def depends(self, v, atom):
        if isinstance(v, Poly):
            return alg.contains(v, atom)
        if isinstance(v, SStr):
            return any((isinstance(p, Atom) and (p is atom or atom in alg.all_atoms(p))) for p in v.parts)
        if isinstance(v, Tup):
            return any(self.depends(x, atom) for x in v.items)
        if isinstance(v, (str, bool, type(None))):
            return False
        return True

    def find_pos(self, items, key):
        """Position of key in a sequence: ('found', poly, item) / ('absent',) / ('unknown',)."""
        base = ZERO
        unk = False
        for it in items:
            if isinstance(it, Seg):
                s, p = self.unify(it.body, it.var, key) if self.depends(it.body, it.var) else (self.key_eq(it.body, key), ZERO)
                if s is True:
                    if arrays.neg(p) is False and arrays.neg(p - it.n) is True:
                        if unk:
                            return ("unknown",)
                        return ("found", base + p, it)
                    if arrays.neg(p) is True or arrays.neg(p - it.n) is False:
                        pass
                    else:
                        unk = True
                elif s is None:
                    unk = True
                base = base + it.n
            else:
                e = self.key_eq(it, key)
                if e is True:
                    if unk:
                        return ("unknown",)
                    return ("found", base, it)
                if e is None:
                    unk = True
                base = base + 1
        return ("unknown",) if unk else ("absent",)

    def dict_get(self, d, key):
        """('found', value) / ('absent',) / ('unknown', reason)"""
        ents = self.dict_entries(d)
        if ents is None:
            return ("unknown", f"dictionary {d!r}")
        unk = None
        for en in reversed(ents):
            if isinstance(en, KV):
                if self.depends(en.k, en.var):
                    s, p = self.unify(en.k, en.var, key)
                else:
                    s, p = self.key_eq(en.k, key), ZERO
                if s is True:
                    inr = arrays.neg(p) is False and arrays.neg(p - en.n) is True
                    if inr:
                        if unk:
                            return ("unknown", unk)
                        return ("found", self.thaw(self.subst_val(en.v, {en.var: p})))
                    if not (arrays.neg(p) is True or arrays.neg(p - en.n) is False):
                        unk = "undecided key range"
                elif s is None:
                    unk = f"undecided key {key!r}"
            else:
                e = self.key_eq(en[0], key)
                if e is True:
                    if unk:
                        return ("unknown", unk)
                    return ("found", en[1])
                if e is None:
                    unk = f"undecided key {key!r} vs {en[0]!r}"
        if unk:
            return ("unknown", unk)
        return ("absent",)

    def dict_set(self, d, key, val):
        r = self.rec(d)
        if r.kind != "dict":
            return
        es = list(r.entries)
        for n, en in enumerate(es):
            if isinstance(en, KV):
                s = self.unify(en.k, en.var, key) if self.depends(en.k, en.var) else (self.key_eq(en.k, key), ZERO)
                if s[0] is False:
                    continue
                if s[0] is True and (arrays.neg(s[1]) is True or arrays.neg(s[1] - en.n) is False):
                    continue
                if s[0] is True and arrays.neg(s[1]) is False and arrays.neg(s[1] - en.n) is True:
                    # overwrite one entry of a segment: template selects on the position
                    old, var, at = en.v, en.var, s[1]
                    fv = self.freeze(val)
                    if isinstance(old, Poly) and isinstance(fv, Poly):
                        es[n] = KV(var, en.n, en.k, select(Cond("eq", P(var) - at), fv, old))
                        self.put(d, DictR(es))
                        return
                self.put(d, HavocR("dictionary updated at an undecided key"))
                return
            e = self.key_eq(en[0], key)
            if e is True:
                es[n] = (en[0], val)
                self.put(d, DictR(es))
                return
            if e is None:
                self.put(d, HavocR(f"dictionary updated at an undecided key {key!r}"))
                return
        es.append((key, val))
        self.put(d, DictR(es))

    # ------------------------------------------------- templates and substitution
    def freeze(self, v, seen=None):
        seen = seen or {}
        if isinstance(v, Ref):
            if v.loc in seen:
                return v
            r = self.rec(v)
            s2 = {**seen, v.loc: 1}
            if r.kind == "arr":
                return r.arr
            if r.kind in ("list", "set"):
                return Frozen(type(r)([self.freeze(x, s2) for x in r.items]))
            if r.kind == "dict":
                return Frozen(DictR([KV(e.var, e.n, self.freeze(e.k, s2), self.freeze(e.v, s2)) if isinstance(e, KV)
                                     else (self.freeze(e[0], s2), self.freeze(e[1], s2)) for e in r.entries]))
            if r.kind == "obj" and any(a in self.loopvars for a in self.obj_atoms(r)):
                return Frozen(ObjR(r.cls, {k: self.freeze(x, s2) for k, x in r.attrs.items()}))
            return v
        if isinstance(v, Tup):
            return Tup([self.freeze(x, seen) for x in v.items], v.nt)
        if isinstance(v, Seg):
            return Seg(v.var, v.n, self.freeze(v.body, seen))
        if isinstance(v, Phi):
            return Phi(v.cond, self.freeze(v.a, seen), self.freeze(v.b, seen))
        return v

    def obj_atoms(self, r):
        out = set()
        for x in r.attrs.values():
            if isinstance(x, Poly):
                out |= alg.all_atoms(x)
            elif isinstance(x, SStr):
                for p in x.parts:
                    if isinstance(p, Atom):
                        out |= alg.all_atoms(p)
        return out

    def thaw(self, v):
        if isinstance(v, Arr):
            return self.new_arr(v)
        if isinstance(v, Frozen):
            r = v.rec
            if r.kind in ("list", "set"):
                return self.alloc(type(r)([x if isinstance(x, Seg) else self.thaw(x) for x in r.items]))
            if r.kind == "dict":
                return self.alloc(DictR([e if isinstance(e, KV) else (self.thaw(e[0]), self.thaw(e[1])) for e in r.entries]))
            if r.kind == "obj":
                return self.alloc(ObjR(r.cls, {k: self.thaw(x) for k, x in r.attrs.items()}))
            return self.alloc(r)
        if isinstance(v, Tup):
            return Tup([x if isinstance(x, Seg) else self.thaw(x) for x in v.items], v.nt)
        return v

    def subst_val(self, v, mp):
        if not mp:
            return v
        if isinstance(v, Poly):
            return subst(v, mp)
        if isinstance(v, SStr):
            return SStr([p if isinstance(p, str) else self.subst_atom(p, mp) for p in v.parts]).norm()
        if isinstance(v, Arr):
            return subst_arr(v, mp)
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, mp) for x in v.items], v.nt)
        if isinstance(v, Seg):
            return Seg(v.var, subst(v.n, mp), self.subst_val(v.body, mp))
        if isinstance(v, KV):
            return KV(v.var, subst(v.n, mp), self.subst_val(v.k, mp), self.subst_val(v.v, mp))
        if isinstance(v, Splice):
            return Splice(tuple(self.subst_val(x, mp) for x in v.items))
        if isinstance(v, Frozen):
            r = v.rec
            if r.kind in ("list", "set"):
                return Frozen(type(r)([self.subst_val(x, mp) for x in r.items]))
            if r.kind == "dict":
                return Frozen(DictR([self.subst_val(e, mp) if isinstance(e, KV) else (self.subst_val(e[0], mp), self.subst_val(e[1], mp)) for e in r.entries]))
            if r.kind == "obj":
                return Frozen(ObjR(r.cls, {k: self.subst_val(x, mp) for k, x in r.attrs.items()}))
            return v
        if isinstance(v, Cond):
            return subst_cond(v, mp)
        if isinstance(v, Phi):
            c = self.decide(subst_cond(v.cond, mp))
            if c is True:
                return self.subst_val(v.a, mp)
            if c is False:
                return self.subst_val(v.b, mp)
            return Phi(c, self.subst_val(v.a, mp), self.subst_val(v.b, mp))
        if isinstance(v, Opq):
            return Opq(v.op, *[self.subst_val(x, mp) for x in v.args])
        if isinstance(v, Slice):
            return Slice(*[self.subst_val(x, mp) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, Stub) and hasattr(v, "subst"):
            return v.subst(mp)
        return v

    def subst_atom(self, a, mp):
        r = alg._subst_atom(a, {k: P(q) for k, q in mp.items()}, {})
        if len(r.terms) == 1:
            (m, c), = r.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return Atom("app", "str", r)

    # ------------------------------------------------------------- operators
    def binop(self, op, a, b):
        try:
            return self._binop(op, a, b)
        except (ShapeError, Undecidable) as e:
            self.shape_error(e)
            return self.unknown(f"operator: {e}")

    def _binop(self, op, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(a, lambda x: self.lift(b, lambda y: self.binop(op, x, y)))
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref) and self.rec(x).kind == "obj":
                r = self.rec(x)
                m = self.find_attr(r.cls, pre + OPNAMES.get(type(op), "?") + "__") if r.cls else None
                if m is not None:
                    return self.call(self.bind_attr(x, r.cls, m), [y], {})
        if isinstance(a, Stub) and "binop" in a.methods:
            return a.methods["binop"](self, op, a, b)
        if isinstance(b, Stub) and "binop" in b.methods:
            return b.methods["binop"](self, op, a, b)
        if isinstance(a, bytes) and isinstance(b, bytes) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and isinstance(op, ast.Add):
            return mkstr(a, b)
        if isinstance(a, (str, SStr)) and isinstance(op, ast.Mod):
            return SStr([Atom("sym", "fmt:" + vkey(a) + vkey(b))])
        if isinstance(op, ast.Add):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref) and self.rec(a).kind == "list" and self.rec(b).kind == "list":
                return self.new_list(self.rec(a).items + self.rec(b).items)
            if isinstance(a, Tup) and isinstance(b, Ref) and self.rec(b).kind == "list" or \
                    isinstance(b, Tup) and isinstance(a, Ref) and self.rec(a).kind == "list":
                self.raise_("TypeError", "tuple + list")
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Poly) and (isinstance(x, Tup) or isinstance(x, Ref) and self.rec(x).kind == "list"):
                    items = self.iter_items(x)
                    return self.repeat_items(x, items, y)
                if isinstance(y, Poly) and isinstance(x, str) and y.const() is not None:
                    return x * int(y.const())
        if isinstance(a, Ref) and isinstance(b, Ref) and self.rec(a).kind == "set" and self.rec(b).kind == "set":
            r = self.set_op(op, self.rec(a), self.rec(b))
            return r if r is not None else Opq("setop:" + type(op).__name__, self.freeze_key(a), self.freeze_key(b))
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and isinstance(b, Ref) and self.rec(a).kind == "dict" and self.rec(b).kind == "dict":
            d = self.new_dict(self.rec(a).entries)
            self.lib.method(d, "update", [b], {}, silent=True)
            return d
        sa, sb = self.lib.as_sparse(a), self.lib.as_sparse(b)
        if sa is not None or sb is not None:
            return self.lib.sparse_binop(op, a, b)
        aa, ab = self.as_arr(a), self.as_arr(b)
        if aa is None and isinstance(a, (Tup,)) and ab is not None:
            aa = self.to_arr(a)
        if ab is None and isinstance(b, (Tup,)) and aa is not None:
            ab = self.to_arr(b)
        if ab is None and aa is not None and isinstance(b, Ref) and self.rec(b).kind == "list":
            ab = self.to_arr(b)
        if aa is None and ab is not None and isinstance(a, Ref) and self.rec(a).kind == "list":
            aa = self.to_arr(a)
        if isinstance(op, ast.MatMult):
            if aa is None or ab is None:
                return Opq("matmul", a, b) if not (isinstance(a, Unknown) or isinstance(b, Unknown)) else self.unknown("matmul")
            r = arrays.matmul(aa, ab)
            return r if isinstance(r, Poly) else self.new_arr(r)
        if aa is not None or ab is not None:
            x = aa if aa is not None else self.as_num(a)
            y = ab if ab is not None else self.as_num(b)
            if x is None or y is None:
                return self.unknown(f"arithmetic on {a!r} and {b!r}"[:100])
            for q in (x, y):
                if isinstance(q, Arr) and "masked" in q.meta:
                    return self.lib.masked_op(lambda u: self.scalar_op(op, *((u, y) if q is x else (x, u))), q) \
                        if not (isinstance(x, Arr) and isinstance(y, Arr)) else self.lib.masked_binop(op, x, y)
            res = elementwise(lambda u, w: self.scalar_op(op, u, w), x, y)
            if isinstance(op, (ast.BitAnd, ast.BitOr)) and all(isinstance(q, (bool, Cond)) or isinstance(q, Arr) and self.lib.is_bool_arr(q) for q in (aa if aa is not None else a, ab if ab is not None else b)):
                res.meta["bool"] = True
            return self.new_arr(res)
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            if isinstance(op, ast.BitAnd):
                return c_and(a, b)
            if isinstance(op, ast.BitOr):
                return c_or(a, b)
        x, y = self.as_num(a), self.as_num(b)
        if x is None or y is None:
            if a is None or b is None:
                self.raise_("TypeError", "operand None")
            return Opq("binop:" + type(op).__name__, a, b)
        if isinstance(a, Opq) and isinstance(b, Opq) or (isinstance(a, Opq) or isinstance(b, Opq)):
            return Opq("binop:" + type(op).__name__, a, b)
        r = self.scalar_op(op, x, y)
        return r

    def freeze_key(self, v):
        return self.freeze(v)

    def repeat_items(self, x, items, n):
        if items is None:
            return self.unknown("repeat")
        c = n.const()
        if c is not None and c * max(1, len(items)) <= 64:
            out = items * int(c)
        elif len(items) == 1:
            it = items[0]
            if isinstance(it, Seg):
                # nested repetition: q-th copy of the segment
                out = None
            else:
                v = index(n, "m")
                out = [Seg(v, n, self.freeze(it))]
        else:
            v = index(n, "m")
            out = [Seg(v, n, Splice(tuple(self.freeze(i) for i in items)))]
        if out is None:
            return self.unknown("repetition of a symbolic list")
        return Tup(out) if isinstance(x, Tup) else self.new_list(out)

    def scalar_op(self, op, a, b):
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            if isinstance(op, ast.BitAnd):
                return c_and(a, b)
            if isinstance(op, ast.BitOr):
                return c_or(a, b)
        a, b = arrays.topoly(a), arrays.topoly(b)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if not b.terms:
                return P(Atom("unk", "division by zero"))
            return a / b
        if isinstance(op, ast.FloorDiv):
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                return P(ca // cb)
            ex = alg.exact_div(a, b)
            if ex is not None and arrays.integral(ex):
                return ex
            dv = alg.divmod_ranged(a, b)
            if dv is not None:
                return dv[0]
            return P(Atom("app", "floordiv", a, b))
        if isinstance(op, ast.Mod):
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                return P(ca % cb)
            ex = alg.exact_div(a, b)
            if ex is not None and arrays.integral(ex):
                return ZERO
            dv = alg.divmod_ranged(a, b)
            if dv is not None:
                return dv[1]
            # value in [-b, 0)
            if arrays.neg(a) is True and alg.nonneg(a + b):
                return a + b
            r = Atom("app", "mod", a, b)
            if arrays.integral(a) and arrays.integral(b):
                arrays.INTEGRAL.add(r)
                alg.UPPER.setdefault(r, b)
            return P(r)
        if isinstance(op, (ast.LShift, ast.RShift)):
            c = b.const()
            if c is not None and c.denominator == 1 and 0 <= c <= 64 and (isinstance(op, ast.LShift) or a.const() is not None and a.const().denominator == 1):
                return a * (2 ** int(c)) if isinstance(op, ast.LShift) else P(int(a.const()) >> int(c))
        if isinstance(op, ast.Pow):
            c = b.const()
            if c is not None and c.denominator == 1 and abs(c) <= 8:
                return alg.ppow(a, int(c))
            return mathfn("pow", a, b)
        return P(Atom("unk", "operator " + type(op).__name__))

    def compare(self, op, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(a, lambda x: self.lift(b, lambda y: self.compare(op, x, y)))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identity(a, b)
            return c_not_any(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return c_not_any(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Cond("opaque", self.freshname("cmp"))
        for x in (a, b):
            if isinstance(x, Stub) and "compare" in x.methods:
                return x.methods["compare"](self, op, a, b)
        aa, ab = self.as_arr(a), self.as_arr(b)
        if aa is not None or ab is not None:
            x = aa if aa is not None else self.as_num(a)
            y = ab if ab is not None else self.as_num(b)
            if x is None or y is None:
                return self.unknown("array comparison")
            try:
                if isinstance(x, Arr) and isinstance(y, Arr) and "parts" in x.meta and "parts" in y.meta and \
                        not arrays.same_shape(x.shape, y.shape):
                    return self.unknown("array comparison")
                res = elementwise(lambda u, w: self.scalar_cmp(op, u, w), x, y)
                res.meta.update({"cmp": (type(op).__name__, x, y)})
                return self.new_arr(res)
            except ShapeError as e:
                self.shape_error(e)
                return self.unknown(str(e))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equals(a, b)
            return c_not_any(r) if isinstance(op, ast.NotEq) else r
        x, y = self.as_num(a), self.as_num(b)
        if x is not None and y is not None:
            return self.scalar_cmp(op, x, y)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return Cond("opaque", "cmp:" + type(op).__name__ + vkey(a) + vkey(b))

    def scalar_cmp(self, op, a, b):
        a, b = arrays.topoly(a), arrays.topoly(b)
        if a in (INF, -INF) or b in (INF, -INF):
            k = [1 if x == INF else -1 if x == -INF else 0 if x.const() is not None else None for x in (a, b)]
            if None not in k:
                return {ast.Lt: k[0] < k[1], ast.Gt: k[0] > k[1], ast.LtE: k[0] <= k[1], ast.GtE: k[0] >= k[1], ast.Eq: k[0] == k[1], ast.NotEq: k[0] != k[1]}[type(op)]
        ints = arrays.integral(a) and arrays.integral(b)

        def less(p):
            """p < 0"""
            r = arrays.neg(p)
            if r is not None:
                return r
            return Cond("lt", p)
        if isinstance(op, ast.Lt):
            return less(a - b)
        if isinstance(op, ast.Gt):
            return less(b - a)
        if isinstance(op, ast.LtE):
            return less(a - b - 1) if ints else c_not(less(b - a))
        if isinstance(op, ast.GtE):
            return less(b - a - 1) if ints else c_not(less(a - b))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            d = a - b
            z = alg.is_zero(d)
            r = z if z is not None else Cond("eq", norm_sign(d))
            return c_not(r) if isinstance(op, ast.NotEq) else r
        return Cond("opaque", self.freshname("cmp"))

    def identity(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, (Unknown, Opq)):
                if isinstance(o, Opq):
                    if o.op in ("call",) and o.args and isinstance(o.args[0], Ext):
                        return False
                return Cond("opaque", "isnone:" + vkey(o))
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, (ClassV, FuncV, Ext)) or isinstance(b, (ClassV, FuncV, Ext)):
            return a == b if isinstance(a, Ext) else a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.equals(a, b)
        return Cond("opaque", "is:" + vkey(a) + vkey(b))

    def equals(self, a, b):
        if isinstance(a, (Poly, Cond)) or isinstance(b, (Poly, Cond)):
            x, y = self.as_num(a), self.as_num(b)
            if x is not None and y is not None:
                return self.scalar_cmp(ast.Eq(), x, y)
            if isinstance(a, (str, SStr, Tup)) or isinstance(b, (str, SStr, Tup)) or a is None or b is None:
                return False
        r = self.key_eq(a, b)
        if r is not None:
            return r
        if isinstance(a, (Ext, ClassV)) and isinstance(b, (Ext, ClassV)) and all(isinstance(x, ClassV) or x.path in BUILTIN_TYPES for x in (a, b)):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.rec(a), self.rec(b)
            if ra.kind in ("list",) and rb.kind == "list" and len(ra.items) == len(rb.items) and not any(isinstance(x, Seg) for x in ra.items + rb.items):
                res = True
                for x, y in zip(ra.items, rb.items):
                    res = c_and_any(res, self.equals(x, y))
                return res
            if ra.kind == "set" and rb.kind == "set":
                return self.set_eq(ra, rb)
            if ra.kind == rb.kind == "obj" and a.loc != b.loc and self.identity_eq(ra.cls) and self.identity_eq(rb.cls):
                return False
        if (a is None) != (b is None) and not isinstance(a, (Opq, Unknown)) and not isinstance(b, (Opq, Unknown)):
            return False
        return Cond("opaque", "eq:" + vkey(a) + vkey(b))

    def identity_eq(self, cls):
        """Objects of this class are equal only to themselves."""
        if not isinstance(cls, ClassV) or cls.kind not in ("class", "enum"):
            return False
        if self.find_attr(cls, "__eq__") is not None:
            return False
        todo = [cls]
        while todo:
            k = todo.pop()
            for b in k.bases:
                if isinstance(b, ClassV):
                    if b.kind not in ("class", "enum"):
                        return False
                    todo.append(b)
                elif not (isinstance(b, Ext) and b.path in ("abc.ABC", "builtins.object", "enum.Enum")):
                    return False
        return True

    def set_op(self, op, ra, rb):
        """Set operations whose membership tests can all be decided."""
        if any(isinstance(x, Seg) for x in ra.items + rb.items):
            return None

        def split(p, q):
            inn, out = [], []
            for x in p:
                r = self.find_pos(q, x)[0]
                if r == "unknown":
                    return None
                (inn if r == "found" else out).append(x)
            return inn, out
        p, q = split(ra.items, rb.items), split(rb.items, ra.items)
        if p is None or q is None:
            return None
        t = type(op).__name__
        items = {"Sub": p[1], "BitAnd": p[0], "BitOr": list(ra.items) + q[1], "BitXor": p[1] + q[1]}.get(t)
        return None if items is None else self.alloc(SetR(items))

    def set_eq(self, ra, rb):
        def sub(p, q):
            for x in p.items:
                if isinstance(x, Seg):
                    if not any(isinstance(y, Seg) and vkey(self.subst_val(y.body, {y.var: P(x.var)})) == vkey(x.body) and y.n == x.n for y in q.items):
                        return None
                else:
                    r = self.find_pos(q.items, x)
                    if r[0] == "absent":
                        return False
                    if r[0] == "unknown":
                        return None
            return True
        s, t = sub(ra, rb), sub(rb, ra)
        if s is False or t is False:
            return False
        if s is True and t is True:
            return True
        return Cond("opaque", "seteq:" + vkey(Frozen(ra)) + vkey(Frozen(rb)))

    def contains(self, c, x):
        if isinstance(c, Unknown):
            return Cond("opaque", self.freshname("in"))
        if isinstance(c, (str, bytes)) and type(c) is type(x):
            return x in c
        if isinstance(c, (Tup,)) or isinstance(c, Ref) and self.rec(c).kind in ("list", "set"):
            items = self.iter_items(c)
            r = self.find_pos(items, x)
            if r[0] not in ("found", "absent") and items is not None and not any(isinstance(i, (Seg, Unknown)) for i in items) and not isinstance(x, (Unknown, Opq)):
                e = [self.equals(x, i) for i in items]
                if any(q is True for q in e):
                    return True
                if all(q is False for q in e):
                    return False
            return {"found": True, "absent": False}.get(r[0], Cond("opaque", "in:" + vkey(x) + vkey(c)))
        if isinstance(c, Ref):
            k = self.rec(c).kind
            if k == "dict" or (k == "obj" and "__dict_data__" in self.rec(c).attrs):
                r = self.dict_get(c, x)
                return {"found": True, "absent": False}.get(r[0], Cond("opaque", "in:" + vkey(x) + vkey(c)))
            if k == "arr":
                a = self.rec(c).arr
                p = self.as_num(x)
                if a.ndim == 1 and p is not None and a.size.const() is not None and a.size.const() <= 500:
                    d = [(p - arrays.topoly(a.get((P(j),)))) for j in range(int(a.size.const()))]
                    if any(not q.terms for q in d):
                        return True
                    if all(q.const() is not None for q in d):
                        return False
                if a.ndim == 1 and p is not None:
                    return Cond("inarr", self.freshname("in"), ("member", p, a)) if False else InArr(p, a)
            if k == "obj":
                r = self.rec(c)
                m = self.find_attr(r.cls, "__contains__") if r.cls else None
                if m is not None:
                    return self.call(self.bind_attr(c, r.cls, m), [x], {})
        return Cond("opaque", "in:" + vkey(x) + vkey(c))

    # ------------------------------------------------------------- indexing
    def getitem(self, o, k):
        if isinstance(o, Unknown):
            return o
        if isinstance(k, Unknown):
            return k
        if isinstance(k, Phi):
            return self.lift(k, lambda x: self.getitem(o, x))
        try:
            return self._getitem(o, k)
        except (Undecidable, ShapeError) as e:
            self.shape_error(e)
            return self.unknown(f"index: {e}")
        except NeedSplit as e:
            if self.loopvars and any(alg.contains(e.d, u) for u in self.loopvars):
                raise
            return self.unknown(f"index: undecided {e}")

    def _getitem(self, o, k):
        if isinstance(o, Tup) or (isinstance(o, Ref) and self.rec(o).kind == "list"):
            items = self.iter_items(o)
            if isinstance(k, Slice):
                r = self.slice_items(items, k)
                if r is None:
                    return self.unknown("slice")
                return Tup(r) if isinstance(o, Tup) else self.new_list(r)
            p = self.as_num(k)
            if p is None:
                return self.unknown("list index")
            n = self.length(o)
            if arrays.neg(p) is True:
                p = p + n
            c, cn = p.const(), n.const()
            if c is not None and cn is not None and not (0 <= c < cn):
                self.raise_("IndexError")
            if c is not None and all(not isinstance(i, Seg) for i in items[:int(c) + 1]) and c >= 0:
                return items[int(c)]
            return self.item_at(items, p)
        if isinstance(o, (str, SStr, bytes)):
            if isinstance(o, (str, bytes)):
                if isinstance(k, Slice):
                    f = lambda x: None if x is None else int(x.const())
                    try:
                        return o[f(k.lo):f(k.hi):f(k.step)]
                    except Exception:
                        return self.unknown("string slice")
                p = self.as_num(k)
                if p is not None and p.const() is not None:
                    r = o[int(p.const())]
                    return P(r) if isinstance(r, int) else r
            return self.unknown("string index")
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "dict" or (r.kind == "obj" and "__dict_data__" in r.attrs and self.find_attr(r.cls, "__getitem__") is None):
                g = self.dict_get(o, k)
                if g[0] == "found":
                    return g[1]
                if g[0] == "absent":
                    self.raise_("KeyError", k)
                return self.unknown(g[1])
            if r.kind == "arr":
                if isinstance(k, (str, SStr)):
                    self.raise_("IndexError", "an array indexed by a name")
                return self.lib.arr_getitem(o, r.arr, k)
            if r.kind == "obj":
                m = self.find_attr(r.cls, "__getitem__") if r.cls else None
                if m is not None:
                    return self.call(self.bind_attr(o, r.cls, m), [k], {})
                return Opq("item", o, k)
            if r.kind == "havoc":
                return self.unknown(r.reason)
        if isinstance(o, Arr):
            return self.lib.arr_getitem(None, o, k)
        if hasattr(o, "triplet") and hasattr(o, "arr"):
            return self.lib.sparse_getitem(o, k)
        if isinstance(o, Stub):
            if "getitem" in o.methods:
                return o.methods["getitem"](self, o, k)
            return self.unknown(f"item of {o.name}")
        if isinstance(o, Opq):
            return Opq("item", o, self.freeze(k))
        if isinstance(o, (Ext, ClassV)):
            if isinstance(o, ClassV) and o.kind == "enum" and isinstance(k, str):
                if k not in o.members:
                    self.raise_("KeyError", k)
                return self.getattr(o, k)
            return o       # typing subscripts
        return self.unknown(f"subscript of {o!r}"[:80])

    def slice_items(self, items, k):
        if k.step is not None and (not isinstance(k.step, Poly) or k.step.const() != 1):
            if isinstance(k.step, Poly) and k.step.const() == -1 and k.lo is None and k.hi is None and not any(isinstance(i, Seg) for i in items):
                return items[::-1]
            return None
        n = ZERO
        for i in items:
            n = n + (i.n if isinstance(i, Seg) else 1)
        lo = arrays.norm_bound(self.as_num(k.lo) if k.lo is not None else None, n, ZERO)
        hi = arrays.norm_bound(self.as_num(k.hi) if k.hi is not None else None, n, n)
        out = []
        base = ZERO
        for it in items:
            m = it.n if isinstance(it, Seg) else ONE
            a = lo - base
            b = hi - base
            a = ZERO if arrays.neg(a - 1) is True else a
            b = m if arrays.neg(m - b - 1) is True and not arrays.neg(b - m) else b
            if arrays.neg(b - 1) is True or not (b - a).terms or arrays.neg(b - a) is True or arrays.neg(m - 1 - a) is True:
                base = base + m
                continue
            if isinstance(it, Seg):
                if not a.terms and b == m:
                    out.append(it)
                else:
                    cnt = b - a
                    if cnt.const() == 1:
                        out.append(self.inst(it, a))
                    else:
                        v = index(cnt, "s")
                        out.append(Seg(v, cnt, self.subst_val(it.body, {it.var: P(v) + a})))
            else:
                if arrays.neg(a) is None and a.terms:
                    return None
                out.append(it)
            base = base + m
        return out

    def setitem(self, o, k, v):
        if isinstance(o, Phi):
            self.lift(o, lambda x: self.setitem(x, k, v))
            return
        if isinstance(k, Phi):
            self.lift(k, lambda x: self.setitem(o, x, v))
            return
        if isinstance(o, Ref):
            r = self.rec(o)
            self.effect("setitem", o, k, v)
            if r.kind == "dict":
                self.dict_set(o, k, v)
                return
            if r.kind == "list":
                p = self.as_num(k)
                c = p.const() if p is not None else None
                if c is not None and not any(isinstance(i, Seg) for i in r.items):
                    it = list(r.items)
                    it[int(c)] = v
                    self.put(o, ListR(it))
                else:
                    self.put(o, HavocR("list item assignment"))
                return
            if r.kind == "arr":
                try:
                    new = self.lib.arr_setitem(r.arr, k, v)
                except (Undecidable, ShapeError) as e:
                    self.shape_error(e)
                    new = None
                    self.notes.append(f"array item assignment {e} at {self.site}")
                self.write_arr(o, new)
                return
            if r.kind == "obj":
                m = self.find_attr(r.cls, "__setitem__") if r.cls else None
                if m is not None:
                    self.call(self.bind_attr(o, r.cls, m), [k, v], {})
                    return
                if "__dict_data__" in r.attrs:
                    self.setitem(r.attrs["__dict_data__"], k, v)
                    return
            return
        if isinstance(o, Stub) and "setitem" in o.methods:
            o.methods["setitem"](self, o, k, v)
            return
        if isinstance(o, Opq):
            self.effect("setitem", o, k, v)
            return
        self.notes.append(f"item assignment on {o!r} at {self.site}"[:120])
        self.blind(o)

    def write_arr(self, ref, new):
        """In-place modification of an array: aliases through views become unknown."""
        r = self.rec(ref)
        root = ref
        seen = set()
        while isinstance(self.rec(root), ArrR) and self.rec(root).base is not None and root.loc not in seen:
            seen.add(root.loc)
            root = self.rec(root).base
        self.effect("mutate", root)
        for loc, x in list(self.st.store.items()):
            if isinstance(x, ArrR) and loc != ref.loc and (loc == root.loc or self.root_of(loc) == root.loc):
                sh = x.arr.shape
                self.st.store[loc] = ArrR(Arr(sh, lambda i: P(Atom("unk", "aliased array was modified"))), x.base)
        if new is None:
            sh = r.arr.shape
            new = Arr(sh, lambda i: P(Atom("unk", "array modified in an unresolved way")))
        self.put(ref, ArrR(new, r.base))

    def root_of(self, loc):
        seen = set()
        while loc not in seen:
            seen.add(loc)
            r = self.st.store.get(loc)
            if isinstance(r, ArrR) and r.base is not None:
                loc = r.base.loc
            else:
                break
        return loc


class FnAttr:
    kind = "fnattr"

    def __init__(self, v):
        self.v = v


class CtxCall(Value):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class BoundLib(Value):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<method {self.name} of {self.obj!r}>"


INF = P(Atom("sym", "inf"))


class Slice(Value):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    @property
    def key(self):
        return "slice(" + ",".join(vkey(x) for x in (self.lo, self.hi, self.step)) + ")"


class StarSeg(Value):
    def __init__(self, seg):
        self.seg = seg


class Splice:
    """Several items per repetition."""

    def __init__(self, items):
        self.items = items

    @property
    def key(self):
        return "splice" + ",".join(vkey(x) for x in self.items)


class SKey:
    """Keyword given by a symbolic string."""

    def __init__(self, v):
        self.key_value = v


class InArr(Cond):
    """Membership of a number in an array."""
    __slots__ = ("p", "a")

    def __init__(self, p, a):
        self.op, self.args = "opaque", ("inarr",)
        self.p, self.a = p, a
        self.key = "inarr:" + p.key + vkey(a)


KVARGS = object()

OPNAMES = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.MatMult: "matmul",
           ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.BitOr: "or", ast.BitAnd: "and"}


def c_not_any(c):
    if isinstance(c, (bool, Cond)):
        return c_not(c)
    return c


def c_and_any(a, b):
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        return c_and(a, b)
    return b if a is True else a


def norm_sign(d):
    lead = sorted(d.terms.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0]))[0][1]
    return d * (Fraction(1) / lead)


def subst_arr(a, mp):
    meta = {}
    out = Arr(tuple(subst(s, mp) for s in a.shape), None, **meta)

    def get(idx):
        # protect the requested index from the substitution
        ren = {}
        fresh = []
        for k, i in enumerate(idx):
            if any(m in alg.all_atoms(i) for m in mp):
                t = Atom("idx", f"t{id(out)}.{k}.{len(TMP)}")
                TMP.append(t)
                ren[t] = i
                fresh.append((k, t))
        if not ren:
            v = a.get(idx)
            return sv(v, mp)
        # the index mentions the substituted atoms: substitute with renamed atoms
        new = {m: q for m, q in mp.items()}
        prot = {}
        for m in mp:
            t = Atom("idx", f"p{len(TMP)}")
            TMP.append(t)
            if m in alg.UPPER:
                alg.UPPER[t] = alg.UPPER[m]
            if m in arrays.INTEGRAL:
                arrays.INTEGRAL.add(t)
            if m in alg.LOWER:
                alg.LOWER[t] = alg.LOWER[m]
            prot[m] = P(t)
        idx2 = tuple(subst(i, prot) for i in idx)
        v = a.get(idx2)
        v = sv(v, mp)
        return sv(v, {list(p.atoms())[0]: P(m) for m, p in prot.items()})

    def sv(v, mp):
        if isinstance(v, Poly):
            return subst(v, mp)
        if isinstance(v, Cond):
            return subst_cond(v, mp)
        return v
    out._get = get
    return out


TMP = []


def subst_cond(c, mp):
    if not isinstance(c, Cond):
        return c
    if isinstance(c, InArr):
        return InArr(subst(c.p, mp), subst_arr(c.a, mp))
    if c.op == "not":
        return c_not(subst_cond(c.args[0], mp))
    if c.op == "and":
        return c_and(*[subst_cond(x, mp) for x in c.args])
    if c.op == "or":
        return c_or(*[subst_cond(x, mp) for x in c.args])
    if c.op in ("lt", "eq"):
        p = subst(c.args[0], mp)
        if p == c.args[0]:
            return c
        if c.op == "lt":
            r = arrays.neg(p)
            return r if r is not None else Cond("lt", p)
        z = alg.is_zero(p)
        return z if z is not None else Cond("eq", norm_sign(p))
    return c


def mathfn(name, *args):
    args = [arrays.topoly(a) for a in args]
    f = alg.SIMPLIFY.get(name)
    if f is not None:
        return f(*args)
    return P(Atom("app", name, *args))


def _odd(name):
    def f(x):
        c = x.const()
        if c == 0:
            return ZERO
        lead = sorted(x.terms.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0]))[0][1]
        if lead < 0:
            return -P(Atom("app", name, -x))
        return P(Atom("app", name, x))
    return f


def _even(name):
    def f(x):
        c = x.const()
        if c == 0:
            return ONE
        lead = sorted(x.terms.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0]))[0][1]
        if lead < 0:
            return P(Atom("app", name, -x))
        return P(Atom("app", name, x))
    return f


for _n in ("sin", "tan", "arctan", "tanh", "arcsin", "sinh", "sign", "deg2rad", "rad2deg"):
    alg.SIMPLIFY[_n] = _odd(_n)
alg.SIMPLIFY["cos"] = _even("cos")
alg.SIMPLIFY["cosh"] = _even("cosh")


def _abs(x):
    if not x.terms:
        return ZERO
    lead = sorted(x.terms.items(), key=lambda kv: tuple((a.key, e) for a, e in kv[0]))[0][1]
    if x.const() is not None:
        return P(abs(x.const()))
    return P(Atom("app", "abs", -x if lead < 0 else x))


alg.SIMPLIFY["abs"] = _abs


def _pow(x, y):
    c = y.const()
    if c is not None and c.denominator == 1 and abs(c) <= 8:
        return alg.ppow(x, int(c))
    if c is not None and c == Fraction(1, 2):
        return alg.SIMPLIFY["sqrt"](x)
    return P(Atom("app", "pow", x, y))


alg.SIMPLIFY["pow"] = _pow


def _sqrt(x):
    c = x.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P(n) / P(d)
    return P(Atom("app", "sqrt", x))


alg.SIMPLIFY["sqrt"] = _sqrt
alg.SIMPLIFY["exp"] = lambda x: ONE if not x.terms else P(Atom("app", "exp", x))
