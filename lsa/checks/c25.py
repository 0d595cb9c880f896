"""C25: logged results are unscaled, complete and correctly labelled."""
from ..checklib import *
from ..harness import Ocp, arr_of
from ..arrays import base_array, reshape, concat
from ..alg import ZERO, ONE, sym
from .. import arrays
from .c07 import constraint

CFG = "lumos.optimal_control.config"
FILES = {"scaled": "lumos/optimal_control/scaled_mesh_ocp.py:ScaledMeshOCP", "fixed": "lumos/optimal_control/fixed_mesh_ocp.py:FixedMeshOCP"}
SZ = [dict(N=2, K=3), dict(N=3, K=2)]
METRICS = ("alg_mod", "iter_count", "obj_value", "inf_pr", "inf_du", "mu", "d_norm", "regularization_size", "alpha_du", "alpha_pr", "ls_trials")


class Frame:
    """Stand-in of a table: labelled columns."""

    def __init__(self, z, cols):
        self.z, self.cols = z, list(cols)
        self.stub = Stub("frame", attrs={"columns": lambda I: I.new_list([n for n, _ in self.cols]), "loc": Stub("loc", methods={"setitem": self.put})},
                         methods={"setitem": self.set, "getitem": self.get, "to_csv": self.to_csv, "copy": lambda i, a, k: self.like(self.cols).stub,
                                  "abs": lambda i, a, k: self.like(self.cols, size=True).stub, "stack": lambda i, a, k: self.flat()})
        self.stub.frame = self
        self.size, self.sets = False, {}

    def like(self, cols, size=None):
        f = Frame(self.z, cols)
        f.size = self.size if size is None else size
        f.sets = dict(self.sets)
        if hasattr(self, "rows"):
            f.rows = self.rows
        return f

    def flat(self):
        """All entries under one another: the largest one's row and column are tokens."""
        s = Stub("stacked")
        s.methods["abs"] = lambda i, a, k: self.like(self.cols, size=True).flat()
        s.methods["idxmax"] = lambda i, a, k: Tup([Spot("row", self), Spot("column", self)])
        return s

    def put(self, I, o, k, v):
        q = I.iter_items(k)
        if q is None or len(q) != 2:
            self.sets = None
            return
        row = I.as_num(q[0]) if not isinstance(q[0], (Stub, Unknown)) else None
        if self.sets is None or row is None or row.const() is None or not isinstance(q[1], str):
            self.sets = None
            return
        self.sets[(int(row.const()), q[1])] = v

    def set(self, I, o, k, v):
        a = arr_of(I, v)
        self.cols.append((k, a if a is not None else v))

    def get(self, I, o, k):
        if isinstance(k, Ref) and I.rec(k).kind == "list":
            names = I.iter_items(k)
            if names is not None and all(isinstance(n, str) for n in names):
                last = dict(self.cols)
                if all(n in last for n in names):
                    return self.like([(n, last[n]) for n in names]).stub
            return I.unknown("frame columns")
        for n, v in reversed(self.cols):
            if n == k:
                if not isinstance(v, Arr):
                    return Stub("column", methods={"getitem": lambda i, o2, k2: v})
                arr = I.new_arr(v)
                return Stub("column", attrs={"values": arr}, methods={
                    "getitem": lambda i, o2, k2: Spot("value", self, n, k2) if isinstance(k2, Spot) else i.getitem(arr, k2),
                    "max": lambda i, a, q: Spot("largest", self, n), "to_numpy": lambda i, a, q: arr})
        return I.unknown("frame item")

    def to_csv(self, I, a, k):
        path = a[0] if a else list(k.values())[0]
        self.z.files[str(path) if isinstance(path, str) else repr(path)] = Frame(self.z, self.cols)
        self.z.writes.append(path)


class Spot(Stub):
    """A place in a table: the row or column of the largest entry, or the value of a column in that row."""

    def __init__(self, kind, frame, col=None, row=None):
        super().__init__(f"{kind} of {col or 'the largest entry'}")
        self.kind, self.frame, self.col, self.row = kind, frame, col, row


class Ctx:
    def __init__(self, kind, condensed=False, cyclic=False, free=(), every=1, runs=(), size=None, scales=True, log=True):
        self.states = ("time", "y", "vx") if kind == "fixed" else ("y", "vx")
        self.inputs = ("vx", "steer")
        self.con, self.res, self.out = ("load", "slip"), ("err",), ("slip", "power", "load", "err")
        t = lambda *g: (Tup(list(g)), P(len(g)))
        self.o = o = Ocp(kind, condensed=condensed, cyclic=cyclic, sizes=dict(size or SZ[0]), lazy=True,
                         config={"con_output_names": Tup(list(self.con))}, groups={"states": t(*self.states), "inputs": t(*self.inputs), "con_outputs": t(*self.con), "residuals": t(*self.res), "outputs": t(*self.out)})
        self.I = I = o.I
        self.files, self.writes, self.removed, self.combined, self.made_dirs = {}, [], [], [], []
        self.histories = []
        self.install()
        if log:
            lc = call(I, I.mod_get(CFG, "LoggingConfig"), sim_name="run", results_dir="results", log_every_nth_iter=P(every))
            I.setattr(o.cfg, "logging_config", lc)
        I.setattr(o.cfg, "non_cyclic_vars", I.new_list(list(free)))
        self.cyc = [g + "." + n for g, ns in (("states", self.states), ("inputs", self.inputs)) for n in ns if g + "." + n not in free]
        self.scale_of = {}
        if scales:
            sc = I.mod_get(CFG, "ScaleConfig")
            self.scale_of = {("states", "y"): sym("s_y"), ("states", "vx"): sym("s_vx"), ("inputs", "steer"): sym("s_steer"),
                             ("con_outputs", "load"): sym("s_load"), ("states_dot", "y"): sym("s_ydot")}
            if kind == "scaled":
                self.scale_of[("global", "mesh_scale")] = sym("s_mesh")
            I.setattr(o.cfg, "scales", Tup([call(I, sc, g, n, v) for (g, n), v in self.scale_of.items()]))
        kw = dict(model=o.model, sim_config=o.cfg)
        if kind == "fixed":
            kw["mesh_scale"] = o.scale
        self.before = dict(I.st.store)
        o.ocp = call(I, o.cls, **kw)
        self.scale = self.scales()
        I.overrides["cyipopt.Problem"] = Native("Problem", self.problem)
        I.overrides["platform.system"] = Native("system", lambda i, a, k: "Linux")
        I.overrides["os.path.exists"] = Native("exists", lambda i, a, k: True)
        guess = Native("get_init_guess", lambda i, a, k: i.new_arr(base_array("own_guess", (o.ndec,))))
        for q in ("scaled_mesh_ocp.ScaledMeshOCP", "fixed_mesh_ocp.FixedMeshOCP"):
            I.overrides[f"lumos.optimal_control.{q}.get_init_guess"] = guess
        self.runs = []
        for r in runs:
            self.plan = r
            del self.writes[:], self.removed[:], self.combined[:]
            self.histories = []
            call(I, I.getattr(o.ocp, "solve"), hessian_approximation="limited-memory")
            self.runs.append(dict(plan=r, files=dict(self.written), writes=list(self.writes), removed=list(self.removed),
                                  combined=list(self.combined), histories=list(self.histories), left=dict(self.files)))

    def group(self, g):
        return {"states": self.states, "inputs": self.inputs, "states_dot": self.states, "con_outputs": self.con}[g]

    def scales(self):
        o = self.o
        row = [self.scale_of.get((g, n), ONE) for g in ("states", "inputs", "states_dot", "con_outputs") for n in self.group(g)]
        S = int(o.S.const())
        v = row * S + ([self.scale_of.get(("global", "mesh_scale"), ONE)] if o.kind == "scaled" else [])
        return v

    # -- stand-ins
    def install(self):
        I = self.I
        ov = I.overrides
        self.written = {}

        def join(i, a, k):
            if all(isinstance(x, str) for x in a):
                return "/".join(a)
            return i.unknown("path")
        ov["os.path.join"] = Native("join", join)
        ov["datetime.datetime"] = Stub("datetime", attrs={"now": Native("now", lambda i, a, k: Stub("now", attrs={"strftime": Native("strftime", lambda i, a, k: "20200101-000000")}))})
        ov["datetime.datetime.now"] = Native("now", lambda i, a, k: Stub("now", attrs={"strftime": Native("strftime", lambda i, a, k: "20200101-000000")}))

        def path(i, a, k):
            self.made_dirs.append(a[0])
            return Stub("path", attrs={"mkdir": Native("mkdir", lambda i, a, k: None)})
        ov["pathlib.Path"] = Native("Path", path)
        ov["os.makedirs"] = Native("makedirs", lambda i, a, k: self.made_dirs.append(a[0]))

        def remove(i, a, k):
            self.removed.append(a[0])
            self.files.pop(str(a[0]), None)
        ov["os.remove"] = Native("remove", remove)

        def glob(i, a, k):
            p = a[0]
            if not isinstance(p, str):
                return i.unknown("glob")
            import fnmatch
            # no order is promised
            return i.new_list(sorted((f for f in self.files if fnmatch.fnmatch(f, p)), reverse=True))
        ov["glob.glob"] = Native("glob", glob)

        def frame(i, a, k):
            b = dict(zip(("data", "index", "columns"), a))
            b.update({str(x): y for x, y in k.items()})
            data = b.get("data")
            cols = b.get("columns")
            arr = arr_of(i, data)
            if arr is not None and cols is not None:
                names = i.iter_items(cols)
                if names is None or any(isinstance(x, Seg) for x in names):
                    return i.unknown("columns")
                if arr.ndim != 2:
                    return i.unknown("frame data")
                if P(arr.shape[1] - len(names)).terms:
                    self.bad = f"a table of {alg.show(arr.shape[1])} columns with {len(names)} labels ({', '.join(map(str, names))})"
                    return i.unknown("frame")
                return Frame(self, [(n, Arr(arr.shape[:1], lambda ix, q=q: arr.get((ix[0], P(q))))) for q, n in enumerate(names)]).stub
            its = i.iter_items(data) if data is not None else None
            if its is not None and isinstance(data, Ref) and i.rec(data).kind == "dict":
                return Frame(self, [(n, arr_of(i, i.getitem(data, n))) for n in its]).stub
            if its is not None:
                self.histories.append([r for r in its])
                f = Frame(self, [])
                f.rows = [r for r in its]
                return f.stub
            return i.unknown("frame")
        ov["pandas.DataFrame"] = Native("DataFrame", frame)
        ov["pandas.core.frame.DataFrame"] = ov["pandas.DataFrame"]

        def concat_(i, a, k):
            fs = i.iter_items(a[0]) if a else None
            ax = k.get("axis", a[1] if len(a) > 1 else ZERO)
            if fs is None or not all(hasattr(f, "frame") for f in fs):
                return i.unknown("concat")
            if ax in (ONE, "columns") or (isinstance(ax, Poly) and ax.const() == 1):
                return Frame(self, [c for f in fs for c in f.frame.cols]).stub
            self.combined.append([f.frame for f in fs])
            s = Stub("combined")
            for m in ("sort_values", "reset_index", "drop_duplicates", "sort_index"):
                s.methods[m] = lambda i, a, k: s
            s.methods["to_csv"] = lambda i, a, k: None
            s.methods["to_parquet"] = lambda i, a, k: None
            return s
        ov["pandas.concat"] = Native("concat", concat_)

        def read(i, a, k):
            f = self.files.get(str(a[0]))
            if f is None:
                return i.unknown("file")
            return f.like(f.cols).stub
        ov["pandas.read_csv"] = Native("read_csv", read)
        z = self
        orig = Frame.to_csv

        def to_csv(fr, I, a, k):
            path = a[0] if a else k.get("path_or_buf")
            new = fr.like(fr.cols)
            fr.z.files[str(path)] = new
            fr.z.written[str(path)] = new
            fr.z.writes.append(path)
        Frame.to_csv = to_csv

    def problem(self, I, a, k):
        def solve(i, b, l):
            p = self.o.ocp
            self.written = {}
            for it in self.plan:
                x = i.new_arr(base_array(it["x"], (self.o.ndec,)))
                if not it.get("again"):
                    i.call(i.getattr(p, "objective"), [x], {})
                args = [P(it["mode"]), P(it["iter"])] + [sym(f"{n}_{it['x']}") for n in METRICS[2:]]
                i.call(i.getattr(p, "intermediate"), args, {})
            info = i.new_dict([("status", ZERO), ("status_msg", "ok"), ("x", i.new_arr(base_array("solver_x", (self.o.ndec,)))), ("obj_val", sym("o"))])
            return Tup([i.new_arr(base_array("solver_x", (self.o.ndec,))), info])
        return Stub("problem", attrs={"solve": Native("solve", solve), "add_option": Native("add_option", lambda i, a, k: None),
                                      "addOption": Native("addOption", lambda i, a, k: None)})


def plan(*its, x="x"):
    return [dict(iter=n, mode=m, x=f"{x}{n}", again=ag) for n, m, ag in its]


def simple(n, x="x"):
    return plan(*[(k, 0, False) for k in range(n)], x=x)


# ------------------------------------------------------------------ expectation
def expected(z, name, it):
    """{label: column} of the table of one iterate."""
    o, I = z.o, z.I
    D = o.D
    S = int(o.S.const())
    x = base_array(name, (o.ndec,))
    at = lambda s, j: x.get((P(s) * o.nv + j,)) * z.scale[int(P(o.nv).const()) * s + j]
    out = {}
    j = 0
    col = lambda f: Arr((P(S),), lambda ix: f(int(ix[0].const())))
    for g in ("states", "inputs", "states_dot", "con_outputs"):
        for n in z.group(g):
            out[f"{g}.{n}"] = col(lambda s, j=j: at(s, j))
            j += 1
    ns, nu = len(z.states), len(z.inputs)
    sc = x.get((o.ndec - 1,)) * z.scale[-1] if o.kind == "scaled" else o.scale
    pts, K = o.points_arr, int(o.K.const())
    tau = lambda q: arrays.topoly(arr_of(I, I.getattr(o.tr, "interp_points")).get((P(q),)))

    def mesh(s):
        i, q = divmod(s, K - 1)
        if q == 0:
            return pts.get((P(i),)) * sc
        a, b = pts.get((P(i),)), pts.get((P(i + 1),))
        return (a + (b - a) * (tau(q) - tau(0)) * alg.ppow(tau(K - 1) - tau(0), -1)) * sc
    out["mesh"] = col(mesh)
    flat_ = arr_of(I, I.getattr(o.ocp, "_flat_normalized_mesh"))
    if flat_ is None:
        raise Und("mesh")
    m = Arr((P(S),), lambda ix: flat_.get(ix) * sc)
    out["mesh"] = m
    sub = lambda lo, n: I.new_arr(Arr((P(S), P(n)), lambda ix: at(int(ix[0].const()), lo + int(ix[1].const()))))
    par = o.params
    ret = o.batched_forward(I, [sub(0, ns), sub(ns, nu), I.new_arr(m), par], {})
    oo = arr_of(I, I.getattr(ret, "outputs"))
    for q, n in enumerate(z.out):
        out[f"outputs.{n}"] = col(lambda s, q=q: oo.get((P(s), P(q))))
    xs = I.new_arr(x)

    def con(nm):
        b = constraint(o, nm)
        if b is None:
            raise Und(f"constraint {nm}")
        return arr_of(I, call(I, I.getattr(b, "constraints"), xs))
    ma = con("model_algebra")
    nc, nr = len(z.con), len(z.res)
    if o.condensed:
        ic = ma
        base, per, labels = (S - 1) * ns, nc + nr, z.con + z.res
        sc_ = lambda s, q: ma.get((P(base + s * per + q),))
    else:
        ic = con("continuity")
        per, labels = ns + nc + nr, z.states + z.con + z.res
        sc_ = lambda s, q: ma.get((P(s * per + q),))
    for q, n in enumerate(z.states):
        out[f"interval_con.{n}"] = col(lambda s, q=q: ZERO if s == 0 else ic.get((P((s - 1) * ns + q),)))
    for q, n in enumerate(labels):
        out[f"stage_con.{n}"] = col(lambda s, q=q: sc_(s, q))
    b = constraint(o, "cyclic")
    if b is not None:
        cy = arr_of(I, call(I, I.getattr(b, "constraints"), xs))
        for q, n in enumerate(z.cyc):
            out[f"cyclic_con.{n}"] = col(lambda s, q=q: cy.get((P(q),)) if s == S - 1 else ZERO)
    out["iter"] = P(it)
    return out


def match(c, z, frame, want, what):
    I = z.I
    if getattr(z, "bad", None):
        raise Bad(f"{what}: {z.bad}")
    have = {}
    for n, v in frame.cols:
        if not isinstance(n, str):
            raise Und(f"{what}: label {n!r}"[:200])
        if n in have and n in want:
            raise Bad(f"{what} has two columns labelled {n}")
        have[n] = v
    for n, w in want.items():
        if n not in have:
            raise Bad(f"{what} has no column {n}; it has {', '.join(have)}"[:400])
        v = have[n]
        if isinstance(w, Arr):
            if not isinstance(v, Arr):
                a = arr_of(I, v)
                if a is None:
                    raise c.nonarr(I, v, f"{what}, column {n}")
                v = a
            c.eq_arr(I, I.new_arr(v), w, f"{what}, column {n}")
        else:
            c.eq_poly(I.as_num(v) if not isinstance(v, Arr) else v.get((ZERO,)), w, f"{what}, column {n}")


def name_of(path):
    return path.rsplit("/", 1)[-1] if isinstance(path, str) else repr(path)


def ob_tables(c, z):
    """Tables of the iterates hold the quantities their labels name."""
    for k, r in enumerate(z.runs):
        its = {}
        for it in r["plan"]:
            its.setdefault(it["iter"], it["x"])
        seen = {name_of(p): f for p, f in r["files"].items()}
        for n, f in seen.items():
            if n.startswith("iter_") and n.endswith(".csv"):
                i = int(n[5:-4])
                if i not in its:
                    raise Bad(f"solve {k}: a table for iteration {i}, which was not reported")
                match(c, z, f, expected(z, its[i], i), f"solve {k}, table of iteration {i}")
        last = r["plan"][-1]
        if "results.csv" not in seen:
            raise Bad(f"solve {k}: the final results are not written; files: {', '.join(seen)}"[:300])
        match(c, z, seen["results.csv"], expected(z, last["x"], last["iter"]), f"solve {k}, final results")
        if "results.csv" not in {name_of(p) for p in r["left"]}:
            raise Bad(f"solve {k}: the final results are removed")


def ob_complete(c, z):
    """All requested iterates and the last one are in the combined table, once each."""
    for k, r in enumerate(z.runs):
        every = z.every
        want = sorted({it["iter"] for it in r["plan"] if it["iter"] % every == 0} | {r["plan"][-1]["iter"]})
        if not r["combined"]:
            raise Und("no combined table")
        got = []
        for f in r["combined"][-1]:
            v = [x for n, x in f.cols if n == "iter"]
            p = z.I.as_num(v[-1]) if v and not isinstance(v[-1], Arr) else None
            if p is None or p.const() is None:
                raise Und("iteration number of a table")
            got.append(int(p.const()))
        c.comparisons += 1
        if sorted(got) != want:
            raise Bad(f"solve {k}: the combined table has iterations {sorted(got)} instead of {want}")


def ob_history(c, z):
    """One row of metrics per iteration of this solve, each metric under its own label."""
    I = z.I
    for k, r in enumerate(z.runs):
        rows = [f.rows for f in r["files"].values() if hasattr(f, "rows")]
        if not rows:
            rows = r["histories"]
        if not rows:
            raise Und("no metrics table")
        rows = rows[-1]
        its = []
        for it in r["plan"]:
            if it["iter"] not in [q["iter"] for q in its]:
                its.append(it)
        c.comparisons += 1
        if len(rows) != len(its):
            raise Bad(f"solve {k}: the history has {len(rows)} rows for {len(its)} iterations")
        for q, it in zip(rows, its):
            for n in METRICS:
                w = {"alg_mod": P(it["mode"]), "iter_count": P(it["iter"])}.get(n, sym(f"{n}_{it['x']}"))
                c.eq_poly(I.as_num(I.getitem(q, n)), w, f"solve {k}, iteration {it['iter']}, metric {n}")


def ob_worst(c, z):
    """The row of each recorded iteration names the constraint with the largest value in size and the mesh point it has it at."""
    I = z.I
    for k, r in enumerate(z.runs):
        fs = [f for n, f in r["files"].items() if hasattr(f, "rows")]
        if not fs:
            raise Und("no metrics table")
        sets = fs[-1].sets
        if sets is None:
            raise Und("rows of the metrics table")
        last = r["plan"][-1]["iter"]
        want = {it["iter"]: it["x"] for it in r["plan"] if it["iter"] % z.every == 0}
        want[last] = r["plan"][-1]["x"]
        rows = {n for n, _ in sets}
        c.comparisons += 1
        if rows != set(want):
            raise Bad(f"solve {k}: the largest violation is recorded for iterations {sorted(rows)} instead of {sorted(want)}")
        for n, x in want.items():
            name, mesh = sets.get((n, "max_violation_con_name")), sets.get((n, "max_violation_mesh"))
            if not isinstance(name, Spot) or not isinstance(mesh, Spot):
                raise Und("how the largest violation is found")
            exp = expected(z, x, n)
            cons = sorted(q for q in exp if "_con." in q)
            for t, what in ((name, "name"), (mesh.row if mesh.kind == "value" else mesh, "mesh")):
                if t.kind == "largest":
                    raise Bad(f"solve {k}, iteration {n}: the mesh point recorded is the largest of {t.col}, not that of the violation")
                f = t.frame
                got = [q for q, _ in f.cols]
                if t.kind != ("column" if what == "name" else "row"):
                    raise Bad(f"solve {k}, iteration {n}: the {what} recorded is the {t.name}")
                if sorted(got) != cons:
                    raise Bad(f"solve {k}, iteration {n}: the largest violation is sought among {sorted(set(got) ^ set(cons))} too, or without them"[:300])
                if not f.size:
                    raise Bad(f"solve {k}, iteration {n}: the largest value is taken instead of the largest in size, which misses negative violations")
                match(c, z, f, {q: exp[q] for q in cons}, f"solve {k}, constraints examined for iteration {n}")
            if mesh.kind != "value" or mesh.col != "mesh":
                raise Bad(f"solve {k}, iteration {n}: the mesh point recorded is the {mesh.name}")
            match(c, z, mesh.frame, {"mesh": exp["mesh"]}, f"solve {k}, mesh of iteration {n}")


def ob_off(c, z):
    if z.writes or z.made_dirs or z.removed:
        raise Bad(f"without a logging configuration files are touched: {z.writes + z.made_dirs + z.removed}"[:300])
    c.comparisons += 1


def run(c):
    c.explain = ("abstract interpretation of whole solves with a stand-in solver that reports given iterates (values symbolic) and stand-ins for tables and files; "
                 "every column of every written table is compared with the quantity its label names")
    c.assumptions = ["pandas and file functions as modelled in the check", "sizes, names and iteration histories are enumerated; all values are symbolic",
                     "the solver evaluates the objective at an iterate before it reports it"]
    runs = [("three iterates", 1, [simple(3)]), ("every second of six, solved again with fewer iterations", 2, [simple(6), simple(3, "y")]),
            ("stopped at the starting point, then solved", 1, [simple(1), simple(2, "y")]),
            ("restoration repeats an iteration", 1, [plan((0, 0, False), (1, 0, False), (1, 0, True), (2, 1, False), (3, 0, False))])]
    cfg = [("scaled", False, False, ()), ("fixed", True, True, ("states.time",)), ("scaled", False, True, ("inputs.vx",)), ("fixed", False, True, ("states.time", "states.vx"))]
    if c.tier == "thorough":
        cfg += [("scaled", True, False, ()), ("scaled", True, True, ("states.y", "states.vx")), ("fixed", False, False, ())]
    for kind, condensed, cyclic, free in cfg:
        for size in SZ[:1] if c.tier == "quick" else SZ:
            for name, every, plans in runs:
                if c.tier == "quick" and name != runs[1][0] and kind == "fixed":
                    continue
                cache = {}

                def ctx(a=(kind, condensed, cyclic, free, every, plans, size), every=every, cache=cache):
                    if "z" not in cache:
                        try:
                            cache["z"] = Ctx(*a)
                            cache["z"].every = every
                        except Exception as e:
                            cache["z"] = e
                    z = cache["z"]
                    if isinstance(z, Exception):
                        raise z
                    c._interps[id(z.I)] = z.I
                    return z
                lab = f"{FILES[kind]} [{kind}{', condensed' if condensed else ''}{', cyclic' if cyclic else ''}: {name}] {size}"
                c.ob("columns hold what their labels name", lab, lambda ctx=ctx: ob_tables(c, ctx()))
                c.ob("every requested iterate and the last one once", lab, lambda ctx=ctx: ob_complete(c, ctx()))
                c.ob("metrics history of this solve", lab, lambda ctx=ctx: ob_history(c, ctx()))
                c.ob("largest violation of every recorded iteration", lab, lambda ctx=ctx: ob_worst(c, ctx()))
    c.ob("no files without logging", FILES["scaled"], lambda: ob_off(c, Ctx("scaled", False, False, (), 1, [simple(2)], SZ[0], True, False)))
