"""Obligations, verdicts, reports and evidence shared by all checks."""
import itertools
import json
import os
import pickle
import signal
import struct
import sys
import tempfile
import time
import traceback
from . import alg, arrays, evalterm
from .alg import P, Poly, Atom, delta
from .arrays import Arr, Undecidable, ShapeError, NeedSplit
from .interp import BLIND, Dead
from .values import *
from . import harness

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


SIZES = [dict(N=2, K=3, ns=2, nu=1, nc=1, nr=1, no=2), dict(N=3, K=2, ns=1, nu=2, nc=2, nr=1, no=1),
         dict(N=2, K=4, ns=1, nu=1, nc=1, nr=1, no=1)]


ONLY = os.environ.get("LSA_ONLY")


class Bad(Exception):
    """The construct breaks the rule."""

    def __init__(self, msg, site=None):
        super().__init__(msg)
        self.site = site


class Und(Exception):
    """The analysis cannot decide (never an alarm)."""


class TimeUp(BaseException):
    """The time given to one obligation is over."""


class Gone(Exception):
    """A public anchor the rule is about does not exist any more."""


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []          # (rule, construct, status, detail)
        self.functions = set()
        self.t0 = time.time()
        self.comparisons = 0
        self.samples = []
        self.explain = ""
        self.assumptions = []
        self.counts = {}
        self.anchors = []
        self._ctx = {}
        self._interps = {}
        self.queue = []        # (group, rule, construct, fn, args)

    # -- obligations
    def ob(self, rule, construct, fn, *a, group=None):
        """Queue an obligation; those of one group share their context and run in one process."""
        if ONLY and ONLY not in f"{rule} @ {construct}":
            return
        self.queue.append((group or construct, rule, construct, fn, a))

    def run_queue(self):
        groups = {}
        for k, q in enumerate(self.queue):
            groups.setdefault(q[0], []).append((k, q))
        groups = list(groups.values())
        n = min(len(groups), int(os.environ.get("LSA_PROCS", "0")) or min(8, os.cpu_count() or 1))
        if n <= 1:
            for g in groups:
                for _, q in g:
                    self.decide(*q[1:])
            return
        r, w = os.pipe()
        os.write(w, b"".join(struct.pack("i", k) for k in range(len(groups))))
        os.close(w)
        sys.stdout.flush()
        with tempfile.TemporaryDirectory(prefix="lsa") as d:
            pids = []
            for k in range(n):
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        self.work(r, groups, os.path.join(d, str(k)))
                        rc = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        os._exit(rc)
                pids.append(pid)
            for pid in pids:
                os.waitpid(pid, 0)
            done = {}
            for k in range(n):
                p = os.path.join(d, str(k))
                if not os.path.exists(p):
                    continue
                with open(p, "rb") as f:
                    while True:
                        try:
                            x = pickle.load(f)
                        except EOFError:
                            break
                        except pickle.UnpicklingError:
                            break
                        if x[0] == "gone":
                            raise Gone(x[1])
                        if x[0] == "ob":
                            done[x[1]] = x[2]
                            self.comparisons += x[3]
                        if x[0] == "end":
                            self.functions |= x[1]
                            for a, b in x[2].items():
                                self.counts[a] = b if not isinstance(b, (int, float)) else self.counts.get(a, 0) + b
                            for s in x[3]:
                                self.samples.append(s)
        for k, q in enumerate(self.queue):
            self.obs.append(done.get(k) or (q[1], q[2], "undecided", "the analysis process ended", 0, 0))

    def work(self, r, groups, path):
        base = dict(self.counts)
        base_samples = len(self.samples)
        try:
            signal.signal(signal.SIGALRM, self.alarm)
            self.timed = True
        except ValueError:
            pass
        with open(path, "wb") as f:
            while True:
                b = os.read(r, 4)
                if len(b) < 4:
                    break
                del BLIND[:]
                for k, q in groups[struct.unpack("i", b)[0]]:
                    self.obs = []
                    n0 = self.comparisons
                    try:
                        self.decide(*q[1:])
                    except Gone as e:
                        pickle.dump(("gone", str(e)), f)
                        f.flush()
                        return
                    pickle.dump(("ob", k, self.obs[-1], self.comparisons - n0), f)
                    f.flush()
            for i in self._interps.values():
                self.saw(i)
            cnt = {k: (v - base.get(k, 0) if isinstance(v, (int, float)) else v) for k, v in self.counts.items()}
            pickle.dump(("end", self.functions, cnt, self.samples[base_samples:]), f)

    timed = False

    def alarm(self, *a):
        raise TimeUp()

    def limit(self):
        """Seconds the next obligation may take."""
        if self.tier == "quick":
            return max(1, min(200, 750 - (time.time() - self.t0)))
        return 1800

    def decide(self, rule, construct, fn, a=()):
        t = time.time()
        n0 = self.comparisons
        try:
            if self.timed:
                signal.setitimer(signal.ITIMER_REAL, self.limit())
            d = fn(*a)
            st, detail = "holds", d if isinstance(d, str) else ""
        except TimeUp:
            st, detail = "undecided", "time limit"
        except Bad as e:
            st, detail = "violated", str(e)
            if e.site:
                construct = e.site
            if BLIND:
                st, detail = "undecided", f"{BLIND[0]}, so not certain: {e}"
        except Gone:
            raise
        except Und as e:
            st, detail = "undecided", str(e)
        except Dead as e:
            st, detail = "undecided", "path ends"
        except RecursionError:
            st, detail = "undecided", "recursion"
        except (Undecidable, ShapeError, NeedSplit, evalterm.Opaque) as e:
            st, detail = "undecided", f"{type(e).__name__} {e}"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            st, detail = "undecided", f"analysis: {type(e).__name__} {e} ({os.path.basename(tb.filename)}:{tb.lineno})"
            if os.environ.get("LSA_DEBUG"):
                traceback.print_exc()
        finally:
            if self.timed:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if BLIND and os.environ.get("LSA_BLIND"):
            print("BLIND", construct, BLIND[0][:150])
        self.obs.append((rule, construct, st, detail[:600], round(time.time() - t, 3), self.comparisons - n0))
        if os.environ.get("LSA_VERBOSE"):
            print(f"  [{st} {time.time() - t:.1f}] {rule} @ {construct} {detail[:300]}")
        return st == "holds"

    def undecided_run(self, why):
        self.obs.append(("analysis", self.pid if hasattr(self, "pid") else "-", "undecided", why[:600], 0, 0))

    def sized(self, rule, construct, build, fn, sizes=None):
        """Obligation over a context built for symbolic sizes.  build(None) is fully symbolic;
        a difference found there must also show for some concrete sizes (second, independent
        derivation), and concrete sizes are the fallback where the symbolic one is undecided."""
        key = id(build)
        cache = self._ctx.setdefault(key, {"build": build})

        def ctx(s):
            k = repr(s)
            if k not in cache:
                try:
                    cache[k] = build(s)
                except Dead:
                    cache[k] = Und("construction does not return")
                except Exception as e:
                    if os.environ.get("LSA_DEBUG"):
                        traceback.print_exc()
                    cache[k] = e
            if isinstance(cache[k], Gone):
                raise cache[k]
            if isinstance(cache[k], Exception):
                raise Und(f"context: {type(cache[k]).__name__} {cache[k]}")
            x = cache[k]
            I = getattr(x, "I", None)
            if I is not None:
                self._interps[id(I)] = I
            return x

        def one(s):
            try:
                return "holds", fn(ctx(s)) or ""
            except Bad as e:
                return "violated", e
            except Gone:
                raise
            except Und as e:
                return "undecided", str(e)
            except (Dead, RecursionError) as e:
                return "undecided", type(e).__name__
            except (Undecidable, ShapeError, NeedSplit, evalterm.Opaque) as e:
                return "undecided", f"{type(e).__name__} {e}"
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                if os.environ.get("LSA_DEBUG"):
                    traceback.print_exc()
                return "undecided", f"analysis: {type(e).__name__} {e} ({os.path.basename(tb.filename)}:{tb.lineno})"

        def go():
            st, d = one(None)
            if st == "holds":
                return d
            first = (st, d)
            n = 0
            for s in (sizes or SIZES):
                st2, d2 = one(s)
                if st2 == "violated":
                    if first[0] == "violated":
                        raise Bad(str(first[1]), getattr(first[1], "site", None))
                    raise Bad(f"sizes {s}: {d2}", getattr(d2, "site", None))
                if st2 == "holds":
                    n += 1
            if first[0] == "undecided" and n == len(sizes or SIZES):
                return f"for sizes {sizes or SIZES} only ({first[1]})"[:300]
            raise Und(f"{first[0]} symbolically, not confirmed for concrete sizes: {first[1]}")
        return self.ob(rule, construct, go, group=key)

    def saw(self, interp):
        self.functions |= {f for f in interp.visited}

    def count(self, k, n=1):
        if k == "comparisons":
            self.comparisons += n
            return
        self.counts[k] = self.counts.get(k, 0) + n

    # -- comparisons
    def eq_poly(self, got, want, what, assume=(), ix=""):
        got, want = topoly(got, what), topoly(want, what)
        self.comparisons += 1
        if alg.equal(got, want):
            if any(a.kind == "unk" for a in alg.all_atoms(got)):
                raise Und(f"{what}{ix}: value is not known: {alg.show(got)[:160]}")
            return
        try:
            w = refute2(got, want, assume)
        except evalterm.Opaque as e:
            raise Und(f"{what}{ix}: normal forms differ, {e}: {alg.show(got)[:160]} / {alg.show(want)[:160]}")
        if w is None:
            raise Und(f"{what}{ix}: normal forms differ, no witness: {alg.show(got)[:160]} / {alg.show(want)[:160]}")
        raise Bad(f"{what}{ix}: computed {alg.show(got)[:220]} but must be {alg.show(want)[:220]}; e.g. for {fmt(w)}")

    def eq_rat(self, got, want, what):
        """Equality of rational functions (with the identities of lsa.rational)."""
        from . import rational
        got, want = topoly(got, what), topoly(want, what)
        if rational.same(got, want):
            self.comparisons += 1
            return
        k = rational.Canon()
        self.eq_poly(k.poly(got), k.poly(want), what)

    def eq_arr(self, I, got, want, what, assume=()):
        g = harness.arr_of(I, got)
        if g is None:
            n = I.as_num(got) if not isinstance(got, Unknown) else None
            if n is not None and (not isinstance(want, Arr) or want.ndim == 0):
                return self.eq_poly(n, want.get(()) if isinstance(want, Arr) else want, what, assume)
            raise self.nonarr(I, got, what)
        if isinstance(want, Poly):
            want = Arr((), lambda ix, w=want: w)
        if g.ndim != want.ndim:
            raise Bad(f"{what}: has {g.ndim} axes instead of {want.ndim}")
        self.eq_shape(g.shape, want.shape, what)
        if "masked" in g.meta and "masked" in want.meta:
            for a, b, n in zip(g.meta["masked"], want.meta["masked"], ("", " (mask)")):
                self.eq_arr(I, a, b, what + n, assume)
            return
        size = g.size.const() if g.ndim else None
        if size is not None and size <= 600:
            for ix in itertools.product(*[range(int(s.const())) for s in g.shape]):
                ix = tuple(P(k) for k in ix)
                self.eq_poly(g.get(ix), want.get(ix), what, assume, "[" + ", ".join(alg.show(i) for i in ix) + "]")
            return
        for d in arrays.compare(g, Arr(g.shape, want.get)):
            self.comparisons += 1
            if d[0] == "shape":
                raise Und(f"{what}: shape")
            ix, vs, va, vb = d
            self.eq_poly(va, vb, what, assume, "[" + ", ".join(alg.show(i) for i in ix) + "]")
        self.comparisons += 1

    def eq_sym(self, t, want, n, what):
        """Entries of a symmetric matrix given by its upper triangle; want(a, b) at positions."""
        n = P(n)
        k = n.const()
        if k is not None and k <= 40:
            tab = t.table()
            for a in range(int(k)):
                for b in range(a, int(k)):
                    self.eq_poly(tab.get((a, b), alg.ZERO), want(P(a), P(b)), what, (), f"[{a}, {b}]")
            return
        a, b = opaque_index(n, "_row"), opaque_index(n, "_col")
        self.eq_poly(t.upper(a, b), want(a, b), what + "[_row, _col]")

    def eq_shape(self, g, w, what, assume=()):
        if len(g) != len(w):
            raise Bad(f"{what}: has {len(g)} axes instead of {len(w)}")
        for a, b in zip(g, w):
            self.eq_poly(P(a), P(b), f"{what}: size", assume)

    def nonarr(self, I, got, what):
        """The exception for a value that is no array: shape mismatch or unknown."""
        b = self.shape_bug(I)
        if b:
            return Bad(f"{what}: {b}")
        return Und(f"{what}: {got!r}"[:300])

    def shape_bug(self, I, since=0):
        """A recorded, unconditional combination of shapes that cannot match."""
        for e in I.st.effects[since:]:
            if e.kind != "shape" or e.pc:
                continue
            for a, b in e.data[1]:
                if any(str(x.args[0] if x.args else "").startswith("count") for x in alg.all_atoms(P(a)) ^ alg.all_atoms(P(b))):
                    continue          # numbers of entries that a mask selects
                try:
                    w = refute2(P(a), P(b))
                except evalterm.Opaque:
                    continue
                if w is not None:
                    return f"shapes cannot match at {(os.path.relpath(e.site[0], harness.REPO) if os.path.isabs(str(e.site[0])) else e.site[0])} in {e.func}: {e.data[0]} ({alg.show(P(a))} and {alg.show(P(b))})"
        return None

    # -- results
    def finish(self):
        self.run_queue()
        for i in self._interps.values():
            self.saw(i)
        known = load_known()
        viol, kf = [], []
        for rule, construct, st, detail, dt, n in self.obs:
            if st != "violated":
                continue
            key = (self.pid, rule, construct)
            if key in known:
                if key not in kf:
                    kf.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {rule} at {construct}: {known[key]}")
                continue
            viol.append((rule, construct, detail))
        und = [(r, c, d) for r, c, s, d, _, _ in self.obs if s == "undecided"]
        holds = sum(1 for o in self.obs if o[2] == "holds")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": self.explain,
                "obligations": len(self.obs), "discharged": holds, "undecided": len(und),
                "comparisons": self.comparisons,
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400],
                "rules": sorted({o[0] for o in self.obs}),
                "constructs": sorted({o[1] for o in self.obs})[:400],
                "samples": [f"{r} @ {c}: {s} {d}"[:300] for r, c, s, d, _, _ in self.obs[:400]],
                "undecided_list": [f"{r} @ {c}: {d}"[:400] for r, c, d in und],
                "known_findings": [" ".join(map(str, k)) for k in kf],
                **self.counts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} [{self.tier}]: {len(self.obs)} obligations, {holds} hold, {len(viol)} violated, "
              f"{len(und)} undecided, {len(kf)} known; {self.comparisons} comparisons, "
              f"{len(self.functions)} functions analysed, {ev['wall_s']} s")
        for r, c, d in und:
            print(f"  undecided: {r} @ {c}: {d}"[:300])
        for r, c, d in viol:
            print(f"  {c}: rule {r}: {d}")
        if viol:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.violations.json")
            with open(rp, "w") as f:
                json.dump([{"rule": r, "construct": c, "detail": d} for r, c, d in viol], f, indent=1)
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def load_known():
    """Known findings: lines 'finding: property=<id> rule=<rule> construct=<construct> :: text'."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                head, _, text = l[len("finding: "):].partition(" :: ")
                pid, _, rest = head.partition(" rule=")
                rule, _, construct = rest.partition(" construct=")
                out[(pid.replace("property=", "").strip(), rule.strip(), construct.strip())] = text.strip()
    return out


def fmt(w):
    v = ", ".join(f"{k}={x}" for k, x in sorted(w["values"].items()))[:200]
    return f"{v}: {w['left']:.6g} instead of {w['right']:.6g}"


def topoly(v, what=""):
    if isinstance(v, Poly):
        if alg.unknowns(v):
            raise Und(f"{what}: {alg.show(v)[:200]}")
        return v
    if isinstance(v, Unknown):
        raise Und(f"{what}: {v.reason}")
    if isinstance(v, Arr):
        if v.ndim == 0:
            return topoly(v.get(()), what)
        raise Und(f"{what}: array where a number was expected")
    p = arrays.topoly(v)
    if alg.unknowns(p):
        raise Und(f"{what}: {v!r}"[:200])
    return p


FREE = ("unit_", "fwd_", "sub_", "fn_", "name", "tr_")
OKAPP = set(evalterm.INTERP) | {"ind", "pow"}


def heads(p):
    """Uninterpreted heads of a term: opaque atoms themselves, names of unknown functions."""
    out = set()
    for a in alg.all_atoms(p) | p.atoms():
        if a.kind == "opq":
            out.add(a.key)
        elif a.kind == "app":
            n = str(a.args[0])
            if n not in OKAPP and not n.startswith(FREE):
                out.add(n)
    return out


def refute2(p, q, assume=(), trials=120):
    """As evalterm.refute; differences that rest on a function only one side uses are opaque."""
    h1, h2 = heads(p), heads(q)
    if h1 != h2:
        raise evalterm.Opaque("uninterpreted operation " + ", ".join(sorted(h1 ^ h2))[:100])
    return evalterm.refute(p, q, trials, assume)


# ------------------------------------------------------------------ derivatives and sparse matrices
def deriv(p, c, name="x"):
    """d p / d name[c] for a position c (index term), as sums of deltas."""
    def f(a):
        if a.kind == "elem" and a.args[0] == name:
            return delta(a.args[1][0] - c)
        return None
    return alg.diff(p, f)


class Triplet:
    """Sparse matrix given by (values, rows, columns): a family of entries per index region."""

    def __init__(self, vals, rows, cols):
        v = alg.index(vals.shape[0], "e")
        self.leaves = []
        self.arrs = (vals, rows, cols)
        n = vals.shape[0].const()
        if n is not None and n <= 1500:
            for e in range(int(n)):
                self.leaves.append(((), *[arrays.topoly(x.get((P(e),))) for x in (vals, rows, cols)]))
            return
        for mp, vs, (a, r, q) in arrays.cases([v], lambda m: tuple(
                arrays.topoly(x.get((m[v],))) for x in (vals, rows, cols))):
            self.leaves.append((vs, a, r, q))

    def check(self):
        for vs, a, r, q in self.leaves:
            for p in (a, r, q):
                if alg.unknowns(p):
                    raise Und(f"entry {alg.show(p)}"[:200])

    def bounds(self, c, nr, nc, what):
        """Every entry lies inside the matrix (decided where the normal form allows it)."""
        for vs, a, r, q in self.leaves:
            for p, n, s in ((r, nr, "row"), (q, nc, "column")):
                c.comparisons += 1
                if arrays.neg(p) is True or arrays.neg(p - n) is False:
                    raise Bad(f"{what}: {s} {alg.show(p)} lies outside the matrix of size {alg.show(P(n))}"[:300])

    def entry(self, r, c):
        return arrays.sum_leaves([(vs, a * delta(rr - r) * delta(cc - c)) for vs, a, rr, cc in self.leaves])

    def table(self):
        """Concrete sizes: {(row, column): sum of the values}."""
        v, r, q = self.arrs
        n = v.shape[0].const()
        out = {}
        if n is None:
            raise Und("matrix with a symbolic number of entries")
        for e in range(int(n)):
            a, b, c = [arrays.topoly(x.get((P(e),))) for x in (v, r, q)]
            if b.const() is None or c.const() is None:
                raise Und(f"position {alg.show(b)}, {alg.show(c)}"[:200])
            k = (int(b.const()), int(c.const()))
            out[k] = out.get(k, alg.ZERO) + a
        return out

    def both(self, x, y):
        """Entry (x, y) of the symmetric matrix as a solver reads a triangle: entries on either side of the diagonal count for both."""
        out = [(vs, a * (delta(r - x) * delta(q - y) + delta(r - y) * delta(q - x) - delta(r - q) * delta(r - x) * delta(q - y)))
               for vs, a, r, q in self.leaves]
        return arrays.sum_leaves(out)

    def upper(self, x, y):
        """Entry (x, y) of the symmetric matrix given by the entries on or above the diagonal."""
        out = []
        for vs, a, r, q in self.leaves:
            lo = arrays.neg(q - r)
            if lo is True:
                continue
            if lo is None:
                a = a * (1 - arrays.indicator(arrays.Cond("lt", q - r)))
            out.append((vs, a * (delta(r - x) * delta(q - y) + delta(r - y) * delta(q - x)
                                 - delta(r - q) * delta(r - x) * delta(q - y))))
        return arrays.sum_leaves(out)


def flat(a):
    return a if a.ndim == 1 else arrays.ravel(a)


def opaque_index(n, name):
    """An index below n that never asks for a split."""
    a = Atom("elem", name, (P(0),))
    alg.LOWER[a] = 0
    alg.UPPER[a] = P(n)
    arrays.INTEGRAL.add(a) if hasattr(arrays.INTEGRAL, "add") else None
    return P(a)


# ------------------------------------------------------------------ results of abstract calls
def call(I, f, /, *a, **k):
    """Abstract call; an unconditional raise of the analysed code is a violation."""
    n = len(I.outcomes)
    e0 = len(I.st.effects)
    try:
        return I.call(f, list(a), k)
    except Dead:
        for o in I.outcomes[n:]:
            if o.kind == "raise" and not o.pc:
                raise Bad(f"always raises {o.value!r} at {o.site[0]}"[:300])
        raise Und("call does not return")


def where(I, f, default="?"):
    """file:function of a callable value."""
    if isinstance(f, Method):
        f = f.func
    if isinstance(f, (Wrapped, Partial)):
        for n in ("func", "f", "inner"):
            if hasattr(f, n):
                return where(I, getattr(f, n), default)
    if isinstance(f, FuncV):
        q = f.qual
        parts = q.split(".")
        for k in range(len(parts), 0, -1):
            p = I.module_path(".".join(parts[:k]))
            if p:
                return os.path.relpath(p, I.root) + ":" + ".".join(parts[k:])
        return q
    return default


def must_raise(c, I, f, kw, what, args=()):
    """The call must end in a raise on every path the analysis cannot exclude."""
    n = len(I.outcomes)
    st = I.st
    c.comparisons += 1
    try:
        v = I.call(f, list(args), kw)
    except Dead:
        return
    if isinstance(v, Unknown):
        raise Und(f"{what}: {v.reason}")
    if any(o.kind == "raise" for o in I.outcomes[n:]):
        raise Und(f"{what}: raises under an undecided condition")
    raise Bad(f"{what} is accepted (returns {v!r})"[:300])
