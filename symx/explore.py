"""Symbolic exploration of one case of one property."""
import contextlib
import importlib
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import z3

from . import core, loader, npshim
from .core import Budget, Engine, Num, PathAbort, Unsupported
from .sctx import SymCtx

ST = npshim.ST


def _frac(v):
    """python value of a z3 numeral (algebraic numbers approximated)."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError(str(v))


class Mod:
    """A model plus the input values it was specialised to."""
    def __init__(self, m, sub):
        self.m, self.sub = m, sub
        self.at = {t.get_id(): v for t, v in sub}

    def eval(self, t, model_completion=True):
        v = self.at.get(t.get_id())
        if v is not None:
            return v
        return z3.simplify(self.m.eval(z3.substitute(t, self.sub), model_completion=True))


def cvc5_check(solver, timeout_ms):
    txt = "(set-logic ALL)\n" + solver.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, f.name], capture_output=True,
                           text=True, timeout=timeout_ms / 1000 + 10)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


class CaseRun:
    def __init__(self, mod, case, tier, seed):
        self.mod, self.case, self.tier, self.seed = mod, case, tier, seed
        opt = case.get("opt", {})
        self.eng = Engine(max_paths=opt.get("max_paths", 6000 if tier == "quick" else 60000),
                          max_time=opt.get("max_time", 200 if tier == "quick" else 1500),
                          branch_timeout=opt.get("branch_timeout", 2000))
        self.qt = opt.get("query_timeout", 20000 if tier == "quick" else 120000)
        self.n_wit = opt.get("witnesses", 6 if tier == "quick" else 25)
        self.max_cand = 4
        self.rnd = random.Random("%s/%s/%s" % (seed, mod.__name__, case["name"]))
        self.res = {"case": case["name"], "paths": 0, "props": 0, "decided": 0, "unknown": [],
                    "unsupported": [], "budget": None, "cands": [], "wits": [], "labels": {}, "samples": []}
        self.seen_wit = 0
        self.vcache = {}
        self.tiny = {}
        self.funcs = set()
        self.herr, self.nherr = None, 0

    # ------------------------------------------------------------ driving
    def go(self):
        t0 = time.time()
        loader.load()
        ST.concrete = False
        self._monitor(True)
        stack_unsup = 0
        try:
            self.eng.explore(self._run, self._on_path)
        except Budget as e:
            self.res["budget"] = str(e)
        except Exception:
            if self.herr is None or not self.res["cands"]:
                raise
        finally:
            self._monitor(False)
            ST.concrete = True
        if self.herr is not None and not self.res["cands"]:
            raise self.herr
        if os.environ.get("VERIF_DIAG"):
            with open(os.environ["VERIF_DIAG"], "a") as fh:
                for lab in sorted(getattr(self, "dall", ())):
                    fh.write("%s | %s | %s | %s\n" % (self.mod.__name__, self.case["name"], lab,
                                                     "LIVE" if lab in self.dlive else "VACUOUS"))
        s = self.eng.stats
        self.res.update(paths=s.paths, forks=s.forks, queries=s.queries, solver_s=s.solver_s,
                        wall=time.time() - t0, funcs=sorted(self.funcs))
        return self.res

    def _monitor(self, on):
        mon = sys.monitoring
        tid = 3
        if on:
            try:
                mon.use_tool_id(tid, "vfx")
            except ValueError:
                return
            pre = loader.REPO.rstrip("/") + "/pyDeltaRCM/"

            def cb(code, off):
                if code.co_filename.startswith(pre):
                    if ST.concrete:      # building the concrete starting model is not encoding
                        return None
                    self.funcs.add(code.co_filename[len(pre):] + ":" + code.co_qualname)
                return mon.DISABLE
            mon.register_callback(tid, mon.events.PY_START, cb)
            mon.set_events(tid, mon.events.PY_START)
        else:
            try:
                mon.set_events(tid, 0)
                mon.free_tool_id(tid)
                mon.restart_events()
            except ValueError:
                pass

    def _run(self):
        c = SymCtx(self.eng)
        self.ctx = c
        ST.concrete = False
        ST.rng = c.draw
        ST.on_seed = loader.RngState.seed
        ST.njit_depth = 0
        loader.RngState.reset()
        loader.Dataset.made, loader.Dataset.store, npshim.NPZ.store = [], {}, {}
        try:
            self.mod.run(c, **self.case.get("kw", {}))
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/pyDeltaRCM/" in f.filename]
            w = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else "?"
            self.res["unsupported"].append("%s at %s" % (e, w))
            if len(self.res["unsupported"]) > 20:
                raise Budget("too many paths outside the encoding")
            # what was claimed before that point is still decided
            c.truncated = True
        finally:
            c.cleanup()
        return c

    # ------------------------------------------------------------ deciding
    def _solve(self, forms, timeout=None, guided=True):
        """sat/unsat/unknown of path condition and forms, with model."""
        e = self.eng
        t = time.time()
        T = int(timeout or self.qt)
        late = t - e.deadline
        if late > 0:
            T = min(T, 1000 if late < 20 else 300)
        try:
            e.solver.push()
            try:
                for f in forms:
                    e.solver.add(f)
                e.solver.set("timeout", min(T, 400))
                r = e.solver.check()
                m = e.solver.model() if r == z3.sat else None
            finally:
                e.solver.pop()
            e.stats.queries += 1
            if r != z3.unknown:
                return r, m
            if late > 20:
                return z3.unknown, None
            if forms and self._cone(forms):
                return z3.unsat, None
            for tt in ((min(T, 4000), T) if T > 4000 else (T,)):
                for mk in (z3.Solver, self._nl):
                    try:
                        s = mk()
                        s.set("timeout", tt)
                        s.add(*e.pc)
                        s.add(*forms)
                        r = s.check()
                    except z3.Z3Exception:
                        r = z3.unknown
                    e.stats.queries += 1
                    if r == z3.sat:
                        return r, s.model()
                    if r == z3.unsat:
                        return r, None
                if guided and (tt < T or T <= 4000):
                    m = self._guided(forms)
                    if m is not None:
                        return z3.sat, m
            if T > 4000:
                s = z3.Solver()
                s.add(*e.pc)
                s.add(*forms)
                o = cvc5_check(s, T)
                e.stats.queries += 1
                if o == "unsat":
                    return z3.unsat, None
            return z3.unknown, None
        finally:
            e.stats.solver_s += time.time() - t

    def _vars(self, f):
        h = self.vcache.get(f.get_id())
        if h is not None and h[1].eq(f):
            return h[0]
        seen, out, todo = set(), set(), [f]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
        self.vcache[f.get_id()] = (out, f)
        return out

    def _cone(self, forms):
        """Is the query refuted by the constraints nearest to it alone?"""
        V = set()
        for f in forms:
            V |= self._vars(f)
        vs = [(c, self._vars(c)) for c in self.eng.pc]
        last = None
        for _ in range(3):
            new = set()
            for c, x in vs:
                d = x - V
                if len(d) == 1 and "!" in next(iter(d)) and x & V:
                    new |= d
            V |= new
            sub = [c for c, x in vs if x <= V]
            if len(sub) != last:
                last = len(sub)
                s = z3.Solver()
                s.set("timeout", 400)
                s.add(*sub)
                s.add(*forms)
                self.eng.stats.queries += 1
                if s.check() == z3.unsat:
                    return True
            if not new:
                break
        return False

    def _guided(self, forms, tries=16):
        """Model search with some inputs fixed to simple values of their range."""
        ts = list(self._terms().items())
        fx = self.eng.facts
        for k in range(tries):
            p = (0.95, 0.8, 0.6, 0.9)[k % 4]
            sub = []
            for n, t in ts:
                if self.rnd.random() > p:
                    continue
                if t.sort() == z3.BoolSort():
                    sub.append((t, z3.BoolVal(self.rnd.random() < 0.5)))
                    continue
                lo, lo_o, hi, hi_o = fx.iv(t)
                lo = Fraction(-4) if lo == -float("inf") else Fraction(lo)
                hi = max(lo + 4, Fraction(4)) if hi == float("inf") else Fraction(hi)
                if t.sort() == z3.IntSort():
                    sub.append((t, z3.IntVal(self.rnd.randint(int(-((-lo) // 1)), int(hi // 1)))))
                    continue
                u = self.rnd.random()
                if u < 0.25 and not lo_o:
                    q = lo
                elif u < 0.3 and not hi_o:
                    q = hi
                else:
                    q = lo + (hi - lo) * Fraction(self.rnd.randint(1, 15), 16)
                sub.append((t, z3.RealVal("%d/%d" % (q.numerator, q.denominator))))
            s = z3.Solver()
            s.set("timeout", 250)
            bad = False
            g = z3.simplify(z3.substitute(z3.And(*self.eng.pc, *forms), sub))
            if z3.is_false(g):
                bad = True
            elif not z3.is_true(g):
                s.add(g)
            self.eng.stats.queries += 1
            if not bad and s.check() == z3.sat:
                return Mod(s.model(), sub)
        return None

    @staticmethod
    def _nl():
        return z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "simplify",
                       "tseitin-cnf", "nlsat").solver()

    def _on_path(self, res, exc):
        c = self.ctx
        if exc is not None:
            lab = "unexpected %s" % type(exc).__name__
            tb = traceback.extract_tb(exc.__traceback__)
            inside = any("/pyDeltaRCM/" in f.filename for f in tb)
            if not inside:
                # the harness itself broke off: what it had claimed before is still decided
                self.herr = exc
                self.nherr += 1
                if self.nherr > 8:
                    raise exc
                c.truncated = True
                return self._decide(c)
            self.res["props"] += 1
            self.res["labels"][lab] = self.res["labels"].get(lab, 0) + 1
            n = sum(1 for x in self.res["cands"] if x["label"] == lab)
            if n < self.max_cand:
                r, m = self._solve([])
                if r == z3.sat:
                    self._cand(lab, [], m, repr(exc)[:300] + " @ " + "; ".join(
                        "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))
                elif r == z3.unsat:
                    self.res["decided"] += 1
                else:
                    self.res["unknown"].append(lab)
            c.truncated = True
        self._decide(c)

    def _decide(self, c):
        forms = []
        if os.environ.get("VERIF_DIAG"):
            self._diag(c)
        for lab, p in c.pending:
            self.res["props"] += 1
            self.res["labels"][lab] = self.res["labels"].get(lab, 0) + 1
            f = z3.simplify(c.exact(p))
            if z3.is_true(f) or self.eng.facts.bv(f) is True:
                self.res["decided"] += 1
                continue
            forms.append((lab, p, f))
        if forms:
            by = {}
            for x in forms:
                by.setdefault(x[0], []).append(x)
            todo = list(by.values())
            while todo:
                grp = todo.pop()
                if len(grp) > 1:
                    neg = z3.Or(*[z3.Not(f) for _, _, f in grp])
                    r, m = self._solve([neg], min(self.qt, 1500), guided=False)
                    if r == z3.unsat:
                        self.res["decided"] += len(grp)
                    else:
                        todo += [[x] for x in grp]
                    continue
                lab, p, f = grp[0]
                n = sum(1 for x in self.res["cands"] if x["label"] == lab and x["note"] != "within tolerance")
                r, m = self._solve([z3.Not(f)])
                if r == z3.unsat:
                    self.res["decided"] += 1
                elif r == z3.sat:
                    self.res["decided"] += 1
                    if n < self.max_cand:
                        self._strong(lab, p, m)
                else:
                    self.res["unknown"].append(lab)
        self.seen_wit += 1
        if getattr(c, "truncated", False):
            return
        if len(self.res["wits"]) < self.n_wit or self.rnd.random() < self.n_wit / self.seen_wit:
            w = self._witness()
            if w is not None:
                if len(self.res["wits"]) < self.n_wit:
                    self.res["wits"].append(w)
                else:
                    self.res["wits"][self.rnd.randrange(self.n_wit)] = w

    def _diag(self, c):
        """Development aid: comparisons of inputs that no margin can decide (these need exact=True), and
        claims whose hypothesis no path ever meets."""
        from .ctx import Atom, Comb
        names = set(c.inputs)
        if not hasattr(self, "dseen"):
            self.dseen, self.dlive, self.dall = {}, set(), set()
        base = [f for f in self.eng.pc if len(self._vars(f)) == 1 and self._vars(f) <= names]

        def walk(lab, p):
            if isinstance(p, Comb):
                for q in p.ps:
                    walk(lab, q)
            elif isinstance(p, Atom) and not p.exact:
                e = z3.simplify(c.exact(p))
                v = self._vars(e)
                if not v or not v <= names:
                    return
                k = (lab, str(e)[:80])
                if k in self.dseen or len(self.dseen) > 400:
                    return
                self.dseen[k] = 1
                for val in (True, False):
                    s = z3.Solver()
                    s.set("timeout", 500)
                    s.add(*[b for b in base if self._vars(b) <= v])
                    s.push()
                    s.add(e if val else z3.Not(e))
                    a = s.check()
                    s.pop()
                    s.add(c.robust(p, val, Fraction(c.wide, 5000)))
                    b = s.check()
                    if a == z3.sat and b == z3.unsat:
                        with open(os.environ["VERIF_DIAG"], "a") as fh:
                            fh.write("%s | %s | %s | %s %s\n" % (self.mod.__name__, self.case["name"], lab, val, k[1].replace("\n", " ")))
        for lab, p in c.pending:
            walk(lab, p)
            if lab in self.dlive:
                continue
            self.dall.add(lab)
            if isinstance(p, Comb) and p.op == "or" and len(p.ps) == 2 and isinstance(p.ps[0], Comb) and p.ps[0].op == "not":
                h = c.robust(p.ps[0].ps[0], True, Fraction(1, 5000))
                r, m = self._solve([h], 2000)
                if r != z3.sat:
                    continue
            self.dlive.add(lab)

    # ------------------------------------------------------------ models
    def _strong(self, lab, p, m0):
        """A candidate that violates the claim by a margin, if there is one."""
        c = self.ctx
        if lab in self.tiny and self.tiny[lab] > 6:
            return
        f = c.robust(p, False, Fraction(c.wide, 5000))
        r, m = self._solve([f], 8000)
        if r == z3.unsat:
            self.tiny[lab] = self.tiny.get(lab, 0) + 1
            if self.tiny[lab] <= 2:
                self._cand(lab, [z3.Not(c.exact(p))], m0, "within tolerance")
            return
        if r == z3.sat:
            self._cand(lab, [f], m, "margin 1/5000")
        got = 0
        for mg in (Fraction(1, 2), Fraction(1, 16), Fraction(1, 256)):
            f = c.robust(p, False, mg * c.wide)
            r2, m = self._solve([f], 4000)
            if r2 == z3.sat:
                self._cand(lab, [f], m, "margin %s" % mg)
                got += 1
                break
        if not got and r != z3.sat:
            self._cand(lab, [z3.Not(c.exact(p))], m0, "no margin")

    def _terms(self):
        c = self.ctx
        ts = dict(c.inputs)
        for i, (s, t) in enumerate(c.draws):
            if not z3.is_rational_value(t):
                ts["u!%d" % i] = t
        return ts

    def _snap(self, forms, m):
        """Move the model to short dyadic values while it stays a model."""
        ts = self._terms()
        reals = {n: t for n, t in ts.items() if t.sort() == z3.RealSort()}
        ints = {n: t for n, t in ts.items() if t.sort() != z3.RealSort()}
        fixed = list(forms)
        e = self.eng

        def val(t):
            return m.eval(t, model_completion=True)
        cur = {n: _frac(val(t)) for n, t in reals.items()}
        eqs = [t == val(t) for t in ints.values()]

        def numeral(q):
            return z3.RealVal("%d/%d" % (q.numerator, q.denominator))
        sub0 = [(t, val(t)) for t in ints.values()]
        for bits in (3, 6, 12, 20):
            sc = 1 << bits
            sub = list(sub0)
            for n, t in reals.items():
                q = Fraction(round(cur[n] * sc), sc)
                if n.startswith("u!"):
                    q = min(max(q, Fraction(1, sc)), Fraction(sc - 1, sc))
                sub.append((t, numeral(q)))
            m2 = self._fixed(fixed, sub)
            if m2 is not None:
                return m2
        # one at a time
        s = z3.Solver()
        s.set("timeout", 700)
        s.add(*e.pc)
        s.add(*fixed)
        s.add(*eqs)
        t_end = time.time() + 10
        for n, t in reals.items():
            if time.time() > t_end:
                break
            x = _frac(m.eval(t, model_completion=True))
            for bits in (2, 6, 12, 20):
                sc = 1 << bits
                q = Fraction(round(x * sc), sc)
                s.push()
                s.add(t == numeral(q))
                e.stats.queries += 1
                if s.check() == z3.sat:
                    m = s.model()
                    s.pop()
                    s.add(t == numeral(q))
                    break
                s.pop()
        return Mod(m, [(t, m.eval(t, model_completion=True)) for t in list(ints.values()) + list(reals.values())])

    def _fixed(self, forms, sub):
        """Model in which the inputs have the given values, or None."""
        s = z3.Solver()
        s.set("timeout", 2000)
        g = z3.simplify(z3.substitute(z3.And(*self.eng.pc, *forms), sub))
        if z3.is_false(g):
            return None
        if not z3.is_true(g):
            s.add(g)
        self.eng.stats.queries += 1
        if s.check() != z3.sat:
            return None
        return Mod(s.model(), sub)

    def _solve_q(self, forms):
        return self._solve(forms, 2000)

    def _values(self, m):
        c = self.ctx
        vals = {}
        for n, t in c.inputs.items():
            v = _frac(m.eval(t, model_completion=True))
            vals[n] = v if isinstance(v, (bool, int)) else str(v)
        draws = [(s, str(Fraction(_frac(m.eval(t, model_completion=True))))) for s, t in c.draws]
        return vals, draws

    def _cand(self, lab, forms, m, note):
        try:
            m = self._snap(forms, m)
            vals, draws = self._values(m)
        except Exception as ex:   # a model that cannot be read back is no candidate
            self.res["unknown"].append("%s: model extraction (%r)" % (lab, ex))
            return
        self.res["cands"].append({"label": lab, "values": vals, "draws": draws, "note": note,
                                  "case": self.case["name"], "kw": self.case.get("kw", {})})

    def _witness(self):
        r, m = self._solve_q([])
        if r != z3.sat:
            return None
        try:
            m = self._snap([], m)
            vals, draws = self._values(m)
            obs = []
            for n, xs in self.ctx.obs:
                out = []
                for x in xs:
                    if isinstance(x, str):
                        out.append(x)
                    elif not x.sym:
                        out.append(float(x.v))
                    else:
                        out.append(float(_frac(m.eval(x.v, model_completion=True))))
                obs.append([n, out])
        except Exception:
            return None
        return {"values": vals, "draws": draws, "obs": obs, "checks": list(self.ctx.checks),
                "case": self.case["name"], "kw": self.case.get("kw", {})}


def run_case(args):
    prop, ci, tier, seed, dead = args
    z3.set_param("smt.random_seed", seed)
    mod = importlib.import_module("props." + prop.lower())
    case = mod.cases(tier)[ci]
    try:
        if time.time() > dead:
            return {"case": case["name"], "error": "not started: time budget of the check used up"}
        r = CaseRun(mod, case, tier, seed)
        r.eng.deadline = min(r.eng.deadline, dead)
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(
                sys.stdout if os.environ.get("VERIF_SHOW") else null):
            return r.go()
    except BaseException as e:
        return {"case": case["name"], "error": "".join(traceback.format_exception(e))[-4000:]}
