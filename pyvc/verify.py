"""Verification of one contract: exploration to a fixpoint of loop information, then discharge of obligations."""
import copy
import importlib
import json
import os
import subprocess
import tempfile
import time
import traceback
import z3
from .values import *
from .core import *
from .interp import Interp
from . import models as M

PROVE = int(os.environ.get("PYVC_PROVE_MS", "20000"))
REGISTRY = {}       # property id -> [Contract]


class Contract:
    def __init__(self, prop, name, target, fn, schema=None, callees=None, inv=None, deepcopy=None, budget=240,
                 unroll_ok=True, note=""):
        self.prop, self.name, self.target, self.fn = prop, name, target, fn
        self.schema = schema or {}
        self.callees = callees or {}
        self.inv = inv
        self.deepcopy = deepcopy
        self.budget = budget
        self.unroll_ok = unroll_ok
        self.note = note

    @property
    def id(self):
        return f"{self.prop}.{self.name}"


def contract(prop, name, target, **kw):
    def deco(fn):
        c = Contract(prop, name, target, fn, **kw)
        REGISTRY.setdefault(prop, []).append(c)
        return fn
    return deco


def also(prop, *ids):
    """The property also rests on contracts written for other properties."""
    for i in ids:
        p, n = i.split(".", 1)
        found = [c for c in REGISTRY[p] if c.name == n or n == "*"]
        assert found, i
        for c in found:
            d = copy.copy(c)
            d.prop, d.name = prop, p + "_" + c.name
            REGISTRY.setdefault(prop, []).append(d)


def resolve(path):
    mod, qual = path.split(":")
    try:
        o = importlib.import_module(mod)
        for p in qual.split("."):
            if isinstance(o, type):
                o = Interp.class_attr(o, p) or getattr(o, p)
            else:
                o = getattr(o, p)
    except (ImportError, AttributeError) as x:
        raise Unsupported(f"no {path} in the current source ({x})")
    if isinstance(o, staticmethod):
        o = o.__func__
    return o


class Outcome:
    """How a call ended."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *classes):
        return self.exc is not None and issubclass(self.exc.cls, classes)


def execute(e, fn, *args, **kwargs):
    """Run a repository function (by path or object) on symbolic arguments."""
    if isinstance(fn, str):
        p = fn
        fn = resolve(p)
        e.ghost["target"] = fn
        e.run.targets.add(p)
    try:
        if isinstance(fn, type):
            return Outcome(e.interp.call(fn, args, kwargs))
        import types
        if isinstance(fn, types.FunctionType):
            return Outcome(e.interp.inline(fn, args, kwargs))
        return Outcome(e.interp.call(fn, args, kwargs))
    except PyRaise as p:
        return Outcome(exc=p.obj)


class Run:
    def __init__(self, c, unroll=None, budget=None):
        self.contract = c
        self.unroll = unroll
        self.budget = budget or c.budget
        self.stats = {"branch_checks": 0, "branch_s": 0.0, "paths": 0, "rounds": 0}
        self.loops = {}
        self.changed = False
        self.inlined = set()
        self.trusted = set()
        self.targets = set()
        self.class_ids = {}
        self.logs = []
        self.t0 = time.time()
        self.callees = {}
        self.used_contracts = set()
        self._sub = {}

    # ---- services for E
    def check_budget(self):
        if time.time() - self.t0 > self.budget:
            raise Unsupported("time budget of the exploration used up; %d pending" % len(self.work))

    def push(self, prefix):
        self.work.append(prefix)

    def log(self, m):
        self.logs.append(m)

    def obligation(self, e, name, goal):
        self.obls.append((name, list(e.pc), goal, dict(e.inputs), e))

    def cover(self, e, name):
        if self.covers.get(name):
            return
        self.covers[name] = e.check(ms=2000) != z3.unsat

    def class_id(self, cls):
        q = cls.__module__ + "." + cls.__qualname__
        return self.class_ids.setdefault(q, len(self.class_ids) + 1)

    def subclasses(self, cls):
        if cls in self._sub:
            return self._sub[cls]
        only = self.contract.schema.get("classes", {}).get(cls)
        if only is not None:
            out = list(only)
        else:
            out, st = [], [cls]
            while st:
                c = st.pop()
                if c not in out:
                    out.append(c)
                    st += [s for s in c.__subclasses__() if s.__module__.startswith("oidcop")]
            out.sort(key=lambda c: (c.__module__, c.__qualname__))
        self._sub[cls] = out
        return out

    def subclass_ids(self, cls):
        return [self.class_id(c) for c in self.subclasses(cls)]

    def schema_kind(self, cls, attr):
        for c in cls.__mro__:
            s = self.contract.schema.get(c)
            if s is not None and attr in s:
                return s[attr]
        return None

    def field_kind(self, attr):
        ks = [s[attr] for c, s in self.contract.schema.items() if c != "classes" and attr in s]
        if not ks:
            raise Unsupported(f"no declared kind for attribute {attr}")
        if any(not same_kind(k, ks[0]) for k in ks):
            raise Unsupported(f"attribute {attr} declared with two kinds")
        return ks[0]

    def callee_contract(self, f):
        if not self.callees:
            return None
        key = (getattr(f, "__module__", ""), getattr(f, "__qualname__", ""))
        c = self.callees.get(key)
        if c is not None:
            self.used_contracts.add(f"{key[0]}:{key[1]}")
        return c

    # ---- main
    def explore(self):
        for p, fn in self.contract.callees.items():
            mod, qual = p.split(":")
            self.callees[(mod, qual)] = fn
        while True:
            self.stats["rounds"] += 1
            if self.stats["rounds"] > 60:
                raise Unsupported("no fixpoint of the loop information")
            self.changed = False
            self.obls, self.covers = [], {}
            self.work = [[]]
            npaths = 0
            try:
                while self.work:
                    self.check_budget()
                    prefix = self.work.pop()
                    e = E(self, prefix)
                    Interp(e)
                    npaths += 1
                    if npaths > 4000:
                        raise Unsupported("more than 4000 paths")
                    try:
                        self.contract.fn(e)
                    except PathEnd:
                        pass
                    except PyRaise as p:
                        raise Unsupported(f"exception escapes the contract: {p}")
            except Restart:
                continue
            self.stats["paths"] = npaths
            if not self.changed:
                return

    def run(self):
        c = self.contract
        res = {"contract": c.id, "target": c.target, "status": "proved", "reason": "", "obligations": {},
               "failed": [], "covers": {}, "solver_s": 0.0}
        self.t0 = time.time()
        try:
            self.explore()
        except Unsupported as x:
            res["status"], res["reason"] = "undecided", f"outside the verified subset: {x}"
        except RecursionError:
            import os
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc(limit=-12)
            res["status"], res["reason"] = "undecided", "outside the verified subset: recursion"
        except z3.Z3Exception as x:
            res["status"], res["reason"] = "undecided", f"solver interface: {x}"
        if res["status"] == "proved":
            self.discharge(res)
        res["paths"] = self.stats["paths"]
        res["rounds"] = self.stats["rounds"]
        res["inlined"] = sorted(self.inlined)
        res["targets"] = sorted(self.targets)
        res["used_contracts"] = sorted(self.used_contracts)
        res["trusted"] = sorted(self.trusted)
        res["loops"] = len(self.loops)
        res["lost_candidates"] = self.logs[:20]
        res["wall_s"] = round(time.time() - self.t0, 2)
        res["branch_s"] = round(self.stats["branch_s"], 2)
        return res

    def discharge(self, res):
        t0 = time.time()
        agg = res["obligations"]
        unknown = []
        for name, pc, goal, inputs, e in self.obls:
            o = agg.setdefault(name, {"paths": 0, "ok": 0, "by": {}})
            o["paths"] += 1
            if res["failed"] and any(f["obligation"] == name for f in res["failed"]):
                continue
            if unknown and time.time() - t0 > 12 * PROVE / 1000:       # undecided anyway
                unknown.append(name)
                continue
            verdict, by, model = prove(pc, goal, quick=name in unknown)
            o["by"][by] = o["by"].get(by, 0) + 1
            if verdict == "valid":
                o["ok"] += 1
            elif verdict == "refuted":
                res["failed"].append({"obligation": name, "by": by,
                                      "model": show_model(e, inputs, model) if model is not None else "",
                                      "goal": str(z3.simplify(M.zb(goal)))[:1500]})
            else:
                unknown.append(name)
                import os
                if os.environ.get("PYVC_UNKNOWN"):
                    print("UNKNOWN", name, flush=True)
                    open("/tmp/unknown.smt2", "w").write("\n".join("(assert %s)" % x.sexpr() for x in pc) + "\n; goal " + goal.sexpr())
        res["solver_s"] = round(time.time() - t0, 2)
        res["covers"] = dict(self.covers)
        if not self.obls:
            res["status"], res["reason"] = "undecided", "no obligation was generated"
        elif res["failed"]:
            res["status"] = "failed"
        elif unknown:
            res["status"] = "undecided"
            res["reason"] = "solver gave no answer for: " + ", ".join(sorted(set(unknown)))
        if any(not ok for ok in self.covers.values()):
            bad = [n for n, ok in self.covers.items() if not ok]
            if res["status"] == "proved":
                res["status"] = "undecided"
                res["reason"] = "vacuous: not reachable: " + ", ".join(bad)


def prove(pc, goal, quick=False):
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "valid", "simplifier", None
    def attempt(ms, opts=None):
        s = z3.Solver()
        for k, v in (opts or {}).items():
            try:
                s.set(k, v)
            except z3.Z3Exception:
                pass
        s.set("timeout", ms)
        s.add(*pc)
        s.add(z3.Not(goal))
        return s, s.check()

    short = max(2000, PROVE // 4)
    for by, ms, opts in (("z3", short, None), ("cvc5", short, None),
                         ("z3 (alternative settings)", PROVE, {"smt.mbqi": False, "smt.random_seed": 7}),
                         ("z3", PROVE, None), ("z3 (alternative settings)", PROVE, {"smt.arith.solver": 2, "smt.random_seed": 3}),
                         ("cvc5", PROVE, None)):
        if quick and ms != short:
            break
        if by == "cvc5":
            s = z3.Solver()
            s.add(*pc)
            s.add(z3.Not(goal))
            if cvc5(s, ms) == "unsat":
                return "valid", by, None
            continue
        s, r = attempt(ms, opts)
        if r == z3.unsat:
            return "valid", by, None
        if r == z3.sat:
            return "refuted", by, s.model()
    return "unknown", "none", None


def cvc5(s, ms=20000):
    try:
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={ms}", f.name], capture_output=True, text=True,
                               timeout=ms / 1000 + 10)
            return p.stdout.strip().split("\n")[0]
        finally:
            os.unlink(f.name)
    except Exception:
        return "error"


def show_model(e, inputs, m):
    out = {}
    for n, v in inputs.items():
        try:
            out[n] = show(e, v, m, 0)
        except Exception as x:
            out[n] = f"? {x}"
    return out


def show(e, v, m, d):
    if is_conc(v):
        return v
    if isinstance(v, (SInt, SBool, SStr, SBytes, SVal)):
        return str(m.eval(v.t, model_completion=True))
    if isinstance(v, tuple):
        return [show(e, x, m, d + 1) for x in v]
    if d > 3:
        return repr(v)
    if isinstance(v, Dict) and v.native:
        return {str(k): show(e, x, m, d + 1) for k, x in v.items.items()}
    if isinstance(v, List) and v.native:
        return [show(e, x, m, d + 1) for x in v.items]
    if isinstance(v, (List, Dict)):
        out = {"ref": str(m.eval(v.ref, model_completion=True))}
        if isinstance(v, List):
            out["len"] = str(m.eval(z3.Select(e.heap0.get("LLEN", e.comp("LLEN")), v.ref), model_completion=True))
            out["elements"] = str(m.eval(z3.Select(e.heap0.get("LEL", e.comp("LEL")), v.ref), model_completion=True))[:400]
        else:
            out["keys"] = str(m.eval(z3.Select(e.heap0.get("DDOM", e.comp("DDOM")), v.ref), model_completion=True))[:400]
            out["values"] = str(m.eval(z3.Select(e.heap0.get("DVAL", e.comp("DVAL")), v.ref), model_completion=True))[:400]
        return out
    if isinstance(v, Obj):
        return {k: show(e, x, m, d + 1) for k, x in v.fields.items()}
    if isinstance(v, Ref):
        out = {"ref": str(m.eval(v.ref, model_completion=True))}
        for comp, a in e.heap0.items():
            if comp.startswith("F:"):
                out[comp[2:]] = str(m.eval(z3.Select(a, v.ref), model_completion=True))[:120]
        return out
    return repr(v)


is_conc = M.is_conc


def verify(c, unroll=None):
    """Verify one contract; a failed proof that used loop cuts is re-examined with loops unrolled."""
    r = Run(c).run()
    if r["status"] == "failed" and r["loops"] and c.unroll_ok:
        best = None
        for k in (1, 2, 3):
            r2 = Run(c, unroll=k, budget=60).run()
            if r2["status"] == "failed":
                r["unrolled"] = {"k": k, "failed": r2["failed"]}
                return r
            best = r2["status"]
        r["status"] = "undecided"
        r["reason"] = ("proof lost (loop invariant not found): " + ", ".join(f["obligation"] for f in r["failed"])
                       + f"; with loops unrolled 3 times: {best}")
    return r


def safe_verify(c):
    try:
        return verify(c)
    except Exception as x:
        return {"contract": c.id, "target": c.target, "status": "undecided",
                "reason": f"verifier error: {type(x).__name__}: {x}", "trace": traceback.format_exc()[-1500:],
                "obligations": {}, "failed": [], "covers": {}, "inlined": [], "trusted": [], "used_contracts": [],
                "targets": [], "loops": 0, "wall_s": 0, "solver_s": 0, "paths": 0}
