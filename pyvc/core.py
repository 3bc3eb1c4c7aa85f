"""Paths, branching, heap, obligations."""
import time
import types
import z3
from .values import *


class Unsupported(Exception):
    """Construct outside the verified subset."""


class PathEnd(Exception):
    """This path needs no further execution (infeasible, or loop iteration done)."""


class Restart(Exception):
    """Loop information grew; re-run the verification of this contract."""


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, obj):
        self.obj = obj

    def __str__(self):
        return f"{self.obj.cls.__name__}{self.obj.fields.get('args', ())}"


class LoopRec:
    def __init__(self):
        self.mod_heap = set()          # whole components
        self.mod_exact = set()         # (component, ref numeral)
        self.mod_cells = {}            # born -> set of fields (Obj) or None
        self.cell_kinds = {}           # (born, field|None) -> kind
        self.local_kinds = {}
        self.removed = set()
        self.tried = set()


BRANCH_MS = 1500
PROVE_MS = 20000
_quant = {}


def quantified(f):
    """Does the formula contain a quantifier (a lambda does not count)?"""
    r = _quant.get(f.get_id())
    if r is None:
        work, seen, q = [f], set(), False
        while work and not q:
            g = work.pop()
            if g.get_id() in seen:
                continue
            seen.add(g.get_id())
            if z3.is_quantifier(g):
                if not g.is_lambda():
                    q = True
                else:
                    work.append(g.body())
            else:
                work += g.children()
        r = _quant[f.get_id()] = (q, f)
    return r[0]

_fresh_counter = [0]


class E:
    """One symbolic path (state of the interpreter)."""

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_MS)
        self.pc = []
        self.heap = {}
        self.heap0 = {}
        self.registry = {}             # ref numeral -> native value
        self.cells = []                # born index -> cell
        self.next_ref = FRESH_BASE
        self.counter = {}
        self.loops = []                # active loop records (rec, born_limit, ref_limit)
        self.sub = None                # pure sub-exploration context
        self.inputs = {}
        self.events = []
        self.lifted = {}
        self.stack = []
        self.depth = 0
        self.ghost = {}
        self.facts, self.keep = {}, []
        self.has_q = False
        self.closed_seen = {}

    # -------------------------------------------------------------- symbols
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}!{n}" if n else base

    def const(self, base, sort):
        if self.sub is not None and not self.sub.allow_fresh:
            raise Unsupported(f"fresh symbol {base} inside a quantified expression")
        return z3.Const(self.fresh_name(base), sort)

    def sint(self, name):
        return SInt(self.const(name, IntS))

    def sstr(self, name):
        return SStr(self.const(name, StrS))

    def sbool(self, name):
        return SBool(self.const(name, BoolS))

    def ref_const(self, name):
        t = self.const(name, IntS)
        self.assume(z3.And(t > 0, t < FRESH_BASE))
        return t

    def new_ref(self):
        self.next_ref += 1
        return self.next_ref

    def born(self, cell):
        cell.born = len(self.cells)
        self.cells.append(cell)
        return cell

    def fresh(self, name, kind):
        """An arbitrary value of the kind."""
        if kind is INT:
            return self.sint(name)
        if kind is BOOL:
            return self.sbool(name)
        if kind is STR:
            return self.sstr(name)
        if kind is BYTES:
            return SBytes(self.const(name, StrS))
        if kind is NONEK:
            return None
        if kind is OPAQUE:
            return Opaque(name)
        if isinstance(kind, RefOf):
            r = Ref(self.ref_const(name), kind.cls)
            self.assume_class(r)
            return r
        if isinstance(kind, ListOf):
            l = List(ref=self.ref_const(name), kind=kind.k)
            self.assume(z3.Select(self.comp("LLEN"), l.ref) >= 0)
            return l
        if isinstance(kind, DictOf):
            return Dict(ref=self.ref_const(name), kind=kind, cls=kind.cls)
        if isinstance(kind, TupleOf):
            return tuple(self.fresh(f"{name}.{i}", k) for i, k in enumerate(kind.ks))
        t = self.const(name, Val)
        self.assume(self.has_kind(t, kind))
        return SVal(t, kind)

    def inp(self, name, kind):
        v = self.fresh(name, kind)
        self.inputs[name] = v
        return v

    # -------------------------------------------------------------- assumptions and branching
    def assume(self, f):
        if f is True:
            return
        if self.sub is not None:
            return                      # type facts only; skipping them is sound
        if f is False:
            raise PathEnd()
        self.pc.append(f)
        if quantified(f):
            self.has_q = True
        else:
            self.solver.add(f)
        self.learn(f)

    def learn(self, f):
        """Remember literally known facts, to decide repeated conditions without the solver."""
        work = [f]
        while work:
            g = work.pop()
            if z3.is_quantifier(g):
                continue
            if z3.is_and(g):
                work += g.children()
            elif z3.is_not(g) and z3.is_or(g.arg(0)):
                work += [z3.Not(c) for c in g.arg(0).children()]
            elif z3.is_not(g) and z3.is_not(g.arg(0)):
                work.append(g.arg(0).arg(0))
            else:
                self.facts[g.get_id()] = g

    def known(self, c, d=3):
        """True/False if the condition is literally known, else None."""
        if c.get_id() in self.facts:
            return True
        if z3.is_not(c):
            r = self.known(c.arg(0), d - 1) if d else None
            return None if r is None else not r
        if self.neg(c).get_id() in self.facts:
            return False
        if d and z3.is_and(c):
            rs = [self.known(x, d - 1) for x in c.children()]
            return False if False in rs else True if all(r is True for r in rs) else None
        if d and z3.is_or(c):
            rs = [self.known(x, d - 1) for x in c.children()]
            return True if True in rs else False if all(r is False for r in rs) else None
        return None

    def neg(self, c):
        n = z3.Not(c)
        self.keep.append(n)
        return n

    def check(self, *fs, ms=None):
        """Is the path condition with fs satisfiable?  Quantifier-free facts first, in the incremental solver; then all
        facts, in a fresh one (the incremental one does not always come back from quantified facts)."""
        if ms is None:
            ms = max(60, BRANCH_MS >> min(5, self.run.stats.get("unknowns", 0)))
        plain = [f for f in fs if not quantified(f)]
        self.solver.set("timeout", max(ms, 200))
        r = self.solver.check(*plain)
        if r == z3.unsat or (not self.has_q and len(plain) == len(fs)):
            return r
        s = z3.SimpleSolver()
        s.set("timeout", ms)
        s.set("smt.mbqi", False)
        s.add(*self.pc)
        s.add(*fs)
        r = s.check()
        if r == z3.unknown and "timeout" not in s.reason_unknown() and "cancel" not in s.reason_unknown():
            return z3.sat               # not refuted
        return r

    def feasible(self, *fs):
        r = self.check(*fs)
        self.run.stats["branch_checks"] += 1
        if r == z3.unknown:
            self.run.stats["unknowns"] = self.run.stats.get("unknowns", 0) + 1
        return r != z3.unsat

    def branch(self, cond, label=""):
        """Decide a condition on this path; explores both outcomes over the whole run."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.sub is not None:
            return self.sub.branch(self, cond)
        k = self.known(cond)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.assume(cond if d else z3.Not(cond))
            return d
        self.pos += 1
        self.run.check_budget()
        t0 = time.time()
        can_t = self.feasible(cond)
        can_f = self.feasible(z3.Not(cond)) if can_t else True
        self.run.stats["branch_s"] += time.time() - t0
        if can_t and can_f:
            self.run.push(self.decisions + [False])
            d = True
        else:
            d = can_t
        self.decisions.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n, label="choice"):
        """Nondeterministic choice 0..n-1 (all explored)."""
        if self.sub is not None:
            raise Unsupported("nondeterministic choice inside a quantified expression")
        for i in range(n - 1):
            if self._flip():
                return i
        return n - 1

    def _flip(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self.run.check_budget()
            self.run.push(self.decisions + [False])
            d = True
        self.pos += 1
        self.decisions.append(d)
        return d

    # -------------------------------------------------------------- solver queries
    def valid(self, goal, ms=4000):
        """Is goal implied by the path condition?  (unknown counts as no)"""
        if isinstance(goal, bool):
            if goal:
                return True
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if self.check(z3.Not(goal), ms=min(ms, 500)) == z3.unsat:
            return True
        if ms < 4000:
            return False
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*self.pc)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def prove(self, name, goal):
        """Obligation: goal holds on this path."""
        self.run.obligation(self, name, goal)

    def cover(self, name):
        """Vacuity guard: some path reaches this point with a satisfiable condition."""
        self.run.cover(self, name)

    # -------------------------------------------------------------- heap components
    def comp(self, name):
        a = self.heap.get(name)
        if a is None:
            a = z3.Const(f"H.{name}", self.comp_sort(name))
            self.heap[name] = a
            self.heap0[name] = a
        return a

    def comp_sort(self, name):
        if name == "LLEN":
            return z3.ArraySort(IntS, IntS)
        if name == "LEL":
            return z3.ArraySort(IntS, z3.ArraySort(IntS, Val))
        if name == "DDOM":
            return z3.ArraySort(IntS, z3.ArraySort(StrS, BoolS))
        if name == "DVAL":
            return z3.ArraySort(IntS, z3.ArraySort(StrS, Val))
        k = self.run.field_kind(name[2:])
        return z3.ArraySort(IntS, self.sort_of(k))

    @staticmethod
    def sort_of(k):
        if k is INT:
            return IntS
        if k is BOOL:
            return BoolS
        if k in (STR, BYTES):
            return StrS
        if isinstance(k, (RefOf, ListOf, DictOf, TupleOf)):
            return IntS
        return Val

    def hwrite(self, name, ref, value):
        if self.sub is not None:
            raise Unsupported("heap write inside a quantified expression")
        a = self.comp(name)
        num = ref.as_long() if z3.is_int_value(ref) else None
        for rec, born_limit, ref_limit in self.loops:
            if num is not None:
                if num <= ref_limit and (name, num) not in rec.mod_exact and name not in rec.mod_heap:
                    rec.mod_exact.add((name, num))
                    raise Restart()
            elif name not in rec.mod_heap:
                rec.mod_heap.add(name)
                raise Restart()
        self.heap[name] = z3.Store(a, ref, value)

    def native_write(self, cell, field=None, value=None):
        """Bookkeeping before a native container or object is changed."""
        if self.sub is not None and (cell.born is None or cell.born < self.sub.born_limit):
            raise Unsupported("write inside a quantified expression")
        if cell.born == -1 and self.loops:
            raise Unsupported("module-level container changed inside a symbolic loop")
        for rec, born_limit, ref_limit in self.loops:
            if cell.born is not None and cell.born < born_limit:
                key = (cell.born, field)
                k = self.kind_of(value) if value is not UNSET else None
                old = rec.cell_kinds.get(key)
                new = self.join(old, k) if old is not None and k is not None else (k or old)
                changed = cell.born not in rec.mod_cells or field not in rec.mod_cells[cell.born] \
                    or (new is not None and (old is None or not same_kind(old, new)))
                if changed:
                    rec.mod_cells.setdefault(cell.born, set()).add(field)
                    if new is not None:
                        rec.cell_kinds[key] = new
                    raise Restart()

    def hread(self, name, ref):
        a = self.comp(name)
        t = z3.Select(a, ref)
        return t

    # -------------------------------------------------------------- kinds
    def has_kind(self, t, kind):
        """Val-sorted term has the kind."""
        if kind is ANY:
            return z3.BoolVal(True)
        if kind is INT:
            return Val.is_i(t)
        if kind is BOOL:
            return Val.is_b(t)
        if kind is STR:
            return Val.is_s(t)
        if kind is BYTES:
            return Val.is_y(t)
        if kind is NONEK:
            return Val.is_none(t)
        if isinstance(kind, Opt):
            return z3.Or(Val.is_none(t), self.has_kind(t, kind.k))
        if isinstance(kind, Union):
            return z3.Or(*[self.has_kind(t, k) for k in kind.ks])
        return Val.is_r(t)

    def kind_of(self, v):
        if v is None:
            return NONEK
        if isinstance(v, (bool, SBool)):
            return BOOL
        if isinstance(v, (int, SInt)):
            return INT
        if isinstance(v, (str, SStr)):
            return STR
        if isinstance(v, (bytes, SBytes)):
            return BYTES
        if isinstance(v, SVal):
            return v.kind
        if isinstance(v, tuple):
            return TupleOf(*[self.kind_of(x) for x in v])
        if isinstance(v, (Obj, Ref)):
            return RefOf(v.cls)
        if isinstance(v, List):
            if v.native:
                k = None
                for x in v.items:
                    k = self.kind_of(x) if k is None else self.join(k, self.kind_of(x))
                return ListOf(k if k is not None else EMPTY)
            return ListOf(v.kind)
        if isinstance(v, Dict):
            if v.native:
                k = None
                for x in v.items.values():
                    k = self.kind_of(x) if k is None else self.join(k, self.kind_of(x))
                return DictOf(k if k is not None else EMPTY, cls=v.cls)
            return v.kind
        return OPAQUE

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if same_kind(a, b) or b is EMPTY:
            return a
        if a is EMPTY:
            return b
        if a is ANY or b is ANY:
            return ANY
        if isinstance(a, ListOf) and isinstance(b, ListOf):
            return ListOf(self.join(a.k, b.k))
        if isinstance(a, DictOf) and isinstance(b, DictOf):
            ks = dict(a.keys)
            for k, v in b.keys.items():
                ks[k] = self.join(ks[k], v) if k in ks else v
            return DictOf(self.join(a.k, b.k), ks, a.cls if a.cls is b.cls else None)
        if isinstance(a, TupleOf) and isinstance(b, TupleOf) and len(a.ks) == len(b.ks):
            return TupleOf(*[self.join(x, y) for x, y in zip(a.ks, b.ks)])
        if isinstance(a, RefOf) and isinstance(b, RefOf):
            for c in a.cls.__mro__:
                if issubclass(b.cls, c):
                    return RefOf(c)
        if a is NONEK:
            return b if isinstance(b, Opt) else Opt(b)
        if b is NONEK:
            return a if isinstance(a, Opt) else Opt(a)
        if isinstance(a, Opt) or isinstance(b, Opt):
            x = a.k if isinstance(a, Opt) else a
            y = b.k if isinstance(b, Opt) else b
            return Opt(self.join(x, y))
        ks = list(a.ks) if isinstance(a, Union) else [a]
        for k in (b.ks if isinstance(b, Union) else [b]):
            if not any(same_kind(k, x) for x in ks):
                ks.append(k)
        return Union(*ks)

    def kind_le(self, a, b):
        """Values of kind a are admissible where b is declared."""
        if b is ANY or same_kind(a, b) or a is EMPTY:
            return True
        if isinstance(b, Opt):
            if a is NONEK:
                return True
            return self.kind_le(a.k if isinstance(a, Opt) else a, b.k)
        if isinstance(b, Union):
            if isinstance(a, Union):
                return all(self.kind_le(x, b) for x in a.ks)
            return any(self.kind_le(a, k) for k in b.ks)
        if isinstance(a, RefOf) and isinstance(b, RefOf):
            return issubclass(a.cls, b.cls)
        if isinstance(a, ListOf) and isinstance(b, ListOf):
            return self.kind_le(a.k, b.k)
        if isinstance(a, DictOf) and isinstance(b, DictOf):
            return self.kind_le(a.k, b.k) or b.k is ANY
        if isinstance(a, TupleOf) and isinstance(b, TupleOf):
            return len(a.ks) == len(b.ks) and all(self.kind_le(x, y) for x, y in zip(a.ks, b.ks))
        return False

    # -------------------------------------------------------------- encoding
    def publish(self, v):
        """Move a native container/object to the heap so that symbolic references may reach it."""
        if isinstance(v, Obj):
            if v.ref is None:
                if self.sub is not None:
                    raise Unsupported("publish inside a quantified expression")
                n = self.new_ref()
                v.ref = z3.IntVal(n)
                self.registry[n] = v
                self.run.class_id(v.cls)
                self.assume(CLS(v.ref) == self.run.class_id(v.cls))
                self.assume(RTAG(v.ref) == 4)
                for f in list(v.fields):
                    k = self.run.schema_kind(v.cls, f)
                    if k is not None:
                        val = v.fields.pop(f)
                        self.hwrite("F:" + f, v.ref, self.enc_kind(val, k, f))
            return v.ref
        if isinstance(v, List):
            if v.native:
                if self.sub is not None:
                    raise Unsupported("publish inside a quantified expression")
                self.to_heap_list(v)
            return v.ref
        if isinstance(v, Dict):
            if v.native:
                if self.sub is not None:
                    raise Unsupported("publish inside a quantified expression")
                self.to_heap_dict(v)
            return v.ref
        if isinstance(v, Ref):
            return v.ref
        if isinstance(v, tuple):
            n = self.new_ref()
            r = z3.IntVal(n)
            self.registry[n] = v
            self.assume(RTAG(r) == 3)
            arr = z3.K(IntS, NONE)
            for i, x in enumerate(v):
                arr = z3.Store(arr, z3.IntVal(i), self.enc(x))
            self.hwrite("LLEN", r, z3.IntVal(len(v)))
            self.hwrite("LEL", r, arr)
            return r
        # anything else: by identity
        for n, o in self.registry.items():
            if o is v:
                return z3.IntVal(n)
        n = self.new_ref()
        self.registry[n] = v
        return z3.IntVal(n)

    def to_heap_list(self, v, kind=None):
        n = self.new_ref()
        r = z3.IntVal(n)
        self.registry[n] = v
        self.assume(RTAG(r) == 1)
        k = kind or self.kind_of(v).k
        arr = z3.K(IntS, NONE)
        items = v.items
        for i, x in enumerate(items):
            arr = z3.Store(arr, z3.IntVal(i), self.enc(x))
        v.items, v.ref, v.kind = None, r, (ANY if k is EMPTY else k)
        self.hwrite("LLEN", r, z3.IntVal(len(items)))
        self.hwrite("LEL", r, arr)

    def to_heap_dict(self, v, kind=None):
        if not all(isinstance(k, str) for k in v.items):
            raise Unsupported("dict with non-string keys on the heap")
        n = self.new_ref()
        r = z3.IntVal(n)
        self.registry[n] = v
        self.assume(RTAG(r) == 2)
        if kind is None:
            kind = DictOf(ANY, {k: self.kind_of(x) for k, x in v.items.items()}, v.cls)
        dom = z3.K(StrS, z3.BoolVal(False))
        val = z3.K(StrS, NONE)
        for k, x in v.items.items():
            dom = z3.Store(dom, z3.StringVal(k), True)
            val = z3.Store(val, z3.StringVal(k), self.enc(x))
        v.items, v.ref, v.kind = None, r, kind
        self.hwrite("DDOM", r, dom)
        self.hwrite("DVAL", r, val)

    def enc(self, v):
        """Encode a value as a Val term."""
        if v is None:
            return NONE
        if isinstance(v, bool):
            return Val.b(z3.BoolVal(v))
        if isinstance(v, int):
            return Val.i(z3.IntVal(v))
        if isinstance(v, str):
            return Val.s(z3.StringVal(v))
        if isinstance(v, bytes):
            return Val.y(z3.StringVal(v.decode("latin-1")))
        if isinstance(v, SInt):
            return Val.i(v.t)
        if isinstance(v, SBool):
            return Val.b(v.t)
        if isinstance(v, SStr):
            return Val.s(v.t)
        if isinstance(v, SBytes):
            return Val.y(v.t)
        if isinstance(v, SVal):
            return v.t
        return Val.r(self.publish(v))

    def enc_kind(self, v, kind, what=""):
        """Encode for a component of the declared kind."""
        vk = self.kind_of(v)
        if isinstance(v, SVal) and not self.kind_le(vk, kind):
            v = self.force(v)
            vk = self.kind_of(v)
        if not self.kind_le(vk, kind):
            if kind is BOOL and vk is INT:
                pass
            raise Unsupported(f"value of kind {vk} written where {kind} is declared ({what})")
        s = self.sort_of(kind)
        if s == Val:
            return self.enc(v)
        if kind is INT:
            return self.int_term(v)
        if kind is BOOL:
            return self.bool_term(v)
        if kind in (STR, BYTES):
            return self.str_term(v)
        return self.publish(v)

    def dec_sorted(self, t, kind, fresh_from=None):
        """Decode a term of sort_of(kind)."""
        if kind is INT:
            return self._lit(SInt(t))
        if kind is BOOL:
            return self._lit(SBool(t))
        if kind is STR:
            return self._lit(SStr(t))
        if kind is BYTES:
            return SBytes(t)
        if isinstance(kind, (RefOf, ListOf, DictOf, TupleOf)):
            return self.dec_ref(t, kind)
        return self.dec(t, kind)

    def _lit(self, v):
        t = z3.simplify(v.t)
        if isinstance(v, SInt) and z3.is_int_value(t):
            return t.as_long()
        if isinstance(v, SBool):
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
        if isinstance(v, SStr) and z3.is_string_value(t):
            return zstr(t)
        v.t = t
        return v

    def closed(self, t):
        """References held by containers of the initial heap are references of the initial heap."""
        if not (z3.is_app(t) and t.decl().eq(Val.rv)):
            return
        u = t.arg(0)
        if not (z3.is_select(u) and z3.is_select(u.arg(0))):
            return
        key, ref = u.arg(1), u.arg(0).arg(1)
        base = "LEL" if key.sort() == IntS else "DVAL"
        x = z3.Select(z3.Select(z3.Const("H." + base, self.comp_sort(base)), ref), key)
        if x.get_id() in self.closed_seen:
            return
        self.closed_seen[x.get_id()] = x
        self.assume(z3.Implies(Val.is_r(x), z3.And(Val.rv(x) > 0, Val.rv(x) < FRESH_BASE)))

    def dec_ref(self, t, kind):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            o = self.registry.get(t.as_long())
            if o is not None:
                return o
        elif self.sub is None:
            self.closed(t)
        if isinstance(kind, RefOf):
            r = Ref(t, kind.cls)
            self.assume_class(r)
            return r
        if isinstance(kind, ListOf):
            l = List(ref=t, kind=kind.k)
            self.assume(z3.Select(self.comp("LLEN"), t) >= 0)
            return l
        if isinstance(kind, DictOf):
            return Dict(ref=t, kind=kind, cls=kind.cls)
        if isinstance(kind, TupleOf):
            el = z3.Select(self.comp("LEL"), t)
            out = []
            for i, k in enumerate(kind.ks):
                e = z3.Select(el, z3.IntVal(i))
                self.assume(self.has_kind(e, k))
                out.append(self.dec(e, k))
            return tuple(out)
        raise Unsupported(f"reference of unknown kind {kind}")

    def dec(self, t, kind):
        """Decode a Val term of the (assumed) kind."""
        t = z3.simplify(t)
        if z3.is_app(t):
            d = t.decl()
            if d.eq(NONE.decl()):
                return None
            if d.eq(Val.i):
                return self._lit(SInt(t.arg(0)))
            if d.eq(Val.s):
                return self._lit(SStr(t.arg(0)))
            if d.eq(Val.b):
                return self._lit(SBool(t.arg(0)))
            if d.eq(Val.y):
                return SBytes(t.arg(0))
            if d.eq(Val.r):
                n = z3.simplify(t.arg(0))
                if z3.is_int_value(n) and n.as_long() in self.registry:
                    return self.registry[n.as_long()]
        if kind is INT:
            return SInt(Val.iv(t))
        if kind is BOOL:
            return SBool(Val.bv(t))
        if kind is STR:
            return SStr(Val.sv(t))
        if kind is BYTES:
            return SBytes(Val.yv(t))
        if kind is NONEK:
            return None
        if isinstance(kind, (RefOf, ListOf, DictOf, TupleOf)):
            return self.dec_ref(Val.rv(t), kind)
        return SVal(t, kind)

    def force(self, v, want=None):
        """Branch on the tag of an SVal and return a value of a definite kind."""
        if not isinstance(v, SVal):
            return v
        t, kind = v.t, v.kind
        opts = self.kind_options(kind)
        if want is not None:
            opts = [k for k in opts if k is want] + [k for k in opts if k is not want]
        # group the reference kinds last
        for k in opts[:-1]:
            c = self.has_kind(t, k)
            if isinstance(k, (RefOf, ListOf, DictOf, TupleOf)):
                c = z3.And(Val.is_r(t), self.rtag(Val.rv(t), k))
            if self.branch(c):
                return self.dec(t, k)
        k = opts[-1]
        if kind is ANY and k is OPAQUE:
            return self.any_ref(t)
        return self.dec(t, k)

    def rtag(self, r, k):
        if isinstance(k, ListOf):
            return RTAG(r) == 1
        if isinstance(k, DictOf):
            return RTAG(r) == 2
        if isinstance(k, TupleOf):
            return RTAG(r) == 3
        return RTAG(r) == 4

    def any_ref(self, t):
        r = z3.simplify(Val.rv(t))
        if self.branch(RTAG(r) == 1):
            return self.dec_ref(r, ListOf(ANY))
        if self.branch(RTAG(r) == 2):
            return self.dec_ref(r, DictOf(ANY))
        o = Opaque(f"obj({r})")
        o.ref = r
        return o

    def kind_options(self, kind):
        if kind is ANY:
            return [NONEK, STR, BOOL, INT, BYTES, OPAQUE]
        if isinstance(kind, Opt):
            return [NONEK] + self.kind_options(kind.k)
        if isinstance(kind, Union):
            out = []
            for k in kind.ks:
                out += [x for x in self.kind_options(k) if not any(same_kind(x, y) for y in out)]
            return out
        return [kind]

    # -------------------------------------------------------------- concrete program data
    def lift(self, v):
        """Wrap a value of the running Python (module global, default argument, class attribute)."""
        if v is None or isinstance(v, (bool, int, str, bytes, float, type, types.FunctionType, types.ModuleType,
                                       types.BuiltinFunctionType, types.MethodType, types.MethodDescriptorType,
                                       types.WrapperDescriptorType, types.BuiltinMethodType)):
            return v
        if isinstance(v, (Sym, Cell, SSet, NativeFn, Bound, UserFunc, GenExp, DictView, Iter)):
            return v
        if isinstance(v, (types.GenericAlias,)):
            return v
        k = ("lift", id(v))
        if k in self.lifted:
            return self.lifted[k][0]
        if isinstance(v, tuple):
            r = tuple(self.lift(x) for x in v)
        elif type(v) is dict:
            r = Dict({})
            self.lifted[k] = (r, v)
            r.items.update((a, self.lift(b)) for a, b in v.items())
            r.born = -1
            r.global_of = v
        elif type(v) in (list, set, frozenset):
            r = List([], is_set=type(v) is not list)
            self.lifted[k] = (r, v)
            r.items.extend(self.lift(x) for x in (v if type(v) is list else sorted(v, key=repr)))
            r.born = -1
            r.global_of = v
        else:
            r = NativeObj(v)
        self.lifted[k] = (r, v)
        return r

    # -------------------------------------------------------------- terms
    def int_term(self, v):
        if isinstance(v, SVal):
            v = self.force(v, INT)
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f"not an int: {v}")

    def bool_term(self, v):
        if isinstance(v, SVal):
            v = self.force(v, BOOL)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.t
        raise Unsupported(f"not a bool: {v}")

    def str_term(self, v):
        if isinstance(v, SVal):
            v = self.force(v, STR)
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, bytes):
            return z3.StringVal(v.decode("latin-1"))
        if isinstance(v, (SStr, SBytes)):
            return v.t
        raise Unsupported(f"not a str: {v}")

    # -------------------------------------------------------------- classes of references
    def assume_class(self, r):
        ids = self.run.subclass_ids(r.cls)
        self.assume(z3.Or(*[CLS(r.ref) == i for i in ids]) if len(ids) > 1 else CLS(r.ref) == ids[0])

    # -------------------------------------------------------------- pure sub-exploration
    def cases(self, fn, assumptions=(), allow_fresh=False):
        """All outcomes of an effect-free computation: list of (condition, value | PyRaise)."""
        if self.sub is not None:
            outer = self.sub
        else:
            outer = None
        work, out = [[]], []
        n = 0
        while work:
            prefix = work.pop()
            sub = Sub(prefix, work, list(assumptions) + (outer.all_conds() if outer else []), outer)
            sub.allow_fresh = allow_fresh
            sub.born_limit = len(self.cells)
            self.sub = sub
            heap = dict(self.heap)
            try:
                try:
                    v = fn()
                except PyRaise as e:
                    v = e
                out.append((z3.And(*sub.conds) if sub.conds else z3.BoolVal(True), v))
            except PathEnd:
                pass
            finally:
                self.sub = outer
                for k in list(self.heap):
                    if k in heap:
                        self.heap[k] = heap[k]
            n += 1
            if n > 400:
                raise Unsupported("too many cases in a quantified expression")
        return out


class Sub:
    def __init__(self, prefix, work, assumptions, outer):
        self.prefix, self.work, self.assumptions, self.outer = prefix, work, assumptions, outer
        self.pos, self.decisions, self.conds = 0, [], []
        self.allow_fresh = False
        self.born_limit = 0

    def all_conds(self):
        return self.assumptions + self.conds

    def branch(self, e, cond):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            e.run.check_budget()
            base = self.all_conds()
            can_t = e.feasible(*base, cond)
            can_f = e.feasible(*base, z3.Not(cond)) if can_t else True
            if can_t and can_f:
                self.work.append(self.decisions + [False])
                d = True
            else:
                d = can_t
        self.pos += 1
        self.decisions.append(d)
        self.conds.append(cond if d else z3.Not(cond))
        return d


EMPTY = type(ANY)("empty")
UNSET = object()
CLS = z3.Function("CLS", IntS, IntS)
RTAG = z3.Function("RTAG", IntS, IntS)


def zstr(t):
    """Python str of a z3 string literal (undoing its \\u{..} escapes)."""
    import re
    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
