"""Semantics of Python's built-in operations and types, and trusted models of library functions."""
import ast
import builtins as _bi
import types
import z3
from .values import *
from .core import *

NOATTR = object()
FUNCS = {}          # (module, qualname) -> model(e, *args, **kwargs)
CLASSES = {}        # (module, qualname) -> model of instantiation
TRUSTED = set()     # names of the trusted models that were used (filled at run time)


def model(*keys):
    def deco(f):
        for k in keys:
            FUNCS[k] = f
        return f
    return deco


def raise_(e, cls, *args):
    raise PyRaise(Obj(cls, {"args": tuple(args)}))


# ================================================================ helpers
def strsort(v):
    return isinstance(v, (str, SStr))


def bytesort(v):
    return isinstance(v, (bytes, SBytes))


def is_conc(v):
    return v is None or isinstance(v, (bool, int, str, bytes, float))


def concretize(e, v):
    """Deep native Python value of a concrete value; raises ValueError when symbolic."""
    if is_conc(v) or isinstance(v, type):
        return v
    if isinstance(v, tuple):
        return tuple(concretize(e, x) for x in v)
    if isinstance(v, List) and v.native:
        out = [concretize(e, x) for x in v.items]
        return set(out) if v.is_set else out
    if isinstance(v, Dict) and v.native and v.cls is None:
        return {k: concretize(e, x) for k, x in v.items.items()}
    if isinstance(v, DictView) and v.d.native:
        return concretize(e, List(concrete_items(e, v)))
    if isinstance(v, Iter):
        return [concretize(e, x) for x in v.items]
    if isinstance(v, NativeObj):
        return v.obj
    if isinstance(v, Range):
        return range(concretize(e, v.lo), concretize(e, v.hi), v.step)
    if isinstance(v, slice):
        return v
    raise ValueError("symbolic")


def unconcretize(e, v):
    if is_conc(v):
        return v
    if isinstance(v, tuple):
        return tuple(unconcretize(e, x) for x in v)
    if isinstance(v, dict):
        return e.born(Dict({k: unconcretize(e, x) for k, x in v.items()}))
    if isinstance(v, list):
        return e.born(List([unconcretize(e, x) for x in v]))
    if isinstance(v, (set, frozenset)):
        return e.born(List([unconcretize(e, x) for x in sorted(v, key=repr)], is_set=True))
    if isinstance(v, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
        return v
    return NativeObj(v)


def to_bool(e, f):
    """formula or bool -> value"""
    if isinstance(f, bool):
        return f
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SBool(f)


def zb(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def zand(*fs):
    if any(f is False for f in fs):
        return False
    fs = [f for f in fs if f is not True]
    if not fs:
        return True
    return z3.And(*fs) if len(fs) > 1 else fs[0]


def zor(*fs):
    if any(f is True for f in fs):
        return True
    fs = [f for f in fs if f is not False]
    if not fs:
        return False
    return z3.Or(*fs) if len(fs) > 1 else fs[0]


def znot(f):
    return (not f) if isinstance(f, bool) else z3.Not(f)


NOKEYS = z3.K(StrS, z3.BoolVal(False))


def llen(e, l):
    return z3.Select(e.comp("LLEN"), l.ref)


def lel(e, l):
    return z3.Select(e.comp("LEL"), l.ref)


def ddom(e, d):
    return z3.Select(e.comp("DDOM"), d.ref)


def dval(e, d):
    return z3.Select(e.comp("DVAL"), d.ref)


def list_elem(e, l, i):
    t = z3.Select(lel(e, l), i)
    e.assume(e.has_kind(t, l.kind))
    return e.dec(t, l.kind)


def dict_get_sym(e, d, kt, key=None):
    """Value at key term kt (assumed present)."""
    t = z3.Select(dval(e, d), kt)
    kind = d.kind.kind_of(key) if key is not None else d.kind.k
    if key is None and d.kind.keys:
        # a symbolic key may be one of the specially typed ones
        ks = [k for k in d.kind.keys.values()]
        kind = d.kind.k
        if any(not e.kind_le(k, kind) for k in ks):
            kind = ANY
    e.assume(e.has_kind(t, kind))
    return e.dec(t, kind)


# ================================================================ truth, equality
def truth(e, v):
    if v is None:
        return False
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, str, bytes, float)):
        return bool(v)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SInt):
        return v.t != 0
    if isinstance(v, (SStr, SBytes)):
        if z3.is_app(v.t) and (v.t.decl().kind() == z3.Z3_OP_SEQ_CONCAT or is_digits(v.t)) and any(
                is_digits(p) or z3.is_string_value(p) and zstr(p) for p in pieces(v.t)):
            return True
        return v.t != z3.StringVal("")
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, List):
        return len(v.items) > 0 if v.native else llen(e, v) > 0
    if isinstance(v, Dict):
        return len(v.items) > 0 if v.native else ddom(e, v) != NOKEYS
    if isinstance(v, SSet):
        return v.arr != NOKEYS
    if isinstance(v, SVal):
        return val_truth(e, v.t, v.kind)
    if isinstance(v, Opaque):
        if v.truthy is None:
            v.truthy = e.const(f"truth({v.name})", BoolS)
        return v.truthy
    if isinstance(v, (Obj, Ref)):
        for nm in ("__bool__", "__len__"):
            c = e.interp.find_attr(v, nm)
            if isinstance(c, types.FunctionType):
                return truth(e, e.interp.call(c, [v]))
        return True
    if isinstance(v, DictView):
        return truth(e, v.d)
    if isinstance(v, Range):
        return compare(e, ast.Lt(), v.lo, v.hi)
    if isinstance(v, (NativeFn, Bound, UserFunc, type, types.FunctionType, types.ModuleType, GenExp, Iter, Enum)):
        return True
    if isinstance(v, NativeObj):
        try:
            return bool(v.obj)
        except Exception:
            raise Unsupported("truth of native object")
    raise Unsupported(f"truth of {v!r}")


def val_truth(e, t, kind):
    fs = []
    for k in e.kind_options(kind):
        if k is NONEK:
            continue
        if k is BOOL:
            fs.append(z3.And(Val.is_b(t), Val.bv(t)))
        elif k is INT:
            fs.append(z3.And(Val.is_i(t), Val.iv(t) != 0))
        elif k is STR:
            fs.append(z3.And(Val.is_s(t), Val.sv(t) != z3.StringVal("")))
        elif k is BYTES:
            fs.append(z3.And(Val.is_y(t), Val.yv(t) != z3.StringVal("")))
        elif k is OPAQUE:
            r = Val.rv(t)
            fs.append(z3.And(Val.is_y(t), Val.yv(t) != z3.StringVal("")))
            fs.append(z3.And(Val.is_r(t), z3.Implies(z3.Or(RTAG(r) == 1, RTAG(r) == 3), z3.Select(e.comp("LLEN"), r) > 0),
                             z3.Implies(RTAG(r) == 2, z3.Select(e.comp("DDOM"), r) != NOKEYS),
                             z3.Or(RTAG(r) == 1, RTAG(r) == 2, RTAG(r) == 3, TRUTHY(r))))
        elif isinstance(k, ListOf):
            fs.append(z3.And(Val.is_r(t), _tagc(e, kind, Val.rv(t), 1), z3.Select(e.comp("LLEN"), Val.rv(t)) > 0))
        elif isinstance(k, DictOf):
            fs.append(z3.And(Val.is_r(t), _tagc(e, kind, Val.rv(t), 2),
                             z3.Select(e.comp("DDOM"), Val.rv(t)) != NOKEYS))
        elif isinstance(k, TupleOf):
            fs.append(z3.And(Val.is_r(t), _tagc(e, kind, Val.rv(t), 3)))
        elif isinstance(k, RefOf):
            fs.append(z3.And(Val.is_r(t), _tagc(e, kind, Val.rv(t), 4)))
        else:
            raise Unsupported(f"truth of kind {k}")
    return zor(*fs) if fs else False


def _tagc(e, kind, r, n):
    refs = [k for k in e.kind_options(kind) if isinstance(k, (ListOf, DictOf, TupleOf, RefOf))]
    if len(refs) <= 1:
        return z3.BoolVal(True)
    return RTAG(r) == n


TRUTHY = z3.Function("TRUTHY", IntS, BoolS)


def eq(e, a, b):
    """a == b as bool or formula."""
    if a is b and not isinstance(a, (Opaque, NativeObj)):
        return True
    if isinstance(a, SVal) or isinstance(b, SVal):
        return eq_val(e, a, b)
    if a is None or b is None:
        return a is None and b is None
    num = lambda v: isinstance(v, (bool, int, SInt, SBool))
    if num(a) and num(b):
        if is_conc(a) and is_conc(b):
            return a == b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return e.bool_term(a) == e.bool_term(b)
        return e.int_term(a) == e.int_term(b)
    if is_conc(a) and is_conc(b):
        return a == b
    if strsort(a) and strsort(b) or bytesort(a) and bytesort(b):
        return e.str_term(a) == e.str_term(b)
    if num(a) or num(b) or strsort(a) or strsort(b) or bytesort(a) or bytesort(b):
        o = b if (num(a) or strsort(a) or bytesort(a)) else a
        if isinstance(o, (Obj, Ref)) and isinstance(e.interp.find_attr(o, "__eq__"), types.FunctionType):
            raise Unsupported("user-defined __eq__")
        if isinstance(o, Opaque):
            if o.ref is not None:
                return False             # a reference known not to be a scalar
            return e.const("eq?", BoolS)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return zand(*[eq(e, x, y) for x, y in zip(a, b)])
    if isinstance(a, List) and isinstance(b, List):
        return eq_list(e, a, b)
    if isinstance(a, Dict) and isinstance(b, Dict):
        return eq_dict(e, a, b)
    if isinstance(a, SSet) or isinstance(b, SSet):
        if isinstance(a, (SSet, List)) and isinstance(b, (SSet, List)):
            return as_set(e, a) == as_set(e, b)
        return False
    if isinstance(a, DictView) and isinstance(b, DictView):
        return as_set(e, a) == as_set(e, b)
    if isinstance(a, (type, types.FunctionType)) or isinstance(b, (type, types.FunctionType)):
        return a is b
    if isinstance(a, (Obj, Ref)) and isinstance(b, (Obj, Ref)):
        for o in (a, b):
            if isinstance(e.interp.find_attr(o, "__eq__"), types.FunctionType):
                raise Unsupported("user-defined __eq__")
        return same(e, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return e.const("eq?", BoolS)
    if isinstance(a, NativeObj) and isinstance(b, NativeObj):
        return bool(a.obj == b.obj)
    ka, kb = type(a), type(b)
    if ka is not kb:
        return False
    raise Unsupported(f"equality of {a!r} and {b!r}")


def same(e, a, b):
    if a is b:
        return True
    ra, rb = getattr(a, "ref", None), getattr(b, "ref", None)
    if ra is not None and rb is not None:
        return ra == rb
    return False


def eq_val(e, a, b):
    if not isinstance(a, SVal):
        a, b = b, a
    if isinstance(b, SVal):
        sc = lambda k: k in (NONEK, STR, BYTES)
        if all(sc(k) for k in e.kind_options(a.kind)) or all(sc(k) for k in e.kind_options(b.kind)):
            return a.t == b.t
        if all(sc(k) or k is INT for k in e.kind_options(a.kind)) and \
                all(sc(k) or k is INT for k in e.kind_options(b.kind)):
            return a.t == b.t
        x = e.force(a)
        return eq(e, x, b)
    if b is None:
        return Val.is_none(a.t)
    if strsort(b):
        return a.t == Val.s(e.str_term(b))
    if bytesort(b):
        return a.t == Val.y(e.str_term(b))
    opts = e.kind_options(a.kind)
    if isinstance(b, (bool, SBool)):
        fs = [a.t == Val.b(e.bool_term(b))]
        if INT in opts:
            fs.append(a.t == Val.i(e.int_term(b)))
        return zor(*fs)
    if isinstance(b, (int, SInt)):
        fs = [a.t == Val.i(e.int_term(b))]
        if BOOL in opts:
            bt = e.int_term(b)
            fs.append(z3.And(Val.is_b(a.t), z3.If(Val.bv(a.t), z3.IntVal(1), z3.IntVal(0)) == bt))
        return zor(*fs)
    if isinstance(b, (type, types.FunctionType)):
        return False
    return eq(e, e.force(a), b)


def eq_list(e, a, b):
    if a.is_set or b.is_set:
        if not (a.is_set and b.is_set):
            return False
        try:
            return concretize(e, a) == concretize(e, b)
        except ValueError:
            return as_set(e, a) == as_set(e, b)
    if a.native and b.native:
        if len(a.items) != len(b.items):
            return False
        return zand(*[eq(e, x, y) for x, y in zip(a.items, b.items)])
    if not a.native and not b.native and a.ref is b.ref:
        return True
    if a.native or b.native:
        n, h = (a, b) if a.native else (b, a)
        fs = [llen(e, h) == len(n.items)]
        for i, x in enumerate(n.items):
            fs.append(eq(e, x, SVal(z3.Select(lel(e, h), i), h.kind)))
        return zand(*fs)
    scal(e, a.kind)
    scal(e, b.kind)
    i = z3.Int(e.fresh_name("i?"))
    return z3.Or(a.ref == b.ref,
                 z3.And(llen(e, a) == llen(e, b),
                        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(e, a)),
                                                  z3.Select(lel(e, a), i) == z3.Select(lel(e, b), i)))))


def scal(e, kind):
    for k in e.kind_options(kind):
        if k in (STR, BYTES, NONEK) or k is EMPTY:
            continue
        raise Unsupported(f"equality of containers of {kind}")


def eq_dict(e, a, b):
    if a.cls is not b.cls and (a.cls is not None or b.cls is not None):
        if a.cls is None or b.cls is None:
            return False
    if a.native and b.native:
        if set(a.items) != set(b.items):
            return False
        return zand(*[eq(e, x, b.items[k]) for k, x in a.items.items()])
    if not a.native and not b.native and a.ref is b.ref:
        return True
    if a.native or b.native:
        n, h = (a, b) if a.native else (b, a)
        dom = NOKEYS
        for k in n.items:
            dom = z3.Store(dom, z3.StringVal(k), True)
        fs = [ddom(e, h) == dom]
        for k, x in n.items.items():
            fs.append(eq(e, x, SVal(z3.Select(dval(e, h), z3.StringVal(k)), h.kind.kind_of(k))))
        return zand(*fs)
    scal(e, a.kind.k)
    scal(e, b.kind.k)
    k = z3.String(e.fresh_name("k?"))
    return z3.Or(a.ref == b.ref,
                 z3.And(ddom(e, a) == ddom(e, b),
                        z3.ForAll([k], z3.Implies(z3.Select(ddom(e, a), k),
                                                  z3.Select(dval(e, a), k) == z3.Select(dval(e, b), k)))))


def compare(e, op, a, b):
    """Comparison as bool or formula."""
    if isinstance(op, ast.Eq):
        return eq(e, a, b)
    if isinstance(op, ast.NotEq):
        return znot(eq(e, a, b))
    if isinstance(op, ast.Is):
        return is_(e, a, b)
    if isinstance(op, ast.IsNot):
        return znot(is_(e, a, b))
    if isinstance(op, ast.In):
        return contains(e, b, a)
    if isinstance(op, ast.NotIn):
        return znot(contains(e, b, a))
    a = e.force(a, INT)
    b = e.force(b, INT)
    num = lambda v: isinstance(v, (bool, int, SInt, SBool, float))
    if num(a) and num(b):
        if is_conc(a) and is_conc(b):
            x, y = a, b
        else:
            x, y = e.int_term(a), e.int_term(b)
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        return x >= y
    if strsort(a) and strsort(b):
        if is_conc(a) and is_conc(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        x, y = e.str_term(a), e.str_term(b)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x,
                ast.GtE: lambda: y <= x}[type(op)]()
    if isinstance(a, (SSet, List, DictView)) and isinstance(b, (SSet, List, DictView)):
        if (isinstance(a, List) and not a.is_set) or (isinstance(b, List) and not b.is_set):
            raise Unsupported("ordering of lists")
        x, y = as_set(e, a), as_set(e, b)
        if isinstance(op, ast.LtE):
            return z3.IsSubset(x, y)
        if isinstance(op, ast.GtE):
            return z3.IsSubset(y, x)
        if isinstance(op, ast.Lt):
            return z3.And(z3.IsSubset(x, y), x != y)
        return z3.And(z3.IsSubset(y, x), x != y)
    if isinstance(a, (Opaque, NativeObj)) or isinstance(b, (Opaque, NativeObj)):
        raise Unsupported("ordering of unknown objects")
    raise_(e, TypeError, "'<' not supported")


def is_(e, a, b):
    if a is b:
        return True
    if isinstance(a, SVal) or isinstance(b, SVal):
        if isinstance(b, SVal) and not isinstance(a, SVal):
            a, b = b, a
        if b is None:
            return Val.is_none(a.t)
        if isinstance(b, bool):
            return a.t == Val.b(z3.BoolVal(b))
        a = e.force(a)
        return is_(e, a, e.force(b) if isinstance(b, SVal) else b)
    if a is None or b is None:
        return False
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return eq(e, a, b)
    if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
        return False
    if isinstance(a, Cell) and isinstance(b, Cell):
        return same(e, a, b)
    if isinstance(a, type) and isinstance(b, type):
        return False
    if type(a) is not type(b) and (is_conc(a) or is_conc(b)):
        if isinstance(a, (SStr, SInt)) or isinstance(b, (SStr, SInt)):
            raise Unsupported("identity of values")
        return False
    if a is EMPTYT or b is EMPTYT:
        return False
    raise Unsupported(f"identity of {a!r} and {b!r}")


EMPTYT = object()


def contains(e, c, x):
    if isinstance(c, SVal):
        c = e.force(c)
    if c is None or isinstance(c, (bool, int, SInt, SBool)):
        raise_(e, TypeError, "argument is not iterable")
    if strsort(c):
        x = e.force(x, STR)
        if not strsort(x):
            raise_(e, TypeError, "'in <string>' requires string as left operand")
        if is_conc(c) and is_conc(x):
            return x in c
        return z3.Contains(e.str_term(c), e.str_term(x))
    if bytesort(c):
        x = e.force(x, BYTES)
        if is_conc(c) and is_conc(x):
            return x in c
        return z3.Contains(e.str_term(c), e.str_term(x))
    if isinstance(c, tuple) or isinstance(c, List) and c.native:
        items = c if isinstance(c, tuple) else c.items
        return zor(*[eq(e, x, y) for y in items])
    if isinstance(c, List):
        return list_contains(e, c, x)
    if isinstance(c, SSet):
        x = e.force(x, STR)
        if not strsort(x):
            return False
        return z3.Select(c.arr, e.str_term(x))
    if isinstance(c, DictView):
        if c.what == "keys":
            return contains(e, c.d, x)
        if c.d.native:
            items = concrete_items(e, c)
            return zor(*[eq(e, x, y) for y in items])
        if c.what == "values":
            k = z3.String(e.fresh_name("k?"))
            kind = c.d.kind.k
            return z3.Exists([k], z3.And(z3.Select(ddom(e, c.d), k),
                                         zb(eq_pure(e, x, z3.Select(dval(e, c.d), k), kind))))
        raise Unsupported("in items()")
    if isinstance(c, Dict):
        return dict_has(e, c, x)
    if isinstance(c, (Iter,)):
        return zor(*[eq(e, x, y) for y in c.items])
    if isinstance(c, Range):
        return zand(compare(e, ast.GtE(), x, c.lo), compare(e, ast.Lt(), x, c.hi))
    if isinstance(c, (Obj, Ref)):
        f = e.interp.find_attr(c, "__contains__")
        if f is not None:
            return truth(e, e.interp.call(e.interp.bind(f, c), [x]))
        raise_(e, TypeError, "argument is not iterable")
    if isinstance(c, NativeObj):
        try:
            return concretize(e, x) in c.obj
        except ValueError:
            pass
    raise Unsupported(f"membership in {c!r}")


def eq_pure(e, x, t, kind):
    """x == element term (bound variable inside), without branching on the element."""
    if isinstance(x, SVal):
        if all(k in (STR, BYTES, NONEK, INT) for k in e.kind_options(x.kind)):
            return x.t == t
        x = e.force(x)
    if strsort(x) or bytesort(x) or x is None:
        return e.enc(x) == t
    if isinstance(x, (bool, SBool, int, SInt)):
        return eq_val(e, SVal(t, kind), x)
    cs = e.cases(lambda: to_bool(e, eq(e, x, e.dec(t, kind))))
    return zor(*[zand(c, zb(e.bool_term(v))) for c, v in cs if not isinstance(v, PyRaise)])


def list_contains(e, l, x):
    if isinstance(x, SVal):
        if not all(k in (STR, BYTES, NONEK, INT) for k in e.kind_options(x.kind)):
            x = e.force(x)
    i = z3.Int(e.fresh_name("i?"))
    return z3.Exists([i], z3.And(0 <= i, i < llen(e, l), zb(eq_pure(e, x, z3.Select(lel(e, l), i), l.kind))))


def dict_has(e, d, x):
    x = e.force(x, STR)
    if d.native:
        if is_conc(x) or isinstance(x, (type, tuple, types.FunctionType)):
            return x in d.items
        return zor(*[eq(e, x, k) for k in d.items])
    if strsort(x):
        return z3.Select(ddom(e, d), e.str_term(x))
    if x is None or isinstance(x, (bool, int, SInt, SBool, tuple, bytes, SBytes)):
        return False
    if isinstance(x, (List, Dict, SSet)):
        raise_(e, TypeError, "unhashable type")
    if isinstance(x, Opaque):
        return False                     # string-keyed
    raise Unsupported(f"dict key {x!r}")


# ================================================================ subscripts
def norm_index(e, n, i):
    if isinstance(i, int):
        return i + n if i < 0 else i
    return i


def getitem(e, o, k):
    o = e.force(o)
    if isinstance(o, Dict):
        k = e.force(k, STR)
        if o.native:
            if is_conc(k) or isinstance(k, (type, tuple, types.FunctionType)):
                if k in o.items:
                    return o.items[k]
                raise_(e, KeyError, k)
            for kk, v in o.items.items():
                if e.branch(eq(e, k, kk)):
                    return v
            raise_(e, KeyError, k)
        if not e.branch(dict_has(e, o, k)):
            raise_(e, KeyError, k)
        return dict_get_sym(e, o, e.str_term(k), k if isinstance(k, str) else None)
    if isinstance(k, slice):
        return getslice(e, o, k)
    if isinstance(o, (tuple, List)) and (isinstance(o, tuple) or o.native):
        items = o if isinstance(o, tuple) else o.items
        k = e.force(k, INT)
        if isinstance(k, SInt):
            for i in range(len(items)):
                if e.branch(z3.Or(k.t == i, k.t == i - len(items))):
                    return items[i]
            raise_(e, IndexError, "list index out of range")
        if not isinstance(k, int):
            raise_(e, TypeError, "list indices must be integers")
        if -len(items) <= k < len(items):
            return items[k]
        raise_(e, IndexError, "list index out of range")
    if isinstance(o, List):
        k = e.force(k, INT)
        if not isinstance(k, (int, SInt)):
            raise_(e, TypeError, "list indices must be integers")
        n = llen(e, o)
        kt = e.int_term(k)
        if isinstance(k, int) and k < 0:
            kt = n + k
            if not e.branch(kt >= 0):
                raise_(e, IndexError, "list index out of range")
        elif isinstance(k, SInt) and not e.valid(kt >= 0):
            if e.branch(kt < 0):
                kt = kt + n
        if not e.branch(z3.And(kt >= 0, kt < n)):
            raise_(e, IndexError, "list index out of range")
        return list_elem(e, o, kt)
    if strsort(o) or bytesort(o):
        k = e.force(k, INT)
        if is_conc(o) and is_conc(k):
            try:
                return o[k]
            except IndexError:
                raise_(e, IndexError, "string index out of range")
        if bytesort(o):
            raise Unsupported("bytes index")
        s = e.str_term(o)
        n = z3.Length(s)
        kt = e.int_term(k)
        if isinstance(k, int) and k < 0:
            kt = n + k
        if not e.branch(z3.And(kt >= 0, kt < n)):
            raise_(e, IndexError, "string index out of range")
        return e._lit(SStr(z3.SubString(s, kt, 1)))
    if isinstance(o, (Obj, Ref)):
        f = e.interp.find_attr(o, "__getitem__")
        if f is None:
            raise_(e, TypeError, "not subscriptable")
        return e.interp.call(e.interp.bind(f, o), [k])
    if isinstance(o, NativeObj):
        try:
            return e.lift(o.obj[concretize(e, k)])
        except (KeyError, IndexError) as x:
            raise_(e, type(x), *x.args)
        except ValueError:
            pass
    if o is None or isinstance(o, (bool, int, SInt, SBool)):
        raise_(e, TypeError, "object is not subscriptable")
    if isinstance(o, types.GenericAlias) or isinstance(o, type):
        return o
    raise Unsupported(f"subscript of {o!r}")


def getslice(e, o, s):
    lo, hi, st = e.force(s.start), e.force(s.stop), e.force(s.step)
    if st not in (None, 1):
        try:
            r = concretize(e, o)[slice(lo, hi, st)]
            return unconcretize(e, r)
        except ValueError:
            raise Unsupported("slice step")
    if isinstance(o, tuple) or isinstance(o, List) and o.native:
        items = o if isinstance(o, tuple) else o.items
        if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            r = items[lo:hi]
            return r if isinstance(o, tuple) else e.born(List(list(r)))
        raise Unsupported("symbolic slice bounds")
    if strsort(o) or bytesort(o):
        if is_conc(o) and is_conc(lo) and is_conc(hi):
            return o[lo:hi]
        t = e.str_term(o)
        n = z3.Length(t)
        mkr = (lambda r: e._lit(SStr(r))) if strsort(o) else SBytes
        if (lo is None) != (hi is None) and isinstance(lo if hi is None else hi, (int, SInt)):
            c = e.int_term(lo if hi is None else hi)
            cut = cut_at(t, c) if is_length(z3.simplify(c)) else None
            if cut is not None:
                return mkr(cut[1] if hi is None else cut[0])

        def bound(x, dflt):
            if x is None:
                return dflt
            xt = e.int_term(x)
            if isinstance(x, int):
                if x >= 0:
                    return z3.If(xt > n, n, xt)
                return z3.If(n + xt < 0, z3.IntVal(0), n + xt)
            neg = z3.If(n + xt < 0, z3.IntVal(0), n + xt)
            return z3.If(xt < 0, neg, z3.If(xt > n, n, xt))
        a, b = bound(lo, z3.IntVal(0)), bound(hi, n)
        r = z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal(""))
        return e._lit(SStr(r)) if strsort(o) else SBytes(r)
    if isinstance(o, List):
        n = llen(e, o)
        if lo is None and hi is None:
            return list_copy(e, o)

        def bnd(x, d):
            if x is None:
                return d
            xt = e.int_term(x)
            xt = z3.If(xt < 0, n + xt, xt)
            return z3.If(xt < 0, z3.IntVal(0), z3.If(xt > n, n, xt))
        a, b = bnd(lo, z3.IntVal(0)), bnd(hi, n)
        i = z3.Int("i?")
        arr = z3.Lambda([i], z3.Select(lel(e, o), i + a))
        return new_heap_list(e, z3.If(b > a, b - a, z3.IntVal(0)), arr, o.kind)
    if isinstance(o, (Obj, Ref, NativeObj, Opaque)):
        raise Unsupported("slice of an object")
    raise_(e, TypeError, "not sliceable")


def new_heap_list(e, ln, arr, kind):
    if e.sub is not None:
        raise Unsupported("allocation inside a quantified expression")
    n = e.new_ref()
    r = z3.IntVal(n)
    l = List(ref=r, kind=kind)
    e.registry[n] = l
    e.assume(RTAG(r) == 1)
    e.hwrite("LLEN", r, ln)
    e.hwrite("LEL", r, arr)
    return e.born(l)


def new_heap_dict(e, dom, val, kind, cls=None):
    if e.sub is not None:
        raise Unsupported("allocation inside a quantified expression")
    n = e.new_ref()
    r = z3.IntVal(n)
    d = Dict(ref=r, kind=kind, cls=cls)
    e.registry[n] = d
    e.assume(RTAG(r) == 2)
    e.hwrite("DDOM", r, dom)
    e.hwrite("DVAL", r, val)
    return e.born(d)


def list_copy(e, l):
    if l.native:
        return e.born(List(list(l.items), is_set=l.is_set))
    return new_heap_list(e, llen(e, l), lel(e, l), l.kind)


def dict_copy(e, d, cls=None):
    if d.native:
        n = e.born(Dict(dict(d.items), cls=cls))
        return n
    return new_heap_dict(e, ddom(e, d), dval(e, d), DictOf(d.kind.k, d.kind.keys, cls), cls)


def widen(e, cell, kind):
    """Admit values of a further kind in a heap container (kind is static information of the handle)."""
    if isinstance(cell, List):
        cell.kind = e.join(cell.kind, kind)


def setitem(e, o, k, v):
    o = e.force(o)
    if isinstance(o, Dict):
        k = e.force(k, STR)
        if o.cls is not None and not e.ghost.get("raw_message"):
            v = message_value(e, o, k, v)
            if v is SKIP:
                return
        dict_store(e, o, k, v)
        return
    if isinstance(o, List):
        k = e.force(k, INT)
        if o.native and isinstance(k, int):
            if not -len(o.items) <= k < len(o.items):
                raise_(e, IndexError, "list assignment index out of range")
            e.native_write(o, None, v)
            o.items[k] = v
            return
        if o.native:
            e.to_heap_list(o)
        kt = e.int_term(k)
        if not e.branch(z3.And(kt >= 0, kt < llen(e, o))):
            raise Unsupported("negative list store")
        store_kind(e, o, v)
        e.hwrite("LEL", o.ref, z3.Store(lel(e, o), kt, e.enc(v)))
        return
    if isinstance(o, (Obj, Ref)):
        f = e.interp.find_attr(o, "__setitem__")
        if f is None:
            raise_(e, TypeError, "does not support item assignment")
        e.interp.call(e.interp.bind(f, o), [k, v])
        return
    if o is None or isinstance(o, (bool, int, str, SStr, SInt, SBool, tuple)):
        raise_(e, TypeError, "does not support item assignment")
    raise Unsupported(f"item assignment to {o!r}")


def store_kind(e, o, v):
    vk = e.kind_of(v)
    if not e.kind_le(vk, o.kind):
        if isinstance(v, SVal):
            pass
        if o.ref is not None and z3.is_int_value(o.ref) and o.born is not None:
            o.kind = e.join(o.kind, vk)
        else:
            raise Unsupported(f"value of kind {vk} stored in a list of {o.kind}")


def dict_store(e, o, k, v):
    if o.native:
        if is_conc(k) or isinstance(k, (type, tuple, types.FunctionType)):
            e.native_write(o, None, v)
            o.items[k] = v
            return
        if not strsort(k):
            raise Unsupported(f"dict key {k!r}")
        e.to_heap_dict(o)
    if not strsort(k):
        raise Unsupported(f"dict key {k!r}")
    kk = k if isinstance(k, str) else None
    vk = e.kind_of(v)
    dk = o.kind.kind_of(kk) if kk is not None else o.kind.k
    if not e.kind_le(vk, dk) or (kk is None and any(not e.kind_le(vk, x) for x in o.kind.keys.values())):
        if o.ref is not None and z3.is_int_value(o.ref):
            ks = dict(o.kind.keys)
            if kk is not None and kk in ks:
                ks[kk] = e.join(ks[kk], vk)
                o.kind = DictOf(o.kind.k, ks, o.kind.cls)
            elif kk is not None:
                ks[kk] = vk
                o.kind = DictOf(o.kind.k, ks, o.kind.cls)
            else:
                o.kind = DictOf(e.join(o.kind.k, vk), {a: e.join(x, vk) for a, x in ks.items()}, o.kind.cls)
        elif isinstance(v, SVal):
            v = e.force(v)
            vk = e.kind_of(v)
            if not e.kind_le(vk, dk):
                raise Unsupported(f"value of kind {vk} stored in a dict of {dk}")
        else:
            raise Unsupported(f"value of kind {vk} stored in a dict of {dk}")
    kt = e.str_term(k)
    ev = e.enc(v)
    e.hwrite("DDOM", o.ref, z3.Store(ddom(e, o), kt, True))
    e.hwrite("DVAL", o.ref, z3.Store(dval(e, o), kt, ev))


def delitem(e, o, k):
    o = e.force(o)
    if isinstance(o, Dict):
        k = e.force(k, STR)
        if o.native and is_conc(k):
            if k not in o.items:
                raise_(e, KeyError, k)
            e.native_write(o, None, UNSET)
            for rec, b, r in e.loops:
                if o.born is not None and o.born < b:
                    raise Unsupported("deletion from a dict in a symbolic loop")
            del o.items[k]
            return
        if o.native:
            e.to_heap_dict(o)
        if not e.branch(dict_has(e, o, k)):
            raise_(e, KeyError, k)
        e.hwrite("DDOM", o.ref, z3.Store(ddom(e, o), e.str_term(k), False))
        return
    if isinstance(o, (Obj, Ref)):
        f = e.interp.find_attr(o, "__delitem__")
        if f is None:
            raise_(e, TypeError, "does not support item deletion")
        e.interp.call(e.interp.bind(f, o), [k])
        return
    raise Unsupported(f"del of item of {o!r}")


# ================================================================ Message classes
SKIP = object()


def is_message_class(cls):
    return any(c.__module__ == "oidcmsg.message" and c.__name__ == "Message" for c in cls.__mro__)


def message_value(e, o, k, v):
    """What Message.__setitem__ stores: for known parameters an empty list is dropped, the rest is stored as is.
    (Type coercion of ill-typed values is not modelled: a value of another type is Unsupported.)"""
    spec = o.cls.c_param
    if not isinstance(k, str):
        if is_conc(k):
            return v
        return v                        # unknown parameter name: stored as is
    if k not in spec:
        return v
    vtyp, req, ser, deser, na = spec[k]
    if isinstance(vtyp, tuple):
        vtyp = vtyp[0]
    if isinstance(v, SVal):
        v = e.force(v)
    if isinstance(v, List):
        if v.native:
            if len(v.items) == 0 and not na:
                return SKIP
        else:
            if not na and not e.branch(llen(e, v) > 0):
                return SKIP
        return v
    if isinstance(vtyp, list) and (strsort(v)) and deser is not None and vtyp[0] is str:
        # space separated list
        if getattr(deser, "__name__", "") == "sp_sep_list_deserializer":
            return str_split(e, v, " ")
        return e.born(List([v]))
    return v


def new_message(e, cls, args, kwargs):
    """Message(**kwargs): set_defaults, then from_dict (which skips "" and [""])."""
    d = e.born(Dict({}, cls=cls))
    kwargs = dict(kwargs)
    sd = kwargs.pop("set_defaults", True)
    if sd:
        for k, v in cls.c_default.items():
            d.items[k] = e.lift(v)
    for k, v in kwargs.items():
        message_from_item(e, d, k, v)
    return d


def message_from_item(e, d, k, v):
    if isinstance(v, str) and v == "":
        return
    if isinstance(v, SVal):
        v = e.force(v)
    if isinstance(v, SStr):
        if e.branch(v.t == z3.StringVal("")):
            return
    if isinstance(v, List) and v.native and len(v.items) == 1:
        if e.branch(eq(e, v.items[0], "")):
            return
    if isinstance(v, List) and not v.native:
        if e.branch(zand(llen(e, v) == 1, eq_pure(e, "", z3.Select(lel(e, v), 0), v.kind))):
            return
    setitem(e, d, k, v)


# ================================================================ strings
def to_str(e, v):
    v = e.force(v)
    if strsort(v):
        return v
    if is_conc(v):
        return str(v)
    if isinstance(v, SInt):
        if is_length(v.t) or e.sub is None and e.valid(v.t >= 0):
            return SStr(z3.IntToStr(v.t))
        return SStr(z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.t))))
    if isinstance(v, SBool):
        return SStr(z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")))
    if isinstance(v, (List, Dict, tuple)):
        try:
            return str(concretize(e, v))
        except ValueError:
            pass
    if isinstance(v, Obj) and issubclass(v.cls, BaseException):
        a = v.fields.get("args", ())
        if len(a) == 1:
            return to_str(e, a[0])
    if isinstance(v, (Obj, Ref)):
        f = e.interp.find_attr(v, "__str__")
        if isinstance(f, types.FunctionType) and e.interp.is_repo(f):
            return e.interp.call(f, [v])
    if isinstance(v, NativeObj):
        return str(v.obj)
    if isinstance(v, Opaque) and isinstance(getattr(v, "attrs", None), dict) and "__text__" in v.attrs:
        return v.attrs["__text__"]
    return opaque_str(e, v)


def opaque_str(e, v):
    if is_conc(v):
        return repr(v)
    return SStr(e.const("str?", StrS))


def concat(e, parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    ts = [e.str_term(p) for p in parts if not (isinstance(p, str) and p == "")]
    if not ts:
        return ""
    return SStr(z3.Concat(*ts) if len(ts) > 1 else ts[0])


def pieces(t):
    """Flatten a string term into its concatenated pieces."""
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out += pieces(c)
        return out
    return [t]


def is_length(t):
    """A term that is never negative by its form."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
        return all(is_length(c) for c in t.children())
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH or z3.is_int_value(t) and t.as_long() >= 0


def is_digits(p):
    """The decimal form of a length: not empty, digits only."""
    return z3.is_app(p) and p.decl().kind() == z3.Z3_OP_INT_TO_STR and is_length(p.arg(0))


def rejoin(ps):
    return z3.simplify(z3.Concat(*ps)) if len(ps) > 1 else (ps[0] if ps else z3.StringVal(""))


def without(e, p, c):
    return is_digits(p) and not c.isdigit() or is_b64(p.arg(0) if z3.is_app(p) and p.num_args() == 1 else p) and c in ":|;.,- \t\n" \
        or holds(e, z3.Not(z3.Contains(p, z3.StringVal(c))))


def cut_pieces(e, t, sep, last=False):
    """(before, after) the first (last) occurrence of the separator, where that is plain from the term."""
    ps = pieces(t)
    if len(ps) < 2 or e.sub is not None or not last and len(sep) > 1:
        return None
    for i, p in (reversed(list(enumerate(ps))) if last else enumerate(ps)):
        if z3.is_string_value(p):
            lit = zstr(p)
            if sep in lit:
                a, b = lit.rsplit(sep, 1) if last else lit.split(sep, 1)
                if last and len(sep) > 1 and sep[-1] in b:
                    return None
                return rejoin(ps[:i] + ([z3.StringVal(a)] if a else [])), rejoin(([z3.StringVal(b)] if b else []) + ps[i + 1:])
            if last and sep[-1] in lit:
                return None
        elif not without(e, p, sep[-1]):
            return None
    return None


def cut_at(t, n):
    """(the first n characters, the rest), where n is the length of the leading pieces."""
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() == 0:
        return z3.StringVal(""), t
    ps, acc = pieces(t), z3.IntVal(0)
    for i, p in enumerate(ps):
        last, acc = acc, z3.simplify(acc + z3.Length(p))
        if z3.is_int_value(n) and z3.is_int_value(acc) and z3.is_string_value(p) and acc.as_long() > n.as_long():
            lit, k = zstr(p), n.as_long() - last.as_long()
            return rejoin(ps[:i] + [z3.StringVal(lit[:k])]), rejoin([z3.StringVal(lit[k:])] + ps[i + 1:])
        if acc.eq(n) or z3.is_true(z3.simplify(acc == n)):
            return rejoin(ps[:i + 1]), rejoin(ps[i + 1:])
    return None


ENDS_IN_SPACE = z3.Function("ends_in_whitespace", StrS, BoolS)
SPACES = z3.Function("spaces", IntS, StrS)
WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def clean_end(e, ps):
    """Is it plain that the concatenation of these pieces does not end in whitespace?"""
    for p in reversed(ps):
        if z3.is_string_value(p):
            return zstr(p)[-1:].strip() != ""
        if is_digits(p) or z3.is_app(p) and p.decl().kind() == z3.Z3_OP_INT_TO_STR and e.valid(p.arg(0) >= 0):
            return True
        if z3.is_app(p) and p.num_args() == 1 and is_b64(p.arg(0)):
            continue
        if not e.valid(z3.Not(ENDS_IN_SPACE(p))):
            return False
        if e.valid(z3.Length(p) > 0):
            return True
    return True


def clean_start(ps):
    return not ps or is_digits(ps[0]) or z3.is_string_value(ps[0]) and zstr(ps[0])[:1].strip() != ""


SPLIT_N = z3.Function("split_len", StrS, StrS, IntS)
SPLIT_A = z3.Function("split_arr", StrS, StrS, z3.ArraySort(IntS, Val))
JOIN = z3.Function("join", StrS, z3.ArraySort(IntS, Val), IntS, StrS)
LOWER = z3.Function("lower", StrS, StrS)
UPPER = z3.Function("upper", StrS, StrS)
STRIP = z3.Function("strip", StrS, StrS)


def str_split(e, s, sep, maxsplit=-1):
    """s.split(sep): exact for concrete strings, for maxsplit=1, and for concatenations of separator literals
    and pieces that are shown not to contain (or run into) a separator; otherwise an unknown list of strings
    which depends on s and sep only."""
    if isinstance(s, str) and (sep is None or isinstance(sep, str)) and isinstance(maxsplit, int):
        return e.born(List(s.split(sep, maxsplit)))
    if sep is None or not isinstance(sep, str):
        raise Unsupported("split on whitespace")
    t = e.str_term(s)
    zsep = z3.StringVal(sep)
    if maxsplit == 1:
        cut = cut_pieces(e, t, sep)
        if cut is not None:
            return e.born(List([e._lit(SStr(x)) for x in cut]))
        if not e.branch(z3.Contains(t, zsep)):
            return e.born(List([s]))
        i = z3.IndexOf(t, zsep, 0)
        return e.born(List([SStr(z3.SubString(t, 0, i)),
                            SStr(z3.SubString(t, i + len(sep), z3.Length(t) - i - len(sep)))]))
    if maxsplit != -1:
        raise Unsupported("split with maxsplit")
    parts = split_pieces(e, t, sep)
    if parts is not None:
        return e.born(List([e._lit(SStr(p)) for p in parts]))
    n = SPLIT_N(t, zsep)
    e.assume(n >= 1)
    arr = SPLIT_A(t, zsep)
    e.assume((n == 1) == z3.Not(z3.Contains(t, zsep)))
    e.assume(z3.Implies(n == 1, z3.Select(arr, 0) == Val.s(t)))
    i = z3.IndexOf(t, zsep, 0)
    e.assume(z3.Implies(n > 1, z3.Select(arr, 0) == Val.s(z3.SubString(t, 0, i))))
    e.assume(z3.Implies(n == 2, z3.And(
        z3.Select(arr, 1) == Val.s(z3.SubString(t, i + len(sep), z3.Length(t) - i - len(sep))),
        z3.Not(z3.Contains(z3.SubString(t, i + len(sep), z3.Length(t) - i - len(sep)), zsep)))))
    e.assume(z3.Select(arr, n) == NONE)
    return new_heap_list(e, n, arr, STR)


def holds(e, c):
    return e.known(c) is True or e.valid(c, ms=600)


def split_pieces(e, t, sep):
    ps = pieces(t)
    out, cur = [], []
    for p in ps:
        if z3.is_string_value(p):
            segs = zstr(p).split(sep)
            for j, sg in enumerate(segs):
                if j:
                    out.append(cur)
                    cur = []
                if sg:
                    cur.append(z3.StringVal(sg))
        else:
            cur.append(p)
    out.append(cur)
    terms = [z3.Concat(*c) if len(c) > 1 else (c[0] if c else z3.StringVal("")) for c in out]
    zsep = z3.StringVal(sep)
    for j, c in enumerate(terms):
        if z3.is_string_value(z3.simplify(c)):
            continue
        if len(sep) == 1 and all(without(e, p, sep) for p in pieces(c)):
            continue
        if not holds(e, z3.Not(z3.Contains(c, zsep))):
            return None
    if len(sep) > 1:
        # an overlap across a boundary: piece + separator must not contain the separator earlier
        for c in terms[:-1]:
            if len(set(sep)) == 1 and holds(e, z3.Not(z3.SuffixOf(z3.StringVal(sep[0]), c))):
                continue
            if not e.valid(z3.IndexOf(z3.Concat(c, zsep), zsep, 0) == z3.Length(c)):
                return None
    return terms


def str_join(e, sep, it):
    it = e.force(it)
    items = concrete_items(e, it) if not isinstance(it, GenExp) else None
    if isinstance(it, GenExp):
        it = comprehension(e, it.node, it.frame, "list")
        items = concrete_items(e, it)
    if items is not None:
        out = []
        for i, x in enumerate(items):
            x = e.force(x, STR)
            if not (strsort(x) or bytesort(x)):
                if isinstance(x, Opaque):
                    raise Unsupported("join of unknown objects")
                raise_(e, TypeError, "sequence item: expected str instance")
            if i:
                out.append(sep)
            out.append(x)
        if all(isinstance(x, (str, bytes)) for x in out):
            return sep[0:0].join(out)
        if bytesort(sep):
            ts = [e.str_term(x) for x in out if x != b""]
            return SBytes(z3.Concat(*ts) if len(ts) > 1 else ts[0])
        return concat(e, out)
    if isinstance(it, SSet) and isinstance(sep, str):
        return e.sstr("joined")                       # in whatever order
    if isinstance(it, List):
        if it.kind is not STR:
            raise Unsupported(f"join of a list of {it.kind}")
        return SStr(JOIN(e.str_term(sep), lel(e, it), llen(e, it)))
    raise Unsupported("join")


def conc_method(f):
    return f


def str_method(e, s, name, args, kwargs):
    args = [e.force(a) for a in args]
    kwargs = {k: e.force(v) for k, v in kwargs.items()}
    if name == "join":
        return str_join(e, s, args[0])
    if name == "format":
        return str_format(e, s, args, kwargs)
    if is_conc(s):
        try:
            return unconcretize(e, getattr(s, name)(*[concretize(e, a) for a in args],
                                                  **{k: concretize(e, a) for k, a in kwargs.items()}))
        except ValueError as x:
            if x.args != ("symbolic",):
                raise_(e, type(x), *x.args)
        except (TypeError, AttributeError, UnicodeError) as x:
            raise_(e, type(x), *[str(a) for a in x.args])
    isb = bytesort(s)
    mk = (lambda t: SBytes(t)) if isb else (lambda t: e._lit(SStr(t)))
    t = e.str_term(s)
    if name in ("startswith", "endswith"):
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        ps = args[0] if isinstance(args[0], tuple) else (args[0],)
        for p in ps:
            if not (strsort(p) or bytesort(p)):
                raise_(e, TypeError, f"{name} first arg must be str")
        return to_bool(e, zor(*[f(e.str_term(p), t) for p in ps]))
    if name == "split" and not isb:
        sep = args[0] if args else kwargs.get("sep")
        return str_split(e, s, sep, args[1] if len(args) > 1 else kwargs.get("maxsplit", -1))
    if name == "rsplit" and not isb and len(args) == 2 and args[1] == 1 and isinstance(args[0], str):
        sep = z3.StringVal(args[0])
        cut = cut_pieces(e, t, args[0], True)
        if cut is not None:
            return e.born(List([e._lit(SStr(x)) for x in cut]))
        if not e.branch(z3.Contains(t, sep)):
            return e.born(List([s]))
        a, b = SStr(e.const("rsplit.l", StrS)), SStr(e.const("rsplit.r", StrS))
        e.assume(z3.And(t == z3.Concat(a.t, sep, b.t), z3.Not(z3.Contains(z3.Concat(z3.SubString(sep, 1, len(args[0]) - 1), b.t), sep))))
        return e.born(List([a, b]))
    if name in ("find", "index") and len(args) == 1:
        r = z3.IndexOf(t, e.str_term(args[0]), 0)
        if name == "index" and not e.branch(r >= 0):
            raise_(e, ValueError, "substring not found")
        return SInt(r)
    if name == "replace" and len(args) == 2:
        old = e.str_term(args[0])
        if e.sub is None and e.valid(z3.And(z3.Not(z3.Contains(t, old)), z3.Length(old) > 0)):
            return mk(t)
        r = z3.Function("replace_all", StrS, StrS, StrS, StrS)(t, old, e.str_term(args[1]))
        e.assume(z3.Implies(z3.And(z3.Not(z3.Contains(t, old)), z3.Length(old) > 0), r == t))
        return mk(r)
    if name in ("lower", "upper", "casefold", "title", "capitalize", "hex"):
        r = z3.Function(f"str_{name}", StrS, StrS)(t)
        if name in ("lower", "casefold"):
            e.assume(z3.Function(f"str_{name}", StrS, StrS)(r) == r)
        return SStr(r) if name == "hex" else mk(r)
    if name in ("strip", "lstrip", "rstrip"):
        a = e.str_term(args[0]) if args and args[0] is not None else z3.StringVal("")
        chars = zstr(a) if z3.is_string_value(a) else None
        if e.sub is None and chars == "" and not isb:
            ps = pieces(t)
            if (name == "rstrip" or clean_start(ps)) and (name == "lstrip" or clean_end(e, ps)):
                return mk(t)
        if e.sub is None and chars == " " and name == "rstrip":
            ps = pieces(t)
            while ps and z3.is_app(ps[-1]) and ps[-1].decl().eq(SPACES):
                ps = ps[:-1]
            plain = [p.arg(0) if z3.is_app(p) and p.decl().eq(UTF8) else p for p in ps]
            if all(z3.is_string_value(p) or z3.is_app(q) and q.decl().eq(UTF8) or not isb for p, q in zip(plain, ps)) and clean_end(e, [q for p in plain for q in pieces(p)]):
                return mk(rejoin(ps))
        r = z3.Function(f"str_{name}", StrS, StrS, StrS)(t, a)
        e.assume(z3.And(z3.Length(r) <= z3.Length(t), z3.Contains(t, r)))
        return mk(r)
    if name in ("encode", "decode"):
        enc = (args[0] if args else kwargs.get("encoding", "utf-8"))
        enc = enc.lower().replace("_", "-") if isinstance(enc, str) else "?"
        if enc not in ("utf-8", "utf8", "ascii"):
            raise Unsupported(f"codec {enc}")
        ascii_ = z3.Function("str_isascii", StrS, BoolS)
        if name == "encode":
            if isb:
                raise_(e, AttributeError, "encode")
            if enc == "ascii" and not e.branch(ascii_(t)):
                raise_(e, UnicodeEncodeError, "ascii", "", 0, 1, "ordinal not in range(128)")
            # injective, with utf8_dec its left inverse (surrogates excluded)
            ps = [p.arg(0) if z3.is_app(p) and p.decl().eq(UTF8_DEC) and is_b64(p.arg(0)) else
                  z3.StringVal(zstr(p).encode().decode("latin-1")) if z3.is_string_value(p) else UTF8(p) for p in pieces(t)]
            for p in ps:
                if z3.is_app(p) and p.decl().eq(UTF8):
                    e.assume(UTF8_DEC(p) == p.arg(0))
                    e.assume(UTF8_OK(p))
            return SBytes(rejoin(ps))
        if not isb:
            raise_(e, AttributeError, "decode")
        if z3.is_app(t) and t.decl().eq(UTF8):
            if enc == "ascii" and not e.branch(ascii_(t.arg(0))):
                raise_(e, UnicodeDecodeError, "ascii", b"", 0, 1, "ordinal not in range(128)")
            return e._lit(SStr(t.arg(0)))
        if enc != "ascii" and len(pieces(t)) > 1:
            ps = [p.arg(0) if z3.is_app(p) and p.decl().eq(UTF8) else p if z3.is_string_value(p) and zstr(p).isascii() else
                  UTF8_DEC(p) if is_b64(p) else None for p in pieces(t)]
            if None not in ps:
                return e._lit(SStr(rejoin(ps)))
        if not e.branch(UTF8_OK(t) if enc != "ascii" else z3.And(UTF8_OK(t), ascii_(UTF8_DEC(t)))):
            raise_(e, UnicodeDecodeError, "utf-8", b"", 0, 1, "invalid")
        e.assume(UTF8(UTF8_DEC(t)) == t)
        return e._lit(SStr(UTF8_DEC(t)))
    if name in ("isdigit", "isalnum", "isalpha", "isdecimal", "islower", "isupper", "isspace", "isascii", "isprintable", "isidentifier"):
        return SBool(z3.Function(f"str_{name}", StrS, BoolS)(t))
    if name == "rpartition" and not isb and isinstance(args[0], str):
        r = str_method(e, s, "rsplit", [args[0], 1], {}).items
        return (r[0], args[0], r[1]) if len(r) == 2 else ("", "", s)
    if name == "partition" and not isb and isinstance(args[0], str):
        sep = z3.StringVal(args[0])
        cut = cut_pieces(e, t, args[0])
        if cut is not None:
            return (e._lit(SStr(cut[0])), args[0], e._lit(SStr(cut[1])))
        if not e.branch(z3.Contains(t, sep)):
            return (s, "", "")
        i = z3.IndexOf(t, sep, 0)
        n = len(args[0])
        return (SStr(z3.SubString(t, 0, i)), args[0], SStr(z3.SubString(t, i + n, z3.Length(t) - i - n)))
    if name == "count":
        r = e.sint("count")
        e.assume(z3.And(r.t >= 0, (r.t > 0) == z3.Contains(t, e.str_term(args[0]))))
        return r
    if name == "__len__":
        return SInt(z3.Length(t))
    if name == "zfill":
        raise Unsupported(f"str.{name}")
    if not hasattr(b"" if isb else "", name):
        raise_(e, AttributeError, name)
    raise Unsupported(f"str.{name}")


def is_b64(t):
    return z3.is_app(t) and t.decl().name() in ("b64e", "b64url_e", "b64url_padded_e")


UTF8 = z3.Function("utf8", StrS, StrS)
UTF8_DEC = z3.Function("utf8_dec", StrS, StrS)
UTF8_OK = z3.Function("utf8_ok", StrS, BoolS)


def str_format(e, s, args, kwargs):
    import string
    if not isinstance(s, str):
        raise Unsupported("format of a symbolic template")
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if spec or conv not in (None, "s"):
            out.append(opaque_str(e, None if False else Opaque("fmt")))
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kwargs[field]
        else:
            raise Unsupported("format field")
        out.append(to_str(e, v))
    return concat(e, out)


# ================================================================ arithmetic
def binop(e, op, a, b):
    a, b = e.force(a), e.force(b)
    if isinstance(op, ast.Mod) and (strsort(a)):
        return str_percent(e, a, b)
    if isinstance(op, ast.Add):
        if strsort(a) and strsort(b):
            return concat(e, [a, b])
        if bytesort(a) and bytesort(b):
            if is_conc(a) and is_conc(b):
                return a + b
            return SBytes(z3.Concat(e.str_term(a), e.str_term(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, List) and isinstance(b, List) and not a.is_set and not b.is_set:
            r = list_copy(e, a)
            list_extend(e, r, b)
            return r
    num = lambda v: isinstance(v, (bool, int, SInt, SBool, float))
    if num(a) and num(b):
        if is_conc(a) and is_conc(b):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                        ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Div: lambda: a / b,
                        ast.Pow: lambda: a ** b, ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b,
                        ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitXor: lambda: a ^ b}[type(op)]()
            except ZeroDivisionError:
                raise_(e, ZeroDivisionError, "division by zero")
        x, y = e.int_term(a), e.int_term(b)
        if isinstance(op, ast.Add):
            return SInt(x + y)
        if isinstance(op, ast.Sub):
            return SInt(x - y)
        if isinstance(op, ast.Mult):
            return SInt(x * y)
        if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
            return SInt(x / y)
        if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0:
            return SInt(x % y)
        raise Unsupported("integer operation")
    setlike = lambda v: isinstance(v, SSet) or isinstance(v, List) and v.is_set or isinstance(v, DictView)
    if setlike(a) and setlike(b):
        if isinstance(op, ast.Sub):
            return set_op(e, "difference", a, b)
        if isinstance(op, ast.BitAnd):
            return set_op(e, "intersection", a, b)
        if isinstance(op, ast.BitOr):
            return set_op(e, "union", a, b)
    if isinstance(a, Dict) and isinstance(b, Dict) and isinstance(op, ast.BitOr):
        r = dict_copy(e, a)
        dict_update(e, r, b)
        return r
    if isinstance(op, ast.Mult) and isinstance(a, (str, List, tuple)) and isinstance(b, int):
        if isinstance(a, List):
            if a.native:
                return e.born(List(a.items * b))
        else:
            return a * b
    if isinstance(op, ast.Mult) and a in (" ", b" ") and isinstance(b, SInt):
        r = SPACES(b.t)
        e.assume(z3.Length(r) == z3.If(b.t > 0, b.t, 0))
        return SStr(r) if a == " " else SBytes(r)
    for v in (a, b):
        if isinstance(v, (Opaque, NativeObj, Obj, Ref, SSet)):
            raise Unsupported(f"{type(op).__name__} of {a!r} and {b!r}")
    raise_(e, TypeError, "unsupported operand type(s)")


def str_percent(e, a, b):
    if not isinstance(a, str):
        return opaque_str(e, Opaque("%"))
    vals = list(b) if isinstance(b, tuple) else [b]
    parts = a.replace("%%", "\0").split("%s")
    if len(parts) - 1 != len(vals) or "%" in "".join(parts):
        return opaque_str(e, Opaque("%"))
    out = []
    for i, p in enumerate(parts):
        out.append(p.replace("\0", "%"))
        if i < len(vals):
            out.append(to_str(e, vals[i]))
    return concat(e, out)


# ================================================================ sets
def as_set(e, v):
    """Predicate array of a set of strings."""
    v = e.force(v)
    if isinstance(v, SSet):
        return v.arr
    if isinstance(v, DictView) and v.what == "keys":
        return as_set(e, v.d)
    if isinstance(v, Dict):
        if not v.native:
            return ddom(e, v)
        v = List(list(v.items))
    items = concrete_items(e, v)
    if items is not None:
        arr = NOKEYS
        for x in items:
            x = e.force(x, STR)
            if not strsort(x):
                raise Unsupported("set of non-strings")
            arr = z3.Store(arr, e.str_term(x), True)
        return arr
    if isinstance(v, List):
        if v.kind is not STR:
            raise Unsupported(f"set of {v.kind}")
        i = z3.Int("i?")
        k = z3.String("k?")
        a, n = lel(e, v), llen(e, v)
        if e.sub is not None:
            return z3.Lambda([k], z3.Exists([i], z3.And(0 <= i, i < n, z3.Select(a, i) == Val.s(k))))
        return set_of_array(e, a, n)
    raise Unsupported(f"set of {v!r}")


def set_of_array(e, a, n):
    """the strings among the first n elements of a"""
    i, k = z3.Int("i?"), z3.String("k?")
    a = z3.simplify(a)
    if ("concat", a.get_id()) in e.lifted:
        x, nx, y, ny, _ = e.lifted[("concat", a.get_id())]
        return z3.SetUnion(set_of_array(e, x, nx), set_of_array(e, y, ny))
    key = ("setof", a.get_id(), n.get_id())
    if key in e.lifted:
        return e.lifted[key][0]
    nm = e.fresh_name("set")
    s = z3.Const(nm, z3.ArraySort(StrS, BoolS))
    pos = z3.Function(nm + ".pos", StrS, IntS)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(s, Val.sv(z3.Select(a, i)))),
                       patterns=pats(z3.Select(a, i))))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), Val.is_s(z3.Select(a, i))),
                       patterns=pats(z3.Select(a, i))))
    e.assume(z3.ForAll([k], z3.Implies(z3.Select(s, k), z3.And(0 <= pos(k), pos(k) < n,
                                                             z3.Select(a, pos(k)) == Val.s(k))),
                       patterns=[z3.Select(s, k)]))
    e.lifted[key] = (s, a, n)
    return s


def make_set(e, items):
    if all(is_conc(x) or isinstance(x, tuple) and all(is_conc(y) for y in x) for x in items):
        out = []
        for x in items:
            if x not in out:
                out.append(x)
        return e.born(List(out, is_set=True))
    return SSet(as_set(e, List(list(items))))


def to_set(e, v):
    v = e.force(v)
    if isinstance(v, GenExp):
        v = comprehension(e, v.node, v.frame, "list")
    items = concrete_items(e, v)
    if items is not None:
        return make_set(e, [e.force(x, STR) for x in items])
    return SSet(as_set(e, v))


def set_op(e, name, a, *bs):
    cur = a
    for b in bs:
        b = e.force(b)
        ia, ib = concrete_items(e, cur), concrete_items(e, b)
        if ia is not None and ib is not None and all(is_conc(x) for x in ia + ib):
            sa, sb = set(ia), set(ib)
            r = getattr(sa, name)(sb)
            cur = e.born(List([x for x in ia + ib if x in r and True], is_set=True))
            seen, out = set(), []
            for x in cur.items:
                if x not in seen:
                    seen.add(x)
                    out.append(x)
            cur.items = out
            continue
        x, y = as_set(e, cur), as_set(e, b)
        if name == "difference":
            cur = SSet(z3.SetDifference(x, y))
        elif name == "intersection":
            cur = SSet(z3.SetIntersect(x, y))
        elif name == "union":
            cur = SSet(z3.SetUnion(x, y))
        else:
            raise Unsupported(f"set.{name}")
    return cur


def set_method(e, s, name, args):
    if name in ("difference", "intersection", "union"):
        return set_op(e, name, s, *args)
    if name in ("issubset", "issuperset"):
        ia, ib = concrete_items(e, s), concrete_items(e, e.force(args[0]))
        if ia is not None and ib is not None and all(is_conc(x) for x in ia + ib):
            return getattr(set(ia), name)(set(ib))
        x, y = as_set(e, s), as_set(e, args[0])
        return to_bool(e, z3.IsSubset(x, y) if name == "issubset" else z3.IsSubset(y, x))
    if name == "isdisjoint":
        return to_bool(e, z3.SetIntersect(as_set(e, s), as_set(e, args[0])) == NOKEYS)
    if name == "copy":
        return SSet(s.arr) if isinstance(s, SSet) else list_copy(e, s)
    if isinstance(s, List):
        if name == "add":
            x = e.force(args[0], STR)
            if is_conc(x) and all(is_conc(y) for y in s.items):
                if x not in s.items:
                    e.native_write(s, None, x)
                    s.items.append(x)
                return None
        if name in ("discard", "remove"):
            x = e.force(args[0], STR)
            if is_conc(x) and all(is_conc(y) for y in s.items):
                if x in s.items:
                    e.native_write(s, None, UNSET)
                    s.items.remove(x)
                elif name == "remove":
                    raise_(e, KeyError, x)
                return None
        if name == "update":
            for a in args:
                for x in must_items(e, a):
                    set_method(e, s, "add", [x])
            return None
    raise Unsupported(f"set.{name} on a symbolic set")


# ================================================================ iteration
def concrete_items(e, v):
    """Items when the iteration is over concretely many elements, else None."""
    if isinstance(v, SVal):
        v = e.force(v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, List):
        return list(v.items) if v.native else None
    if isinstance(v, Dict):
        return list(v.items) if v.native else None
    if isinstance(v, DictView):
        if not v.d.native:
            return None
        it = v.d.items
        return {"keys": lambda: list(it), "values": lambda: list(it.values()),
                "items": lambda: [(k, x) for k, x in it.items()]}[v.what]()
    if isinstance(v, Iter):
        out, v.items = v.items, []
        return out
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Range):
        if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
            return list(range(v.lo, v.hi, v.step))
        return None
    if isinstance(v, Enum):
        items = concrete_items(e, v.src)
        return None if items is None else [(v.start + i, x) for i, x in enumerate(items)]
    if isinstance(v, GenExp):
        r = comprehension(e, v.node, v.frame, "list")
        return concrete_items(e, r)
    if v is None or isinstance(v, (bool, int, SInt, SBool)):
        raise_(e, TypeError, "object is not iterable")
    if isinstance(v, NativeObj):
        try:
            return [e.lift(x) for x in v.obj]
        except TypeError:
            return None
    if isinstance(v, type):
        try:
            return [NativeObj(x) for x in v]
        except TypeError:
            raise_(e, TypeError, "type object is not iterable")
    return None


def must_items(e, v):
    r = concrete_items(e, v)
    if r is None:
        raise Unsupported(f"symbolic number of items: {v!r}")
    return r


class ListDesc:
    def __init__(self, lst, enum=None):
        self.lst, self.enum = lst, enum

    def init(self, e, L):
        L.idx = z3.IntVal(0)
        L.src = self.lst
        self.len0 = llen(e, self.lst)
        self.el0 = lel(e, self.lst)

    def havoc(self, e, L):
        L.idx = z3.Const(e.fresh_name("idx"), IntS)
        e.assume(L.idx >= 0)

    def auto_invs(self, e, L):
        return [("idx<=len", z3.And(L.idx >= 0, L.idx <= llen(e, self.lst))),
                ("len unchanged", llen(e, self.lst) == self.len0),
                ("elements unchanged", lel(e, self.lst) == self.el0)]

    def more(self, e, L):
        e.assume(L.idx < llen(e, self.lst))
        return e.feasible()

    def more_branch(self, e, L):
        return e.branch(L.idx < llen(e, self.lst))

    def element(self, e, L):
        x = list_elem(e, self.lst, L.idx)
        L.cur = L.idx
        if self.enum is not None:
            return (SInt(L.idx + self.enum), x)
        return x

    def step(self, e, L):
        L.idx = L.idx + 1

    def exit(self, e, L):
        e.assume(L.idx >= llen(e, self.lst))
        return e.feasible()


class RangeDesc:
    def __init__(self, e, r):
        self.lo, self.hi = e.int_term(r.lo), e.int_term(r.hi)

    def init(self, e, L):
        L.idx = self.lo

    def havoc(self, e, L):
        L.idx = z3.Const(e.fresh_name("idx"), IntS)

    def auto_invs(self, e, L):
        return [("idx range", z3.And(L.idx >= self.lo, z3.Or(L.idx <= self.hi, L.idx == self.lo)))]

    def more(self, e, L):
        e.assume(L.idx < self.hi)
        return e.feasible()

    def more_branch(self, e, L):
        return e.branch(L.idx < self.hi)

    def element(self, e, L):
        return SInt(L.idx)

    def step(self, e, L):
        L.idx = L.idx + 1

    def exit(self, e, L):
        e.assume(L.idx >= self.hi)
        return e.feasible()


class DictDesc:
    """Iteration over a heap dict in arbitrary order; `visited` is the set of keys already seen."""

    def __init__(self, d, what):
        self.d, self.what = d, what

    def init(self, e, L):
        L.visited = NOKEYS
        L.src = self.d
        self.dom0 = ddom(e, self.d)

    def havoc(self, e, L):
        L.visited = z3.Const(e.fresh_name("visited"), z3.ArraySort(StrS, BoolS))

    def auto_invs(self, e, L):
        return [("visited in dom", z3.IsSubset(L.visited, self.dom0)),
                ("dom unchanged", ddom(e, self.d) == self.dom0)]

    def pick(self, e, L):
        k = z3.Const(e.fresh_name("key"), StrS)
        e.assume(z3.And(z3.Select(self.dom0, k), z3.Not(z3.Select(L.visited, k))))
        self.k = L.key_term = k

    def more(self, e, L):
        self.pick(e, L)
        return e.feasible()

    def more_branch(self, e, L):
        if e.branch(L.visited == self.dom0):
            return False
        self.pick(e, L)
        return True

    def element(self, e, L):
        if not e.valid(ddom(e, self.d) == self.dom0):
            raise Unsupported("dict changed while iterated over")
        k = SStr(self.k)
        if self.what == "keys":
            return k
        v = dict_get_sym(e, self.d, self.k)
        return v if self.what == "values" else (k, v)

    def step(self, e, L):
        if not e.valid(ddom(e, self.d) == self.dom0):
            raise Unsupported("dict changed while iterated over")
        L.visited = z3.Store(L.visited, self.k, True)

    def exit(self, e, L):
        e.assume(L.visited == self.dom0)
        return e.feasible()


class SetDesc(DictDesc):
    def __init__(self, arr):
        self.arr, self.what = arr, "keys"

    def init(self, e, L):
        L.visited = NOKEYS
        L.src = None
        self.dom0 = self.arr

    def auto_invs(self, e, L):
        return [("visited in set", z3.IsSubset(L.visited, self.dom0))]

    def element(self, e, L):
        return SStr(self.k)

    def step(self, e, L):
        L.visited = z3.Store(L.visited, self.k, True)


class WhileDesc:
    def __init__(self, test):
        self.test = test

    def init(self, e, L):
        pass

    def havoc(self, e, L):
        pass

    def auto_invs(self, e, L):
        return []

    def more(self, e, L):
        return bool(self.test()) and e.feasible()

    def more_branch(self, e, L):
        return self.test()

    def element(self, e, L):
        return None

    def step(self, e, L):
        pass

    def exit(self, e, L):
        return not self.test() and e.feasible()


def loop_desc(e, it):
    if isinstance(it, List):
        return ListDesc(it)
    if isinstance(it, Dict):
        return DictDesc(it, "keys")
    if isinstance(it, DictView):
        return DictDesc(it.d, it.what)
    if isinstance(it, Enum) and isinstance(it.src, List):
        return ListDesc(it.src, it.start)
    if isinstance(it, Range) and it.step == 1:
        return RangeDesc(e, it)
    if isinstance(it, SSet):
        return SetDesc(it.arr)
    if isinstance(it, GenExp):
        return loop_desc(e, comprehension(e, it.node, it.frame, "list"))
    return None


# ================================================================ list and dict methods
def list_append(e, l, v):
    if l.native:
        e.native_write(l, None, v)
        if not l.native:
            return list_append(e, l, v)
        l.items.append(v)
        return
    if isinstance(v, SVal) and not e.kind_le(v.kind, l.kind):
        v = e.force(v)
    store_kind(e, l, v)
    n = llen(e, l)
    ev = e.enc(v)
    e.hwrite("LEL", l.ref, z3.Store(lel(e, l), n, ev))
    e.hwrite("LLEN", l.ref, n + 1)


def list_extend(e, l, v):
    v = e.force(v)
    items = concrete_items(e, v)
    if items is not None:
        for x in items:
            list_append(e, l, x)
        return
    if isinstance(v, GenExp):
        v = comprehension(e, v.node, v.frame, "list")
    if isinstance(v, (SSet, DictView)):
        v = to_list(e, v)
    if not isinstance(v, List):
        raise Unsupported(f"extend with {v!r}")
    if l.native:
        e.native_write(l, None, UNSET)
        for rec, b, r in e.loops:
            if l.born is not None and l.born < b:
                raise Unsupported("extend of a native list in a symbolic loop")
        e.to_heap_list(l, e.join(e.kind_of(l).k, v.kind))
    if not e.kind_le(v.kind, l.kind):
        if z3.is_int_value(l.ref):
            l.kind = e.join(l.kind, v.kind)
        else:
            raise Unsupported("extend with another kind")
    n, m = llen(e, l), llen(e, v)
    a, b = lel(e, l), lel(e, v)
    i = z3.Int("i?")
    both = z3.simplify(z3.Lambda([i], z3.If(i < n, z3.Select(a, i), z3.Select(b, i - n))))
    e.lifted[("concat", both.get_id())] = (a, n, b, m, both)
    e.hwrite("LEL", l.ref, both)
    e.hwrite("LLEN", l.ref, n + m)


def named_array(e, a):
    """a constant equal to the array term (so that it can stand in a pattern)"""
    if z3.is_const(a):
        return a
    c = e.const("arr", a.sort())
    e.assume(c == a)
    return c


def list_method(e, l, name, args, kwargs):
    if l.is_set:
        return set_method(e, l, name, args)
    if name == "append":
        return list_append(e, l, args[0])
    if name == "extend":
        return list_extend(e, l, args[0])
    if name == "copy":
        return list_copy(e, l)
    if name in ("remove", "index"):
        x = args[0]
        if l.native:
            for i, y in enumerate(l.items):
                if e.branch(eq(e, x, y)):
                    if name == "index":
                        return i
                    e.native_write(l, None, UNSET)
                    for rec, b, r in e.loops:
                        if l.born is not None and l.born < b:
                            raise Unsupported("remove from a native list in a symbolic loop")
                    del l.items[i]
                    return None
            raise_(e, ValueError, "list.remove(x): x not in list")
        x = e.force(x, STR)
        if not e.branch(list_contains(e, l, x)):
            raise_(e, ValueError, "list.remove(x): x not in list")
        # first occurrence
        p = e.sint("pos")
        a, n = lel(e, l), llen(e, l)
        a = named_array(e, a)
        i = z3.Int("i?")
        e.assume(z3.And(p.t >= 0, p.t < n, zb(eq_pure(e, x, z3.Select(a, p.t), l.kind))))
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.t),
                                           z3.Not(zb(eq_pure(e, x, z3.Select(a, i), l.kind)))),
                           patterns=pats(z3.Select(a, i))))
        if name == "index":
            return p
        e.hwrite("LEL", l.ref, z3.Lambda([i], z3.If(i < p.t, z3.Select(a, i), z3.Select(a, i + 1))))
        e.hwrite("LLEN", l.ref, n - 1)
        return None
    if name == "pop":
        if l.native:
            k = args[0] if args else -1
            if not l.items:
                raise_(e, IndexError, "pop from empty list")
            if isinstance(k, int):
                e.native_write(l, None, UNSET)
                return l.items.pop(k)
        else:
            n = llen(e, l)
            if not e.branch(n > 0):
                raise_(e, IndexError, "pop from empty list")
            if not args or args[0] == -1:
                v = list_elem(e, l, n - 1)
                e.hwrite("LLEN", l.ref, n - 1)
                return v
    if name == "insert" and l.native and isinstance(args[0], int):
        e.native_write(l, None, args[1])
        l.items.insert(args[0], args[1])
        return None
    if name == "clear":
        if l.native:
            e.native_write(l, None, UNSET)
            l.items.clear()
        else:
            e.hwrite("LLEN", l.ref, z3.IntVal(0))
        return None
    if name == "count":
        if l.native and all(is_conc(x) for x in l.items) and is_conc(args[0]):
            return l.items.count(args[0])
    if name in ("sort", "reverse") and l.native:
        try:
            items = [concretize(e, x) for x in l.items]
        except ValueError:
            raise Unsupported(f"list.{name}")
        if kwargs:
            raise Unsupported("sort key")
        getattr(items, name)()
        e.native_write(l, None, UNSET)
        l.items[:] = [unconcretize(e, x) for x in items]
        return None
    if not hasattr([], name):
        raise_(e, AttributeError, name)
    raise Unsupported(f"list.{name}")


def dict_update(e, d, o):
    o = e.force(o)
    if isinstance(o, Dict):
        if o.native:
            for k, v in o.items.items():
                dict_store(e, d, k, v)
            return
        if d.native:
            e.native_write(d, None, UNSET)
            for rec, b, r in e.loops:
                if d.born is not None and d.born < b:
                    raise Unsupported("update of a native dict in a symbolic loop")
            ks = {k: e.kind_of(x) for k, x in d.items.items()}
            e.to_heap_dict(d, DictOf(o.kind.k, {k: e.join(v, o.kind.kind_of(k)) for k, v in ks.items()}, d.cls))
            for k, v in o.kind.keys.items():
                d.kind.keys.setdefault(k, v)
        elif not (e.kind_le(o.kind.k, d.kind.k)):
            if z3.is_int_value(d.ref):
                d.kind = DictOf(e.join(d.kind.k, o.kind.k), {k: e.join(v, o.kind.kind_of(k))
                                                           for k, v in d.kind.keys.items()}, d.kind.cls)
            else:
                raise Unsupported("update with another kind of values")
        k = z3.String("k?")
        odom, oval = ddom(e, o), dval(e, o)
        ndom, nval = ddom(e, d), dval(e, d)
        e.hwrite("DDOM", d.ref, z3.SetUnion(ndom, odom))
        e.hwrite("DVAL", d.ref, z3.Lambda([k], z3.If(z3.Select(odom, k), z3.Select(oval, k), z3.Select(nval, k))))
        return
    items = concrete_items(e, o)
    if items is None:
        raise Unsupported(f"update with {o!r}")
    for it in items:
        k, v = e.interp.unpack(it, 2)
        dict_store(e, d, e.force(k, STR), v)


def dict_method(e, d, name, args, kwargs):
    if name == "get":
        k = e.force(args[0], STR)
        dflt = args[1] if len(args) > 1 else kwargs.get("default")
        if d.native:
            if is_conc(k) or isinstance(k, (type, tuple)):
                return d.items.get(k, dflt)
            for kk, v in d.items.items():
                if e.branch(eq(e, k, kk)):
                    return v
            return dflt
        if not e.branch(dict_has(e, d, k)):
            return dflt
        return dict_get_sym(e, d, e.str_term(k), k if isinstance(k, str) else None)
    if name in ("keys", "values", "items"):
        return DictView(d, name)
    if name == "copy":
        return dict_copy(e, d, d.cls)
    if name == "update":
        if args:
            dict_update(e, d, args[0])
        for k, v in kwargs.items():
            dict_store(e, d, k, v)
        return None
    if name == "setdefault":
        k = e.force(args[0], STR)
        dflt = args[1] if len(args) > 1 else None
        if e.branch(dict_has(e, d, k)):
            return getitem(e, d, k)
        dict_store(e, d, k, dflt)
        return dflt
    if name == "pop":
        k = e.force(args[0], STR)
        if e.branch(dict_has(e, d, k)):
            v = getitem(e, d, k)
            delitem(e, d, k)
            return v
        if len(args) > 1:
            return args[1]
        raise_(e, KeyError, k)
    if name == "clear":
        if d.native:
            e.native_write(d, None, UNSET)
            d.items.clear()
        else:
            e.hwrite("DDOM", d.ref, NOKEYS)
        return None
    if name in ("__contains__", "has_key"):
        return to_bool(e, dict_has(e, d, args[0]))
    if name == "__getitem__":
        return getitem(e, d, args[0])
    if name == "__setitem__":
        return setitem(e, d, args[0], args[1])
    if name == "__delitem__":
        return delitem(e, d, args[0])
    if name == "__len__":
        return blen(e, d)
    if d.cls is not None:
        r = message_method(e, d, name, args, kwargs)
        if r is not NOATTR:
            return r
    raise Unsupported(f"dict.{name}")


DICT_METHODS = {"get", "keys", "values", "items", "copy", "update", "setdefault", "pop", "clear", "__contains__",
                "__getitem__", "__setitem__", "__delitem__", "__len__"}
MSG_METHODS = {"to_dict", "set_defaults", "extra", "to_json", "to_urlencoded", "from_dict", "verify", "type",
               "request", "weed", "parameters"}


def message_method(e, d, name, args, kwargs):
    if name == "to_dict":
        return dict_copy(e, d)
    if name == "from_dict":
        o = e.force(args[0])
        if isinstance(o, Dict) and o.native:
            for k, v in o.items.items():
                message_from_item(e, d, k, v)
            return d
        if isinstance(o, Dict) and d.native and not d.items:
            # entries with "" or [""] are dropped; the rest is kept
            k = z3.String("k?")
            dom, val = ddom(e, o), dval(e, o)
            e.to_heap_dict(d, DictOf(o.kind.k, o.kind.keys, d.cls))
            e.hwrite("DDOM", d.ref, z3.Lambda([k], z3.And(z3.Select(dom, k),
                                                          z3.Select(val, k) != Val.s(z3.StringVal("")))))
            e.hwrite("DVAL", d.ref, val)
            return d
        raise Unsupported("from_dict")
    if name == "set_defaults":
        for k, v in d.cls.c_default.items():
            dict_method(e, d, "setdefault", [k, e.lift(v)], {})
        return None
    if name == "extra":
        spec = d.cls.c_param
        if d.native:
            return e.born(Dict({k: v for k, v in d.items.items() if k not in spec}))
        dom = ddom(e, d)
        for k in spec:
            dom = z3.Store(dom, z3.StringVal(k), False)
        return new_heap_dict(e, dom, dval(e, d), DictOf(d.kind.k))
    if name == "weed":
        if d.native:
            for k in [k for k in d.items if k not in d.cls.c_param]:
                dict_method(e, d, "pop", [k], {})
            return None
        dom = z3.K(StrS, z3.BoolVal(False))
        for k in d.cls.c_param:
            dom = z3.Store(dom, z3.StringVal(k), z3.Select(ddom(e, d), z3.StringVal(k)))
        e.hwrite("DDOM", d.ref, dom)
        return None
    if name == "parameters":
        return e.born(List(list(d.cls.c_param)))
    if name == "type":
        return d.cls.__name__
    if name in ("to_json", "to_urlencoded"):
        return SStr(e.const(name, StrS))
    return NOATTR


def message_verify(e, d):
    """Message.verify of oidcmsg: refuses with an exception, or returns True."""
    e.run.trusted.add("oidcmsg Message.verify(): raises or returns True, and leaves the parameters as they are")
    if e.choose(2):
        from oidcmsg.exception import MissingRequiredAttribute
        raise_(e, MissingRequiredAttribute, "verify")
    return True


# ================================================================ attributes of builtin values
STR_METHODS = {n for n in dir("") if not n.startswith("__")}
BYTES_METHODS = {n for n in dir(b"") if not n.startswith("__")}
LIST_METHODS = {n for n in dir([]) if not n.startswith("__")}
SET_METHODS = {n for n in dir(set()) if not n.startswith("__")}


def value_attr(e, o, name):
    if strsort(o):
        if name in STR_METHODS or name == "__len__":
            return NativeFn(lambda e, *a, **k: str_method(e, o, name, a, k), f"str.{name}")
        return NOATTR
    if bytesort(o):
        if name in BYTES_METHODS:
            return NativeFn(lambda e, *a, **k: str_method(e, o, name, a, k), f"bytes.{name}")
        return NOATTR
    if isinstance(o, SSet):
        if name in SET_METHODS:
            return NativeFn(lambda e, *a, **k: set_method(e, o, name, a), f"set.{name}")
        return NOATTR
    if isinstance(o, List):
        if name in (SET_METHODS if o.is_set else LIST_METHODS):
            return NativeFn(lambda e, *a, **k: list_method(e, o, name, list(a), k), f"list.{name}")
        return NOATTR
    if isinstance(o, Dict):
        if name in getattr(o, "attrs", {}):
            return o.attrs[name]
        if name in DICT_METHODS or o.cls is not None and name in MSG_METHODS and (
                name != "verify"):
            return NativeFn(lambda e, *a, **k: dict_method(e, o, name, list(a), k), f"dict.{name}")
        if o.cls is not None and name == "_dict":
            return o
        return NOATTR
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return NativeFn(lambda e, *a: list_method(e, List(list(o)), name, list(a), {}))
        return NOATTR
    if isinstance(o, NativeObj):
        try:
            return e.lift(getattr(o.obj, name))
        except AttributeError:
            return NOATTR
    return NOATTR


def py_type(o):
    if o is None:
        return type(None)
    if isinstance(o, (bool, SBool)):
        return bool
    if isinstance(o, (int, SInt)):
        return int
    if isinstance(o, (str, SStr)):
        return str
    if isinstance(o, (bytes, SBytes)):
        return bytes
    if isinstance(o, float):
        return float
    if isinstance(o, tuple):
        return tuple
    if isinstance(o, SSet) or isinstance(o, List) and o.is_set:
        return set
    if isinstance(o, List):
        return list
    if isinstance(o, Dict):
        return o.cls or dict
    if isinstance(o, Obj):
        return o.cls
    if isinstance(o, NativeObj):
        return type(o.obj)
    if isinstance(o, type):
        return type
    if isinstance(o, (types.FunctionType, UserFunc)):
        return types.FunctionType
    if isinstance(o, DictView):
        return type({}.keys())
    raise Unsupported(f"type of {o!r}")


def isinstance_(e, o, cls):
    cls = list(cls) if isinstance(cls, tuple) else [cls]
    flat = []
    for c in cls:
        flat += list(c) if isinstance(c, tuple) else [c]
    o = e.force(o)
    if isinstance(o, Opaque):
        if o.ref is None:
            return SBool(e.const(f"isinstance({o.name})", BoolS))
        if all(c in (str, int, bool, bytes, list, dict, float, type(None)) for c in flat):
            return False
        return SBool(e.const(f"isinstance({o.name})", BoolS))
    if isinstance(o, Ref):
        subs = e.run.subclasses(o.cls)
        ok = [c for c in subs if any(issubclass(c, f) for f in flat if isinstance(f, type))]
        if len(ok) == len(subs):
            return True
        if not ok:
            return False
        return to_bool(e, z3.Or(*[CLS(o.ref) == e.run.class_id(c) for c in ok]))
    t = py_type(o)
    return any(issubclass(t, c) for c in flat if isinstance(c, type))


# ================================================================ builtins
BUILTINS = {}


def builtin(*fs):
    def deco(g):
        for f in fs:
            BUILTINS[f] = g
        return g
    return deco


def lookup_builtin(f):
    try:
        m = BUILTINS.get(f)
    except TypeError:
        return None
    if m is None and isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        oc = f.__objclass__
        if oc in (dict, list, str, set):
            nm = f.__name__
            return lambda e, s, *a, **k: e.interp.call(e.interp.getattr(s, nm), a, k)
        if oc is object and f.__name__ == "__init__":
            return lambda e, *a, **k: None
        if oc is object and f.__name__ == "__setattr__":
            return lambda e, o, n, v: e.interp.raw_setattr(o, n, v)
        if issubclass(oc, BaseException) and f.__name__ == "__init__":
            def exc_init(e, o, *a, **k):
                e.native_write(o, "args", UNSET)
                o.fields["args"] = tuple(a)
            return exc_init
    return m


@builtin(len)
def blen(e, o):
    o = e.force(o)
    if isinstance(o, (str, bytes, tuple)):
        return len(o)
    if isinstance(o, (SStr, SBytes)):
        return SInt(z3.Length(o.t))
    if isinstance(o, List):
        return len(o.items) if o.native else e._lit(SInt(llen(e, o)))
    if isinstance(o, Dict):
        if o.native:
            return len(o.items)
        n = DLEN(ddom(e, o))
        e.assume(z3.And(n >= 0, (n == 0) == (ddom(e, o) == NOKEYS)))
        return SInt(n)
    if isinstance(o, SSet):
        n = DLEN(o.arr)
        e.assume(z3.And(n >= 0, (n == 0) == (o.arr == NOKEYS)))
        return SInt(n)
    if isinstance(o, DictView):
        return blen(e, o.d)
    if isinstance(o, (Obj, Ref)):
        f = e.interp.find_attr(o, "__len__")
        if f is not None:
            return e.interp.call(e.interp.bind(f, o))
    if isinstance(o, NativeObj):
        return len(o.obj)
    if isinstance(o, Opaque):
        raise Unsupported("len of unknown")
    raise_(e, TypeError, "object has no len()")


DLEN = z3.Function("set_size", z3.ArraySort(StrS, BoolS), IntS)


@builtin(isinstance)
def b_isinstance(e, o, cls):
    return isinstance_(e, o, cls)


@builtin(issubclass)
def b_issubclass(e, c, cls):
    if isinstance(c, type) and (isinstance(cls, type) or isinstance(cls, tuple)):
        return issubclass(c, cls)
    raise Unsupported("issubclass")


@builtin(str)
def b_str(e, *a, **k):
    if not a:
        return ""
    if len(a) > 1 or k:
        raise Unsupported("str with encoding")
    return to_str(e, a[0])


@builtin(repr)
def b_repr(e, o):
    return opaque_str(e, o)


@builtin(int)
def b_int(e, *a):
    if not a:
        return 0
    v = e.force(a[0], INT)
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(e.int_term(v))
    if isinstance(v, str):
        try:
            return int(v, *a[1:])
        except ValueError as x:
            raise_(e, ValueError, *x.args)
    if isinstance(v, SStr) and len(a) == 1 and is_digits(v.t):
        return SInt(v.t.arg(0))
    if isinstance(v, SStr) and len(a) == 1:
        # decimal digits only are modelled exactly; anything else may parse to an unknown int or fail
        r = z3.StrToInt(v.t)
        if e.branch(r >= 0):
            return SInt(r)
        if e.branch(INT_OK(v.t)):
            return SInt(INT_OF(v.t))
        raise_(e, ValueError, "invalid literal for int()")
    if v is None or isinstance(v, (List, Dict)):
        raise_(e, TypeError, "int() argument")
    raise Unsupported("int()")


INT_OK = z3.Function("int_parses", StrS, BoolS)
INT_OF = z3.Function("int_of", StrS, IntS)


@builtin(bool)
def b_bool(e, *a):
    return to_bool(e, truth(e, a[0])) if a else False


@builtin(float)
def b_float(e, *a):
    if a and is_conc(a[0]):
        return float(a[0])
    raise Unsupported("float")


def to_list(e, v):
    v = e.force(v)
    if isinstance(v, GenExp):
        return comprehension(e, v.node, v.frame, "list")
    items = concrete_items(e, v)
    if items is not None:
        return e.born(List(items))
    if isinstance(v, List):
        return list_copy(e, v)
    if isinstance(v, (DictView, Dict, SSet)):
        d = v.d if isinstance(v, DictView) else v
        what = v.what if isinstance(v, DictView) else "keys"
        dom = v.arr if isinstance(v, SSet) else ddom(e, d)
        nm = e.fresh_name("keylist")
        arr = z3.Const(nm, z3.ArraySort(IntS, Val))
        ln = DLEN(dom)
        pos = z3.Function(nm + ".pos", StrS, IntS)
        i, k = z3.Int("i?"), z3.String("k?")
        e.assume(z3.And(ln >= 0, (ln == 0) == (dom == NOKEYS)))
        keyat = z3.Function(nm + ".key", IntS, StrS)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(z3.Select(dom, keyat(i)), pos(keyat(i)) == i)),
                           patterns=[keyat(i)]))
        e.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= pos(k), pos(k) < ln, keyat(pos(k)) == k)),
                           patterns=pats(z3.Select(dom, k))))
        if what == "keys":
            arr = z3.Lambda([i], Val.s(keyat(i)))
            kind = STR
        elif what == "values":
            dv = dval(e, d)
            arr = z3.Lambda([i], z3.Select(dv, keyat(i)))
            kind = d.kind.k
        else:
            raise Unsupported("list of items()")
        return new_heap_list(e, ln, arr, kind)
    if isinstance(v, Opaque):
        raise Unsupported("list of unknown")
    raise Unsupported(f"list({v!r})")


@builtin(list)
def b_list(e, *a):
    return to_list(e, a[0]) if a else e.born(List([]))


@builtin(tuple)
def b_tuple(e, *a):
    return tuple(must_items(e, a[0])) if a else ()


@builtin(set, frozenset)
def b_set(e, *a):
    return to_set(e, a[0]) if a else e.born(List([], is_set=True))


@builtin(dict)
def b_dict(e, *a, **k):
    d = e.born(Dict({}))
    if a:
        o = e.force(a[0])
        if isinstance(o, Dict):
            d = dict_copy(e, o)
        else:
            dict_update(e, d, o)
    for kk, v in k.items():
        dict_store(e, d, kk, v)
    return d


@builtin(sorted)
def b_sorted(e, v, **k):
    try:
        if k:
            raise ValueError
        return e.born(List([unconcretize(e, x) for x in sorted(concretize(e, v))]))
    except ValueError:
        raise Unsupported("sorted of symbolic data")


@builtin(any, all)
def _anyall(e, *a):
    raise Unsupported("any/all")


def any_all(name):
    def f(e, v):
        v = e.force(v)
        if isinstance(v, GenExp):
            return quantify(e, v, name)
        items = concrete_items(e, v)
        if items is None:
            if isinstance(v, List):
                i = z3.Int(e.fresh_name("i?"))
                b = zb(val_truth(e, z3.Select(lel(e, v), i), v.kind))
                rng = z3.And(0 <= i, i < llen(e, v))
                return SBool(z3.Exists([i], z3.And(rng, b)) if name == "any" else z3.ForAll([i], z3.Implies(rng, b)))
            raise Unsupported(f"{name} of {v!r}")
        fs = [truth(e, x) for x in items]
        return to_bool(e, zor(*fs) if name == "any" else zand(*fs) if fs else True)
    return f


BUILTINS[any] = any_all("any")
BUILTINS[all] = any_all("all")


@builtin(enumerate)
def b_enumerate(e, v, start=0):
    v = e.force(v)
    if isinstance(v, List) and not v.native:
        return Enum(v, start)
    return Iter([(start + i, x) for i, x in enumerate(must_items(e, v))])


@builtin(zip)
def b_zip(e, *vs):
    return Iter(list(zip(*[must_items(e, v) for v in vs])))


@builtin(range)
def b_range(e, *a):
    a = [e.force(x, INT) for x in a]
    if len(a) == 1:
        return Range(0, a[0])
    return Range(*a)


@builtin(iter)
def b_iter(e, v):
    v = e.force(v)
    items = concrete_items(e, v)
    if items is None:
        return v
    return Iter(items)


@builtin(next)
def b_next(e, it, *dflt):
    if isinstance(it, Iter):
        if it.items:
            return it.items.pop(0)
        if dflt:
            return dflt[0]
        raise_(e, StopIteration)
    raise Unsupported("next()")


@builtin(reversed)
def b_reversed(e, v):
    return Iter(list(reversed(must_items(e, v))))


@builtin(getattr)
def b_getattr(e, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    return e.interp.getattr(o, name, *d) if d else e.interp.getattr(o, name)


@builtin(setattr)
def b_setattr(e, o, name, v):
    if not isinstance(name, str):
        raise Unsupported("setattr with a symbolic name")
    e.interp.setattr(o, name, v)


@builtin(hasattr)
def b_hasattr(e, o, name):
    if not isinstance(name, str):
        raise Unsupported("hasattr with a symbolic name")
    try:
        return e.interp.getattr(o, name, None) is not None or \
            e.interp._getattr(e.force(o), name) is not e.interp.MISSING
    except PyRaise as p:
        if issubclass(p.obj.cls, AttributeError):
            return False
        raise


@builtin(callable)
def b_callable(e, o):
    o = e.force(o)
    return isinstance(o, (NativeFn, Bound, UserFunc, type, types.FunctionType, types.BuiltinFunctionType))


@builtin(type)
def b_type(e, o):
    o = e.force(o)
    if isinstance(o, Ref):
        return e.interp._getattr(o, "__class__")
    return py_type(o)


@builtin(print)
def b_print(e, *a, **k):
    return None


@builtin(max, min)
def b_minmax(e, *a, **k):
    raise Unsupported("min/max")


def _mm(name):
    def f(e, *a, **k):
        if k:
            raise Unsupported(f"{name} with key")
        items = [e.force(x, INT) for x in (must_items(e, a[0]) if len(a) == 1 else a)]
        if not items:
            raise_(e, ValueError, "empty")
        if all(is_conc(x) for x in items):
            return getattr(_bi, name)(items)
        r = e.int_term(items[0])
        for x in items[1:]:
            t = e.int_term(x)
            r = z3.If(t > r, t, r) if name == "max" else z3.If(t < r, t, r)
        return SInt(r)
    return f


BUILTINS[max] = _mm("max")
BUILTINS[min] = _mm("min")


@builtin(id, hash)
def b_id(e, o):
    raise Unsupported("id/hash")


@builtin(sum)
def b_sum(e, v):
    r = 0
    for x in must_items(e, v):
        r = binop(e, ast.Add(), r, x)
    return r


@builtin(map)
def b_map(e, f, v):
    return Iter([e.interp.call(f, [x]) for x in must_items(e, v)])


@builtin(filter)
def b_filter(e, f, v):
    return Iter([x for x in must_items(e, v) if e.branch(truth(e, e.interp.call(f, [x]) if f is not None else x))])


PURE_NATIVE = {"urllib.parse", "base64", "binascii", "hashlib", "html", "math", "string", "re", "json"}


def native_call(e, f, args, kwargs):
    """A library function without a model: executed on concrete arguments when it is pure, else unsupported."""
    m = lookup_builtin(f) if not isinstance(f, types.FunctionType) else None
    if m is not None:
        return m(e, *args, **kwargs)
    mod = getattr(f, "__module__", None) or ""
    key = (mod, getattr(f, "__qualname__", getattr(f, "__name__", "")))
    if key in FUNCS:
        return FUNCS[key](e, *args, **kwargs)
    if mod in PURE_NATIVE:
        try:
            a = [concretize(e, x) for x in args]
            k = {n: concretize(e, x) for n, x in kwargs.items()}
        except ValueError:
            raise Unsupported(f"no model for {key}")
        try:
            return unconcretize(e, f(*a, **k))
        except Exception as x:
            raise_(e, type(x), *[str(y) for y in x.args])
    raise Unsupported(f"no model for {key}")


def native_obj_call(e, o, args, kwargs):
    w = getattr(o.obj, "__wrapped__", None)          # functools.lru_cache: the function itself
    key = (getattr(w, "__module__", None), getattr(w, "__qualname__", None))
    if w is not None and key in FUNCS:
        return FUNCS[key](e, *args, **kwargs)
    raise Unsupported(f"call of native object {type(o.obj)}")


def opaque_call(e, f, args, kwargs):
    if getattr(f, "on_call", None) is not None:
        return f.on_call(e, args, kwargs)
    raise Unsupported(f"call of unknown {f.name}")


def opaque_attr(e, o, name):
    at = getattr(o, "attrs", None)
    if at is not None and name in at:
        return at[name]
    raise Unsupported(f"attribute {name} of unknown {o.name}")


def wants_lazy(f):
    return f in (any, all, list, set, dict, tuple, sorted, sum, frozenset) if isinstance(
        f, (type, types.BuiltinFunctionType)) else isinstance(f, NativeFn) and f.name in ("str.join", "list.extend")


def call_with_symbolic_kwargs(e, f, args, kwargs, d, site):
    """f(*args, **kwargs, **d) with d a heap dict."""
    from .interp import func_ast
    if isinstance(f, Bound):
        return call_with_symbolic_kwargs(e, f.func, [f.self_] + list(args), kwargs, d, site)
    if f is dict:
        r = dict_copy(e, d)
        for k, v in kwargs.items():
            dict_store(e, r, k, v)
        return r
    if isinstance(f, type) and is_message_class(f):
        m = new_message(e, f, args, kwargs)
        items = dict(m.items)
        r = e.born(Dict({}, cls=f))
        message_method(e, r, "from_dict", [d], {})
        for k, v in items.items():
            dict_store(e, r, k, v)
        return r
    if isinstance(f, NativeFn) and getattr(f, "kw_dict", None):
        return f.kw_dict(e, args, kwargs, d)
    if isinstance(f, types.FunctionType):
        c = e.run.callee_contract(f)
        node = func_ast(f) if e.interp.is_repo(f) else None
        if node is not None:
            a = node.args
            names = [p.arg for p in a.posonlyargs + a.args][len(args):] + [k.arg for k in a.kwonlyargs]
            rest = dict_copy(e, d)
            kw = dict(kwargs)
            for n in names:
                if n in kw:
                    if e.branch(dict_has(e, d, n)):
                        raise_(e, TypeError, "multiple values")
                    continue
                if e.branch(dict_has(e, d, n)):
                    kw[n] = getitem(e, d, n)
                    delitem(e, rest, n)
            if a.kwarg:
                r = e.interp.call_kwdict(f, args, kw, rest, site)
                return r
            if e.branch(truth(e, rest)):
                raise_(e, TypeError, "unexpected keyword argument")
            return e.interp.call(f, args, kw, site)
    if isinstance(f, type) and e.interp.is_repo(f):
        init = e.interp.class_attr(f, "__init__")
        o = e.born(Obj(f))
        call_with_symbolic_kwargs(e, init, [o] + list(args), kwargs, d, site)
        return o
    raise Unsupported(f"** of a symbolic dict in a call of {f!r}")


# ================================================================ comprehensions
def _bind_gen(e, g, x, fr):
    e.interp.assign(g.target, x, fr)


def comprehension(e, n, fr, what):
    from .interp import Frame
    it = e.interp
    inner = Frame(e, fr.qualname, fr.globals, fr, fr.closure, fr.defcls, fr.site)
    inner.self_ = fr.self_
    gens = n.generators
    first = e.force(it.ev(gens[0].iter, fr))
    items = concrete_items(e, first)
    if items is not None:
        out = []

        def rec(gi, seq):
            for x in seq:
                it.assign(gens[gi].target, x, inner)
                if not all(it.test(c, inner) for c in gens[gi].ifs):
                    continue
                if gi + 1 < len(gens):
                    nx = e.force(it.ev(gens[gi + 1].iter, inner))
                    rec(gi + 1, must_items(e, nx))
                elif what == "dict":
                    out.append((it.ev(n.key, inner), it.ev(n.value, inner)))
                else:
                    out.append(it.ev(n.elt, inner))
        rec(0, items)
        if what == "dict":
            d = e.born(Dict({}))
            for k, v in out:
                dict_store(e, d, e.force(k, STR), v)
            return d
        if what == "set":
            return make_set(e, [e.force(x, STR) for x in out])
        return e.born(List(out))
    if len(gens) != 1:
        raise Unsupported("nested comprehension over symbolic data")
    g = gens[0]
    if what == "dict":
        return dict_comp(e, n, g, first, inner)
    r = list_comp(e, n.elt, g, first, inner)
    return SSet(as_set(e, r)) if what == "set" else r


def pointwise(e, g, first, inner, body):
    """Evaluate body(element) for a bound element.  Returns (vars, range formula, cases)
    where cases are (condition, value | PyRaise | None when filtered out)."""
    it = e.interp
    if isinstance(first, Enum) or isinstance(first, List):
        src = first.src if isinstance(first, Enum) else first
        i = z3.Int(e.fresh_name("i?"))
        t = z3.Select(lel(e, src), i)
        rng = z3.And(0 <= i, i < llen(e, src))
        guard = [rng, e.has_kind(t, src.kind)]

        def elem():
            x = e.dec(t, src.kind)
            return (SInt(i + first.start), x) if isinstance(first, Enum) else x
        var = i
    else:
        d = first.d if isinstance(first, DictView) else first
        what = first.what if isinstance(first, DictView) else "keys"
        k = z3.String(e.fresh_name("k?"))
        dom = first.arr if isinstance(first, SSet) else ddom(e, d)
        rng = z3.Select(dom, k)
        guard = [rng]
        if not isinstance(first, SSet):
            t = z3.Select(dval(e, d), k)
            kind = d.kind.k
            if d.kind.keys and any(not e.kind_le(x, kind) for x in d.kind.keys.values()):
                kind = ANY
            if what != "keys":
                guard.append(e.has_kind(t, kind))

        def elem():
            if isinstance(first, SSet) or what == "keys":
                return SStr(k)
            v = e.dec(t, kind)
            return v if what == "values" else (SStr(k), v)
        var = k

    def fn():
        saved = dict(inner.locals)
        try:
            it.assign(g.target, elem(), inner)
            for c in g.ifs:
                if not it.test(c, inner):
                    return FILTERED
            return body()
        finally:
            inner.locals.clear()
            inner.locals.update(saved)
    cs = e.cases(fn, guard)
    return var, rng, guard, cs


FILTERED = object()


def settle_raises(e, var, rng, cs, need=None):
    """Fork on whether the evaluation raises for some element; returns the non-raising cases."""
    bad = [(c, v) for c, v in cs if isinstance(v, PyRaise)]
    for c, v in bad:
        w = e.const("witness", var.sort())
        cond = z3.substitute(z3.And(rng, c), (var, w))
        ex = z3.Exists([var], z3.And(rng, c))
        if e.choose(2) == 0:
            e.assume(cond)
            if not e.feasible():
                raise PathEnd()
            raise PyRaise(Obj(v.obj.cls, {"args": ("in comprehension",)}))
        e.assume(z3.Not(ex))
    return [(c, v) for c, v in cs if not isinstance(v, PyRaise)]


def list_comp(e, elt, g, first, inner):
    if not isinstance(first, (List, Dict, DictView, SSet, Enum)):
        raise Unsupported(f"comprehension over {first!r}")
    var, rng, guard, cs = pointwise(e, g, first, inner, lambda: e.interp.ev(elt, inner))
    if e.sub is not None and any(isinstance(v, PyRaise) for _, v in cs):
        raise Unsupported("exception in a nested comprehension")
    cs = settle_raises(e, var, rng, cs)
    kept = [(c, v) for c, v in cs if v is not FILTERED]
    filt = any(v is FILTERED for _, v in cs)
    kind = None
    enc = []
    for c, v in kept:
        if isinstance(v, (Obj, List, Dict)) and getattr(v, "ref", None) is None:
            raise Unsupported("comprehension building objects over symbolic data")
        kind = e.kind_of(v) if kind is None else e.join(kind, e.kind_of(v))
        enc.append((c, e.enc(v)))
    if not enc:
        return e.born(List([]))
    val = enc[-1][1]
    for c, t in reversed(enc[:-1]):
        val = z3.If(c, t, val)
    if isinstance(first, (List, Enum)):
        src = first.src if isinstance(first, Enum) else first
        n = llen(e, src)
        i = var
        if not filt:
            return new_heap_list(e, n, z3.Lambda([i], val), kind)
        cond = zor(*[c for c, _ in enc])
        nm = e.fresh_name("filter")
        arr = z3.Const(nm, z3.ArraySort(IntS, Val))
        ln = z3.Int(nm + ".len")
        sf = z3.Function(nm + ".src", IntS, IntS)
        pos = z3.Function(nm + ".pos", IntS, IntS)
        j, j2 = z3.Ints("j? j2?")
        at = lambda f, x: z3.substitute(zb(f) if isinstance(f, bool) else f, (i, x))
        e.assume(z3.And(ln >= 0, ln <= n))
        e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(
            0 <= sf(j), sf(j) < n, at(cond, sf(j)), z3.Select(arr, j) == at(val, sf(j)), pos(sf(j)) == j)),
            patterns=[z3.Select(arr, j)]))
        a = z3.simplify(lel(e, src))
        if has_lambda(a):
            a2 = z3.Const(nm + ".source", z3.ArraySort(IntS, Val))
            e.assume(a2 == a)
            a = a2
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, zb(cond)), z3.And(
            0 <= pos(i), pos(i) < ln, sf(pos(i)) == i, z3.Select(arr, pos(i)) == val)),
            patterns=pats(z3.Select(a, i))))
        e.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < ln), sf(j) < sf(j2)),
                           patterns=[z3.MultiPattern(sf(j), sf(j2))]))
        e.ghost.setdefault("filters", []).append((sf, pos))
        return new_heap_list(e, ln, arr, kind)
    # over keys: an unordered image
    d = first
    base = to_list(e, SSet(first.arr) if isinstance(first, SSet) else DictView(
        first.d if isinstance(first, DictView) else first, "keys"))
    n = llen(e, base)
    a = lel(e, base)
    i = z3.Int(e.fresh_name("i?"))
    keyt = Val.sv(z3.Select(a, i))
    cond = zb(zor(*[c for c, _ in enc])) if filt else z3.BoolVal(True)
    cond = z3.substitute(cond, (var, keyt))
    val = z3.substitute(val, (var, keyt))
    if not filt:
        return new_heap_list(e, n, z3.Lambda([i], val), kind)
    nm = e.fresh_name("filter")
    arr = z3.Const(nm, z3.ArraySort(IntS, Val))
    ln = z3.Int(nm + ".len")
    sf = z3.Function(nm + ".src", IntS, IntS)
    pos = z3.Function(nm + ".pos", IntS, IntS)
    j = z3.Int("j?")
    e.assume(z3.And(ln >= 0, ln <= n))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(
        0 <= sf(j), sf(j) < n, z3.substitute(cond, (i, sf(j))), z3.Select(arr, j) == z3.substitute(val, (i, sf(j))),
        pos(sf(j)) == j)), patterns=[z3.Select(arr, j)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, cond), z3.And(
        0 <= pos(i), pos(i) < ln, sf(pos(i)) == i)), patterns=[pos(i)]))
    return new_heap_list(e, ln, arr, kind)


def dict_comp(e, n, g, first, inner):
    var, rng, guard, cs = pointwise(e, g, first, inner,
                                    lambda: (e.interp.ev(n.key, inner), e.interp.ev(n.value, inner)))
    cs = settle_raises(e, var, rng, cs)
    kept = [(c, v) for c, v in cs if v is not FILTERED]
    kind, enc = None, []
    for c, (k, v) in kept:
        k = e.force(k)
        if isinstance(v, (Obj, List, Dict)) and getattr(v, "ref", None) is None:
            raise Unsupported("comprehension building objects over symbolic data")
        kind = e.kind_of(v) if kind is None else e.join(kind, e.kind_of(v))
        enc.append((c, k, e.enc(v)))
    if not enc:
        return e.born(Dict({}))
    val = enc[-1][2]
    for c, _, t in reversed(enc[:-1]):
        val = z3.If(c, t, val)
    cond = zb(zor(*[c for c, _, _ in enc]))
    if isinstance(first, (Dict, DictView, SSet)) and var.sort() == StrS and all(
            isinstance(k, SStr) and z3.eq(k.t, var) for _, k, _ in enc):
        dom = z3.Lambda([var], z3.And(rng, cond))
        return new_heap_dict(e, dom, z3.Lambda([var], val), DictOf(kind))
    if isinstance(first, List) and first.kind is STR and all(
            isinstance(k, SStr) and z3.eq(z3.simplify(Val.s(k.t)), z3.simplify(Val.s(Val.sv(z3.Select(lel(e, first), var)))))
            for _, k, _ in enc):
        # {k: f(k) for k in list}: the value depends on the key only if it mentions the element alone
        s = as_set(e, first)
        kv = z3.String(e.fresh_name("k?"))
        el = Val.sv(z3.Select(lel(e, first), var))
        cond2 = z3.substitute(z3.simplify(cond), (z3.simplify(el), kv))
        val2 = z3.substitute(z3.simplify(val), (z3.simplify(el), kv), (z3.simplify(z3.Select(lel(e, first), var)), Val.s(kv)))
        if mentions(cond2, var) or mentions(val2, var):
            raise Unsupported("dict comprehension depending on positions")
        return new_heap_dict(e, z3.Lambda([kv], z3.And(z3.Select(s, kv), cond2)), z3.Lambda([kv], val2), DictOf(kind))
    raise Unsupported("dict comprehension with computed keys over symbolic data")


NO_PATTERN = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}


def pats(t):
    """t as a pattern, if the solver takes it"""
    return [] if has_lambda(t) else [t]


def has_lambda(t):
    """no part of a pattern"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in NO_PATTERN:
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            st += x.children()
    return False


def mentions(t, v):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, v):
            return True
        st += x.children()
    return False


def quantify(e, gx, name):
    from .interp import Frame
    n, fr = gx.node, gx.frame
    it = e.interp
    inner = Frame(e, fr.qualname, fr.globals, fr, fr.closure, fr.defcls, fr.site)
    inner.self_ = fr.self_
    first = e.force(it.ev(n.generators[0].iter, fr))
    items = concrete_items(e, first)
    if items is not None and len(n.generators) == 1:
        # short-circuiting
        g = n.generators[0]
        for x in items:
            it.assign(g.target, x, inner)
            if not all(it.test(c, inner) for c in g.ifs):
                continue
            b = e.branch(truth(e, it.ev(n.elt, inner)))
            if b and name == "any":
                return True
            if not b and name == "all":
                return False
        return name == "all"
    if items is not None:
        r = comprehension(e, n, fr, "list")
        return BUILTINS[any if name == "any" else all](e, r)
    if len(n.generators) != 1:
        raise Unsupported("nested generator over symbolic data")
    if not isinstance(first, (List, Dict, DictView, SSet, Enum)):
        raise Unsupported(f"{name} over {first!r}")

    def body():
        t = truth(e, it.ev(n.elt, inner))
        return t if isinstance(t, bool) else SBool(t)
    var, rng, guard, cs = pointwise(e, n.generators[0], first, inner, body)
    if any(isinstance(v, PyRaise) for _, v in cs):
        if e.sub is not None:
            raise Unsupported("exception in a nested quantifier")
        cs = settle_raises(e, var, rng, cs)
    tf = zb(zor(*[zand(c, zb(e.bool_term(v))) for c, v in cs if v is not FILTERED]))
    if name == "any":
        return SBool(z3.Exists([var], z3.And(rng, tf)))
    ok = zb(zor(*[c if v is FILTERED else zand(c, zb(e.bool_term(v))) for c, v in cs]))
    return SBool(z3.ForAll([var], z3.Implies(rng, ok)))


from . import libmodels  # noqa  (fills FUNCS / CLASSES)
