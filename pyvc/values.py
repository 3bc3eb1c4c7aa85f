"""Value domain of the symbolic semantics, and the z3 sorts used for the heap."""
import z3

IntS, BoolS, StrS = z3.IntSort(), z3.BoolSort(), z3.StringSort()
_V = z3.Datatype("Val")
_V.declare("none")
_V.declare("b", ("bv", BoolS))
_V.declare("i", ("iv", IntS))
_V.declare("s", ("sv", StrS))
_V.declare("y", ("yv", StrS))          # bytes
_V.declare("r", ("rv", IntS))          # reference to a heap object
Val = _V.create()
NONE = Val.none

FRESH_BASE = 1000000                   # references of objects allocated during the run


# ------------------------------------------------------------------ kinds (static value descriptions)
class Kind:
    name = "any"

    def __repr__(self):
        return self.name


class _Simple(Kind):
    def __init__(self, name):
        self.name = name


ANY = _Simple("any")                   # scalars or None or unknown reference
INT, BOOL, STR, BYTES, NONEK = map(_Simple, ("int", "bool", "str", "bytes", "none"))
OPAQUE = _Simple("opaque")             # an object nothing is known about


class Opt(Kind):
    def __init__(self, k):
        self.k = k
        self.name = f"Opt[{k}]"


class Union(Kind):
    def __init__(self, *ks):
        self.ks = ks
        self.name = "Union[%s]" % ",".join(map(str, ks))


class ListOf(Kind):
    def __init__(self, k=ANY):
        self.k = k
        self.name = f"List[{k}]"


class TupleOf(Kind):
    def __init__(self, *ks):
        self.ks = ks
        self.name = "Tuple[%s]" % ",".join(map(str, ks))


class DictOf(Kind):
    """String-keyed dict; `keys` gives kinds of particular keys, `cls` a Message class it stands for."""

    def __init__(self, k=ANY, keys=None, cls=None):
        self.k, self.keys, self.cls = k, dict(keys or {}), cls
        self.name = f"Dict[{k}]"

    def kind_of(self, key):
        return self.keys.get(key, self.k) if isinstance(key, str) else self.k


class RefOf(Kind):
    def __init__(self, cls):
        self.cls = cls
        self.name = f"Ref[{cls.__name__}]"


def same_kind(a, b):
    return a is b or repr(a) == repr(b)


# ------------------------------------------------------------------ values
class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{type(self).__name__} {self.t}>"


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SBytes(Sym):
    __slots__ = ()


class SVal(Sym):
    __slots__ = ("kind",)

    def __init__(self, t, kind=ANY):
        self.t, self.kind = t, kind


class SSet:
    """Set of strings as a predicate array."""

    def __init__(self, arr):
        self.arr = arr


class Cell:
    """Base of things with identity."""
    ref = None                         # heap reference once published (z3 term)


class Obj(Cell):
    def __init__(self, cls, fields=None, default=None, tag=""):
        self.cls = cls
        self.fields = dict(fields or {})
        self.default = default
        self.tag = tag
        self.ref = None
        self.born = None

    def __repr__(self):
        return f"<Obj {self.cls.__name__} {self.tag}>"


class Ref(Cell):
    """Symbolic reference to an object of class `cls` or a subclass."""

    def __init__(self, t, cls):
        self.ref, self.cls = t, cls

    def __repr__(self):
        return f"<Ref {self.cls.__name__} {self.ref}>"


class List(Cell):
    """A Python list; native (`items`) or on the heap (`ref`, element kind)."""

    def __init__(self, items=None, ref=None, kind=ANY, is_set=False):
        self.items = items if ref is None else None
        self.ref, self.kind = ref, kind
        self.is_set = is_set
        self.born = None

    @property
    def native(self):
        return self.ref is None

    def __repr__(self):
        return f"<List {self.items if self.native else self.ref}>"


class Dict(Cell):
    """A Python dict; native (`items`: hashable concrete key -> value) or on the heap."""

    def __init__(self, items=None, ref=None, kind=None, cls=None):
        self.items = items if ref is None else None
        self.ref = ref
        self.kind = kind or DictOf(ANY)
        self.cls = cls
        self.born = None

    @property
    def native(self):
        return self.ref is None

    def __repr__(self):
        return f"<Dict {self.items if self.native else self.ref}>"


class Opaque(Cell):
    """An unknown object; every attribute or call result is unknown too."""

    def __init__(self, name="?", truthy=None):
        self.name, self.truthy, self.ref = name, truthy, None

    def __repr__(self):
        return f"<Opaque {self.name}>"


class NativeFn:
    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name or getattr(fn, "__name__", "native")

    def __repr__(self):
        return f"<NativeFn {self.name}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<Bound {self.func} of {self.self_}>"


class UserFunc:
    """Function or lambda defined inside interpreted code."""

    def __init__(self, node, frame, defaults, kwdefaults):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.attrs = {}


class NativeObj(Cell):
    """A concrete instance of a class the semantics does not look into."""

    def __init__(self, obj):
        self.obj, self.ref = obj, None


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Iter:
    """A partially consumed concrete iterator (zip, enumerate, generators over concrete data)."""

    def __init__(self, items):
        self.items = list(items)


class GenExp:
    """An unevaluated generator expression."""

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Enum:
    """enumerate() over a heap list"""

    def __init__(self, src, start=0):
        self.src, self.start = src, start
