"""Shared helpers for the contracts: symbolic instances of the repository's classes, logical shorthands."""
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc import models as M
from pyvc.verify import also, contract, execute, resolve, Outcome

And, Or, Not, Implies, ForAll, Exists, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll, z3.Exists, z3.If
Select, Store = z3.Select, z3.Store
zb, truth = M.zb, M.truth
S = z3.StringVal


def usage_rules_kind():
    """A usage rule for one kind of token."""
    return DictOf(ANY, {"max_usage": INT, "expires_in": INT, "supports_minting": ListOf(STR)})


def b(e, v):
    """value -> formula (its Python truth)"""
    return zb(truth(e, v))


def has(e, d, key):
    if d.native and isinstance(key, str):
        return z3.BoolVal(key in d.items)
    return Select(M.ddom(e, d), S(key) if isinstance(key, str) else key)


def ival(e, d, key):
    return Val.iv(Select(M.dval(e, d), S(key)))


def raw(e, d, key):
    if d.native and isinstance(key, str):
        return e.enc(d.items[key]) if key in d.items else Val.none
    return Select(M.dval(e, d), S(key) if isinstance(key, str) else key)


def sym_obj(e, cls, tag="", **fields):
    o = e.born(Obj(cls, fields, tag=tag))
    return o


def same_dict(e, d, old_dom, old_val):
    return And(M.ddom(e, d) == old_dom, M.dval(e, d) == old_val)


def same_list(e, l, old_len, old_el):
    return And(M.llen(e, l) == old_len, M.lel(e, l) == old_el)


def lemma(e, name, f):
    """prove, then use"""
    e.prove(name, f)
    e.assume(f)


def same_strings(e, a, b):
    """two lists of strings have the same elements in the same order"""
    i = z3.Int(e.fresh_name("i?"))

    def parts(l):
        if l.native:
            arr = z3.K(IntS, Val.none)
            for n, x in enumerate(l.items):
                arr = Store(arr, n, Val.s(e.str_term(x)))
            return z3.IntVal(len(l.items)), arr
        return M.llen(e, l), M.lel(e, l)
    (na, ea), (nb, eb) = parts(e.force(a)), parts(e.force(b))
    return And(na == nb, ForAll([i], Implies(And(i >= 0, i < na), Select(ea, i) == Select(eb, i))))
