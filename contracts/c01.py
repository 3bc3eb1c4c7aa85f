"""C01: activity of items."""
from .lib import *
from oidcop.session import token as T

P = "oidcop.session.token"


def item(e, cls=T.SessionToken):
    rules = e.inp("usage_rules", usage_rules_kind())
    o = sym_obj(e, cls, "self", usage_rules=rules, used=e.inp("used", INT), revoked=e.inp("revoked", BOOL),
                not_before=e.inp("not_before", INT), expires_at=e.inp("expires_at", INT), issued_at=e.inp("issued_at", INT))
    e.assume(o.fields["used"].t >= 0)
    e.assume(o.fields["not_before"].t >= 0)
    e.assume(o.fields["expires_at"].t >= 0)
    return o, rules


def active_spec(e, o, rules, now):
    f = o.fields
    under = Or(Not(has(e, rules, "max_usage")), e.int_term(f["used"]) < ival(e, rules, "max_usage"))
    nb, ex = e.int_term(f["not_before"]), e.int_term(f["expires_at"])
    return And(under, Not(e.bool_term(f["revoked"])), Or(nb == 0, now >= nb), Or(ex == 0, now <= ex))


@contract("C01", "is_active", f"{P}:Item.is_active")
def is_active(e):
    o, rules = item(e)
    now = e.inp("now", INT)
    e.assume(now.t >= 0)
    clk = e.inp("clock", INT)
    e.assume(clk.t > 0)
    e.ghost["now"] = clk
    spec = active_spec(e, o, rules, If(now.t == 0, clk.t, now.t))
    h0 = dict(e.heap)
    f0 = dict(o.fields)
    r = execute(e, f"{P}:Item.is_active", o, now)
    e.prove("returns normally", r.ok)
    e.prove("active exactly when the validity rules allow", b(e, r.value) == spec)
    e.prove("pure", zand_same(e, o, f0, h0))
    if e.branch(b(e, r.value)):
        e.cover("active")
    else:
        e.cover("inactive")


def zand_same(e, o, f0, h0):
    return M.zand(set(o.fields) == set(f0), *[o.fields[k] is f0[k] or M.eq(e, o.fields[k], f0[k]) for k in f0 if k in o.fields],
                  *[e.heap[c] == h0.get(c, e.heap0[c]) for c in e.heap if c in ("DDOM", "DVAL", "LLEN", "LEL")])


@contract("C01", "is_active_default_clock", f"{P}:Item.is_active")
def is_active_clock(e):
    o, rules = item(e)
    clk = e.inp("clock", INT)
    e.assume(clk.t > 0)
    e.ghost["now"] = clk
    r = execute(e, f"{P}:Item.is_active", o)
    e.prove("without an argument the current time decides", b(e, r.value) == active_spec(e, o, rules, clk.t))
    e.cover("end")


@contract("C01", "revoke", f"{P}:Item.revoke")
def revoke(e):
    o, rules = item(e)
    f0 = dict(o.fields)
    r = execute(e, f"{P}:Item.revoke", o)
    e.prove("returns normally", r.ok)
    e.prove("revoked afterwards", b(e, o.fields["revoked"]))
    e.prove("nothing else changes", all(o.fields.get(k) is f0[k] for k in f0 if k != "revoked"))
    r2 = execute(e, f"{P}:Item.is_active", o, e.sint("later"))
    e.prove("never active again, at any time", Not(b(e, r2.value)))
    e.cover("end")


@contract("C01", "register_usage", f"{P}:SessionToken.register_usage")
def register_usage(e):
    o, rules = item(e)
    f0 = dict(o.fields)
    r = execute(e, f"{P}:SessionToken.register_usage", o)
    e.prove("returns normally", r.ok)
    e.prove("use count goes up by one", e.int_term(o.fields["used"]) == f0["used"].t + 1)
    e.prove("nothing else changes", all(o.fields.get(k) is f0[k] for k in f0 if k != "used"))
    r2 = execute(e, f"{P}:SessionToken.has_been_used", o)
    e.prove("counts as used", b(e, r2.value))
    e.cover("end")


@contract("C01", "code_single_use", f"{P}:AuthorizationCode")
def code_single_use(e):
    import z3
    given = e.choose(2)
    kw = dict(token_class="authorization_code", value=e.inp("value", STR), issued_at=e.inp("issued_at", INT),
              expires_in=e.inp("expires_in", INT), expires_at=e.inp("expires_at", INT),
              not_before=e.inp("not_before", INT), used=0, revoked=e.inp("revoked", BOOL))
    if given:
        kw["usage_rules"] = e.inp("usage_rules", usage_rules_kind())
    r = execute(e, f"{P}:AuthorizationCode", **kw)
    e.prove("constructor returns", r.ok)
    code = r.value
    rules = e.interp.getattr(code, "usage_rules")
    mu = M.dict_method(e, rules, "get", ["max_usage"], {})
    e.prove("limit is exactly one", M.eq(e, mu, 1))
    clk = e.sint("t1")
    first = execute(e, f"{P}:Item.is_active", code, clk)
    execute(e, f"{P}:SessionToken.register_usage", code)
    t2 = e.sint("t2")
    second = execute(e, f"{P}:Item.is_active", code, t2)
    e.prove("inactive after one use, at any time", Not(b(e, second.value)))
    if e.branch(b(e, first.value)):
        e.cover("usable once")


def _mono_contract():
    """Every method of every token class: revoked and used only ever grow."""
    import types
    seen = set()
    for cls in (T.Item, T.SessionToken, T.AccessToken, T.AuthorizationCode, T.RefreshToken, T.IDToken):
        for n, f in list(vars(cls).items()):
            if isinstance(f, types.FunctionType) and n != "__init__" and f not in seen:
                seen.add(f)

                def fn(e, f=f, cls=cls, n=n):
                    o, rules = item(e, cls)
                    u0, r0 = o.fields["used"].t, o.fields["revoked"].t
                    node_args = f.__code__.co_varnames[1:f.__code__.co_argcount]
                    nd = len(f.__defaults__ or ())
                    args = [e.inp(a, INT if a in ("now", "expires_in") else STR) for a in node_args]
                    execute(e, f"{P}:{cls.__name__}.{n}", o, *args)
                    e.prove("a revoked item stays revoked", Implies(r0, b(e, o.fields["revoked"])))
                    e.prove("the use count never decreases", e.int_term(o.fields["used"]) >= u0)
                    rl = o.fields["usage_rules"]
                    if rl is rules:
                        e.prove("a usage limit is never raised", Or(
                            And(Not(has0(e, rules, "max_usage")), True),
                            And(has(e, rules, "max_usage"), ival(e, rules, "max_usage") <= ival0(e, rules, "max_usage")),
                            And(has(e, rules, "max_usage"), ival(e, rules, "max_usage") == 1)))
                    e.cover("end")
                contract("C01", f"monotone_{cls.__name__}_{n}", f"{P}:{cls.__name__}.{n}")(fn)


def has0(e, d, key):
    e.comp("DDOM")
    return Select(Select(e.heap0["DDOM"], d.ref), S(key))


def ival0(e, d, key):
    e.comp("DVAL")
    return Val.iv(Select(Select(e.heap0["DVAL"], d.ref), S(key)))


_mono_contract()
