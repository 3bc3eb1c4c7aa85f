"""C04: minting."""
from .world import *

TE = "oidcop.oauth2.token:TokenEndpointHelper"
AZ = "oidcop.oauth2.authorization:Authorization"


def old(e, o, attr):
    return e.interp.getattr(o, attr)


def mint_token(e, tc, with_base):
    w = World(e)
    base = w.token("base") if with_base else None
    rules = e.inp("usage_rules", RULES) if e.choose(2) else None
    scope = w.own(e.inp("scope", ListOf(STR))) if e.choose(2) else None
    act = active(e, w.grant, w.now)
    base_ok = And(active(e, base, w.now), entitled(e, base, tc)) if base is not None else z3.BoolVal(True)
    used0 = w.grant.fields["used"].t
    other0 = {k: v for k, v in w.grant.fields.items() if k != "used"}
    grant_rule = Select(M.dval(e, w.rules), S(tc))
    has_rule = has(e, w.rules, tc)
    base_value = e.interp.getattr(base, "value") if base is not None else None
    r = execute(e, G + ".mint_token", w.grant, "session", w.ctx, tc, based_on=base, usage_rules=rules, scope=scope)
    if r.ok and r.value is not None:
        t = r.value
        at = lambda n: e.interp.getattr(t, n)
        e.prove("minted only under an active grant", act)
        e.prove("minted only from an active base entitled to it", base_ok)
        e.prove("the token is of the kind asked for", And(t.cls is CLASS_OF[tc], M.eq(e, at("token_class"), tc)))
        e.prove("recorded under the grant, after the earlier tokens", And(
            M.llen(e, w.issued) == w.n0 + 1, Val.rv(Select(M.lel(e, w.issued), w.n0)) == e.publish(t)))
        i = z3.Int("i?")
        e.prove("earlier tokens stay recorded", ForAll([i], Implies(w.in_(i), Select(M.lel(e, w.issued), i) == Select(w.el0, i))))
        e.prove("linked to its base", M.eq(e, at("based_on"), base_value if base is not None else None))
        if rules is not None:
            e.prove("carries the usage rules it was minted with", Or(zb(M.is_(e, at("usage_rules"), rules)), And(
                Not(b(e, rules)), Not(has(e, at("usage_rules"), "expires_in")))))
        else:
            e.prove("carries the grant's usage rules for its kind", Implies(And(has_rule, zb(M.truth(e, e.dec(grant_rule, RULES)))),
                    zb(M.is_(e, at("usage_rules"), e.dec(grant_rule, RULES)))))
        if scope is not None:
            e.prove("carries the scope it was minted with", same_strings(e, at("scope"), scope))
        elif base is None:
            e.prove("carries the grant's scope", same_strings(e, at("scope"), w.scope))
        else:
            e.prove("carries the scope of what it derives from", same_strings(e, at("scope"), e.ghost["found_scope"]))
        e.prove("is active and unused", And(Not(b(e, at("revoked"))), e.int_term(at("used")) == 0))
        e.prove("the grant is otherwise unchanged", And(e.int_term(w.grant.fields["used"]) == used0 + 1,
                                                        all(w.grant.fields.get(k) is v for k, v in other0.items())))
        e.cover("minted")
    else:
        e.prove("a refusal records nothing", w.untouched(e))
        e.prove("a refusal leaves the grant as it was", all(w.grant.fields.get(k) is v for k, v in other0.items()) and
                M.eq(e, w.grant.fields["used"], SInt(used0)))
        e.cover("refused")
        if r.ok:
            e.prove("only an inactive grant yields nothing", Not(act))
        elif r.raised(MintingNotAllowed):
            e.prove("refused only for the base", Not(base_ok))


for _tc in CLASS_OF:
    for _wb in (0, 1):
        contract("C04", f"mint_{_tc}_{'derived' if _wb else 'first'}", G + ".mint_token", schema=SCHEMA, callees={
            G + ".payload_arguments": payload, G + ".find_scope": lambda e, bnd: found_scope(e), **IS_ACTIVE})(
            lambda e, tc=_tc, wb=_wb: mint_token(e, tc, wb))


def found_scope(e):
    s = e.ghost.get("found_scope")
    if s is None:
        s = e.ghost["found_scope"] = e.ghost["w"].own(e.fresh("found", ListOf(STR)))
    return s


CALLEES = {G + ".mint_token": mint, SM + ".__setitem__": session_stored}


def _helper(target, make):
    def fn(e):
        w = World(e)
        base = w.token("base") if e.choose(2) else None
        tc = list(CLASS_OF)[e.choose(4)]
        i = z3.Int("i?")
        act = active(e, w.grant, w.now)
        rule = e.dec(Select(M.dval(e, w.rules), S(tc)), RULES)
        has_rule = has(e, w.rules, tc)
        r = make(e, w, tc, base)
        if r.ok and r.value is not None:
            t = r.value
            at = lambda n: e.interp.getattr(t, n)
            e.prove("minted only under an active grant", act)
            e.prove("the token handed back is the one recorded", And(len(w.minted) == 1, t is w.minted[0], M.llen(e, w.issued) == w.n0 + 1))
            exp = e.int_term(at("expires_at"))
            e.prove("it is minted under the grant's rules for its kind", Implies(And(has_rule, b(e, rule)),
                    zb(M.is_(e, at("usage_rules"), rule))))
            e.prove("the expiry comes from those rules", Implies(And(has_rule, has(e, rule, "expires_in"), ival(e, rule, "expires_in") > 0),
                    exp == w.now + ival(e, rule, "expires_in")))
            e.prove("no expiry where the rules have none", Implies(And(has_rule, b(e, rule), Or(
                Not(has(e, rule, "expires_in")), ival(e, rule, "expires_in") == 0)), exp == 0))
            e.cover("minted")
        else:
            e.prove("a refusal records nothing", w.untouched(e))
            e.cover("refused")
    return fn


@contract("C04", "_mint_token", TE + "._mint_token", schema=SCHEMA, callees=CALLEES)
def mint_at_token_endpoint(e):
    from oidcop.oauth2.token import TokenEndpointHelper, Token

    def make(e, w, tc, base):
        w.make_endpoint(Token)
        h = sym_obj(e, TokenEndpointHelper, "helper", endpoint=w.endpoint)
        return execute(e, TE + "._mint_token", h, tc, w.grant, "session", e.inp("client_id", STR), based_on=base)
    _helper(TE, make)(e)


@contract("C04", "authorization_mint_token", AZ + ".mint_token", schema=SCHEMA, callees=CALLEES)
def mint_at_authorization(e):
    from oidcop.oauth2.authorization import Authorization

    def make(e, w, tc, base):
        w.make_endpoint(Authorization)
        return execute(e, AZ + ".mint_token", w.endpoint, tc, w.grant, "session", based_on=base)
    _helper(AZ, make)(e)
