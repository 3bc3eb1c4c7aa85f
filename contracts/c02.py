"""C02: redemption of authorization codes."""
from .world import *

SCHEMA = dict(SCHEMA)


def redeem(e, oidc):
    w = TokenWorld(e, oidc)
    grant_type = w.rstr(e, "grant_type")
    e.assume(grant_type == S("authorization_code"))
    e.assume(has(e, w.req, "code"))
    code = w.rstr(e, "code")
    e.assume(has(e, w.req, "client_id"))
    e.assume(w.rstr(e, "client_id") == w.client_id.t)     # Endpoint.parse_request: the authenticated client (C10)
    i = z3.Int("i?")
    # tokens' values carry no blanks, codes are single use (C08, C01)
    e.assume(Not(z3.Contains(code, S(" "))) if False else True)
    v0 = e.comp("F:value")
    rules_of = lambda r: Select(e.comp("F:usage_rules"), r)
    tok_is_code = lambda t: CLS(t.ref) == e.run.class_id(AuthorizationCode)
    used0, rev0 = e.comp("F:used"), e.comp("F:revoked")
    registered = has(e, w.grant.fields["authorization_request"], "redirect_uri")
    reg_uri = Val.sv(raw(e, w.grant.fields["authorization_request"], "redirect_uri"))
    got_uri, has_uri = w.rstr(e, "redirect_uri"), has(e, w.req, "redirect_uri")
    issue = {} if e.choose(2) else {"issue_refresh": e.inp("issue_refresh", BOOL)}
    orig = e.comp("DDOM"), e.comp("DVAL")
    p, r = w.run(e, issue)
    t = w.found.get(code.sexpr())
    if r is None or not r.ok or is_error(r.value):
        if not w.minted:
            e.prove("a request refused on these grounds mints nothing", w.untouched(e))
        e.cover("refused")
        if r is None:
            return
    if w.minted:
        e.prove("tokens come from a code of this grant", t is not None)
        if t is None:
            return
        e.prove("it is an authorization code with that value", And(tok_is_code(t), e.str_term(e.interp.getattr(t, "value")) == code))
        e.prove("it was issued to the client making the request", w.owner.t == w.client_id.t)
        e.prove("the redirect URI is that of the authorization request", Implies(registered, And(has_uri, got_uri == reg_uri)))
        e.prove("the code was active", w.was_active)
        for m in w.minted:
            e.prove("everything is minted from that code", M.eq(e, e.interp.getattr(m, "based_on"), SStr(code)))
    if r.ok and not is_error(r.value):
        e.prove("tokens are handed out only for a known code", t is not None)
        e.prove("the code is used up", e.int_term(e.interp.getattr(t, "used")) == Select(used0, t.ref) + 1)
        later = e.sint("later")
        rules = e.interp.getattr(t, "usage_rules")
        e.prove("and never active again", Implies(And(has(e, rules, "max_usage"), ival(e, rules, "max_usage") == 1, Select(used0, t.ref) >= 0),
                                                  Not(active(e, t, later.t))))
        e.cover("redeemed")


def watch_active(e, bound):
    w = e.ghost["w"]
    r = is_active(e, bound)
    t = bound["self"]
    if isinstance(t, Ref) and w.was_active is None:
        w.was_active = r.t
    return r


def _go(oidc):
    def fn(e):
        TokenWorld.was_active = None
        redeem(e, oidc)
    contract("C02", "redeem_" + ("oidc" if oidc else "oauth2"), f"oidcop.{'oidc' if oidc else 'oauth2'}.token:AccessTokenHelper.process_request",
             schema=SCHEMA, callees={**TOKEN_CALLEES, "oidcop.session.token:Item.is_active": watch_active})(fn)


for _o in (True, False):
    _go(_o)


def inv_find(e, L):
    w = e.ghost.get("w")
    if w is None or L.idx is None:
        return
    i = z3.Int("i?")
    yield "not found yet", ForAll([i], Implies(And(i >= 0, i < L.idx), Select(e.comp("F:value"), w.ref(i)) != e.ghost["v"]))


@contract("C02", "get_token", G + ".get_token", schema=SCHEMA, inv=inv_find)
def find(e):
    """the callee contract of get_token"""
    w = World(e)
    v = e.inp("value", STR)
    e.ghost["v"] = v.t
    h0 = dict(e.heap)
    r = execute(e, G + ".get_token", w.grant, v)
    e.prove("returns normally", r.ok)
    i = z3.Int("i?")
    if r.value is None:
        e.prove("nothing is found only if no token has the value", ForAll([i], Implies(w.in_(i), Select(e.comp("F:value"), w.ref(i)) != v.t)))
        e.cover("missing")
    else:
        e.prove("what is found is one of the grant's tokens", w.known(r.value))
        e.prove("and has the value", e.str_term(e.interp.getattr(r.value, "value")) == v.t)
        e.cover("found")
    e.prove("reading changes nothing", And(*[e.heap[c] == h0[c] for c in h0]))
