"""C11: PKCE."""
import oidcmsg.oidc
from oidcmsg.oauth2 import AuthorizationErrorResponse, RefreshAccessTokenRequest, TokenExchangeRequest
from .world import *

P = "oidcop.oidc.add_on.pkce:"
METHODS = ("plain", "S256", "S384", "S512")
PAUTH = DictOf(ANY, {**AUTH_REQ.keys, "code_challenge": STR, "code_challenge_method": STR}, cls=AuthorizationRequest)
ASCII = z3.Function("str_isascii", StrS, BoolS)


def transform(method, v):
    """the transformation RFC 7636 gives the method (for a verifier in ASCII)"""
    if method == "plain":
        return v
    return M.UTF8_DEC(L.B64UE(L.SHA["sha" + method[1:]](M.UTF8(v))))


def matches(method, v, challenge):
    """method is a term: one of the methods, and its transformation of v is the challenge"""
    return Or(*[And(method == S(m), transform(m, v) == challenge, ASCII(v) if m != "plain" else True) for m in METHODS])


class PkceWorld(World):
    def __init__(self, e):
        self.areq = e.inp("auth_request", PAUTH)
        super().__init__(e, auth_req=self.areq)
        self.cid = e.inp("client_id", STR)
        e.assume(Select(M.ddom(e, self.cdb), self.cid.t))
        self.client = M.getitem(e, self.cdb, self.cid)
        self.methods = e.inp("configured_methods", DictOf(ANY))
        self.pkce = e.born(Dict({"code_challenge_methods": self.methods}))
        if e.choose(2):
            self.pkce.items["essential"] = e.inp("server_essential", BOOL)
        self.ctx.fields["args"] = e.born(Dict({"pkce": self.pkce}))


@contract("C11", "authorization_request", P + "post_authn_parse", schema=SCHEMA)
def authn(e):
    w = PkceWorld(e)
    q = w.areq
    e.assume(And(q.ref != w.client.ref, q.ref != w.methods.ref, q.ref != w.cdb.ref))      # a request is no part of the configuration
    d0, v0 = M.ddom(e, q), M.dval(e, q)
    had, named = Select(d0, S("code_challenge")), Select(d0, S("code_challenge_method"))
    ch, meth = Select(v0, S("code_challenge")), Val.sv(Select(v0, S("code_challenge_method")))
    server = e.bool_term(w.pkce.items["essential"]) if "essential" in w.pkce.items else z3.BoolVal(False)
    essential = If(has(e, w.client, "pkce_essential"), Val.bv(raw(e, w.client, "pkce_essential")), server)
    method = If(named, meth, S("plain"))
    m0, c0 = M.ddom(e, w.methods), M.ddom(e, w.client)
    r = execute(e, P + "post_authn_parse", q, w.cid, w.ctx)
    e.prove("returns normally", r.ok)
    e.prove("the configuration is not changed", And(M.ddom(e, w.methods) == m0, M.ddom(e, w.client) == c0))
    if is_error(r.value):
        e.prove("refused only for a missing challenge that is required, or a method that is not configured",
                Or(And(essential, Not(had)), And(had, Not(Select(m0, method)))))
        e.prove("the answer is an authorization error", issubclass(r.value.cls, AuthorizationErrorResponse))
        e.cover("refused")
        return
    e.prove("a required challenge is there", Implies(essential, had))
    e.prove("its method is configured", Implies(had, Select(m0, method)))
    v = r.value
    e.prove("the request goes on with its challenge", And(has(e, v, "code_challenge") == had, Implies(had, raw(e, v, "code_challenge") == ch)))
    e.prove("and its method, plain if it named none", Implies(had, And(has(e, v, "code_challenge_method"),
                                                                       raw(e, v, "code_challenge_method") == Val.s(method))))
    k = z3.Const("k?", StrS)
    e.prove("nothing else of it changes", ForAll([k], Implies(And(k != S("code_challenge_method")), And(
        Select(M.ddom(e, v), k) == Select(d0, k), Implies(Select(d0, k), Select(M.dval(e, v), k) == Select(v0, k))))))
    e.cover("accepted")


@contract("C11", "verify_challenge", P + "verify_code_challenge", schema=SCHEMA)
def verify(e):
    v, ch, m = e.inp("verifier", STR), e.inp("challenge", STR), e.inp("method", STR)
    r = execute(e, P + "verify_code_challenge", v, ch, m)
    if not r.ok:
        e.prove("fails only for an unknown method or a verifier outside ASCII", Or(And(*[m.t != S(x) for x in METHODS]), Not(ASCII(v.t))))
        e.cover("failed")
        return
    e.prove("true exactly when the transformed verifier equals the challenge", b(e, r.value) == matches(m.t, v.t, ch.t))
    e.cover("decided")


def session_of(e, bound):
    """SessionManager.get_session_info_by_token: the session the token was minted in, or a lookup failure (C07, C08)."""
    w = e.ghost["w"]
    w.asked.append(bound["token_value"])
    if e.choose(2):
        raise PyRaise(Obj([UnknownToken, KeyError][e.choose(2)], {"args": ()}))
    return e.born(Dict({"session_id": e.sstr("sid"), "client_id": e.sstr("owner"), "grant_id": w.grant.fields["id"], "grant": w.grant}))


def token_request(e, cls):
    return e.inp("request", DictOf(ANY, {"code": STR, "code_verifier": STR, "grant_type": STR}, cls=cls))


def fits(e, w, req):
    """there is no challenge, or the request has the verifier for it"""
    has_v, v = has(e, req, "code_verifier"), Val.sv(raw(e, req, "code_verifier"))
    ch, m = Val.sv(raw(e, w.areq, "code_challenge")), Val.sv(raw(e, w.areq, "code_challenge_method"))
    return Or(Not(has(e, w.areq, "code_challenge")), And(has_v, has(e, w.areq, "code_challenge_method"), matches(m, v, ch)))


@contract("C11", "token_request", P + "post_token_parse", schema=SCHEMA, callees={SM + ".get_session_info_by_token": session_of})
def token(e):
    w = PkceWorld(e)
    w.asked = []
    cls = [oidcmsg.oidc.AccessTokenRequest, oidcmsg.oauth2.AccessTokenRequest, Message][e.choose(3)]
    req = token_request(e, cls)
    ok = fits(e, w, req)
    e.assume(Implies(has(e, w.areq, "code_challenge"), has(e, w.areq, "code_challenge_method")))   # authorization_request
    d0, v0 = M.ddom(e, req), M.dval(e, req)
    r = execute(e, P + "post_token_parse", req, w.cid, w.ctx)
    if not r.ok:
        e.cover("failure")
        e.prove("fails only without a session, or at a verifier that does not fit", Or(Not(ok), len(w.asked) == 0, r.raised(UnknownToken)))
        return
    if is_error(r.value):
        e.prove("the answer is a token error", issubclass(r.value.cls, oidcmsg.oauth2.TokenErrorResponse))
        e.cover("refused")
        return
    e.prove("the session is that of the code", len(w.asked) == 1 and zb(M.eq(e, w.asked[0], SStr(Val.sv(Select(v0, S("code")))))))
    e.prove("accepted only with the verifier for the challenge", ok)
    e.prove("the request is not changed", same_dict(e, r.value, d0, v0))
    e.cover("accepted")


@contract("C11", "refused_early", P + "post_token_parse", schema=SCHEMA, callees={SM + ".get_session_info_by_token": session_of})
def early(e):
    """what is not a code redemption is left alone"""
    w = PkceWorld(e)
    w.asked = []
    cls = [AuthorizationErrorResponse, RefreshAccessTokenRequest, oidcmsg.oidc.RefreshAccessTokenRequest, TokenExchangeRequest][e.choose(4)]
    req = token_request(e, cls)
    r = execute(e, P + "post_token_parse", req, w.cid, w.ctx)
    e.prove("it is returned as it is", r.ok and r.value is req)
    e.cover("end")


# ---------------------------------------------------------------- the token endpoint with the hook in place
def endpoint(oidc):
    tm = "oidcop.oidc.token" if oidc else "oidcop.oauth2.token"

    def fn(e):
        w = PkceWorld(e)
        w.asked = []
        mod = __import__(tm, fromlist=["Token"])
        w.cls = mod.Token
        req = token_request(e, (oidcmsg.oidc if oidc else oidcmsg.oauth2).AccessTokenRequest)
        w.req = req
        ok = fits(e, w, req)
        first = NativeFn(lambda e, request, client_id, **kw: e.born(Dict({"error": "invalid_grant"}, cls=mod.Token.error_cls))
                         if e.choose(2) else request, "earlier hook")
        from oidcop.oidc.add_on import pkce
        ep = w.make_endpoint(mod.Token, post_parse_request=e.born(List([first, pkce.post_token_parse])))
        reached = []
        helper = sym_obj(e, object, "helper", process_request=NativeFn(lambda e, *a, **k: reached.append(1) or e.born(Dict({})), "helper"))
        ep.fields["helper"] = e.born(Dict({"authorization_code": helper}))
        p = execute(e, "oidcop.endpoint:Endpoint.do_post_parse_request", ep, req, w.cid)
        if not p.ok:
            e.cover("failure")
            return
        execute(e, f"oidcop.oauth2.token:Token.process_request", ep, p.value)
        if reached:
            e.prove("the redemption is carried out only with the verifier for the challenge", ok)
            e.cover("redeemed")
        else:
            e.cover("refused")
    contract("C11", "endpoint_" + ("oidc" if oidc else "oauth2"), "oidcop.endpoint:Endpoint.do_post_parse_request", schema=SCHEMA,
             callees={SM + ".get_session_info_by_token": session_of,
                      "oidcop.endpoint_context:EndpointContext.new_cookie": lambda e, bnd: e.born(Dict({})),
                      "oidcop.session.database:Database.session_key": lambda e, bnd: e.sstr("session_key")})(fn)


for _o in (True, False):
    endpoint(_o)


@contract("C11", "setup", P + "add_pkce_support", schema=SCHEMA, unroll_ok=True)
def setup(e):
    """both hooks are registered; only methods the server implements are configured"""
    from oidcop.oauth2.authorization import Authorization
    from oidcop.oauth2.token import Token
    from oidcop.oidc.add_on import pkce
    w = World(e)
    w.ctx.fields["args"] = e.born(Dict({}))
    sg = NativeFn(w.context, "server_get")
    a, t = (sym_obj(e, c, c.__name__, server_get=sg, post_parse_request=e.born(List([]))) for c in (Authorization, Token))
    kw = {}
    names = []
    if e.choose(2):
        names = [[], ["S256"], ["plain", "S512"], ["S256", "MD5"], ["none"]][e.choose(5)]
        kw["code_challenge_methods"] = e.born(List(list(names)))
    else:
        names = list(METHODS)
    if e.choose(2):
        kw["essential"] = e.inp("essential", BOOL)
    r = execute(e, P + "add_pkce_support", e.born(Dict({"authorization": a, "token": t})), **kw)
    if not r.ok:
        e.prove("refused only for a method that is not implemented", any(n not in METHODS for n in names))
        e.cover("refused")
        return
    e.prove("the authorization endpoint has the hook", any(x is pkce.post_authn_parse for x in a.fields["post_parse_request"].items))
    e.prove("the token endpoint has the hook", any(x is pkce.post_token_parse for x in t.fields["post_parse_request"].items))
    conf = w.ctx.fields["args"].items.get("pkce")
    ms = conf.items["code_challenge_methods"]
    e.prove("exactly the methods asked for are configured", sorted(ms.items) == sorted(names) and set(names) <= set(METHODS))
    e.prove("whether a challenge is required is the configured choice", conf.items.get("essential") is kw.get("essential"))
    e.cover("end")
