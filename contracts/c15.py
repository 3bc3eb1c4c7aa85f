"""C15: introspection."""
from .world import *
from oidcmsg.oauth2 import TokenIntrospectionRequest, TokenIntrospectionResponse
from oidcop.exception import ToOld
from oidcop.oauth2.introspection import Introspection
from oidcop.token.exception import WrongTokenClass
from . import c05

ATTRS = ["active", "scope", "client_id", "username", "token_type", "exp", "iat", "nbf", "sub", "aud", "iss", "jti"]


def lookup(e, bound):
    """SessionManager.get_session_info_by_token: the session the token was minted in, or a lookup failure (C07, C08)."""
    w = e.ghost["w"]
    w.looked_up.append(bound["token_value"])
    if e.choose(2):
        w.failed = True
        raise PyRaise(Obj([UnknownToken, WrongTokenClass, ToOld, KeyError, ValueError][e.choose(5)], {"args": ()}))
    return e.born(Dict({"session_id": w.sid, "user_id": w.user, "client_id": w.owner, "grant_id": w.grant.fields["id"], "grant": w.grant}))


def watch(e, bound):
    w = e.ghost["w"]
    r = is_active(e, bound)
    if isinstance(bound["self"], Ref):
        w.was_active = r.t
    return r


class IntroWorld(World):
    def __init__(self, e):
        super().__init__(e, auth_req=e.inp("auth_req", AUTH_REQ))
        self.looked_up, self.found, self.revoked, self.asked = [], {}, [], []
        self.owner, self.user, self.sid = e.inp("owner", STR), e.inp("user", STR), e.inp("sid", STR)
        self.failed, self.was_active = False, None
        self.ctx.fields["issuer"] = self.issuer = e.inp("issuer", STR)
        self.released = e.inp("user_claims", DictOf(ANY))
        self.ci.fields["get_user_claims"] = NativeFn(self.user_claims, "get_user_claims")
        self.make_endpoint(Introspection)

    def user_claims(self, e, *a, **k):
        """ClaimsInterface.get_user_claims (C13): it only reads"""
        return self.released


def response(e, w, r):
    return M.getitem(e, r.value, "response_args") if r.ok else None


def introspect(e, cls):
    w = IntroWorld(e)
    tok = e.inp("token", STR)
    e.assume(z3.Length(tok.t) > 0)
    req = e.born(Dict({"token": tok}))
    release = [None, e.born(List(["username"])), e.born(List([]))][e.choose(3)]
    if cls is not None:
        w.kind = cls
    r = execute(e, "oidcop.oauth2.introspection:Introspection.process_request", w.endpoint, req, release)
    if not r.ok:
        e.prove("every token gets an answer", False)
        return
    resp = response(e, w, r)
    t = w.found.get(tok.t.sexpr())
    act = M.getitem(e, resp, "active")
    e.prove("the answer says active or not", isinstance(act, (bool, SBool)))
    is_act = b(e, act)
    e.prove("the token looked up is the one presented", And(*[e.str_term(x) == tok.t for x in w.looked_up], len(w.looked_up) == 1))
    if t is None:
        e.prove("an unknown token is not active", Not(is_act))
        e.cover("unknown")
    else:
        kind = e.str_term(e.interp.getattr(t, "token_class"))
        right = Or(kind == S("access_token"), kind == S("refresh_token"))
        e.prove("active exactly for an active access or refresh token", is_act == And(right, active(e, t, w.now)))
    if not e.branch(is_act):
        e.prove("an inactive answer says nothing else", resp.native and set(resp.items) == {"active"})
        e.cover("inactive")
        return
    if t is None:
        return
    g = w.grant.fields
    said = lambda k: M.getitem(e, resp, k)
    at = lambda k: e.interp.getattr(t, k)
    e.prove("client", M.eq(e, said("client_id"), w.owner))
    e.prove("subject", M.eq(e, said("sub"), g["sub"]))
    e.prove("issuer", M.eq(e, said("iss"), w.issuer))
    e.prove("issue time", M.eq(e, said("iat"), at("issued_at")))
    e.prove("expiry time", M.eq(e, said("exp"), at("expires_at")))
    own = at("scope")
    if e.branch(M.llen(e, own) > 0):
        want = own
    elif e.ghost.get("found_scope") is not None:
        want = e.ghost["found_scope"]
    else:
        want = w.scope
    e.prove("scope", M.eq(e, said("scope"), M.str_join(e, " ", want)))
    res = at("resources")
    own_aud = M.llen(e, res) > 0
    aud = If(own_aud, res.ref, g["resources"].ref)
    has_aud = zb(M.contains(e, resp, "aud"))
    e.prove("audience", has_aud == (Select(e.comp("LLEN"), aud) > 0))
    if e.branch(has_aud):
        e.prove("audience as recorded", e.enc(said("aud")) == Val.r(aud))
    tt = at("token_type")
    e.prove("token type", zb(M.contains(e, resp, "token_type")) == (z3.Length(e.str_term(tt)) > 0))
    if e.branch(zb(M.contains(e, resp, "token_type"))):
        e.prove("token type as recorded", M.eq(e, said("token_type"), tt))
    if e.branch(zb(M.contains(e, resp, "username"))):
        e.prove("the user name is released only when asked for, and is the session's", And(
            M.eq(e, said("username"), w.user), release is not None and release.items == ["username"]))
    e.cover("active")


contract("C15", "process_request", "oidcop.oauth2.introspection:Introspection.process_request", schema=SCHEMA,
         callees={SM + ".get_session_info_by_token": lookup, G + ".get_token": get_token, G + ".find_scope": c05.find_scope,
                  "oidcop.session.token:Item.is_active": watch})(lambda e: introspect(e, None))
