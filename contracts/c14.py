"""C14: the userinfo endpoint."""
from .world import *
from oidcop.oidc.userinfo import UserInfo
from oidcmsg.oauth2 import ResponseMessage as RM

EVENT = DictOf(ANY, {"valid_until": INT, "authn_info": STR, "uid": STR, "authn_time": INT})


class UserinfoWorld(World):
    def __init__(self, e):
        super().__init__(e, auth_req=e.inp("auth_req", AUTH_REQ))
        self.looked_up, self.found, self.revoked, self.asked = [], {}, [], []
        self.owner, self.user, self.sid = e.inp("owner", STR), e.inp("user", STR), e.inp("sid", STR)
        self.event = e.inp("event", EVENT)
        self.grant.fields["authentication_event"] = self.event
        e.assume(has(e, self.event, "valid_until"))
        e.assume(has(e, self.event, "authn_info"))
        self.released = e.inp("user_claims", DictOf(ANY))
        self.ci.fields["get_user_claims"] = NativeFn(self.user_claims, "get_user_claims")
        self.make_endpoint(UserInfo, error_cls=UserInfo.error_cls)

    def user_claims(self, e, user_id=None, claims_restriction=None):
        """ClaimsInterface.get_user_claims (C13): the user's claims within the restriction; it only reads"""
        self.asked.append((user_id, claims_restriction))
        if e.choose(2):
            raise PyRaise(Obj(KeyError, {"args": ()}))
        self.dom0, self.val0 = M.ddom(e, self.released), M.dval(e, self.released)
        return self.released


def watch(e, bound):
    w = e.ghost["w"]
    r = is_active(e, bound)
    if isinstance(bound["self"], Ref):
        w.was_active = r.t
    return r


CALLEES = {SM + ".get_session_info_by_token": session_by_token, G + ".get_token": get_token, **IS_ACTIVE,
           "oidcop.session.token:Item.is_active": watch,
           "oidcop.session.claims:claims_match": lambda e, bound: e.sbool("matches")}


def process(e):
    w = UserinfoWorld(e)
    w.was_active = None
    tok = e.inp("access_token", STR)
    req = e.born(Dict({"access_token": tok, "client_id": e.inp("client_id", STR)}))
    h0 = dict(e.heap)
    r = execute(e, "oidcop.oidc.userinfo:UserInfo.process_request", w.endpoint, req)
    t = w.found.get(tok.t.sexpr())
    at = "F:token_class"
    if w.asked:
        e.prove("user data is fetched only for a token of the session's grant", t is not None)
        if t is None:
            return
        e.prove("the token looked up is the one presented", And(*[e.str_term(x) == tok.t for x in w.looked_up], len(w.looked_up) > 0))
        e.prove("it is an access token", e.str_term(e.interp.getattr(t, "token_class")) == S("access_token"))
        e.prove("it is active", w.was_active if w.was_active is not None else False)
        e.prove("the authentication is still valid", ival(e, w.event, "valid_until") >= w.now)
        e.prove("user data is fetched once", len(w.asked) == 1)
        u, restriction = w.asked[0]
        e.prove("of the session's user", M.eq(e, u, w.user))
        rec = w.grant.fields["claims"]
        rec_ui = raw(e, rec, "userinfo")
        if restriction is None:
            e.prove("within what is recorded for userinfo release", Not(has(e, rec, "userinfo")))
        else:
            e.prove("within what is recorded for userinfo release", And(has(e, rec, "userinfo"), e.enc(restriction) == rec_ui))
        e.cover("data fetched")
    if not r.ok:
        e.cover("failed")
        return
    v = r.value
    if is_error(v):
        e.prove("an error holds no user data", all(k in ("error", "error_description", "error_uri") for k in v.items))
        e.cover("refused")
        return
    info = M.getitem(e, v, "response_args")
    if isinstance(info, Dict) and info.native and "error" in info.items:
        e.prove("an error holds no user data", all(k in ("error", "error_description", "error_uri") for k in info.items))
        e.cover("refused, login no longer valid")
        return
    e.prove("an answer needs an active access token and a valid login", len(w.asked) == 1)
    e.prove("the answer is for the session's client", M.eq(e, M.getitem(e, v, "client_id"), w.owner))
    k = z3.Const("k?", StrS)
    e.prove("it carries the session's subject", And(has(e, info, "sub"), M.eq(e, M.getitem(e, info, "sub"), w.grant.fields["sub"])))
    e.prove("nothing but the released claims, the subject and the authentication class", ForAll([k], Implies(
        And(has(e, info, k), k != S("sub"), k != S("acr")),
        And(Select(w.dom0, k), raw(e, info, k) == Select(w.val0, k)))))
    e.prove("an authentication class is the session's own or a released claim", Implies(has(e, info, "acr"), Or(
        raw(e, info, "acr") == raw(e, w.event, "authn_info"), And(Select(w.dom0, S("acr")), raw(e, info, "acr") == Select(w.val0, S("acr"))))))
    e.cover("answered")


contract("C14", "process_request", "oidcop.oidc.userinfo:UserInfo.process_request", schema=SCHEMA, callees=CALLEES)(process)


def client_authentication(e, bound):
    """Endpoint.client_authentication (C10): the client and token the request carries, an error, or a failure."""
    w = e.ghost["w"]
    how = e.choose(4)
    if how == 0:
        raise PyRaise(Obj([ValueError, UnknownToken][e.choose(2)], {"args": ("refused",)}))
    if how == 1:
        w.auth = None
        return e.born(Dict({"error": "invalid_client"}, cls=RM))
    w.auth = e.born(Dict({"client_id": w.owner, "token": e.inp("token", STR)}))
    return w.auth


@contract("C14", "parse_request", "oidcop.oidc.userinfo:UserInfo.parse_request", schema=SCHEMA,
          callees={"oidcop.endpoint:Endpoint.client_authentication": client_authentication})
def parse(e):
    """the token that is used is the one the client authentication found in the request"""
    w = UserinfoWorld(e)
    w.auth = None
    req = [None, e.born(Dict({})), e.born(Dict({"access_token": e.inp("other", STR), "client_id": e.inp("other_client", STR)}))][e.choose(3)]
    r = execute(e, "oidcop.oidc.userinfo:UserInfo.parse_request", w.endpoint, req, None)
    if not r.ok:
        e.cover("failed")
        return
    if w.auth is None:
        e.prove("without client authentication an error", is_error(r.value))
        e.cover("refused")
        return
    e.prove("the request has the authenticated token", M.eq(e, M.getitem(e, r.value, "access_token"), w.auth.items["token"]))
    e.prove("and client", M.eq(e, M.getitem(e, r.value, "client_id"), w.auth.items["client_id"]))
    e.cover("parsed")
