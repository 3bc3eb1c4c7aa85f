"""A symbolic grant with its tokens, the session manager and the endpoint context around it, and the contracts of the
callees the endpoint properties share (each is discharged by the property named with it)."""
from .lib import *
from pyvc import libmodels as L
from oidcop.endpoint_context import EndpointContext
from oidcop.session.grant import Grant
from oidcop.session.manager import SessionManager
from oidcop.session.token import AccessToken, AuthorizationCode, IDToken, MintingNotAllowed, RefreshToken, SessionToken
from oidcop.token.exception import UnknownToken
from oidcop.token.handler import TokenHandler

G = "oidcop.session.grant:Grant"
SM = "oidcop.session.manager:SessionManager"
TOKENS = [AccessToken, AuthorizationCode, RefreshToken, IDToken]
CLASS_OF = {"authorization_code": AuthorizationCode, "access_token": AccessToken, "refresh_token": RefreshToken, "id_token": IDToken}
RULES = usage_rules_kind()
SCHEMA = {"classes": {SessionToken: TOKENS},
          SessionToken: {"value": STR, "based_on": Opt(STR), "revoked": BOOL, "used": INT, "token_class": STR, "scope": ListOf(STR),
                         "usage_rules": RULES, "issued_at": INT, "expires_at": INT, "not_before": INT, "id": STR, "claims": DictOf(ANY),
                         "resources": ListOf(STR), "name": STR, "token_type": STR, "session_id": STR}}


def now(e):
    """One clock reading for the whole operation."""
    t = e.sint("now")
    e.assume(t.t > 0)
    e.ghost["now"] = t
    return t.t


def active(e, o, t):
    """The activity rule (property C01)."""
    g = lambda n: e.interp.getattr(o, n)
    rules = g("usage_rules")
    nb, ex = e.int_term(g("not_before")), e.int_term(g("expires_at"))
    under = Or(Not(has(e, rules, "max_usage")), e.int_term(g("used")) < ival(e, rules, "max_usage"))
    return And(under, Not(b(e, g("revoked"))), Or(nb == 0, t >= nb), Or(ex == 0, t <= ex))


def lists(e, l, x):
    return zb(M.contains(e, l, x))


def entitled(e, o, token_class):
    """the usage rules of the base token list the kind asked for"""
    rules = e.interp.getattr(o, "usage_rules")
    return And(has(e, rules, "supports_minting"),
               zb(M.list_contains(e, e.dec(raw(e, rules, "supports_minting"), ListOf(STR)), token_class)))


class World:
    def __init__(self, e, auth_req=None, clock=True, distinct=False):
        self.e = e
        self.now = now(e) if clock else None
        self.issued = e.inp("issued", ListOf(RefOf(SessionToken)))
        i, j = z3.Ints("i? j?")
        self.n0, self.el0 = M.llen(e, self.issued), M.lel(e, self.issued)
        e.assume(ForAll([i], Implies(self.in_(i), Val.is_r(Select(self.el0, i)))))
        if distinct:
            e.assume(ForAll([i, j], Implies(And(self.in_(i), self.in_(j), i != j), self.ref(i) != self.ref(j))))
        self.rules = e.inp("grant_rules", DictOf(RULES))
        self.scope = e.inp("grant_scope", ListOf(STR))
        import oidcop.session.grant as GR
        self.own(self.scope)
        # a grant's own usage rules are keyed by kinds of tokens: it has no usage limit of its own
        e.assume(Not(has(e, self.rules, "max_usage")))
        self.grant = sym_obj(e, Grant, "grant", issued_token=self.issued, usage_rules=self.rules, scope=self.scope,
                             revoked=e.inp("grant_revoked", BOOL), used=e.inp("grant_used", INT),
                             not_before=e.inp("grant_not_before", INT), expires_at=e.inp("grant_expires_at", INT),
                             issued_at=e.inp("grant_issued_at", INT), sub=e.inp("sub", STR), id=e.inp("grant_id", STR),
                             resources=e.inp("resources", ListOf(STR)), claims=e.inp("claims", DictOf(DictOf(ANY))),
                             extra=e.inp("extra", DictOf(ANY)), token_map=e.lift(dict(GR.TOKEN_MAP)),
                             authorization_request=auth_req)
        self.sm = sym_obj(e, SessionManager, "session_manager")
        self.handler = NativeFn(self.make_token, "token_handler")
        self.handler.kw_dict = lambda e, args, kwargs, d: self.make_token(e)
        self.sm.fields["token_handler"] = sym_obj(e, TokenHandler, "handlers",
                                                  handler=e.born(Dict({k: self.handler for k in CLASS_OF})))
        self.crp = e.inp("release_points", ListOf(STR))
        self.ci = sym_obj(e, object, "claims_interface", claims_release_points=self.crp)
        self.cdb = e.inp("cdb", DictOf(DictOf(ANY, CLIENT_KEYS)))
        self.provider_info = e.inp("provider_info", DictOf(ANY, {"grant_types_supported": ListOf(STR)}))
        self.ctx = sym_obj(e, EndpointContext, "context", session_manager=self.sm, claims_interface=self.ci, cdb=self.cdb,
                           token_args_methods=e.born(List([])), provider_info=self.provider_info, keyjar=Opaque("keyjar"))
        self.endpoint = None
        self.minted = []
        self.scope_fact = None
        e.ghost["w"] = self

    def own(self, *ls):
        """the list of issued tokens is a list of its own"""
        for l in ls:
            self.e.assume(l.ref != self.issued.ref)
        return ls[0]

    def context(self, e, *a):
        return self.ctx

    def make_endpoint(self, cls, **fields):
        self.endpoint = sym_obj(self.e, cls, "endpoint", server_get=NativeFn(self.context, "server_get"), **fields)
        return self.endpoint

    def in_(self, i):
        return And(i >= 0, i < self.n0)

    def ref(self, i):
        return Val.rv(Select(self.el0, i))

    def make_token(self, e, *a, **kw):
        """A token handler: a new string, or an exception."""
        if e.choose(2):
            raise PyRaise(Obj(ValueError, {"args": ("no key",)}))
        return L.fresh_random(e, "token_value")

    def known(self, o):
        """o is one of the grant's tokens (at the start)"""
        i = z3.Int("i?")
        return Exists([i], And(self.in_(i), self.ref(i) == o.ref))

    def token(self, name="token", cls=SessionToken):
        t = Ref(self.e.ref_const(name), cls)
        self.e.assume_class(t)
        self.e.inputs[name] = t
        self.e.assume(self.known(t))
        return t

    def untouched(self, e):
        """nothing is recorded: same tokens, same use count"""
        same = lambda k, v: self.grant.fields[k] is v or zb(M.eq(e, self.grant.fields[k], v))
        return M.zand(M.llen(e, self.issued) == self.n0, M.lel(e, self.issued) == self.el0)


CLIENT_KEYS = {"grant_types_supported": ListOf(STR), "revoke_refresh_on_issue": BOOL, "client_id": STR, "client_secret": STR,
               "redirect_uris": ListOf(TupleOf(STR, DictOf(ListOf(STR)))), "response_types": ListOf(STR),
               "allowed_scopes": ListOf(STR), "scopes_to_claims": DictOf(ListOf(STR)), "token_usage_rules": DictOf(RULES),
               "pkce_essential": BOOL, "client_secret_expires_at": INT, "deny_unknown_scopes": BOOL}


# ---------------------------------------------------------------- callee contracts
def payload(e, bound):
    """Grant.payload_arguments: any payload or any failure; it reads only (C13 decides what it holds)."""
    if e.choose(2):
        raise PyRaise(Obj(KeyError, {"args": ("failure",)}))
    return e.fresh("payload", DictOf(ANY))


def is_active(e, bound):
    """Item.is_active decides the activity rule (C01)."""
    w = e.ghost["w"]
    t = e.int_term(bound["now"])
    return SBool(active(e, bound["self"], If(t == 0, w.now, t)))


IS_ACTIVE = {"oidcop.session.token:Item.is_active": is_active}


def session_stored(e, bound):
    """SessionManager.__setitem__: storing under the session's path touches the store only (C07)."""
    return None


def mint(e, bound):
    """Grant.mint_token (C04): minted only from an active grant and an active entitled base; recorded; or nothing recorded."""
    w = e.ghost["w"]
    grant, based_on, tc = bound["self"], bound["based_on"], bound["token_class"]
    e.prove("the grant minted under is the session's", grant is w.grant)
    if not e.branch(active(e, grant, w.now)):
        return None
    base = None
    if e.branch(b(e, based_on)):
        if not e.branch(And(active(e, based_on, w.now), entitled(e, based_on, tc))):
            raise PyRaise(Obj(MintingNotAllowed, {"args": ()}))
        base = e.interp.getattr(based_on, "value")
    if e.choose(2):
        from cryptojwt.jwe.exception import JWEException
        raise PyRaise(Obj(JWEException, {"args": ("key",)}))
    rules = bound["usage_rules"]
    if e.branch(zb(M.is_(e, rules, None))):
        rules = e.fresh("rules", RULES)
    scope = bound["scope"]
    if e.branch(zb(M.is_(e, scope, None))):
        scope = e.fresh("scope", ListOf(STR))
        x = z3.Const("x?", StrS)
        if e.ghost.get("scope_fact") is not None:
            e.assume(e.ghost["scope_fact"](scope))
    cls = CLASS_OF[tc]
    used = e.interp.getattr(grant, "used")
    grant.fields["used"] = SInt(e.int_term(used) + 1)
    f = dict(value=L.fresh_random(e, "minted"), based_on=base, revoked=False, used=0, token_class=tc, scope=scope, usage_rules=rules,
             issued_at=SInt(w.now), expires_at=0, not_before=0, id=L.fresh_random(e, "id"), claims=e.born(Dict({})), resources=e.born(List([])),
             name=cls.__name__)
    if tc == "access_token":
        f["token_type"] = bound.get("token_type") or "bearer"
    o = sym_obj(e, cls, "minted", **f)
    M.list_append(e, w.issued, o)
    w.minted.append(o)
    return o


def mint_via_helper(e, bound):
    """TokenEndpointHelper._mint_token (C04): as mint; an inactive grant is a failure."""
    w = e.ghost["w"]
    grant, based_on, tc = bound["grant"], bound["based_on"], bound["token_class"]
    e.prove("the grant minted under is the session's", grant is w.grant)
    e.prove("what is minted is derived from a token", based_on is not None)
    if not e.branch(And(active(e, based_on, w.now), entitled(e, based_on, tc))):
        raise PyRaise(Obj([MintingNotAllowed, AttributeError][e.choose(2)], {"args": ()}))
    if e.choose(2):
        from cryptojwt.jwe.exception import JWEException
        e.assume(w.untouched(e) if not w.minted else True)
        raise PyRaise(Obj([AttributeError, JWEException][e.choose(2)], {"args": ("key",)}))
    e.assume(active(e, grant, w.now))
    scope = bound["scope"]
    if scope is None:
        scope = e.fresh("scope", ListOf(STR))
        if w.scope_fact is not None:
            e.assume(w.scope_fact(scope))
    exp = e.sint("expires_at")
    e.assume(exp.t >= 0)
    f = dict(value=L.fresh_random(e, "minted"), based_on=e.interp.getattr(based_on, "value"), revoked=False, used=0, token_class=tc,
             scope=scope, usage_rules=e.fresh("rules", RULES), issued_at=SInt(w.now), expires_at=exp, not_before=0,
             id=L.fresh_random(e, "id"), claims=e.born(Dict({})), resources=e.born(List([])), name=CLASS_OF[tc].__name__)
    if tc == "access_token":
        f["token_type"] = bound.get("token_type") or "bearer"
    o = sym_obj(e, CLASS_OF[tc], "minted", **f)
    M.list_append(e, w.issued, o)
    w.minted.append(o)
    return o


# ---------------------------------------------------------------- the token endpoint
from oidcmsg.oauth2 import AuthorizationRequest, ResponseMessage  # noqa: E402
from oidcmsg.message import Message  # noqa: E402

AUTH_REQ = DictOf(ANY, {"redirect_uri": STR, "scope": ListOf(STR), "client_id": STR, "response_type": ListOf(STR), "state": STR,
                        "nonce": STR}, cls=AuthorizationRequest)
TOKEN_REQ = DictOf(ANY, {"grant_type": STR, "code": STR, "redirect_uri": STR, "client_id": STR, "refresh_token": STR,
                         "scope": ListOf(STR)}, cls=Message)


def is_error(v):
    return isinstance(v, Dict) and v.cls is not None and issubclass(v.cls, ResponseMessage) and v.native and "error" in v.items


def session_by_token(e, bound):
    """SessionManager.get_session_info_by_token: the session the token was minted in, or a lookup failure (C07, C08)."""
    w = e.ghost["w"]
    w.looked_up.append(bound["token_value"])
    if e.choose(2):
        raise PyRaise(Obj([UnknownToken, KeyError][e.choose(2)], {"args": ()}))
    return e.born(Dict({"session_id": w.sid, "user_id": w.user, "client_id": w.owner, "grant_id": w.grant.fields["id"], "grant": w.grant}))


def get_token(e, bound):
    """Grant.get_token: the first of the grant's tokens with that value (discharged in C02)."""
    w = e.ghost["w"]
    v = e.str_term(bound["value"])
    memo = w.found.get(v.sexpr())
    if memo is not None:
        return memo
    if e.choose(2):
        i = z3.Int("i?")
        e.assume(ForAll([i], Implies(w.in_(i), Select(e.comp("F:value"), w.ref(i)) != v)))
        return None
    t = w.token("the_token")
    w.found[v.sexpr()] = t
    e.assume(e.str_term(e.interp.getattr(t, "value")) == v)
    e.assume(Not(z3.Contains(v, S(" "))))     # token handlers produce no blanks (C08)
    return t


def revoke_token(e, bound):
    """Grant.revoke_token (C03): only the revoked marks of the grant's tokens change, and only towards revoked."""
    w = e.ghost["w"]
    w.revoked.append(bound)
    old = e.comp("F:revoked")
    new = z3.Const(e.fresh_name("revoked"), old.sort())
    o = z3.Int("o?")
    e.assume(ForAll([o], Implies(Select(old, o), Select(new, o))))
    e.heap["F:revoked"] = new
    return None


TOKEN_CALLEES = {SM + ".get_session_info_by_token": session_by_token, G + ".get_token": get_token, G + ".revoke_token": revoke_token,
                 "oidcop.oauth2.token:TokenEndpointHelper._mint_token": mint_via_helper, SM + ".__setitem__": session_stored, **IS_ACTIVE,
                 "oidcop.endpoint_context:EndpointContext.new_cookie": lambda e, bnd: e.born(Dict({})),
                 "oidcop.session.database:Database.session_key": lambda e, bnd: e.sstr("session_key")}


class TokenWorld(World):
    """A token endpoint (OAuth2 or OpenID Connect) and one session of one client."""

    def __init__(self, e, oidc, dpop=False):
        super().__init__(e, auth_req=e.inp("auth_req", AUTH_REQ))
        self.looked_up, self.found, self.revoked = [], {}, []
        self.owner, self.user, self.sid = e.inp("owner", STR), e.inp("user", STR), e.inp("sid", STR)
        if oidc:
            from oidcop.oidc import token as TM
        else:
            from oidcop.oauth2 import token as TM
        self.cls = TM.Token
        self.mod = TM.__name__
        ep = self.make_endpoint(TM.Token, revoke_refresh_on_issue=e.inp("revoke_refresh_on_issue", BOOL))
        self.helpers = {}
        for gt, cls in (("authorization_code", TM.AccessTokenHelper), ("refresh_token", TM.RefreshTokenHelper)):
            self.helpers[gt] = sym_obj(e, cls, gt, endpoint=ep, config=None, error_cls=TM.Token.error_cls)
        ep.fields["helper"] = e.born(Dict(dict(self.helpers)))
        ch = sym_obj(e, object, "cookie_handler", name=e.born(Dict({"session": "oidcop"})))
        self.ctx.fields["cookie_handler"] = ch
        self.ctx.fields["dpop_enabled"] = dpop
        says = has(e, self.provider_info, "dpop_signing_alg_values_supported")  # add_support sets both
        e.assume(says if dpop else Not(says))
        self.req = e.inp("request", TOKEN_REQ)
        self.client_id = e.inp("client_id", STR)
        e.assume(has(e, self.req, "grant_type"))
        e.assume(Select(M.ddom(e, self.cdb), self.client_id.t))

    def run(self, e, kw=None):
        """parse and process one request, as the endpoint does after client authentication: (parsed outcome, processed outcome)"""
        target = f"{self.mod}:Token"
        p = execute(e, "oidcop.oauth2.token:Token._post_parse_request", self.endpoint, self.req, self.client_id, endpoint_context=self.ctx)
        self.parsed = p
        if not p.ok or is_error(p.value):
            return p, None
        self.preq = p.value
        return p, execute(e, "oidcop.oauth2.token:Token.process_request", self.endpoint, p.value, **(kw or {}))

    def rstr(self, e, key, req=None):
        return Val.sv(raw(e, self.req if req is None else req, key))
