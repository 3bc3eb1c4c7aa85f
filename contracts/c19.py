"""C19: reuse of an existing login."""
from .world import *
from pyvc import libmodels as L
from oidcmsg.oauth2 import AuthorizationRequest as ARequest
from oidcmsg.oidc import AuthorizationRequest, IdToken
from oidcop.authn_event import AuthnEvent
from oidcop.endpoint_context import EndpointContext
from oidcop.exception import NoSuchAuthentication, TamperAllert, ToOld
from oidcop.oauth2.authorization import Authorization as OAuthAuthorization
from oidcop.oidc.authorization import Authorization
from oidcop.session import Revoked
from oidcop.user_authn.user import UserAuthnMethod

A = "oidcop.oauth2.authorization:Authorization"
SM = "oidcop.session.manager:SessionManager"
DB = "oidcop.session.database:Database"
U = "oidcop.user_authn.user:UserAuthnMethod"
EVENT = DictOf(ANY, {"uid": STR, "authn_time": INT, "valid_until": INT}, cls=AuthnEvent)


class ReuseWorld:
    def __init__(self, e, cls, prompts=(None, "none", "login", "consent"), ages=2):
        self.now = e.ghost["now"] = e.inp("now", INT)
        e.assume(self.now.t > 0)
        self.client, self.user = e.inp("client_id", STR), e.inp("user", STR)
        self.sid, self.owner_client, self.owner = e.inp("sid", STR), e.inp("session_client", STR), e.inp("session_user", STR)
        self.event = e.inp("authn_event", EVENT)
        e.assume(And(*[has(e, self.event, k) for k in ("uid", "authn_time", "valid_until")], ival(e, self.event, "authn_time") > 0))
        self.active, self.sub, self.alive = e.sbool("grant is active"), e.inp("sub", STR), e.sbool("session is there")
        self.same = e.sbool("same request as before")
        self.pages, self.granted, self.made, self.asked = [], [], [], []
        self.grant = sym_obj(e, Grant, "grant", sub=self.sub, id=e.inp("grant_id", STR), is_active=NativeFn(lambda e, *a, **k: self.active, "is_active"),
                             authorization_request=e.born(Dict({"x": "y"}, cls=cls)), authentication_event=self.event)
        self.sm = sym_obj(e, SessionManager, "manager")
        self.method = sym_obj(e, UserAuthnMethod, "method", authenticated_as=NativeFn(self.authenticated_as, "authenticated_as"), kwargs=e.born(Dict({})))
        broker = Opaque("broker")
        self.ctx = sym_obj(e, EndpointContext, "context", session_manager=self.sm, cdb=e.inp("cdb", DictOf(DictOf(ANY))), authn_broker=broker)
        self.ep = sym_obj(e, Authorization if cls is AuthorizationRequest else OAuthAuthorization, "endpoint", server_get=NativeFn(lambda e, *a: self.ctx, "server_get"))
        items = {"client_id": self.client, "redirect_uri": e.inp("redirect_uri", STR), "response_type": e.born(List(["code"]))}
        p = prompts[e.choose(len(prompts))]
        self.prompt = p
        if p:
            items["prompt"] = e.born(List([p]))
        self.max_age = None
        if ages and e.choose(ages):
            self.max_age = items["max_age"] = e.inp("max_age", INT)
            e.assume(self.max_age.t >= 0)
        self.req = e.born(Dict(items, cls=cls))
        self.kw = {}
        e.assume(z3.Length(self.sid.t) > 0)  # a sealed handle (C08) is not empty
        e.ghost["w"] = self

    def authenticated_as(self, e, client_id, cookie=None, **kw):
        """UserAuthnMethod.authenticated_as (contracts below): whom the cookie names, in a session of that client"""
        e.prove("the cookie is read for the client asking", zb(M.eq(e, client_id, self.client)))
        self.asked.append(kw)
        k = e.choose(4)
        if k == 0:
            raise PyRaise(Obj([NoSuchAuthentication, TamperAllert, ToOld, UnknownToken][e.choose(4)], {"args": ()}))
        if k == 1:
            return (None, 0)
        if k == 2:
            return (e.born(Dict({})), self.now)
        return (e.born(Dict({"sid": self.sid, "uid": self.owner, "grant_id": self.grant.fields["id"]})), self.now)


def picked(e, bound):
    w = e.ghost["w"]
    return e.born(Dict({"method": w.method, "acr": "acr"}))


def found(e, bound):
    """SessionManager[...] (C07, C08): the grant of that session, or a failure"""
    w = e.ghost["w"]
    e.prove("the session looked up is the cookie's", zb(M.eq(e, bound["session_id"], w.sid)))
    if not e.branch(w.alive.t):
        raise PyRaise(Obj([Revoked, KeyError, ValueError][e.choose(3)], {"args": ()}))
    return w.grant


def whose(e, bound):
    """Database.decrypt_session_id (C08)"""
    w = e.ghost["w"]
    e.prove("the session decoded is the cookie's", zb(M.eq(e, bound["key"], w.sid)))
    return (w.owner, w.owner_client, w.grant.fields["id"])


def event(e, bound):
    w = e.ghost["w"]
    return w.event


def new_grant(e, bound):
    """SessionManager.create_grant: a new grant with the arguments given"""
    w = e.ghost["w"]
    w.granted.append(bound)
    sid = e.inp("new_session", STR)
    e.assume(z3.Length(sid.t) > 0)
    return sid


def new_session(e, bound):
    w = e.ghost["w"]
    w.made.append(bound)
    return e.inp("made_session", STR)


def differs(e, bound):
    return None


REUSE = {A + ".pick_authn_method": picked, SM + ".__getitem__": found, DB + ".decrypt_session_id": whose, SM + ".get_authentication_event": event,
         SM + ".create_grant": new_grant, A + ".create_session": new_session, "oidcop.oauth2.authorization:authn_args_gather": lambda e, b: e.born(Dict({}))}


def reuse(cls, extra):
    def f(e):
        w = ReuseWorld(e, cls)
        if extra == "user":
            w.kw["req_user"] = e.inp("req_user", Opt(STR))
        elif extra == "sub":
            w.kw["req_sub"] = e.inp("req_sub", STR)
        cinfo = e.inp("client_info", DictOf(ANY))
        r = execute(e, A + ".setup_auth", w.ep, w.req, e.inp("return_uri", STR), cinfo, e.born(List([e.born(Dict({}))])), None, **w.kw)
        if not r.ok:
            e.cover("failed")
            return
        v = r.value
        if "session_id" in v.items:
            e.prove("no new session without a login", len(w.made) == 0)
            e.prove("the session is there", w.alive.t)
            e.prove("it is that client's", w.client.t == w.owner_client.t)
            e.prove("its grant is active", w.active.t)
            e.prove("its authentication is still valid", ival(e, w.event, "valid_until") > w.now.t)
            if w.max_age is not None:
                e.prove("and not older than max_age", w.now.t <= ival(e, w.event, "authn_time") + w.max_age.t)
            e.prove("no fresh login was demanded", w.prompt != "login")
            if extra == "user":
                e.prove("no other user was named", zb(M.eq(e, w.kw["req_user"], w.owner)))
            if extra == "sub":
                e.prove("no other subject was named", w.kw["req_sub"].t == w.sub.t)
            e.prove("it goes on as the session's user", zb(M.eq(e, v.items["user"], w.owner)))
            if w.granted:
                g = w.granted[0]
                e.prove("a new grant is for the same user, client and authentication", And(len(w.granted) == 1, zb(M.eq(e, g["user_id"], w.owner)), zb(M.eq(e, g["client_id"], w.client)),
                                                                                           g["authn_event"] is w.event))
            e.cover("reused")
            return
        e.prove("no grant is made for a request that does not go on", len(w.granted) + len(w.made) == 0)
        if "function" in v.items:
            e.prove("no login page when interaction is forbidden", w.prompt != "none")
            e.prove("the login page is the method's", v.items["function"] is w.method)
            e.cover("login")
        else:
            e.prove("otherwise login is required", M.getitem(e, v, "error") == "login_required")
            e.cover("login required")
    return f


for nm, c in (("oidc", AuthorizationRequest), ("oauth2", ARequest)):
    for x in (None, "user", "sub"):
        if x == "sub" and nm == "oauth2":
            continue
        contract("C19", "a login is reused only while it holds (%s%s)" % (nm, {None: "", "user": ", user named", "sub": ", subject named"}[x]), A + ".setup_auth",
                 callees=REUSE)(reuse(c, x))


class CookieWorld:
    """the session cookies of a request, and the handles in them"""
    def __init__(self, e):
        self.now = e.ghost["now"] = e.inp("now", INT)
        e.assume(self.now.t > 0)
        self.client = e.inp("client_id", STR)
        self.cookies, self.info = [], []
        for i in range(3):
            sid, stamp = e.inp("sid%d" % i, STR), e.inp("timestamp%d" % i, INT)
            self.cookies.append(e.born(Dict({"value": e.inp("value%d" % i, STR), "timestamp": stamp})))
            self.info.append({"sid": sid, "state": e.inp("state%d" % i, STR), "owner": e.inp("owner%d" % i, STR), "client": e.inp("owning client%d" % i, STR), "grant": e.inp("grant%d" % i, STR), "stamp": stamp})
        n = e.choose(4)
        self.cookies = self.cookies[:n]
        self.sm = sym_obj(e, SessionManager, "manager")
        self.ctx = sym_obj(e, EndpointContext, "context", session_manager=self.sm)
        self.method = sym_obj(e, UserAuthnMethod, "method", server_get=NativeFn(lambda e, *a: self.ctx, "server_get"))
        e.ghost["w"] = self


def loads(e, bound):
    """json.loads of a cookie's (authenticated, C08) value: the session info the provider put there"""
    w = e.ghost["w"]
    for i, c in enumerate(w.cookies):
        if bound["s"] is c.items["value"]:
            return e.born(Dict({"sid": w.info[i]["sid"], "state": w.info[i]["state"]}))
    raise Unsupported("json of something else")


def opened(e, bound):
    """Database.decrypt_session_id (C08): the parts the handle was made of, or a failure"""
    w = e.ghost["w"]
    for i, c in enumerate(w.info):
        if bound["key"] is c["sid"]:
            if e.choose(2):
                raise PyRaise(Obj(ValueError, {"args": ()}))
            return e.born(List([c["owner"], c["client"], c["grant"]]))
    raise Unsupported("decrypting something else")


@contract("C19", "a cookie counts only for the client of its session", U + ".authenticated_as", callees={"json:loads": loads, DB + ".decrypt_session_id": opened})
def _(e):
    w = CookieWorld(e)
    kw = {}
    if e.choose(2):
        kw["max_age"] = e.inp("max_age", INT)
        e.assume(kw["max_age"].t >= 0)
    r = execute(e, U + ".authenticated_as", w.method, w.client, e.born(List(list(w.cookies))), **kw)
    if not r.ok:
        e.cover("refused")
        return
    got = r.value[0]
    if got is None or not got.items:
        e.cover("nobody")
        return
    alts = []
    for i in range(len(w.cookies)):
        c = w.info[i]
        young = Or(kw["max_age"].t == 0, w.now.t <= c["stamp"].t + kw["max_age"].t) if kw else True
        alts.append(And(zb(M.eq(e, got.items["sid"], c["sid"])), zb(M.eq(e, got.items["uid"], c["owner"])), zb(M.eq(e, got.items["grant_id"], c["grant"])), c["client"].t == w.client.t, young))
    e.prove("whoever is named owns a session of this client, through a cookie young enough", Or(*alts) if alts else False)
    e.cover("somebody")


@contract("C19", "no cookie, nobody", U + ".authenticated_as")
def _(e):
    w = CookieWorld(e)
    r = execute(e, U + ".authenticated_as", w.method, w.client, None)
    e.prove("nobody", And(r.ok, r.value[0] is None))
    e.cover("nobody")


@contract("C19", "a demanded login is noticed", "oidcop.oauth2.authorization:re_authenticate")
def _(e):
    ps = e.inp("prompt", ListOf(STR))
    req = e.born(Dict({"prompt": ps}, cls=AuthorizationRequest))
    if not e.choose(4):
        del req.items["prompt"]
    r = execute(e, "oidcop.oauth2.authorization:re_authenticate", req, Opaque("method"))
    e.prove("it tells whether a fresh login is demanded", And(r.ok, zb(M.truth(e, r.value)) == (zb(M.contains(e, ps, "login")) if "prompt" in req.items else z3.BoolVal(False))))
    e.cover("told")


@contract("C19", "an authentication is valid until it says", "oidcop.authn_event:AuthnEvent.is_valid")
def _(e):
    now = e.ghost["now"] = e.inp("now", INT)
    at = e.inp("asked", INT)
    e.assume(now.t > 0)
    ev = e.inp("event", EVENT)
    e.assume(has(e, ev, "valid_until"))
    r = execute(e, "oidcop.authn_event:AuthnEvent.is_valid", ev, at)
    e.prove("valid exactly while its time has not come", And(r.ok, zb(M.truth(e, r.value)) == (ival(e, ev, "valid_until") > z3.If(at.t == 0, now.t, at.t))))
    e.cover("told")


@contract("C19", "whom the request names is handed on", "oidcop.oidc.authorization:Authorization.do_request_user")
def _(e):
    sub, hint, hinted, looked = e.inp("sub", STR), e.inp("login_hint", STR), e.inp("hint token", STR), e.inp("looked up", Opt(STR))
    e.assume(And(z3.Length(sub.t) > 0, z3.Length(hint.t) > 0, z3.Length(hinted.t) > 0))
    req = e.born(Dict({"client_id": e.inp("client_id", STR)}, cls=AuthorizationRequest))
    how, named = e.choose(3), e.choose(2)
    if how:
        req.items["id_token_hint"] = hinted
        req.items[("__verified_id_token_hint", "verified_id_token_hint")[how - 1]] = e.born(Dict({"sub": sub, "iss": "x"}, cls=IdToken))
    if named:
        req.items["login_hint"] = hint

    def lookup(e, h):
        e.prove("the hint looked up is the request's", zb(M.eq(e, h, hint)))
        return looked
    there = e.choose(2)
    ctx = sym_obj(e, EndpointContext, "context", login_hint_lookup=NativeFn(lookup, "lookup") if there else None)
    ep = sym_obj(e, Authorization, "endpoint", server_get=NativeFn(lambda e, *a: ctx, "server_get"))
    r = execute(e, "oidcop.oidc.authorization:Authorization.do_request_user", ep, req)
    e.prove("it succeeds", r.ok)
    if not r.ok:
        return
    out = r.value
    if how:
        e.prove("the verified ID token's subject", And("req_sub" in out.items, zb(M.eq(e, out.items.get("req_sub"), sub))))
    if named and there:
        e.prove("the user the hint stands for", And("req_user" in out.items, zb(M.eq(e, out.items.get("req_user"), looked))))
    e.cover("handed on")


# ---------------------------------------------------------------- the request as a whole
def asked(e, bound):
    """setup_auth (above)"""
    w = e.ghost["w"]
    w.setups += 1
    if w.genuine is not None:
        e.prove("only genuine session cookies are considered", bound["cookie"] is w.genuine)
    else:
        e.prove("without cookies none are considered", not zb(M.truth(e, bound["cookie"])) is True)
    e.prove("it is the request that is set up", bound["request"] is w.req)
    for k, v in w.named.items():
        e.prove("whom the request names is respected", bound["kwargs"].items.get(k) is v if "kwargs" in bound else False)
    k = e.choose(3)
    w.verdict = ("error", "login", "go")[k]
    if k == 0:
        return e.born(Dict({"error": "login_required", "return_uri": "x"}))
    if k == 1:
        return e.born(Dict({"function": NativeFn(w.login_page, "login page"), "args": e.born(Dict({}))}))
    return e.born(Dict({"session_id": w.sid, "identity": e.born(Dict({})), "user": w.user}))


def goes_on(e, bound):
    """authz_part2 (C09): the response for the session given"""
    w = e.ghost["w"]
    w.went.append(bound)
    return w.answer


def whom(e, bound):
    """do_request_user (above)"""
    w = e.ghost["w"]
    return e.born(Dict(dict(w.named)))


def moded(e, bound):
    """response_mode: the error in the mode asked for"""
    w = e.ghost["w"]
    e.prove("it is the error that is returned", "error" in bound["response_args"].items)
    return w.error_answer


def process(cls, mod):
    def f(e):
        w = ReuseWorld(e, cls, ages=0)
        w.setups, w.went, w.logins, w.genuine, w.verdict = 0, [], 0, None, None
        w.answer, w.error_answer = Opaque("answer"), Opaque("error answer")
        w.named = {k: e.inp(k, STR) for k in (("req_user",) if e.choose(2) else ())}
        if e.choose(2):
            w.req.items["response_mode"] = "form_post"

        def login_page(e, **kw):
            w.logins += 1
            return "page"
        w.login_page = login_page
        cname = e.inp("cookie_name", STR)
        presented = e.born(List(["c"]))

        def parse(e, name=None, cookies=None):
            """CookieHandler.parse_cookie (C12)"""
            from cryptojwt.exception import VerificationError
            e.prove("session cookies are looked for", And(zb(M.eq(e, name, cname)), cookies is presented))
            if e.choose(2):
                raise PyRaise(Obj(VerificationError, {"args": ()}))
            w.genuine = e.born(List([e.born(Dict({}))]))
            return w.genuine
        handler = Opaque("cookie handler")
        handler.attrs = {"name": e.born(Dict({"session": cname})), "parse_cookie": NativeFn(parse, "parse_cookie")}
        w.ctx.fields["cookie_handler"] = handler
        http = e.born(Dict({"cookie": presented})) if e.choose(2) else None
        r = execute(e, A + ".process_request", w.ep, w.req, http)
        if not r.ok:
            e.prove("a failure sends nobody on", len(w.went) == 0)
            e.cover("failed")
            return
        e.prove("set up once", w.setups == 1)
        if w.verdict == "go":
            e.prove("a login reused goes on with its session, no login page", And(len(w.went) == 1, w.logins == 0, r.value is w.answer))
        else:
            e.prove("otherwise no authorization response is made", len(w.went) == 0)
            e.prove("a login page only where one is called for", w.logins == (1 if w.verdict == "login" else 0))
        e.cover(w.verdict)
    return f


for nm, c, m in (("oidc", AuthorizationRequest, "oidcop.oidc.authorization"), ("oauth2", ARequest, "oidcop.oauth2.authorization")):
    contract("C19", "what was decided is what happens (%s)" % nm, A + ".process_request",
             callees={A + ".setup_auth": asked, A + ".authz_part2": goes_on, A + ".do_request_user": whom, "oidcop.oidc.authorization:Authorization.do_request_user": whom, A + ".response_mode": moded,
                      "oidcop.oauth2.authorization:check_unknown_scopes_policy": lambda e, b: None})(process(c, m))
