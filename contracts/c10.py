"""C10: client authentication."""
from .world import *
from cryptojwt.exception import BadSignature, Invalid, MissingKey
from oidcmsg.oidc import JsonWebToken
from oidcop import client_authn as CA
from oidcop.endpoint import Endpoint
from oidcop.exception import BearerTokenAuthenticationError, InvalidClient, ToOld, UnAuthorizedClient, UnknownClient

P = "oidcop.client_authn:"
INFO = DictOf(ANY, {"client_secret": STR, "client_secret_expires_at": INT, "auth_method": DictOf(STR)})
REQ = DictOf(ANY, {"client_id": STR, "client_secret": STR, "client_assertion": STR, "access_token": STR, "request": STR}, cls=Message)
ASSERTION = DictOf(ANY, {"iss": STR, "sub": STR, "aud": ListOf(STR), "jti": STR, "exp": INT}, cls=JsonWebToken)


class AuthnWorld:
    def __init__(self, e):
        e.ghost["now"] = e.sint("now")
        self.now = e.ghost["now"].t
        self.cdb = e.inp("cdb", DictOf(INFO))
        self.req = e.inp("request", REQ)
        self.jti_db = e.inp("jti_db", DictOf(INT))
        e.assume(z3.Distinct(self.cdb.ref, self.req.ref, self.jti_db.ref))
        self.issuer = e.inp("issuer", STR)
        self.keyjar = sym_obj(e, object, "keyjar", get=NativeFn(self.keys, "KeyJar.get"))
        self.ctx = sym_obj(e, EndpointContext, "context", cdb=self.cdb, jti_db=self.jti_db, issuer=self.issuer, keyjar=self.keyjar)
        self.server_get = NativeFn(lambda e, *a: self.ctx, "server_get")
        self.assertion = None
        self.key_asked, self.key = [], None
        e.ghost["w"] = self
        e.comp("DDOM"), e.comp("DVAL")
        self.freeze(e)

    def freeze(self, e):
        self.d0, self.v0 = e.comp("DDOM"), e.comp("DVAL")

    def keys(self, e, *a, **kw):
        """KeyJar.get: the keys held for that owner (at least one, or none)"""
        self.key_asked.append(a)
        if e.choose(2):
            return e.born(List([]))
        self.key = e.inp("key", BYTES)
        return e.born(List([sym_obj(e, object, "key", key=self.key)]))

    def known(self, cid):
        return Select(Select(self.d0, self.cdb.ref), cid)

    def info(self, cid):
        return Val.rv(Select(Select(self.v0, self.cdb.ref), cid))

    def secret(self, cid):
        """(the client has a secret, it)"""
        return And(self.known(cid), Select(Select(self.d0, self.info(cid)), S("client_secret"))), Val.sv(Select(Select(self.v0, self.info(cid)), S("client_secret")))

    def expired(self, cid):
        i = self.info(cid)
        t = Val.iv(Select(Select(self.v0, i), S("client_secret_expires_at")))
        return And(Select(Select(self.d0, i), S("client_secret_expires_at")), t != 0, t < self.now)

    def r(self, k):
        return Select(Select(self.d0, self.req.ref), S(k)), Val.sv(Select(Select(self.v0, self.req.ref), S(k)))

    def prove_config(self, e, but=()):
        x = z3.Int("r?")
        keep = [x != b for b in but]
        e.prove("no client's data is changed", M.zand(*[ForAll([x], Implies(And(x > 0, x < FRESH_BASE, *keep), Select(e.heap[c], x) == Select(h, x)))
                                                       for c, h in (("DDOM", self.d0), ("DVAL", self.v0)) if e.heap[c] is not h]))


def result_id(e, v):
    v = e.force(v)
    return v.items.get("client_id") if isinstance(v, Dict) and v.native else None


@contract("C10", "secret_post", P + "ClientSecretPost.verify")
def secret_post(e):
    w = AuthnWorld(e)
    m = sym_obj(e, CA.ClientSecretPost, "method", server_get=w.server_get)
    r = execute(e, P + "ClientSecretPost.verify", m, w.req, authorization_token=None, endpoint=None)
    w.prove_config(e)
    if not r.ok:
        e.cover("refused")
        return
    cid = result_id(e, r.value)
    e.prove("it names a client", cid is not None)
    has_id, rid = w.r("client_id")
    has_s, s = w.r("client_secret")
    known, own = w.secret(rid)
    e.prove("the client the request names", And(has_id, e.str_term(cid) == rid))
    e.prove("which has a secret, the one in the request", And(known, has_s, own == s))
    e.cover("accepted")


def basic(e, bound):
    """basic_authn: an identifier and a secret, or a failure"""
    if e.choose(2):
        raise PyRaise(Obj([ValueError, CA.AuthnFailure][e.choose(2)], {"args": ()}))
    b_ = e.ghost["basic"] = {"id": e.inp("id", STR), "secret": e.inp("secret", STR)}
    return e.born(Dict(dict(b_)))


@contract("C10", "secret_basic", P + "ClientSecretBasic.verify", callees={P + "basic_authn": basic})
def secret_basic(e):
    w = AuthnWorld(e)
    m = sym_obj(e, CA.ClientSecretBasic, "method", server_get=w.server_get)
    r = execute(e, P + "ClientSecretBasic.verify", m, e.inp("header", STR), request=w.req, endpoint=None)
    w.prove_config(e)
    if not r.ok:
        e.cover("refused")
        return
    cid = result_id(e, r.value)
    b_ = e.ghost["basic"]
    known, own = w.secret(b_["id"].t)
    e.prove("the client the header names", e.str_term(cid) == b_["id"].t if cid is not None else False)
    e.prove("which has a secret, the one in the header", And(known, own == b_["secret"].t))
    e.cover("accepted")


def jwt(e, bound):
    """cryptojwt JWT.unpack: a claims set whose signature verifies under a key of its issuer (or an HMAC key of this server), with an
    algorithm that is not none, not expired; or a failure."""
    w = e.ghost["w"]
    e.prove("signatures are checked with the keys this server holds", bound["args"][0] is w.keyjar)
    L.trust(e, "cryptojwt.jwt.JWT.unpack returns only claims whose signature verifies under a signature key held for their issuer (for HMAC also the "
               "server's own), never algorithm none, and only before exp")

    def unpack(e, token):
        w.unpacked = token
        k = e.choose(5)
        if k:
            raise PyRaise(Obj([Invalid, MissingKey, BadSignature, KeyError][k - 1], {"args": ()}))
        ca = w.assertion = e.inp("assertion", ASSERTION)
        e.assume(And(ca.ref != w.req.ref, ca.ref != w.cdb.ref, ca.ref != w.jti_db.ref))
        w.alg = e.inp("alg", STR)
        e.assume(And(w.alg.t != S("none"), w.alg.t != S("")))
        hdr = {"alg": w.alg}
        if e.choose(2):
            hdr["kid"] = e.inp("kid", STR)
        ca.attrs = {"jws_header": e.born(Dict(hdr))}
        return ca
    return sym_obj(e, object, "jwt", unpack=NativeFn(unpack, "unpack"))


def targets(e, bound):
    """allowed_target_uris: the set of addresses of the endpoint"""
    w = e.ghost["w"]
    w.targets = e.fresh("targets", ListOf(STR))
    return w.targets


def by_assertion(cls):
    def fn(e):
        w = AuthnWorld(e)
        m = sym_obj(e, cls, "method", server_get=w.server_get)
        ep = sym_obj(e, Endpoint, "endpoint") if e.choose(2) else None
        r = execute(e, P + cls.__name__ + ".verify", m, request=w.req, authorization_token=None, endpoint=ep)
        w.prove_config(e, but=(w.jti_db.ref, w.req.ref))
        x = z3.Const("x?", StrS)
        jd = lambda: Select(e.comp("DDOM"), w.jti_db.ref)
        j0 = Select(w.d0, w.jti_db.ref)
        e.prove("identifiers seen stay seen", ForAll([x], Implies(Select(j0, x), Select(jd(), x))))
        if not r.ok:
            e.cover("refused")
            return
        ca, cid = w.assertion, result_id(e, r.value)
        e.prove("an assertion was verified", ca is not None)
        if ca is None:
            return
        has_a, at = w.r("client_assertion")
        d, v = Select(w.d0, ca.ref), Select(w.v0, ca.ref)
        iss, jti = Val.sv(Select(v, S("iss"))), Val.sv(Select(v, S("jti")))
        e.prove("the one in the request", And(has_a, e.str_term(w.unpacked) == at))
        e.prove("the client named is the one whose key it verified under", And(Select(d, S("iss")), e.str_term(cid) == iss) if cid is not None else False)
        hs = z3.PrefixOf(S("HS"), w.alg.t)
        if cls is CA.ClientSecretJWT:
            e.prove("it is signed with an HMAC algorithm", hs)
            has_s, own = w.secret(iss)
            e.prove("under the client's secret, where it has one", Implies(And(has_s, own != S("")), w.key.t == L.UTF8(own) if w.key is not None else z3.BoolVal(False)))
        else:
            e.prove("it is not signed with an HMAC algorithm", Not(hs))
        has_aud, aud = Select(d, S("aud")), Val.rv(Select(v, S("aud")))
        i, j = z3.Int("i?"), z3.Int("j?")
        inaud = lambda t: Exists([i], And(i >= 0, i < Select(e.comp("LLEN"), aud), Select(Select(e.comp("LEL"), aud), i) == Val.s(t)))
        if ep is None:
            e.prove("it is addressed to this server", And(has_aud, inaud(w.issuer.t)))
        else:
            n, el = M.llen(e, w.targets), M.lel(e, w.targets)
            e.prove("it is addressed to this endpoint", And(has_aud, Exists([j], And(j >= 0, j < n, inaud(Val.sv(Select(el, j)))))))
        key = z3.Concat(iss, S(":"), jti)
        hasj = And(Select(d, S("jti")), jti != S(""))
        e.prove("an identifier is a new one", Implies(hasj, Not(Select(j0, key))))
        e.prove("and is remembered", Implies(hasj, Select(jd(), key)))
        e.cover("accepted")
    contract("C10", cls.tag, P + cls.__name__ + ".verify", callees={"cryptojwt.jwt:JWT": jwt, "oidcop:sanitize": lambda e, bnd: e.sstr("sanitised"),
             "oidcop.endpoint:Endpoint.allowed_target_uris": targets})(fn)


by_assertion(CA.ClientSecretJWT)
by_assertion(CA.PrivateKeyJWT)


# ---------------------------------------------------------------- which of the methods, and what of their answer
PROVED = z3.Function("proved", StrS, BoolS)                 # the request proves to come from that client
OF_TOKEN = z3.Function("of_token", StrS, StrS)              # the client a token was issued to


def usable(e, bound):
    return e.sbool("usable")


def verified(e, bound):
    """a method's verify (above): a client that is proved; a bearer method gives the token only; or a failure."""
    w = e.ghost["w"]
    k = e.choose(4)
    if k == 0:
        raise PyRaise(Obj([CA.AuthnFailure, KeyError, ValueError][e.choose(3)], {"args": ()}))
    w.verified = w.verified + 1
    if k == 1:
        return e.born(Dict({"token": e.inp("token", STR)}))
    c = e.inp("proved_client", STR)
    e.assume(PROVED(c.t))
    d = {"client_id": c}
    if k == 3:
        d["method"] = e.inp("method", STR)
    return e.born(Dict(d))


def of_token(e, ctx, token, request=None):
    """the endpoint's look-up of a token: the client it was issued to, or a failure"""
    if e.choose(2):
        raise PyRaise(Obj([ToOld, KeyError, ValueError][e.choose(3)], {"args": ()}))
    return SStr(OF_TOKEN(e.str_term(token)))


METHOD = {P + "ClientAuthnMethod.is_usable": usable, P + "ClientAuthnMethod.verify": verified}


def inv_methods(e, L):
    return
    yield


def chosen(n, lookup):
    def fn(e):
        w = AuthnWorld(e)
        w.verified = 0
        shape = [e.choose(2) for _ in range(n)]
        ms = [None if x else sym_obj(e, CA.ClientAuthnMethod, f"method{i}") for i, x in enumerate(shape)]
        for i, m in enumerate(ms):
            if m is not None:
                m.fields["tag"] = e.inp(f"tag{i}", STR)
        ep = sym_obj(e, Endpoint, "endpoint", client_authn_method=e.born(List(ms)))
        http = e.born(Dict({"headers": e.inp("headers", DictOf(STR))})) if e.choose(2) else None
        r = execute(e, P + "verify_client", w.ctx, w.req, http_info=http, endpoint=ep, get_client_id_from_token=NativeFn(of_token, "lookup") if lookup else None)
        if not r.ok:
            e.prove("a refusal is one of its kinds", any(r.raised(x) for x in (UnknownClient, InvalidClient, BearerTokenAuthenticationError, ValueError)))
            e.cover("refused")
            return
        v = e.force(r.value)
        got = v.items
        cid, method = got.get("client_id"), got.get("method")
        if not got:
            e.prove("nothing is attributed only where a method failed or none applies", w.verified == 0)
            e.prove("and unauthenticated clients are not allowed", None not in ms)
            e.cover("nobody")
            return
        if w.verified == 0:
            e.prove("an unauthenticated client is let in only where that is allowed", None in ms)
            e.prove("and marked so", method == "none")
        e.prove("at most one method succeeds", w.verified <= 1)
        if cid is None:
            e.cover("no client")
            return
        c = e.str_term(cid)
        tok = got.get("token")
        if w.verified and tok is None:
            e.prove("the client attributed is the one proved", PROVED(c))
        elif tok is not None:
            e.prove("with a token: the client it was issued to", c == OF_TOKEN(e.str_term(tok)))
            e.cover("token")
            return
        if e.branch(c != S("")):
            e.prove("the client is known", w.known(c))
            e.prove("its secret has not expired", Not(w.expired(c)))
            e.cover("client")
    contract("C10", "chosen_%d%s" % (n, "_lookup" if lookup else ""), P + "verify_client", callees=METHOD, budget=150)(fn)


for n_ in (0, 1, 2):
    for l_ in (False, True):
        chosen(n_, l_)


# ---------------------------------------------------------------- bearer tokens
for cls_ in (CA.BearerHeader, CA.BearerBody):
    @contract("C10", cls_.tag, P + cls_.__name__ + ".verify")
    def bearer(e, cls=cls_):
        """a bearer token says nothing itself about who sends it: only the token is returned"""
        w = AuthnWorld(e)
        m = sym_obj(e, cls, "method", server_get=w.server_get)
        r = execute(e, P + cls.__name__ + ".verify", m, request=w.req, authorization_token=e.inp("header", STR), endpoint=None)
        if not r.ok:
            e.cover("refused")
            return
        v = e.force(r.value)
        e.prove("it names no client", isinstance(v, Dict) and v.native and "client_id" not in v.items)
        e.prove("but the token", "token" in v.items)
        e.cover("token")


def request_verify(e, bound):
    """Message.verify of a request: refuses, or returns True; a request object in it may replace its parameters"""
    w, req = e.ghost["w"], bound["self"]
    L.trust(e, "oidcmsg Message.verify of a request refuses it or replaces its parameters by those of the request object it carries")
    k = e.choose(3)
    if k == 2:
        from oidcmsg.exception import MissingRequiredAttribute
        raise PyRaise(Obj([MissingRequiredAttribute, ValueError][e.choose(2)], {"args": ("verify",)}))
    if k == 1:
        M.setitem(e, req, "client_id", e.inp("object_client", STR))
    return True


def decided(e, bound):
    """Endpoint.client_authentication (below): refused, or what is known of the sender"""
    w = e.ghost["w"]
    w.asked.append(bound)
    k = e.choose(5)
    if k == 0:
        raise PyRaise(Obj([UnAuthorizedClient, UnknownClient, InvalidClient][e.choose(3)], {"args": ()}))
    w.client = None
    if k == 1:
        return e.born(Dict({}))
    if k == 2:
        return e.born(Dict({"token": e.inp("token", STR), "method": "bearer_header"}))
    if k == 3:
        return e.born(Dict({"method": "none", "client_id": None}))
    w.client = e.inp("proved_client", STR)
    return e.born(Dict({"client_id": w.client, "method": e.inp("method", STR)}))


def posted(e, bound):
    """an endpoint's own parsing: it gets the request and the client it is from"""
    w = e.ghost["w"]
    w.posted.append(bound)
    return bound["request"]


from oidcmsg import oauth2, oidc as msg_oidc  # noqa: E402
from oidcop.endpoint import Endpoint as EP  # noqa: E402


def parsed(cls):
    def fn(e):
        w = AuthnWorld(e)
        w.asked, w.posted = [], []
        ep = sym_obj(e, EP, "endpoint", server_get=w.server_get, client_authn_method=e.born(List([])))
        ep.fields["request_cls"] = cls
        http = e.born(Dict({})) if e.choose(2) else None
        src = e.inp("incoming", DictOf(ANY, {"client_id": STR, "request": STR}))
        r = execute(e, "oidcop.endpoint:Endpoint.parse_request", ep, src, http_info=http)
        if not r.ok:
            e.prove("a failure goes no further", not w.posted)
            e.cover("refused")
            return
        e.prove("it is asked who sends it, once", len(w.asked) == 1)
        if not w.posted:
            e.prove("what is not parsed further is an error", is_error(r.value))
            e.cover("error")
            return
        got = w.posted[0]
        if w.client is not None and e.branch(w.client.t != S("")):
            cid = M.getitem(e, got["request"], "client_id")
            e.prove("the request that goes on is the authenticated client's", zb(M.eq(e, cid, w.client)))
            e.prove("the endpoint is told so", zb(M.eq(e, got["client_id"], w.client)))
            e.cover("authenticated")
        else:
            e.cover("goes on")
    n = cls.__module__.split(".")[-1] + "_" + cls.__name__
    contract("C10", "parse_" + n, "oidcop.endpoint:Endpoint.parse_request", callees={
        "oidcop.endpoint:Endpoint.client_authentication": decided, "oidcop.endpoint:Endpoint.do_post_parse_request": posted,
        f"{cls.verify.__module__}:{cls.verify.__qualname__}": request_verify, "oidcop:sanitize": lambda e, bnd: e.sstr("sanitised")})(fn)


parsed(oauth2.AuthorizationRequest)
parsed(msg_oidc.AuthorizationRequest)
parsed(msg_oidc.AccessTokenRequest)


def verdict(e, bound):
    """verify_client (above)"""
    w = e.ghost["w"]
    w.verdict = None
    k = e.choose(3)
    if k == 0:
        raise PyRaise(Obj([UnknownClient, InvalidClient, BearerTokenAuthenticationError][e.choose(3)], {"args": ()}))
    if k == 1:
        return e.born(Dict({}))
    w.verdict = e.born(Dict({"method": e.inp("method", STR), "client_id": e.inp("proved_client", STR)}))
    w.checked = bound
    return w.verdict


@contract("C10", "refuse", "oidcop.endpoint:Endpoint.client_authentication", callees={P + "verify_client": verdict})
def refuse(e):
    """nobody proved, although methods are configured: refused; otherwise exactly what was found out"""
    w = AuthnWorld(e)
    n = e.choose(3)
    ms = [[], [None], [sym_obj(e, CA.ClientAuthnMethod, "method0")]][n]
    ep = sym_obj(e, EP, "endpoint", server_get=w.server_get, client_authn_method=e.born(List(ms)))
    kw = {"endpoint": ep} if e.choose(2) else {}
    r = execute(e, "oidcop.endpoint:Endpoint.client_authentication", ep, w.req, None, **kw)
    if not r.ok:
        e.cover("refused")
        return
    if w.verdict is None:
        e.prove("with methods, one who proves nothing is refused", n == 0)
        e.prove("and nobody is named", zb(M.eq(e, r.value, e.born(Dict({})))))
    else:
        e.prove("what was found out is returned", r.value is w.verdict)
        e.prove("about this request, with the endpoint's methods", M.zand(w.checked["request"] is w.req, w.checked["endpoint"] is ep, w.checked["endpoint_context"] is w.ctx,
                                                                         not w.checked.get("also_known_as")))
    e.cover("answered")
