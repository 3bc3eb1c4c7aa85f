"""C21: DPoP proofs and what tokens are bound to."""
from .world import *
from cryptojwt.exception import BadSignature
from cryptojwt.jwk.asym import AsymmetricKey
from cryptojwt.jwk.ec import ECKey
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.exception import NoSuitableSigningKeys, SignerAlgError
from oidcop.oauth2.add_on.dpop import DPoPProof
from .c16 import world as grant_world, CALLS, CI

D = "oidcop.oauth2.add_on.dpop:"
THUMB = z3.Function("thumbprint", z3.StringSort(), z3.StringSort())
VALUES = {"jti": STR, "htm": STR, "htu": STR, "iat": INT}


class ProofWorld:
    """a proof: a JWS with some header and body, and what its signature verifies under"""
    def __init__(self, e):
        s = lambda n: e.inp(n, STR)
        self.text = s("proof")
        self.head, self.body = {}, {}
        self.jwk, self.jwk_id, self.other_id = e.born(Dict({"kty": "x"})), s("header key"), s("body key")
        which = e.choose(5)
        if which != 1:
            self.head["typ"] = s("typ")
        self.head["alg"] = s("alg")
        if which == 3:
            del self.head["alg"]
        if which != 2:
            self.head["jwk"] = self.jwk
        if which == 4:
            self.head["htu"], self.head["htm"] = s("header htu"), s("header htm")
        self.body_jwk = e.born(Dict({"kty": "y"}))
        part = e.choose(6)
        for k in ("jti", "htm", "htu"):
            if part != ("jti", "htm", "htu").index(k) + 1:
                self.body[k] = s(k)
        self.body["iat"] = e.inp("iat", INT)
        if part == 4:
            self.body["jwk"], self.body["typ"], self.body["alg"] = self.body_jwk, s("body typ"), s("body alg")
        if part == 5:
            del self.body["iat"]
        e.assume(And(*[z3.Length(v.t) > 0 for v in list(self.head.values()) + list(self.body.values()) if isinstance(v, SStr)]))  # Message drops empty strings
        self.sym = e.choose(2)
        self.keys, self.verified = [], []
        self.url, self.method = s("url"), s("method")
        e.ghost["w"] = self

    def key(self, e, jwk):
        """key_from_jwk_dict: the key the JWK describes, or a failure"""
        if e.choose(2):
            raise PyRaise(Obj(ValueError, {"args": ()}))
        ident = self.jwk_id if jwk is self.jwk else self.other_id if jwk is self.body_jwk else None
        if ident is None:
            raise Unsupported("some other JWK")
        k = sym_obj(e, SYMKey if self.sym else ECKey, "key", kid="")
        k.fields["deserialize"] = NativeFn(lambda e: None, "deserialize")
        k.fields["thumbprint"] = NativeFn(lambda e, *a: SStr(THUMB(ident.t)), "thumbprint")
        self.keys.append((k, ident))
        return k

    def jws(self, e, token):
        """cryptojwt's factory: a JWS object if it reads as a JWS, else nothing"""
        e.prove("it is the proof presented that is read", zb(M.eq(e, token, self.text)))
        if not e.choose(2):
            return None
        jwt = Opaque("jwt")
        jwt.attrs = {"headers": e.born(Dict(dict(self.head)))}
        o = Opaque("jws")
        o.attrs = {"jwt": jwt, "verify_compact": NativeFn(self.verify, "verify_compact")}
        return e.born(o) if False else sym_obj(e, object, "jws", **o.attrs)

    def verify(self, e, jws=None, keys=None, allow_none=False, sigalg=None):
        """JWS.verify_compact: the payload, only if the signature verifies under one of the keys with the header's algorithm, which is not 'none'"""
        ks = M.concretize(e, keys) if False else keys.items
        e.prove("no unsigned proof", allow_none is False)
        e.prove("one key to verify with", len(ks) == 1)
        if e.choose(2):
            raise PyRaise(Obj([BadSignature, SignerAlgError, NoSuitableSigningKeys][e.choose(3)], {"args": ()}))
        e.assume(self.head["alg"].t != S("none"))
        self.verified.append([i for k, i in self.keys if k is ks[0]][0])
        return e.born(Dict(dict(self.body)))


def key_of(e, bound):
    return e.ghost["w"].key(e, bound["jwk_dict"])


def reads(e, bound):
    return e.ghost["w"].jws(e, bound["token"])


def complete(e, bound):
    """Message.verify: whatever the class requires is there"""
    from oidcmsg.exception import MissingRequiredAttribute
    if not all(k in bound["self"].items for k in DPoPProof.c_param):
        raise PyRaise(Obj(MissingRequiredAttribute, {"args": ()}))
    return True


LIB = {"oidcmsg.message:Message.verify": complete, "cryptojwt.jwk.jwk:key_from_jwk_dict": key_of, "cryptojwt.jws.jws:factory": reads}


@contract("C21", "only a proof of the request and of the key is accepted", D + "post_parse_request", callees=LIB)
def _(e):
    w = ProofWorld(e)
    claimed = e.inp("claimed thumbprint", STR)
    req = e.born(Dict({"grant_type": "authorization_code"}, cls=Message))
    if e.choose(2):
        req.items["dpop_jkt"] = claimed
    headers = e.born(Dict({"dpop": w.text} if e.choose(2) else {}))
    http = e.born(Dict({"headers": headers, "url": w.url, "method": w.method}))
    r = execute(e, D + "post_parse_request", req, e.inp("client_id", STR), sym_obj(e, EndpointContext, "context"), http_info=http)
    if not r.ok:
        e.cover("refused")
        return
    e.prove("a proof was presented", "dpop" in headers.items)
    e.prove("its signature verifies under one key", len(w.verified) == 1)
    if len(w.verified) != 1:
        return
    e.prove("the one in its own header", w.verified[0] is w.jwk_id)
    e.prove("a public key", not w.sym)
    e.prove("it is of the proof type", w.head["typ"].t == S("dpop+jwt") if "typ" in w.head else False)
    e.prove("really signed", w.head["alg"].t != S("none") if "alg" in w.head else False)
    e.prove("for this URL", w.body["htu"].t == w.url.t if "htu" in w.body else False)
    e.prove("and this method", w.body["htm"].t == w.method.t if "htm" in w.body else False)
    e.prove("the thumbprint recorded is that key's", zb(M.eq(e, r.value.items.get("dpop_jkt"), SStr(THUMB(w.jwk_id.t)))))
    e.cover("accepted")


@contract("C21", "without HTTP information no key is named", D + "post_parse_request", callees=LIB)
def _(e):
    w = ProofWorld(e)
    req = e.born(Dict({"grant_type": "authorization_code"}, cls=Message))
    if e.choose(2):
        req.items["dpop_jkt"] = e.inp("claimed thumbprint", STR)
    kw = {"http_info": None if e.choose(2) else e.born(Dict({}))} if e.choose(2) else {}
    r = execute(e, D + "post_parse_request", req, e.inp("client_id", STR), sym_obj(e, EndpointContext, "context"), **kw)
    if r.ok:
        e.prove("no thumbprint is recorded", "dpop_jkt" not in r.value.items)
        e.cover("no proof")


# ---------------------------------------------------------------- what the tokens carry
def bound_mint(e, bound):
    w = e.ghost["w"]
    if w.jkt is not None:
        extra = e.interp.getattr(bound["grant"], "extra")
        e.prove("what is minted is minted under the key proved", And(has(e, extra, "dpop_jkt"), raw(e, extra, "dpop_jkt") == Val.s(w.jkt.t)))
        if bound["token_class"] == "access_token":
            e.prove("the access token is of the DPoP type", zb(M.eq(e, bound.get("token_type"), "DPoP")))
    return mint_via_helper(e, bound)


def issue(oidc, gt):
    def f(e):
        w = TokenWorld(e, oidc, dpop=True)
        e.assume(w.rstr(e, "grant_type") == S(gt))
        e.assume(And(has(e, w.req, "client_id"), w.rstr(e, "client_id") == w.client_id.t, z3.Length(w.client_id.t) > 0))
        e.assume(has(e, w.req, "code" if gt == "authorization_code" else "refresh_token"))
        w.jkt = e.inp("thumbprint", STR)
        e.assume(z3.Length(w.jkt.t) > 0)
        M.setitem(e, w.req, "dpop_jkt", w.jkt)  # post_parse_request (above)
        helper = w.helpers[gt]
        r = execute(e, "oidcop.%s.token:%s.process_request" % ("oidc" if oidc else "oauth2", helper.cls.__name__), helper, w.req)
        if r.ok and not is_error(r.value):
            e.cover("issued")
    return f


def found_scope(e, bound):
    return e.fresh("scope", ListOf(STR))


for o in ("oidc", "oauth2"):
    for gt_, h_ in (("authorization_code", "AccessTokenHelper"), ("refresh_token", "RefreshTokenHelper")):
        contract("C21", "tokens are minted under the proved key (%s, %s)" % (o, gt_), "oidcop.%s.token:%s.process_request" % (o, h_), schema=SCHEMA,
                 callees={**TOKEN_CALLEES, G + ".find_scope": found_scope, "oidcop.oauth2.token:TokenEndpointHelper._mint_token": bound_mint})(issue(o == "oidc", gt_))


@contract("C21", "the payload of what is minted carries the thumbprint", G + ".payload_arguments", schema=SCHEMA,
          callees={**CALLS, CI + ".get_claims": lambda e, b: e.fresh("restriction", DictOf(ANY)), G + ".add_acr_value": lambda e, bnd: e.sbool("acr")})
def _(e):
    w = grant_world(e)
    extra = w.grant.fields["extra"]
    e.assume(extra.ref != w.cdb.ref)
    jkt = e.inp("thumbprint", STR)
    e.assume(And(z3.Length(jkt.t) > 0, has(e, extra, "dpop_jkt"), raw(e, extra, "dpop_jkt") == Val.s(jkt.t)))
    r = execute(e, G + ".payload_arguments", w.grant, w.sid, w.ctx, claims_release_point="access_token", scope=e.inp("scope", ListOf(STR)) if e.choose(2) else None)
    if not r.ok:
        e.cover("failed")
        return
    cnf = M.getitem(e, r.value, "cnf")
    e.prove("the payload names the key", zb(M.eq(e, M.getitem(e, cnf, "jkt"), jkt)))
    e.cover("made")
