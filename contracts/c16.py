"""C16: what an ID token states."""
from .c24 import RespWorld, A
from .world import *
from oidcop.session.claims import ClaimsInterface
from oidcop.token.id_token import IDToken as IDHandler

I = "oidcop.token.id_token:IDToken"
AUTHN = DictOf(ANY, {"authn_time": INT, "authn_info": STR, "uid": STR, "valid_until": INT})
CLAIMS = DictOf(ANY)
CI = "oidcop.session.claims:ClaimsInterface"
LEFT = L.LEFT_HASH


def world(e):
    req = e.inp("authorization_request", AUTH_REQ) if e.choose(2) else None
    w = World(e, auth_req=req)
    w.req, w.sid, w.user, w.client = req, e.inp("sid", STR), e.inp("user", STR), e.inp("client", STR)
    w.ae = e.inp("authentication_event", AUTHN) if e.choose(2) else None
    w.grant.fields["authentication_event"] = w.ae
    w.issuer = e.inp("issuer", STR)
    w.ctx.fields["issuer"] = w.issuer
    w.ctx.fields["claims_interface"] = w.ci = sym_obj(e, ClaimsInterface, "claims_interface", claims_release_points=w.crp)
    w.user_claims, w.released = None, []
    w.handler = sym_obj(e, IDHandler, "id_token_handler", server_get=NativeFn(w.context, "server_get"), lifetime=e.inp("lifetime", INT))
    for x in [x for x in (w.ae, w.req) if x is not None]:
        e.assume(And(x.ref != w.grant.fields["claims"].ref, x.ref != w.cdb.ref))
    return w


def session_info(e, bound):
    """SessionManager.get_session_info (C07): the session of that identifier."""
    w = e.ghost["w"]
    e.prove("the session looked up is the one asked about", zb(M.eq(e, bound["session_id"], w.sid)))
    return e.born(Dict({"session_id": w.sid, "user_id": w.user, "client_id": w.client, "grant": w.grant}))


def user_claims(e, bound):
    """ClaimsInterface.get_user_claims: any claims of the user (C13 decides which)"""
    w = e.ghost["w"]
    e.prove("the claims are the session's user's", zb(M.eq(e, bound["user_id"], w.user)))
    w.user_claims = e.fresh("user_claims", CLAIMS)
    return w.user_claims


def decrypted(e, bound):
    """Database.decrypt_session_id (C08): the user, client and grant of that session"""
    w = e.ghost["w"]
    e.prove("the session is the one asked about", zb(M.eq(e, bound["key"], w.sid)))
    return (w.user, w.client, w.grant.fields["id"])


CALLS = {SM + ".get_session_info": session_info, CI + ".get_user_claims": user_claims,
         "oidcop.session.database:Database.decrypt_session_id": decrypted,
         "oidcop.session.claims:claims_match": lambda e, bnd: e.sbool("match")}


def state(e, w, what):
    """(is there one, its value) of the request's nonce and of the recorded authentication"""
    if what == "nonce":
        return (z3.BoolVal(False), None) if w.req is None else (has(e, w.req, "nonce"), raw(e, w.req, "nonce"))
    if w.ae is None:
        return z3.BoolVal(False), None
    v = raw(e, w.ae, what)
    return And(has(e, w.ae, what), Val.iv(v) != 0 if what == "authn_time" else Val.sv(v) != S("")), v


def some(e, name):
    """a value, or none"""
    return e.inp(name, STR) if e.choose(2) else None


def hashes(e, out, alg, code, token):
    halg = z3.Concat(S("HS"), z3.SubString(alg.t, z3.Length(alg.t) - 3, z3.IntVal(3)))
    for key, x in (("c_hash", code), ("at_hash", token)):
        there = x.t != S("") if x is not None else z3.BoolVal(False)
        e.prove("the hash is there exactly if there is something to hash", has(e, out, key) == there)
        if x is not None:
            e.prove("it is the hash of exactly that", Implies(there, raw(e, out, key) == Val.s(LEFT(L.UTF8(x.t), halg))))


def states(e, w, out):
    """what every ID token payload states of its session"""
    e.prove("its subject is the session's", And(has(e, out, "sub"), raw(e, out, "sub") == Val.s(w.grant.fields["sub"].t)))
    e.prove("its session is the session", And(has(e, out, "sid"), raw(e, out, "sid") == Val.s(w.sid.t)))
    for key, what in (("nonce", "nonce"), ("auth_time", "authn_time")):
        there, v = state(e, w, what)
        e.prove(key + " is there exactly if there is one", has(e, out, key) == there)
        if v is not None:
            e.prove(key + " is that one", Implies(there, raw(e, out, key) == v))
    there, v = state(e, w, "authn_info")
    e.prove("the authentication class is there exactly if it is recorded", has(e, out, "acr") == there)
    if v is not None:
        e.prove("and is that one", Implies(there, raw(e, out, "acr") == v))


def pay(given, how):
    def fn(e):
        w = world(e)
        alg, code, token = e.inp("alg", STR), *[e.inp(k, STR) if x else None for k, x in (("code", how & 1), ("access_token", how & 2))]
        e.assume(z3.Length(alg.t) >= 3)
        for x in (code, token):
            if x is not None:
                e.assume(x.t != S(""))
        extra = e.inp("extra", CLAIMS)                     # nothing, or the session
        k = z3.Const("k?", StrS)
        e.assume(ForAll([k], Implies(Select(M.ddom(e, extra), k), And(k == S("sid"), Select(M.dval(e, extra), k) == Val.s(w.sid.t)))))
        e.assume(And(*[extra.ref != x.ref for x in (w.ae, w.req, w.cdb, w.grant.fields["claims"]) if x is not None]))
        info = e.inp("user_info", CLAIMS) if given else None
        if w.req is not None:
            nonce0 = state(e, w, "nonce")
        r = execute(e, I + ".payload", w.handler, w.sid, alg=alg, code=code, access_token=token, extra_claims=extra, user_info=info)
        if not r.ok:
            e.cover("failed")
            return
        out = r.value
        states(e, w, out)
        e.prove("issuer, audience and expiry are left to the signer", M.zand(*[Not(has(e, out, k)) for k in ("iss", "aud", "exp")]))
        hashes(e, out, alg, code, token)
        e.cover("end")
    contract("C16", "payload_" + ("given" if given else "looked_up") + str(how), I + ".payload", schema=SCHEMA, callees=CALLS)(fn)


for how_ in range(4):
    pay(True, how_)
    pay(False, how_)


def packed(e, bound):
    """IDToken.payload (above): recorded"""
    w = e.ghost["w"]
    w.paid = bound
    if e.choose(2):
        raise PyRaise(Obj(ValueError, {"args": ()}))
    w.payload = e.fresh("payload", DictOf(ANY))
    return w.payload


def algorithms(e, bound):
    """get_sign_and_encrypt_algorithms: an algorithm for signing (and others for encrypting)"""
    w = e.ghost["w"]
    w.alg = e.inp("sign_alg", STR)
    return e.born(Dict({"sign": bound["sign"], "encrypt": bound["encrypt"], "sign_alg": w.alg}))


def signer(e, bound):
    """cryptojwt JWT(...).pack: the payload with iss, iat, exp and (from recv) aud set by it, signed"""
    w = e.ghost["w"]
    w.signer = bound
    L.trust(e, "cryptojwt.jwt.JWT.pack signs the payload given, with iss, iat, exp, and aud = [recv], set by itself")

    def pack(e, payload=None, recv="", **kw):
        w.packs.append((payload, recv, kw))
        if e.choose(2):
            from cryptojwt.jws.exception import NoSuitableSigningKeys
            raise PyRaise(Obj(NoSuitableSigningKeys, {"args": ()}))
        return L.fresh_random(e, "id_token")
    return sym_obj(e, object, "jwt", pack=NativeFn(pack, "pack"))


@contract("C16", "signed", I + ".sign_encrypt", schema=SCHEMA, callees={I + ".payload": packed, "oidcop.token.id_token:get_sign_and_encrypt_algorithms": algorithms,
                                                                      "cryptojwt.jwt:JWT": signer})
def signed(e):
    w = world(e)
    w.packs, w.signer = [], None
    code, token = some(e, "code"), some(e, "access_token")
    info = e.inp("user_info", CLAIMS)
    xargs = e.born(Dict({}))
    r = execute(e, I + ".sign_encrypt", w.handler, w.sid, w.client, code=code, access_token=token, sign=True, encrypt=e.sbool("encrypt"),
                lifetime=some(e, "lifetime"), extra_claims=xargs, user_info=info)
    if not r.ok:
        e.cover("failed")
        return
    k = w.signer["kwargs"]
    e.prove("it is signed once", len(w.packs) == 1)
    payload, recv, more = w.packs[0]
    e.prove("in this server's name, with its keys", M.zand(zb(M.eq(e, k["iss"], w.issuer)), w.signer["args"][0] is w.ctx.fields["keyjar"], k["sign"] is True))
    e.prove("for the session's client, for nobody else", M.zand(zb(M.eq(e, recv, w.client)), not more, "aud" not in k))
    e.prove("what is signed is the payload of the session", M.zand(payload is w.payload, zb(M.eq(e, w.paid["session_id"], w.sid))))
    e.prove("hashed with the algorithm it is signed with", M.zand(zb(M.eq(e, w.paid["alg"], w.alg)), zb(M.eq(e, k["sign_alg"], w.alg))))
    e.prove("of what it goes with", M.zand(w.paid["code"] is code, w.paid["access_token"] is token))
    e.prove("and the claims given", M.zand(w.paid["user_info"] is info, w.paid["extra_claims"] is xargs))
    e.cover("signed")


def sealed(e, bound):
    """IDToken.sign_encrypt (above): recorded"""
    w = e.ghost["w"]
    w.sealed = bound
    return L.fresh_random(e, "id_token")


@contract("C16", "called", I + ".__call__", schema=SCHEMA, callees={**CALLS, I + ".sign_encrypt": sealed,
          "oidcop.token.id_token:include_session_id": lambda e, bnd: e.sbool("include_sid")})
def called(e):
    w = world(e)
    code, token = some(e, "code"), some(e, "access_token")
    kw = {"scope": w.scope, "sub": e.inp("other_sub", STR)}
    for k, v in (("code", code), ("access_token", token)):
        if v is not None:
            kw[k] = v
    r = execute(e, I + ".__call__", w.handler, session_id=w.sid, usage_rules=None, **kw)
    e.prove("returns normally", r.ok)
    d = w.sealed
    e.prove("for the session and its client", M.zand(zb(M.eq(e, d["session_id"], w.sid)), zb(M.eq(e, d["client_id"], w.client))))
    e.prove("signed", d["sign"] is True)
    e.prove("hashed with what it goes with", M.zand(d["code"] is code, d["access_token"] is token))
    e.prove("nothing else is stated as the server's own", M.zand(not set(d["extra_claims"].items) - {"sid"}, zb(M.eq(e, d["extra_claims"].items.get("sid", w.sid), w.sid))))
    e.cover("end")


def released(e, bound):
    """ClaimsInterface.get_claims: which claims (C13)"""
    w = e.ghost["w"]
    e.prove("the session is the one asked about", zb(M.eq(e, bound["session_id"], w.sid)))
    w.released.append(bound)
    return e.fresh("restriction", CLAIMS)


def arguments(e, how):
    """user claims do not replace what goes to the token handler"""
    w = world(e)
    e.assume(w.grant.fields["extra"].ref != w.cdb.ref)
    code, token = [e.inp(k, STR) if x else None for k, x in (("code", how & 1), ("access_token", how & 2))]
    extra = {k: v for k, v in (("code", code), ("access_token", token)) if v is not None}
    cid = (has(e, w.req, "client_id"), Val.sv(raw(e, w.req, "client_id"))) if w.req is not None else (z3.BoolVal(False), S(""))
    scope = e.inp("scope", ListOf(STR)) if e.choose(2) else None
    r = execute(e, G + ".payload_arguments", w.grant, w.sid, w.ctx, claims_release_point="id_token", scope=scope, extra_payload=e.born(Dict(dict(extra))),
                secondary_identifier="")
    if not r.ok:
        e.cover("failed")
        return
    out = r.value
    for k in ("code", "access_token"):
        e.prove("what it goes with is passed on, only if there is any", has(e, out, k) == z3.BoolVal(k in extra))
        if k in extra:
            e.prove("unchanged", raw(e, out, k) == Val.s(extra[k].t))
    there = And(cid[0], cid[1] != S(""))
    e.prove("the client and subject are the session's", Implies(there, And(has(e, out, "client_id"), raw(e, out, "client_id") == Val.s(cid[1]), has(e, out, "sub"),
                                                                          raw(e, out, "sub") == Val.s(w.grant.fields["sub"].t))))
    e.prove("no argument of the handler comes from the user", M.zand(*[Not(has(e, out, k)) for k in ("session_id", "usage_rules", "encrypt", "ttype", "token_class")]))
    sc = scope if scope is not None else w.scope
    e.prove("the scope is the one given", And(has(e, out, "scope"), Val.rv(raw(e, out, "scope")) == sc.ref))
    e.cover("end")


for how_ in range(4):
    contract("C16", "arguments%d" % how_, G + ".payload_arguments", schema=SCHEMA, callees={
        **CALLS, CI + ".get_claims": released, G + ".add_acr_value": lambda e, bnd: e.sbool("acr")})(lambda e, h=how_: arguments(e, h))


def prepared(e, bound):
    w = e.ghost["w"]
    w.prepared = bound
    return e.born(Dict(dict(w.args)))


@contract("C16", "minted", G + ".mint_token", schema=SCHEMA, callees={G + ".payload_arguments": prepared, G + ".find_scope": lambda e, bnd: e.fresh("scope", ListOf(STR)), **IS_ACTIVE})
def minted(e):
    """an ID token is made for its session, hashed with what the caller names"""
    w = world(e)
    w.calls = []
    code, token = some(e, "code"), some(e, "access_token")
    kw = {k: v for k, v in (("code", code), ("access_token", token)) if v is not None}
    w.args = {"scope": w.scope, **kw}

    def handler(e, **kwargs):
        w.calls.append(kwargs)
        w.made = L.fresh_random(e, "id_token")
        return w.made
    base = w.token("base") if e.choose(2) else None
    r = execute(e, G + ".mint_token", w.grant, w.sid, w.ctx, "id_token", token_handler=NativeFn(handler, "handler"), based_on=base, **kw)
    if not r.ok or r.value is None:
        e.cover("none")
        return
    e.prove("it is made once", len(w.calls) == 1)
    c = w.calls[0]
    e.prove("for the session it is minted in", zb(M.eq(e, c["session_id"], w.sid)) if "session_id" in c else False)
    p = w.prepared
    e.prove("from the session's own data", M.zand(p["self"] is w.grant, zb(M.eq(e, p["session_id"], w.sid))))
    x = e.force(p["extra_payload"])
    e.prove("hashed with what it goes with", M.zand(set(x.items) == set(kw), *[x.items[k] is kw[k] for k in kw]))
    e.prove("and nothing is added to it", set(c) == {"session_id", "usage_rules"} | set(w.args))
    e.prove("its value is the ID token made", zb(M.eq(e, e.interp.getattr(r.value, "value"), w.made)))
    e.cover("minted")


def passed(e, bound):
    w = e.ghost["w"]
    w.passed = bound
    return sym_obj(e, IDToken, "id_token", value=L.fresh_random(e, "id_token"), expires_at=0, token_class="id_token")


@contract("C16", "front", A + ":Authorization.mint_token", schema=SCHEMA, callees={G + ".mint_token": passed, SM + ".__setitem__": session_stored, **IS_ACTIVE})
def front(e):
    """the code and token given at the authorization endpoint are those hashed"""
    w = RespWorld(e, True)
    w.passed = None
    code, token = some(e, "code"), some(e, "access_token")
    kw = {k: v for k, v in (("code", code), ("access_token", token)) if v is not None}
    r = execute(e, A + ":Authorization.mint_token", w.endpoint, "id_token", w.grant, w.sid, **kw)
    if not r.ok or w.passed is None:
        e.cover("none")
        return
    k = w.passed["kwargs"]
    k = k.items if isinstance(k, Dict) else k
    e.prove("in its session", M.zand(w.passed["self"] is w.grant, zb(M.eq(e, w.passed["session_id"], w.sid)), zb(M.eq(e, w.passed["token_class"], "id_token"))))
    e.prove("exactly that code and token", M.zand({x for x in k if x in ("code", "access_token")} == set(kw), *[k[x] is kw[x] for x in kw]))
    e.cover("minted")


also("C16", "C24.response_oidc")
also("C16", "C24.response_oauth2")
