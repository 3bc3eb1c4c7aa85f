"""C16: ID tokens of every flow, with user claims named like protocol claims, against the session they are for."""
from cryptojwt.jws.jws import factory
from cryptojwt.jws.utils import left_hash
from cryptojwt.jwt import JWT

import time

from harness.srv import *

RULE = "ID tokens of the authorization, token and refresh answers against the session they are for"
CLASHES = ["sub", "iss", "aud", "exp", "nonce", "acr", "auth_time", "c_hash", "at_hash", "sid", "code", "access_token", "iat", "email", "name"]
TYPES = ["code", "id_token", "code id_token", "id_token token", "code id_token token"]
VALUES = ["user-made", ["user-made"], 17, {"user": "made"}]


def cases(rng, tier):
    while True:
        yield dict(type=rng.choice(TYPES), user={k: rng.randrange(len(VALUES)) for k in rng.sample(CLASHES, rng.randint(0, 5))},
                   ask=rng.sample(CLASHES, rng.randint(0, 5)), always=rng.sample(CLASHES, rng.randint(0, 2)), nonce=rng.choice(["n-1", "n-2", None, "n"]),
                   alg=rng.choice(["RS256", "ES256", "HS256", None]), who=rng.choice(["diana", "bob"]), client=rng.choice(["client_1", "client_1", "client_2"]),
                   authn_time=rng.choice([0, 1000, None]), logout=rng.random() < 0.3, refresh=rng.random() < 0.5, subject=rng.choice(["public", "pairwise", None]))


_S = []


def check(s, tok, grant, sid, c, alongside, out, where):
    h = factory(tok).jwt
    kj = s.ec.keyjar
    p = JWT(key_jar=kj).unpack(tok)
    ae = grant.authentication_event
    want = dict(iss=ISSUER, aud=[c["client"]], sub=grant.sub)
    if c["nonce"]:
        want["nonce"] = c["nonce"]
    if ae.get("authn_time"):
        want["auth_time"] = ae["authn_time"]
    if ae.get("authn_info"):
        want["acr"] = ae["authn_info"]
    alg = h.headers["alg"]
    for k, n in (("code", "c_hash"), ("access_token", "at_hash")):
        if k in alongside:
            want[n] = left_hash(alongside[k].encode(), "HS" + alg[-3:])
    for k, v in want.items():
        if p.get(k) != v:
            out.append((k, "%s: the ID token's %s is %r, should be %r" % (where, k, p.get(k), v)))
    for k in ("nonce", "auth_time", "c_hash", "at_hash"):
        if k not in want and k in p:
            out.append(("made up " + k, "%s: the ID token has a %s (%r), without reason" % (where, k, p[k])))
    if p.get("sid", sid) != sid:
        out.append(("sid", "%s: the ID token names another session" % where))
    now = time.time()
    if not now - 100 < p["iat"] < now + 100 or not now < p["exp"] < now + 7200:
        out.append(("time", "%s: the ID token's times are made up" % where))


def run(c):
    out = []
    if not _S:
        _S.append(Srv())
    s = _S[0]
    db = s.ec.userinfo.db
    keep = {u: dict(db[u]) for u in db}
    ci = s.ec.cdb[c["client"]]
    keep_ci = dict(ci)
    ih = s.sm.token_handler["id_token"]
    kw = dict(ih.kwargs)
    try:
        db[c["who"]].update({k: VALUES[i] for k, i in c["user"].items()})
        if c["alg"]:
            ci["id_token_signed_response_alg"] = c["alg"]
        if c["subject"]:
            ci["subject_type"] = c["subject"]
        ih.kwargs["base_claims"] = {k: None for k in c["always"]}
        req = dict(response_type=c["type"], nonce=c["nonce"] or None, scope=["openid", "email", "offline_access"], prompt="consent",
                   redirect_uri=ci["redirect_uris"][0][0])
        if c["ask"]:
            req["claims"] = {"id_token": {k: None for k in c["ask"]}}
        areq = s.areq(c["client"], **req)
        # a request object the endpoint accepted (a nonce is a must for some types)
        sid, grant = s.login(c["who"], c["client"], authn_time=c["authn_time"] if c["authn_time"] is not None else 0, **req)
        resp, x = attempt(s.ep("authorization").create_authn_response, areq, sid)
        if x is not None:
            if isinstance(x, (TypeError, AttributeError)):
                out.append(("crash", "the authorization answer crashed: %r" % x))
            return out
        ra = resp["response_args"]
        if "error" in ra:
            return out
        if "id_token" in ra:
            check(s, ra["id_token"], grant, sid, c, {k: ra[k] for k in ("code", "access_token") if k in ra}, out, "authorization")
        if "code" in ra:
            tr, x = attempt(s.redeem, ra["code"], c["client"])
            if x is not None:
                if isinstance(x, (TypeError, AttributeError)):
                    out.append(("crash", "the token answer crashed: %r" % x))
            elif not is_err(tr):
                t = tr["response_args"]
                if "id_token" in t:
                    check(s, t["id_token"], grant, sid, c, {}, out, "token")
                if c["refresh"] and "refresh_token" in t:
                    rr, x = attempt(s.refresh, t["refresh_token"], c["client"])
                    if x is None and not is_err(rr) and "id_token" in rr["response_args"]:
                        check(s, rr["response_args"]["id_token"], grant, sid, c, {}, out, "refresh")
    finally:
        for u in keep:
            db[u].clear()
            db[u].update(keep[u])
        ci.clear()
        ci.update(keep_ci)
        ih.kwargs.clear()
        ih.kwargs.update(kw)
    return out
