"""C10: requests with proofs of every kind (right, wrong, another client's, stale, replayed) against who they are attributed to."""
import base64
import json
import time

from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar
from oidcop.client_authn import client_auth_setup, verify_client

from harness.srv import *

RULE = "one or two proofs in a request, of either client or of nobody, fresh or reused, against the client it is attributed to"
METHODS = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt", "bearer_header", "bearer_body"]
IDS = ["client_1", "client_2", "nobody", "expired"]
KEYS = {}
_S = []


def server():
    if not _S:
        cl = copy.deepcopy(CLIENTS)
        cl["expired"] = dict(copy.deepcopy(CLIENTS["client_2"]), client_id="expired", client_secret="hemligt_3_0123456789abcdef0123456", client_secret_expires_at=5)
        s = Srv(clients=cl)
        for i in IDS:
            KEYS[i] = new_ec_key("P-256", use="sig")
            KEYS[i].add_kid()
            if i != "nobody":
                s.ec.keyjar.import_jwks({"keys": [KEYS[i].serialize()]}, i)
        KEYS["server"] = [k for k in s.ec.keyjar.get("sig", "EC", "")][0]
        _S.append(s)
    return _S[0]


SECRET = {i: CLIENTS[i]["client_secret"] for i in CLIENTS}
SECRET.update(expired="hemligt_3_0123456789abcdef0123456", nobody="hemligt_9_0123456789abcdef0123456")


def credential(rng):
    k = rng.choice(["basic", "post", "assertion", "assertion", "assertion", "bearer", "body_token"])
    who = rng.choice(IDS[:2] * 3 + IDS)
    c = dict(k=k, who=who, secret=rng.choice([who, who, who, rng.choice(IDS), "", "cut"]))
    if k == "assertion":
        c.update(iss=who, sub=rng.choice([who, who, rng.choice(IDS)]), signer=rng.choice([who, who, who, rng.choice(IDS), "server"]),
                 kind=rng.choice(["hmac", "key", "key", "none", "hmac"]), aud=rng.choice(["token", "issuer", "par", "other", "prefix", "both"]),
                 exp=rng.choice([600, 600, 600, -100, None]), jti=rng.choice(["a", "b", None]), tamper=rng.random() < 0.15)
    if k in ("bearer", "body_token"):
        c.update(token=rng.choice(["of " + who, "junk"]))
    return c


def cases(rng, tier):
    while True:
        yield dict(methods=rng.sample(METHODS, rng.randint(1, 4)) + (["none"] if rng.random() < 0.2 else []), endpoint=rng.choice(["token", "token", "pushed_authorization"]),
                   seq=[dict(creds=[credential(rng) for _ in range(rng.choice([1, 1, 2]))], client_id=rng.choice([None, None, "who", rng.choice(IDS)]),
                             obj=rng.choice([None, None, None] + IDS[:2])) for _ in range(rng.randint(1, 3))])


def b64(x):
    return base64.urlsafe_b64encode(x).rstrip(b"=").decode()


def assertion(s, c):
    aud = {"token": [s.ep("token").full_path], "issuer": [ISSUER], "par": [s.ep("pushed_authorization").full_path], "other": ["https://other.example.org/token"],
           "prefix": [s.ep("token").full_path[:-1]], "both": ["https://other.example.org", s.ep("token").full_path]}[c["aud"]]
    p = {"iss": c["iss"], "sub": c["sub"], "aud": aud, "iat": int(time.time())}
    if c["exp"] is not None:
        p["exp"] = int(time.time()) + c["exp"]
    if c["jti"]:
        p["jti"] = c["jti"]
    body = json.dumps(p)
    if c["kind"] == "none":
        t = b64(b'{"alg":"none"}') + "." + b64(body.encode()) + "."
    elif c["kind"] == "hmac":
        key = SYMKey(key=SECRET.get(c["signer"], "the server's, guessed at: 0123456789"), use="sig")
        t = JWS(body, alg="HS256").sign_compact([key])
    else:
        t = JWS(body, alg="ES256").sign_compact([KEYS[c["signer"]]])
    if c["tamper"]:
        h, b, sg = t.split(".")
        b = b64(json.dumps(dict(p, sub="x")).encode())
        t = ".".join((h, b, sg))
    return t


def run(c):
    out = []
    s = server()
    s.ec.jti_db.clear()
    for i in s.ec.cdb.keys() if hasattr(s.ec.cdb, "keys") else list(s.ec.cdb):
        s.ec.cdb[i].pop("auth_method", None)
    ep = s.ep(c["endpoint"])
    keep = ep.client_authn_method
    ep.client_authn_method = client_auth_setup(c["methods"], s.server.server_get)
    tokens = {}
    used = set()
    par = c["endpoint"] == "pushed_authorization"
    urls = {s.ep(c["endpoint"]).full_path}
    try:
        for r in c["seq"]:
            req, headers = {}, {}
            proofs = set()                              # (method, client) really proved
            marks = []
            for x in r["creds"]:
                who = x["who"]
                if x["k"] in ("basic", "post"):
                    sec = SECRET[who][:-1] if x["secret"] == "cut" else SECRET.get(x["secret"], "")
                    good = sec == SECRET[who] and who != "nobody"
                    if x["k"] == "basic":
                        headers["authorization"] = "Basic " + base64.b64encode(("%s:%s" % (who, sec)).encode()).decode()
                        proofs = {p for p in proofs if p[0] not in ("client_secret_basic", "bearer_header")}
                        if good:
                            proofs.add(("client_secret_basic", who))
                    else:
                        req["client_id"], req["client_secret"] = who, sec
                        proofs = {p for p in proofs if p[0] != "client_secret_post"}
                        if good:
                            proofs.add(("client_secret_post", who))
                elif x["k"] == "assertion":
                    req["client_assertion"] = assertion(s, x)
                    req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
                    proofs = {p for p in proofs if p[0] not in ("client_secret_jwt", "private_key_jwt")}
                    marks = []
                    good = who != "nobody" and x["signer"] == who and x["kind"] != "none" and not x["tamper"] and (x["exp"] is None or x["exp"] > 0)
                    good = good and (x["aud"] in (("par",) if par else ("token", "both")))
                    if good and not (x["jti"] and (who, x["jti"]) in used):
                        m = "client_secret_jwt" if x["kind"] == "hmac" else "private_key_jwt"
                        proofs.add((m, who))
                        marks = [(m, who, x["jti"])]
                elif who in SECRET:
                    if who not in tokens and who in ("client_1", "client_2"):
                        sid, g = s.login("diana", who)
                        tokens[who] = s.mint(g, sid, "access_token").value
                    t = tokens.get(who, "junk") if x["token"] != "junk" else "junk"
                    m = "bearer_header" if x["k"] == "bearer" else "bearer_body"
                    if m == "bearer_header":
                        headers["authorization"] = "Bearer " + t
                        proofs = {p for p in proofs if p[0] not in ("client_secret_basic", "bearer_header")}
                    else:
                        req["access_token"] = t
                        proofs = {p for p in proofs if p[0] != "bearer_body"}
                    if t != "junk":
                        proofs.add((m, who))
            if r["client_id"] and "client_secret" not in req:
                req["client_id"] = r["creds"][0]["who"] if r["client_id"] == "who" else r["client_id"]
            elif "client_secret" in req and r["client_id"] not in (None, "who", req["client_id"]):
                proofs = {p for p in proofs if p[0] != "client_secret_post"}
                req["client_id"] = r["client_id"]
                if SECRET.get(req["client_id"]) == req["client_secret"] and req["client_id"] != "nobody":
                    proofs.add(("client_secret_post", req["client_id"]))
            info = {"headers": headers} if headers else None
            if par:
                req.update(response_type="code", redirect_uri=CLIENTS["client_1"]["redirect_uris"][0][0], scope="openid", state="x")
                if r["obj"]:
                    o = r["obj"]
                    body = json.dumps(dict(iss=o, aud=[ISSUER], client_id=o, response_type="code", redirect_uri=CLIENTS[o]["redirect_uris"][0][0], scope="openid", state="y"))
                    req["request"] = JWS(body, alg="ES256").sign_compact([KEYS[o]])
                if "client_id" not in req:
                    req["client_id"] = r["creds"][0]["who"]
            else:
                req.update(grant_type="authorization_code", code="x", redirect_uri="https://one.example.com/cb")
            ok_clients = {w for m, w in proofs if m in c["methods"] and w != "expired"}
            before = dict(s.ec.jti_db)
            tokens_client = lambda ctx, tok, request=None: s.sm.get_session_info_by_token(tok)["client_id"]
            ai, x = attempt(verify_client, s.ec, ep.request_cls(**req), http_info=info, endpoint=ep, get_client_id_from_token=tokens_client)
            if x is None and ai and ai.get("method") != "none" and ai.get("client_id") not in ok_clients:
                out.append(("attributed", "attributed to %s by %s; proved are %s" % (ai.get("client_id"), ai.get("method"), sorted(proofs))))
            s.ec.jti_db.clear()
            s.ec.jti_db.update(before)
            pr, x = attempt(ep.parse_request, dict(req), http_info=info)
            err = x is not None or is_err(pr)
            if not err:
                cid = pr.get("client_id")
                bearer = [m for m, _ in proofs if m.startswith("bearer") and m in c["methods"]] or [m for m in c["methods"] if m.startswith("bearer")]
                if cid not in ok_clients and "none" not in c["methods"] and not bearer:
                    out.append(("request", "the request goes on as %s's; proved are %s, methods %s" % (cid, sorted(proofs), c["methods"])))
                for m, w, j in marks:
                    if j and m in c["methods"] and w == cid and (m, w) in proofs and "%s:%s" % (w, j) in s.ec.jti_db:
                        used.add((w, j))
            for m, w, j in marks:
                if j and "%s:%s" % (w, j) in s.ec.jti_db:
                    used.add((w, j))
    finally:
        ep.client_authn_method = keep
    return out
