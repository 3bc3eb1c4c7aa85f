"""C21: token requests with DPoP proofs of all kinds: accepted or not, and what the tokens are bound to."""
import base64
import json

from cryptojwt import JWS
from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.rsa import new_rsa_key

from harness.srv import *

RULE = "code and refresh requests at the token endpoints with proofs of all kinds (key, header, body, signature, method, URL), against what a proof must be"
_K = {}


def keys():
    if not _K:
        _K.update(ec=new_ec_key("P-256"), ec2=new_ec_key("P-256"), rsa=new_rsa_key(), sym=SYMKey(key="0123456789abcdef0123456789abcdef"))
    return _K


BODY = ["same", "body jwk", "body typ", "body alg", "no jti", "no iat", "no htm", "no htu", "wrong htm", "wrong htu", "longer htu", "lower htm", "header htm", "header htu"]
HEAD = ["same", "typ JWT", "no typ", "other jwk", "no jwk", "sym jwk", "private jwk"]
SIG = ["good", "good", "good", "tampered", "empty", "alg none", "alg NONE", "json", "rubbish"]


def cases(rng, tier):
    while True:
        yield dict(oauth2=rng.random() < 0.5, key=rng.choice(["ec", "ec2", "rsa"]), body=rng.choice(["same"] * 4 + BODY), head=rng.choice(["same"] * 4 + HEAD),
                   sig=rng.choice(["good"] * 4 + SIG), claim=rng.random() < 0.3, http=rng.choice(["full"] * 6 + ["no header", "none"]), flow=rng.choice(["code", "code", "refresh"]), key2=rng.choice(["ec", "ec2", "rsa"]))


def b64(d):
    return base64.urlsafe_b64encode(d if isinstance(d, bytes) else json.dumps(d).encode()).rstrip(b"=").decode()


def pub(k):
    return {a: v for a, v in k.serialize(private=False).items() if a != "kid"}


def proof(c, key, url, method):
    """the proof and whether it is one"""
    ks = keys()
    k, other = ks[key], ks["ec2" if key != "ec2" else "ec"]
    alg = "RS256" if key == "rsa" else "ES256"
    ok = True
    head = {"typ": "dpop+jwt", "alg": alg, "jwk": pub(k)}
    body = {"jti": "j-1", "htm": method, "htu": url, "iat": 1700000000}
    b, h, s = c["body"], c["head"], c["sig"]
    if b == "body jwk":
        body["jwk"] = pub(other)
    elif b == "body typ":
        body["typ"] = "dpop+jwt" if h != "same" else "at+jwt"
    elif b == "body alg":
        body["alg"] = "HS256"
    elif b.startswith("no "):
        del body[b[3:]]
        ok = False
    elif b == "wrong htm":
        body["htm"], ok = "GET", False
    elif b == "lower htm":
        body["htm"], ok = method.lower(), False
    elif b == "wrong htu":
        body["htu"], ok = "https://elsewhere.example.com/token", False
    elif b == "longer htu":
        body["htu"], ok = url + "/x", False
    elif b in ("header htm", "header htu"):
        head[b[7:]] = body[b[7:]]
        body[b[7:]] = "other"
        ok = False
    signer = k
    if h == "typ JWT":
        head["typ"], ok = "JWT", False
    elif h == "no typ":
        del head["typ"]
        ok = False
    elif h == "other jwk":
        head["jwk"], ok = pub(other), False
    elif h == "no jwk":
        del head["jwk"]
        ok = False
    elif h == "sym jwk":
        signer, head["alg"], ok = ks["sym"], "HS256", False
        head["jwk"] = {"kty": "oct", "k": b64(b"0123456789abcdef0123456789abcdef")}
    elif h == "private jwk":
        head["jwk"] = {a: v for a, v in k.serialize(private=True).items() if a != "kid"}
    if s in ("alg none", "alg NONE"):
        head["alg"] = s[4:]
        return b64(head) + "." + b64(body) + ".", False
    from cryptojwt.jws.jws import SIGNER_ALGS
    raw = b64(head) + "." + b64(body)
    sg = SIGNER_ALGS[head["alg"]].sign(raw.encode(), signer.private_key() if signer is not ks["sym"] else signer.key)
    if s == "tampered":
        body2 = dict(body, jti="j-2")
        return b64(head) + "." + b64(body2) + "." + b64(sg), False
    if s == "empty":
        return raw + ".", False
    if s == "json":
        return json.dumps({"payload": raw.split(".")[1], "protected": raw.split(".")[0], "signature": b64(sg)}), False
    if s == "rubbish":
        return "abc", False
    return raw + "." + b64(sg), ok if h != "private jwk" else None


def jkt(k):
    t = k.thumbprint("SHA-256")
    return t.decode() if isinstance(t, bytes) else t


def payload(tok):
    p = tok.split(".")[1]
    return json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))


def run(case):
    out = []
    s = Srv(flavour="jwt", oauth2=case["oauth2"], add_on={"dpop": {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {"dpop_signing_alg_values_supported": ["ES256", "RS256"]}}})
    sid, grant = s.login("diana", "client_1", response_type="code")
    code = s.mint(grant, sid, "authorization_code").value
    ep = s.ep("token")
    url, info = ep.full_path, s.ec.cdb["client_1"]
    base = {"client_id": "client_1", "client_secret": info["client_secret"]}
    ask = dict(base, grant_type="authorization_code", code=code, redirect_uri=info["redirect_uris"][0][0])
    if case["flow"] == "refresh":
        good, _ = proof(dict(body="same", head="same", sig="good"), case["key2"], url, "POST")
        p, x = attempt(ep.parse_request, ask, http_info={"headers": {"dpop": good}, "url": url, "method": "POST"})
        if x or is_err(p):
            return [("good proof refused", "a request with a good proof is refused: %s" % (x or p))]
        r, x = attempt(ep.process_request, p, issue_refresh=True)
        if x or is_err(r) or "refresh_token" not in r["response_args"]:
            return []
        ask = dict(base, grant_type="refresh_token", refresh_token=r["response_args"]["refresh_token"])
    if case["claim"]:
        ask["dpop_jkt"] = jkt(keys()["ec2" if case["key"] != "ec2" else "ec"])
    pr, good = proof(case, case["key"], url, "POST")
    http = {"headers": {"dpop": pr}, "url": url, "method": "POST"}
    if case["http"] == "no header":
        http, good = {"headers": {}, "url": url, "method": "POST"}, False
    elif case["http"] == "none":
        http, good = None, None
    p, x = attempt(ep.parse_request, ask, http_info=http)
    refused = x is not None or is_err(p)
    what = {k: case[k] for k in ("key", "body", "head", "sig", "http", "flow", "oauth2")}
    if good is False and not refused:
        out.append(("accepted %s/%s/%s" % (case["body"], case["head"], case["sig"]), "a token request with a proof that is none is accepted: %s" % what))
    if good and refused:
        out.append(("good proof refused", "a request with a good proof is refused (%s): %s" % (what, x or p)))
    if refused or good is False:
        return out
    mine = jkt(keys()[case["key"]])
    if case["http"] == "none":
        if case["claim"] and p.get("dpop_jkt") == ask.get("dpop_jkt"):
            out.append(("unproven key", "a request without a proof is bound to the key it names"))
        return out
    if p.get("dpop_jkt") != mine:
        out.append(("wrong thumbprint", "the thumbprint recorded is %s, not that of the proving key %s (%s)" % (p.get("dpop_jkt"), mine, what)))
    r, x = attempt(ep.process_request, p)
    if x or is_err(r):
        out.append(("not issued", "a good request gets no tokens (%s): %s" % (what, x or r)))
        return out
    a = r["response_args"]
    if payload(a["access_token"]).get("cnf", {}).get("jkt") != mine:
        out.append(("not bound", "the access token is bound to %s, not to the proving key (%s)" % (payload(a["access_token"]).get("cnf"), what)))
    if a.get("token_type") != "DPoP":
        out.append(("token type", "the token type is %s" % a.get("token_type")))
    return out
