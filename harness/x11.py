"""C11: authorization and token requests with challenges and verifiers of every method."""
import base64
import hashlib

from harness.srv import *

RULE = "the code and the challenge it is bound to"
METHODS = ["plain", "S256", "S384", "S512"]


def transform(method, v):
    if method == "plain":
        return v
    return base64.urlsafe_b64encode(hashlib.new("sha" + method[1:], v.encode("ascii")).digest()).decode().rstrip("=")


def cases(rng, tier):
    while True:
        conf_methods = rng.choice([METHODS, METHODS, ["plain"], ["S256"], ["S256", "S512"], ["S384", "plain"]])
        v = "".join(rng.choice("abcXYZ019-._~") for _ in range(rng.choice([0, 1, 43, 64, 128])))
        m = rng.choice([None, None] + METHODS + ["S256", "s256", "", "none", "SHA256"])
        real = rng.choice(METHODS) if m not in METHODS or rng.random() < 0.2 else m
        ch = rng.choice([transform(real, v)] * 6 + [v, None, None, "", "x" * 43])
        ver = rng.choice([v] * 5 + [None, "", v + "a", v[:-1], ch, v.upper(), v + " ", " " + v, "\u00e5" + v, transform("S256", v)])
        yield dict(oauth2=rng.random() < 0.3, methods=conf_methods, server=rng.choice([None, True, False, False]),
                   client=rng.choice([None, None, True, False]), method=m, challenge=ch, verifier=ver,
                   rt=rng.choice(["code", "code", "code id_token"]), retry=rng.random() < 0.3, good=v, flow=rng.choice(["normal", "par"]))


_SRV = {}


def server(c):
    key = (c["oauth2"], tuple(c["methods"]), c["server"])
    if key not in _SRV:
        kw = {"code_challenge_methods": list(c["methods"])}
        if c["server"] is not None:
            kw["essential"] = c["server"]
        s = Srv(oauth2=c["oauth2"], add_on={"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": kw}})
        _SRV[key] = s
    return _SRV[key]


def run(c):
    out = []
    s = server(c)
    info = s.ec.cdb["client_1"]
    info.pop("pkce_essential", None)
    if c["client"] is not None:
        info["pkce_essential"] = c["client"]
    req = dict(response_type=c["rt"])
    if c["challenge"] is not None:
        req["code_challenge"] = c["challenge"]
    if c["method"] is not None:
        req["code_challenge_method"] = c["method"]
    if c["flow"] == "par":
        d = s.areq(**req).to_dict()
        d["client_secret"] = info["client_secret"]
        par = s.ep("pushed_authorization")
        p, x = attempt(par.parse_request, d)
        if x or is_err(p):
            return []
        r, x = attempt(par.process_request, p)
        if x or is_err(r):
            return []
        ep = s.ep("authorization")
        r, x = attempt(lambda: ep.process_request(ep.parse_request({"client_id": "client_1", "request_uri": r["http_response"][
            "request_uri"], "response_type": c["rt"], "scope": "openid"})))
    else:
        r, x = attempt(s.authorize, **req)
    refused = x is not None or is_err(r)
    essential = c["client"] if c["client"] is not None else bool(c["server"])
    has = bool(c["challenge"])
    method = c["method"] or "plain"
    must = (essential and not has) or (has and method not in c["methods"])
    if must and not refused:
        out.append(("authorization accepted", "an authorization request %s is accepted (required: %s, allowed: %s)" % (req, essential, c["methods"])))
    if refused or "response_args" not in r or "code" not in r["response_args"]:
        if refused and not must and (not has or c["method"] is None or c["method"] in METHODS) and c["flow"] == "normal":
            out.append(("authorization refused", "an authorization request %s is refused (required: %s, allowed: %s): %s" % (
                req, essential, c["methods"], x or r)))
        return out
    code = r["response_args"]["code"]

    def redeem(v):
        kw = {} if v is None else {"code_verifier": v}
        t, x = attempt(s.redeem, code, **kw)
        return not (x is not None or is_err(t) or "access_token" not in t.get("response_args", {}))

    def fits(v):
        if not has:
            return True
        if not v:
            return False
        try:
            return transform(method, v) == c["challenge"]
        except UnicodeEncodeError:
            return False

    got = redeem(c["verifier"])
    if got != fits(c["verifier"]):
        out.append(("redeemed" if got else "not redeemed", "challenge %r (%s), verifier %r: tokens %s" % (
            c["challenge"], method, c["verifier"], "handed out" if got else "refused")))
    if c["retry"] and not got and has:
        got = redeem(c["good"])
        if got != fits(c["good"]):
            out.append("second attempt, challenge %r (%s), verifier %r: tokens %s" % (c["challenge"], method, c["good"],
                                                                                    "handed out" if got else "refused"))
    return out
