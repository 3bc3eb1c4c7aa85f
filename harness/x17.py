"""C17: registrations of all kinds against the rules, and the client database before and after."""
import copy
import json
import re

from oidcop.oidc.read_registration import RegistrationRead

from harness.srv import *

RULE = "registrations against the rules for redirect URIs and algorithms; what is in the client database before and after"
SCHEMES = ["https", "http", "HTTPS", "com.example.app", "javascript", "myapp", "", "ftp"]
HOSTS = ["rp.example.com", "localhost", "127.0.0.1", "localhost.evil.com", "localhost@evil.com", "evil.com", "[::1]", "[", "127.0.0.1:8080"]
TAILS = ["/cb", "/cb?a=b", "/cb?a=", "/cb#x", "/cb#", "?x=1#y", "", "/localhost", "/cb?a=b#f"]
PREFS = {
    "id_token_signed_response_alg": ("id_token_signing_alg_values_supported", ["RS256", "ES256", "HS256", "none", "XX", "RS"]),
    "userinfo_signed_response_alg": ("userinfo_signing_alg_values_supported", ["RS256", "none", "XX512"]),
    "request_object_signing_alg": ("request_object_signing_alg_values_supported", ["RS256", "none", "bogus"]),
    "id_token_encrypted_response_alg": ("id_token_encryption_alg_values_supported", ["RSA-OAEP", "A128KW", "xx"]),
    "token_endpoint_auth_method": ("token_endpoint_auth_methods_supported", ["client_secret_basic", "client_secret_post", "private_key_jwt", "self_made", "none"]),
    "token_endpoint_auth_signing_alg": ("token_endpoint_auth_signing_alg_values_supported", ["RS256", "none", "bogus"]),
    "subject_type": ("subject_types_supported", ["public", "pairwise", "ephemeral", "odd"]),
    "response_types": ("response_types_supported", [["code"], ["code", "id_token"], ["id_token"], ["token id_token"], ["id_token token"], ["bogus"], ["code", "bogus"], ["code bogus"]]),
    "grant_types": ("grant_types_supported", [["authorization_code"], ["implicit", "refresh_token"], ["password"], ["authorization_code", "password"]]),
    "default_acr_values": ("acr_values_supported", [["urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword"], ["loa9"]]),
}
OTHER = {"policy_uri": ["https://rp.example.com/p", "https://evil.example/p", "["], "logo_uri": ["https://rp.example.com/l", "http://x/l"], "client_id": ["client_1", "client_2", "me"],
         "request_uris": [["https://rp.example.com/r#1"], ["https://rp.example.com/r#1#2"], ["https://rp.example.com/r?q"]], "post_logout_redirect_uri": ["https://rp.example.com/out", "https://rp.example.com/out#f"],
         "sector_identifier_uri": ["https://rp.example.com/sector"], "error": ["made up"], "initiate_login_uri": ["http://x", "https://x"], "jwks_uri": ["https://rp.example.com/jwks"], "contacts": [["ve7jtb@example.org"]]}


def uri(rng):
    s = rng.choice(SCHEMES)
    return (s + "://" if s else "") + rng.choice(HOSTS) + rng.choice(TAILS)


def cases(rng, tier):
    while True:
        r = {"redirect_uris": [uri(rng) if rng.random() < 0.6 else "https://rp.example.com/cb" for _ in range(rng.choice([1, 1, 1, 2, 0]))]}
        if rng.random() < 0.7:
            r["application_type"] = rng.choice(["web", "native", "native", "other"])
        for k in rng.sample(sorted(PREFS), rng.choice([0, 1, 1, 2])):
            r[k] = rng.choice(PREFS[k][1])
        for k in rng.sample(sorted(OTHER), rng.choice([0, 0, 1, 2])):
            r[k] = rng.choice(OTHER[k])
        yield dict(request=r, read=rng.random() < 0.7, via=rng.choice(["json", "json", "direct"]))


_S = {}


def srv(read):
    if read not in _S:
        over = {"endpoint__registration_read": {"path": "registration_read", "class": RegistrationRead, "kwargs": {}}} if read else {}
        _S[read] = Srv(**over)
    s = _S[read]
    s.ec.cdb.clear()
    s.ec.cdb.update(copy.deepcopy(CLIENTS))
    s.ec.registration_access_token.clear()
    return s


def admissible(r):
    """the redirect URI rules, on the text"""
    kind = r.get("application_type", "web")
    for u in r["redirect_uris"]:
        if "#" in u:
            return f"{u!r} has a fragment"
        m = re.match(r"([A-Za-z][A-Za-z0-9+.-]*):", u)
        scheme = m.group(1).lower() if m else ""
        if kind == "native":
            auth = re.match(r"[^:]*://([^/?#]*)", u)
            host = auth.group(1).rpartition("@")[2].split(":")[0].lower() if auth else None
            if scheme in ("", "https") or scheme == "http" and host not in ("localhost", "127.0.0.1"):
                return f"{u!r} is neither of a custom scheme nor http to the local host"
        elif scheme not in ("http", "https"):
            return f"{u!r} is not an http(s) URI"
        elif scheme == "http" and r.get("response_types", ["code"]) != ["code"]:
            return f"{u!r} is not https"
    return None


def run(c):
    out = []
    s = srv(c["read"])
    ep = s.ep("registration")
    before = copy.deepcopy(dict(s.ec.cdb))
    rats = dict(s.ec.registration_access_token)
    req = copy.deepcopy(c["request"])
    try:
        if c["via"] == "json":
            msg = ep.parse_request(json.dumps(req))
        else:
            msg = ep.request_cls(**req)
        resp = msg if "error" in msg and "redirect_uris" not in msg else ep.process_request(request=msg)
    except Exception as x:
        resp = x
    ok = isinstance(resp, dict) and "response_args" in resp
    after = dict(s.ec.cdb)
    new = [k for k in after if k not in before]
    for k in before:
        if after.get(k) != before[k]:
            out.append(("others", f"registering {req} changed client {k}"))
    if not ok:
        if new:
            out.append(("left behind", f"the registration of {req} was refused ({resp if isinstance(resp, Exception) else resp.get('error')!r}), but the client {after[new[0]]} is there"))
        if dict(s.ec.registration_access_token) != rats:
            out.append(("left behind", f"the registration of {req} was refused, but its registration access token works"))
        return out
    a = resp["response_args"]
    if len(new) != 1 or a["client_id"] != new[0]:
        out.append(("identifier", f"registering {req} as {a['client_id']!r}: new in the database: {new}"))
        return out
    why = admissible(req)
    if why:
        out.append(("redirect", f"registered: {req}; {why}"))
    for p, (sup, _) in PREFS.items():
        if p in req:
            have = s.ec.provider_info.get(sup)
            want = req[p] if isinstance(req[p], list) else [req[p]]
            if isinstance(have, str):
                have = [have]
            norm = (lambda x: " ".join(sorted(x.split(" ")))) if p == "response_types" else (lambda x: x)
            if not set(map(norm, want)) <= set(map(norm, have or [])):
                out.append(("unsupported", f"registered with {p}={req[p]!r}, but supported are {have}"))
    return out
