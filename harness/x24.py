"""C24: authorization responses against what the request asks for, read back from the URL or the form the user agent gets."""
from html.parser import HTMLParser
from urllib.parse import parse_qsl, urlsplit

from harness.srv import *

RULE = "response types registered and requested, in any order, with odd states, scopes, response modes and inactive grants"
TYPES = ["code", "token", "id_token", "code token", "code id_token", "id_token token", "code id_token token", "none"]
ART = {"code": "code", "token": "access_token", "id_token": "id_token"}
STATES = ["STATE", "a b", "\"><x", "&amp;", "&quot;q", "a&b=c", "x+y%20z", "é", "'", "#f", "<b>", "code", "", None, "a\\\"b"]
MODES = [None, None, None, "query", "fragment", "form_post", "weird"]


def shuffle(rng, t):
    w = t.split(" ")
    rng.shuffle(w)
    return w


def cases(rng, tier):
    while True:
        reg = rng.choice([None, None, []] + [[" ".join(shuffle(rng, t)) for t in rng.sample(TYPES, rng.randint(1, 4))] for _ in range(6)])
        rt = rng.choice(TYPES)
        if reg and rng.random() < 0.7:
            rt = rng.choice(reg)
        w = shuffle(rng, rt)
        r = rng.random()
        if r < 0.05:
            w = w + [rng.choice(w)]
        elif r < 0.1:
            w = w + ["none"]
        elif r < 0.13:
            w = w + ["foo"]
        elif r < 0.16:
            w = w[:-1] or ["foo"]
        yield dict(oauth2=rng.random() < 0.3, reg=reg, rt=w, state=rng.choice(STATES), mode=rng.choice(MODES), how=rng.choice(["request", "request", "direct"]),
                   scope=["openid"] + [x for x in ("profile", "email", "offline_access", "nosuch", "research") if rng.random() < 0.3],
                   allowed=rng.choice([None, None, ["openid", "email"], ["openid"], []]), revoke=rng.random() < 0.2, expire=rng.random() < 0.1,
                   nonce=rng.choice(["nonce", "nonce", "n\"<>&"]), uri=rng.choice([0, 0, 1]))


class Form(HTMLParser):
    def __init__(self):
        super().__init__()
        self.args, self.action = [], None

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == "form":
            self.action = d.get("action")
        elif tag == "input":
            self.args.append((d.get("name"), d.get("value")))
        elif tag not in ("html", "head", "title", "body"):
            self.args.append(("!element", tag))


def flat(v):
    return " ".join(v) if isinstance(v, list) else v


def seen(ep, resp, out):
    """what the user agent gets: (parameters, where it sends them)"""
    r = ep.do_response(**resp)["response"]
    if "response_msg" in resp:
        f = Form()
        f.feed(r)
        return f.args, f.action
    u = urlsplit(r)
    return [(k, v) for part in (u.query, u.fragment) for k, v in parse_qsl(part, keep_blank_values=True)], r.split("?")[0].split("#")[0]


_S = {}


def run(c):
    out = []
    if c["oauth2"] not in _S:
        _S[c["oauth2"]] = Srv(oauth2=c["oauth2"])
    s = _S[c["oauth2"]]
    s.sm.db.db.clear()
    info = s.ec.cdb["client_1"]
    info.pop("response_types", None)
    info.pop("allowed_scopes", None)
    info["redirect_uris"] = [("https://one.example.com/cb", None), ("https://one.example.com/cb", {"a": ["1"], "copy": ["2"]})]
    if c["reg"] is not None:
        info["response_types"] = c["reg"]
    if c["allowed"] is not None:
        info["allowed_scopes"] = c["allowed"]
    ep = s.ep("authorization")
    uri = ["https://one.example.com/cb", "https://one.example.com/cb?a=1&copy=2"][c["uri"]]
    req = dict(client_id="client_1", redirect_uri=uri, scope=c["scope"], response_type=c["rt"], nonce=c["nonce"])
    if c["state"] is not None:
        req["state"] = c["state"]
    if c["mode"]:
        req["response_mode"] = c["mode"]
    if "offline_access" in c["scope"]:
        req["prompt"] = "consent"
    raw = ep.request_cls(**req).to_urlencoded()
    pr, x = attempt(ep.parse_request, raw)
    permitted = set(c["rt"]) in [set(t.split(" ")) for t in c["reg"]] if c["reg"] else set(c["rt"]) == {"code"}
    ok = x is None and not is_err(pr)
    if ok and not permitted:
        out.append(("unregistered type", "a request for %r was accepted, registered are %r" % (c["rt"], c["reg"])))
    if not ok:
        return out
    if c["how"] == "request":
        resp, x = attempt(ep.process_request, pr)
        active = True
        sid = resp.get("session_id") if x is None and isinstance(resp, dict) else None
    else:
        ae = create_authn_event("diana", authn_info=INTERNETPROTOCOLPASSWORD, authn_time=0)
        sid = s.sm.create_session(ae, pr, "diana", client_id="client_1", token_usage_rules=s.ec.authz.usage_rules("client_1"))
        g = s.sm.get_grant(sid)
        active = not c["revoke"]
        if c["revoke"]:
            g.revoke()
        resp, x = attempt(ep.authz_part2, request=pr, session_id=sid)
    if x is not None or not isinstance(resp, dict) or ("response_args" not in resp and "response_msg" not in resp):
        resp = None
    grants = [g for k, g in s.sm.db.db.items() if hasattr(g, "issued_token")]
    if resp is None:
        if not active and any(g.issued_token for g in grants):
            out.append(("inactive", "tokens were minted under a grant that is not active"))
        return out
    raw_args = resp.get("response_args") or {}
    try:
        args, to = seen(ep, resp, out)
    except Exception:                               # nowhere to send it to, or not what the response class allows
        args, to = [(k, flat(v)) for k, v in raw_args.items()], None
    names = [k for k, _ in args]
    got = {k: " ".join(str(v) for n, v in args if n == k) for k in names}      # a list may be sent item by item
    if "!element" in got:
        out.append(("form", "the form has an element of its own because of the state %r" % c["state"]))
    if "error" in got:
        for a in ART.values():
            if a in got:
                out.append(("artefact", "an error response carries %s" % a))
        return out
    want = [ART[w] for w in c["rt"] if w in ART]
    for a in ART.values():
        if (a in got) != (a in want):
            out.append(("artefact", "the response to %r %s %s" % (c["rt"], "carries" if a in got else "lacks", a)))
    if not active and [a for a in ART.values() if a in got] or not active and any(g.issued_token for g in grants):
        out.append(("inactive", "a grant that is not active was issued under"))
    if (got.get("state") or None) != (c["state"] or None):
        out.append(("state", "the state %r came back as %r" % (c["state"], got.get("state"))))
    if "scope" in got:
        extra = [x for x in got["scope"].split(" ") if x and (x not in c["scope"] or (c["allowed"] is not None and x not in c["allowed"]))]
        if extra:
            out.append(("scope", "the response names the scopes %r" % extra))
    if "response_msg" in resp and to != uri:
        out.append(("action", "the form is posted to %r instead of %r" % (to, uri)))
    issued = {}
    for g in grants:
        for t in g.issued_token:
            issued[t.value] = t.token_class
    for n, k in (("code", "authorization_code"), ("access_token", "access_token"), ("id_token", "id_token")):
        if n in got and issued.get(got[n]) != k:
            out.append(("not minted", "%s is not one of the tokens the session issued" % n))
    return out
