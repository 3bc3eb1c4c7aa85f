"""C18: logout requests with odd cookies, hints and targets, and what a verified logout revokes."""
import copy
import json
from urllib.parse import parse_qs, urlsplit

from harness.srv import *

RULE = "logout requests (cookie, ID token hint, target, in every combination) and verified logouts over users, clients, grants and ID tokens"
IDS = ["client_1", "client_2", "client_3"]
NAMES = ["diana", "bob"]


class Http:
    def __init__(self, status):
        self.status, self.posted = status, []

    def post(self, url, data=None, **kw):
        self.posted.append((url, data))
        if self.status == 0:
            raise OSError("no route")
        return type("R", (), {"status_code": self.status})()


def clients(case):
    r = copy.deepcopy(CLIENTS)
    r["client_3"] = {"client_id": "client_3", "client_secret": "hemligt_3_0123456789abcdef0123456", "redirect_uris": [("https://three.example.com/cb", None)],
                     "client_salt": "salted", "response_types": ["code"], "token_endpoint_auth_method": "client_secret_post"}
    for cid, ch in zip(IDS, case["channels"]):
        if "b" in ch:
            r[cid]["backchannel_logout_uri"] = "https://%s.example.com/bc" % cid
        if "f" in ch:
            r[cid]["frontchannel_logout_uri"] = "https://%s.example.com/fc" % cid
            r[cid]["frontchannel_logout_session_required"] = True
    return r


def cases(rng, tier):
    while True:
        yield dict(channels=[rng.choice(["", "b", "f", "bf", "b"]) for _ in IDS],
                   logins=[(rng.choice(NAMES), rng.choice(IDS), rng.choice(["", "i", "i", "ii", "x", "ai"])) for _ in range(rng.randint(1, 6))],
                   kind=rng.choice(["request", "request", "one", "all", "all"]), who=rng.randint(0, 5), cookie=rng.choice(["good", "good", "good", "none", "altered", "other name", "bad sid", "swap"]),
                   hint=rng.choice([None, "own", "own", "other", "other client", "junk"]), pick=rng.randint(0, 5), late=rng.randint(0, 3),
                   target=rng.choice([None, "own", "own", "other", "prefix", "query"]), state=rng.choice([None, "S", "a b&c"]), status=rng.choice([200, 200, 501, 400, 0]),
                   gone=rng.choice([None, None, None, 0, 1, 2]))


def snapshot(s, logins):
    """(user, client, grant) -> (grant revoked, client session revoked)"""
    r = {}
    for sid, u, c, g in logins:
        r[(u, c, g.id)] = (g.revoked, s.sm.get([u, c]).revoked)
    return r


def run(case):
    s = Srv(clients=clients(case))
    ep = s.ep("session")
    s.ec.httpc = http = Http(case["status"])
    logins, hints = [], []
    for u, c, t in case["logins"]:
        sid, g = s.login(u, c, **({"redirect_uri": "https://three.example.com/cb"} if c == "client_3" else {}))
        if "a" in t:
            g.authentication_event = None
        for ch in t:
            if ch == "i" or ch == "x":
                tok = s.mint(g, sid, "id_token", based_on=None)
                hints.append((tok.value, u, c, g))
            if ch == "x":
                tok.revoked = True
        logins.append((sid, u, c, g))
    sid, u, c, g = logins[case["who"] % len(logins)]
    before = snapshot(s, logins)
    if case["kind"] == "request":
        return logout_request(case, s, ep, logins, hints, sid, u, c, g, before)
    if case["gone"] is not None and IDS[case["gone"]] != c:
        del s.ec.cdb[IDS[case["gone"]]]
    alla = case["kind"] == "all"
    resp, exc = attempt(ep.do_verified_logout, sid, alla)
    after = snapshot(s, logins)
    out = []
    if alla:
        must = {(u2, c2) for (_, u2, c2, g2), t in zip(logins, case["logins"]) if u2 == u and g2.authentication_event and set(t[2]) & set("ix")
                and c2 in s.ec.cdb and (set(case["channels"][IDS.index(c2)]))}
    else:
        must = {(u, c)}
    for k, (gr, cr) in after.items():
        if k[:2] in must and not (gr and cr):
            out.append(("not-revoked", "logout (%s) from %s: the session of %s at %s is not revoked (%s)" % (case["kind"], c, k[0], k[1], exc)))
        if k[0] != u and (gr, cr) != before[k]:
            out.append(("other-user", "logout of %s revoked a session of %s" % (u, k[0])))
        if not alla and k[:2] != (u, c) and (gr, cr) != before[k]:
            out.append(("other-client", "logout from %s alone revoked the session at %s" % (c, k[1])))
        if alla and k[:2] not in must and (gr, cr) != before[k]:
            out.append(("too-much", "the session of %s at %s was revoked without ID token or channel" % k[:2]))
    return out


def logout_request(case, s, ep, logins, hints, sid, u, c, g, before):
    ck = s.ec.new_cookie(name=s.ec.cookie_handler.name["session"], sid=sid, sub=g.sub)
    k = case["cookie"]
    cookies, genuine = [ck], True
    if k == "none":
        cookies, genuine = [], False
    elif k == "altered":
        v = ck["value"]
        i = case["pick"] * 7 % len(v)
        cookies, genuine = [dict(ck, value=v[:i] + ("A" if v[i] != "A" else "B") + v[i + 1:])], False
    elif k == "other name":
        cookies, genuine = [dict(ck, name="elsewhere")], False
    elif k == "bad sid":
        cookies, genuine = [s.ec.new_cookie(name=s.ec.cookie_handler.name["session"], sid=sid[:-4] + "AAAA")], False
    elif k == "swap":
        # a genuine cookie of another kind with the session cookie's name
        cookies, genuine = [dict(s.ec.new_cookie(name=s.ec.cookie_handler.name["register"], sid=sid), name=s.ec.cookie_handler.name["session"])], None
    req, hint_ok, hinted = {}, None, case["hint"] is not None
    if case["hint"] == "junk":
        req["id_token_hint"], hint_ok = "a.b.c", False
    elif case["hint"] is not None:
        own = [h for h in hints if (h[3] is g) == (case["hint"] == "own")]
        if case["hint"] == "other client":
            own = [h for h in hints if h[2] != c]
        if not own:
            hinted = False
        else:
            h = own[case["pick"] % len(own)]
            req["id_token_hint"] = h[0]
            hint_ok = h[2] == c and h[3].sub == g.sub
    base = {"client_1": "https://one.example.com/out", "client_2": "https://two.example.com/out"}
    target_ok = None
    if case["target"]:
        other = base["client_2" if c == "client_1" else "client_1"]
        t = {"own": base.get(c, "https://three.example.com/out"), "other": other, "prefix": base.get(c, other) + "/x", "query": base.get(c, other) + "?a=b"}[case["target"]]
        req["post_logout_redirect_uri"] = t
        target_ok = case["target"] == "own" and c in base
    if case["state"] is not None:
        req["state"] = case["state"]

    def go():
        p = ep.parse_request(dict(req), http_info={"cookie": cookies})
        return ep.process_request(p, http_info={"cookie": cookies})
    resp, exc = attempt(go)
    out = []
    if snapshot(s, logins) != before:
        out.append(("request-revokes", "a logout request by itself revoked something"))
    if exc is not None or "redirect_location" not in resp:
        return out
    if genuine is False:
        out.append(("cookie", "logout honoured without a genuine session cookie (%s)" % k))
    if hinted and not hint_ok:
        out.append(("hint", "logout honoured with the ID token hint of another session (%s)" % case["hint"]))
    if target_ok is False or (target_ok and not hinted):
        out.append(("target", "logout honoured with target %s for %s, hint %s" % (req["post_logout_redirect_uri"], c, case["hint"])))
    sjwt = parse_qs(urlsplit(resp["redirect_location"]).query)["sjwt"][0]
    p = unpack_idtoken(s, sjwt)
    if p["sid"] != sid:
        out.append(("sid", "the logout is for another session"))
    if case["target"] and not p["redirect_uri"].startswith(req["post_logout_redirect_uri"]):
        out.append(("where", "redirects elsewhere: %s" % p["redirect_uri"]))
    return out
