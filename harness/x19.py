"""C19: authorization requests with cookies of all kinds: proceed, login page or error, against what may be reused."""
from harness.srv import *

RULE = "authorization requests (prompt, max_age, hints) with cookies of live, revoked, expired, foreign and altered sessions, at chosen times"
T0 = 1700000000


def cases(rng, tier):
    while True:
        yield dict(oauth2=rng.random() < 0.3, cookie=rng.choice(["good"] * 6 + ["none", "altered", "other name", "bad sid", "no sid", "other client", "several", "renewed"]),
                   prompt=rng.choice([None, None, ["none"], ["none"], ["login"], ["consent"], ["login", "consent"], ["none", "login"], ["select_account"]]),
                   max_age=rng.choice([None, None, None, 0, 1, 60, 100, 10000]), at=rng.choice([0, 1, 50, 61, 101, 3599, 3600, 3601, 9000]), life=rng.choice([0, 0, 50, 200]),
                   revoke=rng.choice([None, None, None, None, "grant", "client", "expired grant"]), hint=rng.choice([None, None, None, "own", "other user", "other client"]),
                   login_hint=rng.choice([None, None, None, "diana", "bob", "nobody"]), same=rng.random() < 0.3, upm=rng.random() < 0.05, uid=rng.choice(["diana", "diana", "diana", "user", "eyJ1aWQiOiJib2IifQ"]), sub=rng.choice(["public", "ephemeral"]))


def cookie(s, now, sid, **kw):
    with Clock(now):
        c = s.ec.new_cookie(name=s.ec.cookie_handler.name["session"], sid=sid, state="STATE", **kw)
    return c


def run(case):
    s = Srv(login="cookied", oauth2=case["oauth2"], grant_expires=7200)
    who = case["uid"]
    s.ec.userinfo.db[who] = s.ec.userinfo.db["diana"]
    s.ec.login_hint_lookup = lambda h: who if h == "diana" else h if h in USERS else None
    with Clock(T0):
        sid, g = s.login(who, "client_1", valid_until=T0 + case["life"] if case["life"] else 0)
        sid2, g2 = s.login("bob", "client_1")
        sid3, g3 = s.login(who, "client_2")
        hint = None
        if case["hint"]:
            hs, hg = {"own": (sid, g), "other user": (sid2, g2), "other client": (sid3, g3)}[case["hint"]]
            hint = s.mint(hg, hs, "id_token").value
    valid_until = T0 + (case["life"] or 3600)
    if case["revoke"] == "grant":
        g.revoke()
    elif case["revoke"] == "client":
        s.sm.revoke_client_session(sid)
    elif case["revoke"] == "expired grant":
        g.expires_at = T0 + 55
    ck, k = cookie(s, T0, sid), case["cookie"]
    cookies, genuine = [ck], True
    now = T0 + case["at"]
    if k == "none":
        cookies, genuine = [], False
    elif k == "altered":
        cookies, genuine = [dict(ck, value=ck["value"].replace("STATE", "STATS"))], False
    elif k == "other name":
        cookies, genuine = [dict(ck, name="foo")], False
    elif k == "bad sid":
        cookies, genuine = [cookie(s, T0, sid[:-6] + "AAAAAA")], False
    elif k == "no sid":
        with Clock(T0):
            cookies, genuine = [s.ec.new_cookie(name=s.ec.cookie_handler.name["session"], state="x")], False
    elif k == "other client":
        cookies, genuine = [cookie(s, T0, sid3)], False
    elif k == "several":
        cookies = [cookie(s, T0, sid3), ck, cookie(s, T0, sid2)]
    elif k == "renewed":
        cookies = [cookie(s, now, sid)]
    req = {}
    if case["prompt"]:
        req["prompt"] = case["prompt"] if not case["oauth2"] else " ".join(case["prompt"])
    if case["max_age"] is not None and not case["oauth2"]:
        req["max_age"] = case["max_age"]
    if hint and not case["oauth2"]:
        req["id_token_hint"] = hint
    if case["login_hint"] and not case["oauth2"]:
        req["login_hint"] = case["login_hint"]
    if case["upm"]:
        req["upm_answer"] = "true"
    if not case["same"]:
        req["state"] = "OTHER"
    before = {i: len(s.sm.get([u, c]).subordinate) for i, (u, c) in enumerate([(who, "client_1"), ("bob", "client_1"), (who, "client_2")])}
    with Clock(now):
        resp, exc = attempt(s.authorize, http_info={"cookie": cookies}, client_id="client_1", **req)
        alive = g.is_active()
    after = {i: len(s.sm.get([u, c]).subordinate) for i, (u, c) in enumerate([(who, "client_1"), ("bob", "client_1"), (who, "client_2")])}
    out = []
    page = exc is None and isinstance(resp, dict) and "http_response" in resp
    args = (resp.get("response_args") or resp) if exc is None and hasattr(resp, "get") else {}
    proceeds = exc is None and not page and "code" in args
    why = []
    if not genuine:
        why.append("no genuine cookie for that client (%s)" % k)
    if not alive:
        why.append("grant not active (%s)" % case["revoke"])
    if now >= valid_until:
        why.append("authentication no longer valid")
    if "max_age" in req and not case["upm"] and case["at"] > req["max_age"]:
        why.append("authentication older than max_age")
    if case["prompt"] and "login" in case["prompt"]:
        why.append("a fresh login was demanded")
    if "id_token_hint" in req and case["hint"] == "other user":
        why.append("the hint names another user")
    if "login_hint" in req and case["login_hint"] == "bob":
        why.append("the login hint names another user")
    if proceeds and why:
        out.append(("reused", "proceeded at +%d although %s: %s" % (case["at"], "; ".join(why), req)))
    if proceeds:
        u = s.sm.decrypt_session_id(resp["session_id"])
        if u[:2] != [who, "client_1"]:
            out.append(("whose", "proceeded in the session of %s" % u))
    if page and case["prompt"] and "none" in case["prompt"]:
        out.append(("page", "login page although interaction was forbidden: %s %s" % (req, why)))
    if exc is None and case["prompt"] and case["prompt"] == ["none"] and not proceeds and args.get("error") != "login_required" and "error" not in str(args):
        out.append(("answer", "neither proceeds nor login_required: %s" % (str(resp)[:200])))
    if not proceeds and exc is None and after != before:
        out.append(("stray", "a session was made although the request did not proceed"))
    if not why and not proceeds and case["login_hint"] != "nobody" and not (case["hint"] == "other client") and not case["prompt"]:
        out.append(("refused", "a valid login was not reused: %s %s %s" % (req, str(resp)[:200], repr(exc))))
    return out
