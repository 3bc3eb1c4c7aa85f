"""C13: which user claims are released where, under every kind of configuration, request and user."""
import json

from harness.srv import *
from oidcop.session.claims import claims_match

RULE = "claims released against what authorises their release"
NAMES = ["name", "email", "nickname", "age", "given_name", "address", "eduperson_scoped_affiliation", "nosuch", "email_verified", "phone_number"]
POINTS = ["userinfo", "id_token", "introspection", "access_token"]
PROTOCOL = {"sub", "acr", "iss", "aud", "exp", "iat", "sid", "auth_time", "nonce", "c_hash", "at_hash", "scope", "jti", "client_id", "cnf", "active",
            "token_type", "username", "nbf", "s_hash"}


def spec(rng):
    return rng.choice([None, None, None, {"essential": True}, {"value": "bob@example.org"}, {"value": 0}, {"value": 7}, {"values": ["bobby", "dina"]},
                       {"values": []}, {"essential": True, "value": "Bob"}, {"values": ["x"], "essential": False}, {}, {"value": "x", "values": [7]},
                       {"value": False}, {"value": None}])


def some(rng, n=3):
    return rng.sample(NAMES, rng.randint(0, n))


def cases(rng, tier):
    while True:
        mods = {}
        for p in POINTS:
            m = {}
            if rng.random() < 0.5:
                m["base_claims"] = {k: rng.choice([None, None, {"essential": True}]) for k in some(rng, 2)}
            if rng.random() < 0.5:
                m["add_claims_by_scope"] = rng.random() < 0.7
            if rng.random() < 0.3:
                m["always_add_claims"] = rng.choice([some(rng, 2), {k: spec(rng) for k in some(rng, 2)}])
            if rng.random() < 0.5:
                m["enable_claims_per_client"] = rng.random() < 0.8
            mods[p] = m
        clients = []
        for _ in range(2):
            c = {}
            if rng.random() < 0.7:
                c["always"] = {p: some(rng, 2) for p in POINTS if rng.random() < 0.5}
            if rng.random() < 0.6:
                c["by_scope"] = {p: rng.random() < 0.6 for p in POINTS if rng.random() < 0.5}
            clients.append(c if rng.random() < 0.8 else None)
        req = {p: {k: spec(rng) for k in some(rng)} for p in POINTS if rng.random() < 0.4} if rng.random() < 0.6 else None
        yield dict(mods=mods, clients=clients, claims=req, scope=["openid"] + [x for x in ("profile", "email", "phone", "address", "research") if rng.random() < 0.35],
                   user=rng.choice(["diana", "bob", "carol"]), ops=[(rng.choice(POINTS), rng.choice(["", "", "userinfo", "id_token"]), rng.randrange(2))
                                                                    for _ in range(rng.randint(1, 4))], flow=rng.random() < 0.5, allowed=rng.choice([None, None, ["openid", "email"]]))


_S = []


def satisfies(v, s):
    if s is None or ("value" not in s and "values" not in s):
        return True
    return ("value" in s and v == s["value"]) or ("values" in s and v in s["values"])


def run(c):
    out = []
    if not _S:
        _S.append(Srv(flavour="jwt"))
    s = _S[0]
    ids = ["client_1", "client_2"]
    mod = {"userinfo": s.ep("userinfo"), "id_token": s.sm.token_handler["id_token"], "introspection": s.ep("introspection"),
           "access_token": s.sm.token_handler["access_token"]}
    keep = {p: dict(m.kwargs) for p, m in mod.items()}
    try:
        for p, m in mod.items():
            for k in ("base_claims", "add_claims_by_scope", "always_add_claims", "enable_claims_per_client"):
                m.kwargs.pop(k, None)
            m.kwargs.update(copy.deepcopy(c["mods"][p]))
        for cid, cc in zip(ids, c["clients"]):
            s.ec.cdb[cid].pop("add_claims", None)
            s.ec.cdb[cid].pop("allowed_scopes", None)
            if cc is not None:
                s.ec.cdb[cid]["add_claims"] = copy.deepcopy(cc)
            if c["allowed"]:
                s.ec.cdb[cid]["allowed_scopes"] = list(c["allowed"])

        def config():
            return json.dumps([{p: {k: v for k, v in m.kwargs.items() if k in c["mods"][p] or k.endswith("claims") or "claims" in k} for p, m in mod.items()},
                               {i: {k: v for k, v in s.ec.cdb[i].items() if k != "auth_method"} for i in ids}, s.ec.userinfo.db], sort_keys=True, default=str)
        before = config()
        req = dict(scope=c["scope"])
        if c["claims"] is not None:
            req["claims"] = copy.deepcopy(c["claims"])

        def authorised(point, second, i):
            m, cc = c["mods"][point], c["clients"][i] or {}
            names = set(m.get("base_claims", {}))
            if m.get("enable_claims_per_client"):
                bs = (cc.get("by_scope") or {}).get(point) or (second and (cc.get("by_scope") or {}).get(second)) or m.get("add_claims_by_scope")
                names |= set((cc.get("always") or {}).get(point, [])) | set((cc.get("always") or {}).get(second, []) if second else [])
            else:
                bs = m.get("add_claims_by_scope")
                names |= set(m.get("always_add_claims") or [])
            if bs:
                for x in c["scope"]:
                    if not c["allowed"] or x in c["allowed"]:
                        names |= set(s.ec.scopes_handler.get_scopes_mapping(ids[i]).get(x, []))
            asked = (c["claims"] or {}).get(point) or {}
            return names | set(asked), asked

        def judge(what, released, point, second, i, protocol=()):
            names, asked = authorised(point, second, i)
            db = USERS[c["user"]]
            for k, v in released.items():
                if k in protocol:
                    continue
                if k not in names:
                    out.append(("not authorised", "%s: %s released at %s although nothing authorises it" % (what, k, point)))
                elif k not in db:
                    out.append(("no value", "%s: %s released at %s without a value of the user's: %r" % (what, k, point, v)))
                elif v != db[k]:
                    out.append(("value", "%s: %s at %s is %r, the user's is %r" % (what, k, point, v, db[k])))
                elif k in asked and not satisfies(db[k], asked[k]):
                    out.append(("restriction", "%s: %s = %r released at %s although %r was asked for" % (what, k, v, point, asked[k])))

        sessions = {i: s.login(c["user"], ids[i], **req) for i in (0, 1)}
        for point, second, i in c["ops"]:
            sid, g = sessions[i]
            r = s.ec.claims_interface.get_claims(sid, scopes=c["scope"], claims_release_point=point, secondary_identifier=second)
            extra = set(r) - authorised(point, second, i)[0]
            if extra:
                out.append(("not authorised", "get_claims(%s, %s) allows %s although nothing authorises them" % (point, second, sorted(extra))))
            judge("get_user_claims", s.ec.claims_interface.get_user_claims(c["user"], r), point, second, i)
            if config() != before:
                out.append(("configuration", "computing claims at %s (as if %s) changed the configuration" % (point, second)))
                break
        for i in (0, 1):
            sid, g = sessions[i]
            for p in POINTS:
                extra = set(g.claims.get(p, {})) - authorised(p, "", i)[0]
                if extra:
                    out.append(("not authorised", "the grant allows %s at %s although nothing authorises them" % (sorted(extra), p)))
        if c["flow"]:
            sid, g = sessions[0]
            at = s.mint(g, sid, "access_token")
            r, x = attempt(s.userinfo, at.value)
            if x is None and not is_err(r):
                judge("userinfo", r["response_args"], "userinfo", "", 0, PROTOCOL)
            r, x = attempt(s.introspect, at.value)
            if x is None and not is_err(r):
                judge("introspection", r["response_args"].to_dict(), "introspection", "", 0, PROTOCOL)
            judge("access token", unpack_idtoken(s, at.value), "access_token", "", 0, PROTOCOL | {"ttype", "token_class", "sid"})
            it, x = attempt(s.mint, g, sid, "id_token")
            if x is None:
                judge("ID token", unpack_idtoken(s, it.value), "id_token", "", 0, PROTOCOL)
            it, x = attempt(s.mint, g, sid, "id_token", as_if="userinfo")
            if x is None:
                judge("ID token as userinfo", unpack_idtoken(s, it.value), "id_token", "userinfo", 0, PROTOCOL)
            if config() != before:
                out.append(("configuration", "issuing tokens changed the configuration"))
    finally:
        for p, m in mod.items():
            m.kwargs.clear()
            m.kwargs.update(keep[p])
    return out
