"""C25: scopes and the claims they map to, for every combination of lists and maps."""
from harness.srv import *
from oidcop.scopes import SCOPE2CLAIMS, Scopes

RULE = "scopes a client is allowed and the claims they map to"
NAMES = ["openid", "profile", "email", "research", "x", ""]
CLAIMS = ["sub", "name", "email", "nickname", "c1", "c2"]


def scmap(rng):
    return {n: rng.sample(CLAIMS, rng.randint(0, 3)) for n in NAMES if rng.random() < 0.5}


def cases(rng, tier):
    while True:
        client = {}
        if rng.random() < 0.5:
            client["allowed_scopes"] = rng.sample(NAMES, rng.randint(0, 4))
        if rng.random() < 0.5:
            client["scopes_to_claims"] = scmap(rng)
        yield dict(server_map=rng.choice([None, scmap(rng)]), server_list=rng.choice([None, None, rng.sample(NAMES, 3)]), client=client,
                   known=rng.random() < 0.9, cid=rng.random() < 0.9, scopes=[rng.choice(NAMES) for _ in range(rng.randint(0, 5))],
                   deny=rng.random() < 0.5, flow=rng.random() < 0.3)


_S = []


def run(c):
    out = []
    if not _S:
        _S.append(Srv())
    s = _S[0]
    old = s.ec.scopes_handler
    info = s.ec.cdb["client_1"]
    for k in ("allowed_scopes", "scopes_to_claims"):
        info.pop(k, None)
    info.update(copy.deepcopy(c["client"]))
    try:
        h = Scopes(s.ep("authorization").server_get, allowed_scopes=copy.deepcopy(c["server_list"]), scopes_to_claims=copy.deepcopy(c["server_map"]))
        s.ec.scopes_handler = h
        cid = ("client_1" if c["known"] else "nobody") if c["cid"] else None
        client = c["client"] if cid == "client_1" else {}
        smap = c["server_map"] or SCOPE2CLAIMS
        allowed = client["allowed_scopes"] if "allowed_scopes" in client else list(client["scopes_to_claims"]) if "scopes_to_claims" in client \
            else (c["server_list"] or list(smap))
        cmap = client.get("scopes_to_claims", smap)
        want = [x for x in c["scopes"] if x in allowed]
        got = h.filter_scopes(c["scopes"], client_id=cid)
        if got != want:
            out.append(("filter", "filter_scopes(%s) gives %s instead of %s" % (c["scopes"], got, want)))
        claims = {n for x in want for n in cmap.get(x, [])}
        got = h.scopes_to_claims(c["scopes"], client_id=cid)
        if got != {n: None for n in claims}:
            out.append(("claims", "scopes_to_claims(%s) for %s gives %s instead of %s" % (c["scopes"], c["client"], sorted(got), sorted(claims))))
        if sorted(h.get_allowed_scopes(cid)) != sorted(allowed) or h.get_scopes_mapping(cid) != cmap:
            out.append("allowed scopes or mapping differ from the configuration")
        if c["flow"] and cid == "client_1" and "openid" in c["scopes"] and "" not in c["scopes"]:
            s.ec.conf["capabilities"]["deny_unknown_scopes"] = c["deny"]
            r, x = attempt(s.authorize, scope=c["scopes"])
            refused = x is not None or is_err(r)
            if c["deny"] and set(c["scopes"]) - set(allowed) and not refused:
                out.append(("deny", "an authorization request for %s is served (allowed: %s)" % (c["scopes"], allowed)))
            if refused and not (c["deny"] and set(c["scopes"]) - set(allowed)):
                out.append(("refused", "an authorization request for %s is refused (allowed: %s): %s" % (c["scopes"], allowed, x or r)))
        if info.get("allowed_scopes") != c["client"].get("allowed_scopes") or info.get("scopes_to_claims") != c["client"].get("scopes_to_claims"):
            out.append("the client's configuration changed")
    finally:
        s.ec.scopes_handler = old
        s.ec.conf["capabilities"].pop("deny_unknown_scopes", None)
    return out
