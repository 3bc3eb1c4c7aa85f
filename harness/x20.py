"""C20: effective usage rules against the merge rule, and the configuration before and after sessions use them."""
import copy
import json

from harness.srv import *
from oidcop.session.grant import DEFAULT_USAGE, get_usage_rules

RULE = "client rules over server rules, and the configuration left alone"
KINDS = ["authorization_code", "access_token", "refresh_token", "id_token"]


def rule(rng):
    r = {}
    if rng.random() < 0.5:
        r["supports_minting"] = rng.sample(["access_token", "refresh_token", "id_token"], rng.randint(0, 3))
    if rng.random() < 0.5:
        r["expires_in"] = rng.choice([0, 60, 300, "900"])
    if rng.random() < 0.4:
        r["max_usage"] = rng.choice([1, 2, 5])
    return r


def rules(rng):
    return {k: rule(rng) for k in KINDS if rng.random() < 0.6}


def cases(rng, tier):
    while True:
        yield dict(server=rng.choice([None, None, {}] + [rules(rng) for _ in range(4)]), oauth2=rng.random() < 0.3,
                   clients=[rng.choice([None, {}, rules(rng), rules(rng), rules(rng)]) for _ in range(2)],
                   ops=[(rng.choice(["login", "flow", "flow", "refresh", "for", "get", "mint", "mint"]), rng.randrange(2), rng.choice(KINDS), rule(rng))
                        for _ in range(rng.randint(1, 6))])


def merged(server, client):
    out = copy.deepcopy(server or {})
    for k, v in (client or {}).items():
        out[k] = {} if v == {} else {**out.get(k, {}), **v}
    return out


_S = {}


def run(c):
    out = []
    if c["oauth2"] not in _S:
        _S[c["oauth2"]] = Srv(oauth2=c["oauth2"], rules=None)
    s = _S[c["oauth2"]]
    gc = s.ec.authz.grant_config
    gc.pop("usage_rules", None)
    if c["server"] is not None:
        gc["usage_rules"] = copy.deepcopy(c["server"])
    ids = ["client_1", "client_2"]
    for cid, r in zip(ids, c["clients"]):
        s.ec.cdb[cid].pop("token_usage_rules", None)
        if r is not None:
            s.ec.cdb[cid]["token_usage_rules"] = copy.deepcopy(r)
    default = copy.deepcopy(DEFAULT_USAGE)

    def config():
        return json.dumps([gc, [s.ec.cdb[i].get("token_usage_rules") for i in ids], DEFAULT_USAGE], sort_keys=True, default=str)

    before = config()
    sessions = []
    for n, (op, i, kind, extra) in enumerate(c["ops"]):
        cid = ids[i]
        want = merged(c["server"], c["clients"][i])
        try:
            got = s.ec.authz.usage_rules(cid)
            if got != want:
                out.append(("merge", "rules for a client with %s under %s: %s" % (c["clients"][i], c["server"], got)))
            if s.ec.authz.usage_rules() != (c["server"] or {}):
                out.append("rules without a client: %s" % s.ec.authz.usage_rules())
            if op == "for":
                if s.ec.authz.usage_rules_for(cid, kind) != want.get(kind, {}):
                    out.append("rules for %s: %s" % (kind, s.ec.authz.usage_rules_for(cid, kind)))
            elif op == "login":
                sessions.append(s.login("diana", cid) + (i,))
                if sessions[-1][1].usage_rules != want:
                    out.append(("in force", "a grant of a client with %s under %s has %s" % (c["clients"][i], c["server"], sessions[-1][1].usage_rules)))
            elif op == "get":
                sid, g, i = sessions[-1] if sessions else s.login("diana", cid) + (i,)
                g.usage_rules.setdefault(kind, {}).update(extra)
                r, x = attempt(get_usage_rules, kind, s.ec, g, ids[i])
                base = merged(c["server"], c["clients"][i]).get(kind, {}) or default.get(kind)
                if base is not None and r != {**base, **g.usage_rules.get(kind, {})}:
                    out.append(("get_usage_rules", "get_usage_rules(%s) with a grant's %s gives %s" % (kind, g.usage_rules.get(kind), r)))
            elif op == "mint":
                sid, g, i = sessions[-1] if sessions else s.login("diana", cid) + (i,)
                t, x = attempt(lambda: g.mint_token(session_id=sid, endpoint_context=s.ec, token_class=kind,
                                                    token_handler=s.sm.token_handler[kind], usage_rules=g.usage_rules.get(kind)))
                if t is not None:
                    t.usage_rules["added"] = True
            else:
                r, x = attempt(s.authorize, client_id=cid, response_type="code", scope=["openid"])
                if x is None and not is_err(r) and "code" in r.get("response_args", {}):
                    kw = {"redirect_uri": CLIENTS[cid]["redirect_uris"][0][0]}
                    t, x = attempt(s.redeem, r["response_args"]["code"], client_id=cid, **kw)
                    if op == "refresh" and x is None and not is_err(t) and "refresh_token" in t["response_args"]:
                        attempt(s.refresh, t["response_args"]["refresh_token"], client_id=cid)
        except Exception as x:
            out.append(("exception", "%s: %r" % (op, x)))
        if config() != before:
            out.append(("configuration", "%s changed the configured rules: %s -> %s" % (op, before, config())))
            break
    DEFAULT_USAGE.clear()
    DEFAULT_USAGE.update(default)
    return out
