"""C01: random items against the stated rule, at boundary instants and after uses and revocations."""
from oidcop.session import token as T

RULE = "a case is an item (kind, usage rules, counts, bounds) plus an operation sequence; distinct by its data"
KINDS = ["Item", "SessionToken", "AccessToken", "AuthorizationCode", "RefreshToken", "IDToken"]


def cases(rng, tier):
    while True:
        base = rng.choice([5, 1000, 1600000000])
        near = lambda: rng.choice([0, base - 1, base, base + 1, base + 50])
        rules = rng.choice([None, {}, {"max_usage": rng.randint(0, 3)}, {"expires_in": 300},
                            {"max_usage": rng.randint(0, 40), "supports_minting": ["access_token"]}])
        yield {"kind": rng.choice(KINDS), "rules": rules, "nb": near(), "exp": near(), "used": rng.randint(0, 3),
               "revoked": rng.random() < .3, "now": rng.choice([base - 1, base, base + 1, base + 49, base + 50, base + 51]),
               "ops": [rng.choice(["use", "revoke", "check"]) for _ in range(rng.randint(0, 6))]}


def run(c):
    cls = getattr(T, c["kind"])
    kw = dict(usage_rules=dict(c["rules"]) if c["rules"] is not None else None, not_before=c["nb"], expires_at=c["exp"],
              issued_at=5, revoked=c["revoked"])
    kw["used"] = c["used"]
    o = cls(**kw)
    out = []
    mu = (c["rules"] or {}).get("max_usage")
    if c["kind"] == "AuthorizationCode":
        mu = 1
    used, rev = c["used"], c["revoked"]

    def spec(now):
        return (mu is None or used < mu) and not rev and (c["nb"] == 0 or now >= c["nb"]) and \
            (c["exp"] == 0 or now <= c["exp"])

    def check(tag):
        for now in (c["now"], c["now"] + 1, c["now"] + 10**6):
            if bool(o.is_active(now)) != spec(now):
                out.append(("active", f"{tag}: is_active({now}) is {o.is_active(now)}, the rules say {spec(now)}"))
                return
        real = T.utc_time_sans_frac
        T.utc_time_sans_frac = lambda: c["now"]
        try:
            if bool(o.is_active()) != spec(c["now"]):
                out.append(("active-clock", f"{tag}: is_active() at {c['now']} is {o.is_active()}"))
        finally:
            T.utc_time_sans_frac = real
    check("initially")
    for op in c["ops"]:
        if op == "use" and hasattr(o, "register_usage"):
            o.register_usage()
            used += 1
        elif op == "revoke":
            o.revoke()
            rev = True
        check("after " + op)
    return out
