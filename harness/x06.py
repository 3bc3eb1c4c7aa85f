"""C06: revoked grants and client sessions; random histories against a shadow model."""
from harness import hist

RULE = hist.RULE


def tree(rng):
    """several grants of the same user and client, revoked one by one and together"""
    r = lambda k: rng.randint(0, k)
    ops = [["login", rng.choice(["diana", "diana", "diana", "bob"]), rng.choice(["client_1", "client_1", "client_2"]), ["openid"]] for _ in range(rng.randint(2, 5))]
    for i in range(rng.randint(1, 4)):
        ops.append(["code", r(5)])
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(["revoke_grant", "revoke_grant", "revoke_client", "revoke_client", "code", "login", "revoke", "userinfo", "introspect", "mint", "clock"])
        ops.append({"login": ["login", "diana", "client_1", ["openid"]], "revoke": ["revoke", r(9), True, r(4)],
                    "userinfo": ["userinfo", r(9), 0], "introspect": ["introspect", r(9), 0, 0], "clock": ["clock", 350],
                    "mint": ["mint", r(9), 0, "access_token"]}.get(k, [k, r(5)]))
    return {"rules": "default", "flavour": "opaque", "oauth2": False, "rotate": False, "issue_refresh": True, "seed": 0, "ops": ops}


def cases(rng, tier):
    while True:
        yield tree(rng)
        yield tree(rng)
        yield hist.gen(rng, ('userinfo', 'introspect', 'redeem', 'revoke', 'clock'))


def run(c):
    return hist.run(c, "C06")
