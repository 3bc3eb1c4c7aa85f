"""C05: refresh; random histories against a shadow model."""
from harness import hist

RULE = hist.RULE


def chain(rng):
    """a login, a code with part of its scope, and a chain of redemptions and refreshes with all kinds of scopes"""
    r = lambda k: rng.randint(0, k)
    ops = [["login", "diana", "client_1", rng.choice(hist.SCOPES[1:])], ["code", 0, rng.random() < 0.6], ["redeem", 0, 0, 1, ""]]
    for _ in range(rng.randint(1, 4)):
        ops.append(["refresh", r(5), 0, r(4), False])
    return {"rules": "default", "flavour": "opaque", "oauth2": rng.random() < 0.5, "rotate": rng.random() < 0.4,
            "issue_refresh": rng.random() < 0.85, "seed": 0, "ops": ops}


def cases(rng, tier):
    for c in scripted():
        yield c
        yield chain(rng)
        yield chain(rng)
    while True:
        yield chain(rng)
        yield hist.gen(rng, ('refresh', 'redeem', 'revoke', 'clock'))


def scripted():
    yield from hist.scripted([
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 0, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 0, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 1, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 1, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 2, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 2, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 3, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 3, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 4, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 0, 4, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 0, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 0, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 1, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 1, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 2, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 2, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 3, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 3, True]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 4, False]],
        [['redeem', 0, 0, 1, ''], ['refresh', 0, 1, 4, True]],
    ])


def run(c):
    return hist.run(c, "C05")
