"""C03: recursive revocation; random histories against a shadow model."""
from harness import hist

RULE = hist.RULE


def cases(rng, tier):
    yield from hist.scripted([
        [["redeem", 0, 0, 1, ""], ["refresh", 0, 0, 0, False], ["redeem", 0, 0, 1, ""]],
        [["redeem", 0, 0, 1, ""], ["refresh", 0, 0, 0, False], ["revoke", 0, True, 0]],
        [["redeem", 0, 0, 1, ""], ["refresh", 0, 0, 0, False], ["revoke", 0, True, 1]],
        [["redeem", 0, 0, 1, ""], ["revoke", 2, True, 4]],
        [["redeem", 0, 0, 1, ""], ["revoke", 1, True, 2], ["revoke", 0, False, 1]],
    ])
    while True:
        yield hist.gen(rng, ("revoke", "refresh", "redeem", "mint"))


def run(c):
    return hist.run(c, "C03")
