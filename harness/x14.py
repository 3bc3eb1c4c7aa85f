"""C14: userinfo; random histories against a shadow model."""
from harness import hist

RULE = hist.RULE


def cases(rng, tier):
    while True:
        yield hist.gen(rng, ('userinfo', 'redeem', 'revoke', 'clock', 'remove'))


def run(c):
    return hist.run(c, "C14")
