"""C04: minting authority; random histories against a shadow model."""
from harness import hist

RULE = hist.RULE


def cases(rng, tier):
    while True:
        yield hist.gen(rng, ('mint', 'redeem', 'refresh', 'revoke', 'clock'))


def run(c):
    return hist.run(c, "C04")
