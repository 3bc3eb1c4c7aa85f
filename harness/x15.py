"""C15: introspection; random histories against a shadow model."""
from harness import hist

RULE = hist.RULE


def cases(rng, tier):
    while True:
        yield hist.gen(rng, ('introspect', 'redeem', 'revoke', 'clock', 'mint'))


def run(c):
    return hist.run(c, "C15")
