"""C02: code redemption; random histories against a shadow model."""
from harness import hist

RULE = hist.RULE


def cases(rng, tier):
    yield from hist.scripted([
        [['redeem', 0, 1, 1, '']],
        [['redeem', 0, 0, 2, '']],
        [['redeem', 0, 0, 1, 'space']],
        [['redeem', 0, 0, 0, '']],
        [['redeem', 0, 0, 3, '']],
        [['redeem', 0, 0, 1, ''], ['redeem', 0, 0, 1, '']],
        [['redeem', 0, 0, 1, 'anytoken']],
        [['redeem', 0, 0, 1, 'wrongsecret']],
        [['clock', 100000], ['redeem', 0, 0, 1, '']],
    ])
    while True:
        yield hist.gen(rng, ('redeem', 'code', 'login'))


def run(c):
    return hist.run(c, "C02")
