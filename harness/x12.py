"""C12: cookies under every key configuration, whole, altered, recombined, of other keys, against what was put in them."""
import base64

from cryptojwt.jwk.hmac import SYMKey
from oidcop.cookie_handler import CookieHandler


RULE = "cookies: whole, altered, recombined, of other keys, against what was put in them"
PIECES = ["a", "value", ":", "::", ":::", "|", "||", " ", "{", "}", '"', "é", "日本", "1", "16", "\n", ";", "=", "5:", "%7C", "sso", "-", "+", "/"]
CONFIGS = ["sign", "enc", "both"]
K = {n: SYMKey(k=n * 3) for n in ("ghsNKDDLshZTPn97", "othersignkeyothe")}
E = {n: SYMKey(key=n.encode()) for n in ("0123456789abcdef", "fedcba9876543210")}


def attempt(f, *a):
    try:
        return f(*a)
    except Exception as x:
        return x


def text(rng, lo=0):
    return "".join(rng.choice(PIECES) for _ in range(rng.randint(lo, 5)))


def handler(config, sign=0, enc=0):
    return CookieHandler(sign_key=list(K.values())[sign] if config != "enc" else None, enc_key=list(E.values())[enc] if config != "sign" else None)


def cases(rng, tier):
    while True:
        yield dict(config=rng.choice(CONFIGS), values=[[text(rng), rng.choice(["", "sso", "x", "1", "a1", "7"]), rng.choice(["", "16", "1600000000", "1"])] for _ in range(2)],
                   name=rng.choice(["oidc_op", "other"]), how=rng.choice(["whole", "flip", "cut", "mix", "shift", "shift2", "keys", "names", "splice", "config"]), at=rng.random(), to=rng.randrange(128), mask=rng.randrange(1, 16),
                   keep=rng.random() < 0.2)


def info(r):
    return [(x["value"], x["type"], str(x["timestamp"])) for x in r or []]


def run(c):
    h, out = handler(c["config"]), []
    made, cookies = [], []
    for v, t, ts in c["values"]:
        k = h.make_cookie_content(c["name"], v, t, timestamp=ts)
        cookies.append(k)
        if v or t:
            made.append((v, t, ts))

    def agrees(got):
        return any(got[:2] == m[:2] and (got[2] == m[2] or not m[2] and got[2].isdigit()) for m in made)
    if c["how"] == "whole":
        r = attempt(h.parse_cookie, c["name"], [dict(k) for k in cookies])
        if isinstance(r, Exception) or len(info(r)) != len(made) or not all(g[:2] == m[:2] and (g[2] == m[2] or not m[2] and g[2].isdigit()) for g, m in zip(info(r), made)):
            out.append(("round trip", f"{c['config']}: cookies holding {made} read back as {info(r) if not isinstance(r, Exception) else r!r}"))
        return out
    if c["how"] == "names":
        r = attempt(h.parse_cookie, "other" if c["name"] == "oidc_op" else "oidc_op", [dict(k) for k in cookies])
        if isinstance(r, Exception) or r:
            out.append(("names", f"cookies of the name {c['name']} were read under another name: {r!r}"))
        return out
    v = cookies[0]["value"]
    reader = h
    if not v:
        return out
    parts = v.split("|")
    if c["how"] == "flip":
        i = int(c["at"] * len(v))
        v = v[:i] + chr(c["to"]) + v[i + 1:]
    elif c["how"] == "cut":
        i = int(c["at"] * len(v))
        v = v[:i] if c["mask"] % 2 else v[i:]
    elif c["how"] == "mix":
        o = cookies[1]["value"].split("|")
        v = "|".join(o[i] if c["mask"] >> i & 1 and i < len(o) else p for i, p in enumerate(parts))
    elif c["how"] == "shift":                   # a digit moves from the time to the content, or back
        n = c["mask"] % 4 + 1
        ts, load, rest = parts[0], "|".join(parts[1:-1]), parts[-1]
        v = "|".join([ts[n:], load + ts[:n], rest] if c["to"] % 2 else [load[-n:] + ts, load[:-n], rest])
    elif c["how"] == "shift2":                  # boundary between the parts moves
        n = int(c["at"] * len(v))
        w = v.replace("|", "", 1)
        v = w[:n] + "|" + w[n:]
    elif c["how"] == "keys":
        other = handler(c["config"], *([1, 1] if not c["keep"] else [1, 0]) if c["config"] != "enc" else (0, 1))
        v = other.make_cookie_content(c["name"], *c["values"][0][:2], timestamp=c["values"][0][2])["value"]
        made.clear()
    elif c["how"] == "config":
        o = c["to"] % 3
        other = handler(CONFIGS[o], 1, 1)
        v = other.make_cookie_content(c["name"], *c["values"][0][:2], timestamp=c["values"][0][2])["value"]
        made.clear()
    elif c["how"] == "splice":
        v = v + "|" + text_of(c) if c["mask"] % 2 else text_of(c) + "|" + v
    r = attempt(reader.parse_cookie, c["name"], [{"name": c["name"], "value": v}])
    if not isinstance(r, Exception):
        for g in info(r):
            if not agrees(g):
                out.append((c["how"], f"{c['config']}: cookies held {made}; the altered {v!r} was accepted as {g}"))
    return out


def text_of(c):
    return c["values"][1][0]
