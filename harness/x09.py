"""C09: redirect URIs; requested URIs near the registered ones, judged by splitting strings by hand."""
import html
import json
from types import SimpleNamespace
from urllib.parse import unquote_to_bytes, quote

from harness.srv import Srv, is_err
from oidcop.oauth2.authorization import verify_uri, get_uri

RULE = "registered URI sets of two clients and mutations of them as requested URIs (query, fragment, encoding, control characters)"
BASES = ["https://rp.example.com/cb", "https://rp.example.com/", "https://rp.example.com", "https://rp.example.com/cb2",
         "http://localhost:8080/cb", "com.app:/cb", "https://other.example.org/x/y"]
KEYS, VALS = ["foo", "state", "a b", "", "code"], ["bar", "low", "", "x&y", "1"]


def pct(s):
    """percent-decoding, written out"""
    return unquote_to_bytes(s).decode("utf-8", "replace")


def plus(s):
    return pct(s.replace("+", " "))


def pairs(query):
    out = set()
    for part in query.split("&"):
        if part:
            k, _, v = part.partition("=")
            out.add((plus(k), plus(v)))
    return out


def allowed(uri, registered):
    d = pct(uri)
    if "#" in d:
        return False
    base, _, query = d.partition("?")
    scheme, colon, rest = base.partition(":")
    base = scheme.lower() + colon + rest          # the letter case of the scheme does not matter
    for item in registered:
        rb, rq = (item, {}) if isinstance(item, str) else item
        if rb == base and {(k, v) for k, vs in (rq or {}).items() for v in vs} == pairs(query):
            return True
    return False


def gen_reg(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        q = {rng.choice(["foo", "state", "a b"]): rng.sample(["bar", "low", "1"], rng.choice([1, 1, 2])) for _ in range(rng.choice([0, 0, 1, 2]))}
        b = rng.choice(BASES)
        out.append(rng.choice([[b, q], [b, q], [b, q], b, [b, None], [b, ""]]))
    return out


def mutate(rng, u):
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        m = rng.randrange(14)
        i = rng.randrange(len(u) + 1)
        if m == 0:
            u = u + "#" + rng.choice(["", "frag", "?foo=bar"])
        elif m == 1:
            u = u[:i] + rng.choice(["\n", "\t", "\r", "%0A", "%09", "\x00", " ", "%20", "\x1f"]) + u[i:]
        elif m == 2:
            u = u + ("&" if "?" in u else "?") + rng.choice(KEYS) + rng.choice(["=", "=", ""]) + rng.choice(VALS)
        elif m == 3:
            u = u[:i] + quote(u[i:i + 1], safe="") + u[i + 1:]
        elif m == 4 and i < len(u):
            u = u[:i] + "%%%02x" % ord(u[i]) + u[i + 1:]
        elif m == 5:
            u = u + rng.choice(["/", "x", "?", "&", "%23frag", "%3Ffoo=bar", ";p", "/../x"])
        elif m == 6:
            u = u.replace("foo=bar", rng.choice(["foo=", "foo", "foo=bar&foo=kex", "foo=bar&foo=bar", "FOO=bar", "foo=Bar"]))
        elif m == 7:
            u = u.upper() if rng.random() < .3 else u.replace("https", rng.choice(["http", "HTTPS", "httpsx"]), 1)
        elif m == 8:
            u = u[:i] + u[i + 1:]
        elif m == 9:
            u = rng.choice([" ", "\n", "\x01"]) + u
        elif m == 10:
            u = u.replace("rp.", rng.choice(["evil.", "rp.evil.", "rp.@evil."]), 1)
        elif m == 11:
            u = u.replace("?", rng.choice(["??", "?&", "%3f"]), 1)
        elif m == 12:
            u = u[:max(1, i)]
    return u


def full(item, rng):
    if isinstance(item, str):
        return item
    b, q = item
    qs = "&".join(f"{k.replace(' ', rng.choice(['+', '%20']))}={v}" for k, vs in (q or {}).items() for v in vs)
    return b + ("?" + qs if qs else "")


def cases(rng, tier):
    while True:
        regs = {"c1": gen_reg(rng), "c2": gen_reg(rng)}
        pool = [full(x, rng) for r in regs.values() for x in r] + [rng.choice(BASES)]
        c = {"regs": regs, "uri": rng.choice([None] + [mutate(rng, rng.choice(pool)) for _ in range(9)]), "client": rng.choice(["c1", "c1", "c2", "nobody"]),
             "type": rng.choice(["redirect_uri", "post_logout_redirect_uri"]), "registered_as": rng.choice(["redirect_uri", "post_logout_redirect_uri", None]),
             "other": rng.choice([None, None, "c2"]), "how": "direct"}
        if rng.random() < .15:
            c["how"] = "server"
            c["type"] = "redirect_uri"
            c["mode"] = rng.choice([None, "query", "form_post", "fragment"])
            c["login"] = rng.random() < .3
        yield c


def run(c):
    out = []
    typ, cid, uri = c["type"], c["client"], c["uri"]
    tup = lambda r: [x if isinstance(x, str) else tuple(x) for x in r]
    if c["how"] == "direct":
        cdb = {}
        for k, r in c["regs"].items():
            cdb[k] = {}
            if c["registered_as"] in (typ, None):
                cdb[k][typ + "s"] = tup(r)
            if c["registered_as"] != typ:
                cdb[k]["request_uris"] = tup(r)
        before = json.dumps(cdb, sort_keys=True)
        ctx = SimpleNamespace(cdb=cdb)
        mine = (cdb.get(cid) or {}).get(typ + "s") or []
        req = {"client_id": cid}
        if uri is not None:
            req[typ] = uri
            try:
                verify_uri(ctx, req, typ)
            except Exception:
                pass
            else:
                if not allowed(uri, mine):
                    out.append(("verify", f"{typ} {uri!r} is accepted though {cid} registered {mine!r}"))
            if c["other"]:
                try:
                    verify_uri(ctx, {**req, "client_id": c["other"]}, typ, client_id=cid)
                except Exception:
                    pass
                else:
                    if not allowed(uri, mine):
                        out.append(("named client", f"{typ} {uri!r} is accepted for {cid}, which registered {mine!r}: the request named {c['other']}"))
        try:
            got = get_uri(ctx, dict(req), typ)
        except Exception:
            pass
        else:
            if uri is not None:
                if got != uri or not allowed(uri, mine):
                    out.append(("get", f"{typ} {uri!r} gives {got!r} though {cid} registered {mine!r}"))
            elif len(mine) != 1:
                out.append(("default", f"no {typ} asked for, {len(mine)} registered, {got!r} used"))
            elif not allowed(got, mine):
                out.append(("default", f"no {typ} asked for, {mine!r} registered, {got!r} used"))
        if json.dumps(cdb, sort_keys=True) != before:
            out.append(("changed", "looking at a URI changes the client database"))
        return out
    srv = Srv()
    mine = tup(c["regs"].get(cid, []))
    for k in ("client_1", "client_2"):
        srv.ec.cdb[k]["redirect_uris"] = tup(c["regs"]["c1" if k == "client_1" else "c2"])
    cid = {"c1": "client_1", "c2": "client_2"}.get(cid, cid)
    ep = srv.ep("authorization")
    req = {"client_id": cid, "response_type": "code", "scope": "openid", "state": "st", "nonce": "n"}
    if uri is not None:
        req["redirect_uri"] = uri
    if c["mode"]:
        req["response_mode"] = c["mode"]
    try:
        pr = ep.parse_request(dict(req))
        if is_err(pr):
            return out
        info = ep.process_request(pr)
        shown = info.get("return_uri") if hasattr(info, "get") else None
        text = json.dumps(info, default=str)
    except Exception:
        return out
    if shown is None and "response_msg" in info:
        shown = html.unescape(info["response_msg"].split('action="', 1)[1].split('"', 1)[0])
    if shown is not None:
        if not allowed(shown, mine):
            out.append(("answer", f"the answer to {req!r} is sent to {shown!r}; {cid} registered {mine!r}"))
        if uri is None and len(mine) != 1:
            out.append(("answer default", f"no redirect_uri, {len(mine)} registered, sent to {shown!r}"))
    return out
