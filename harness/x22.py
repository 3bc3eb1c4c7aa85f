"""C22: pushes and uses of their references by several clients, against a table of references."""
from harness.srv import *

RULE = "histories of pushes and uses of references (own, another client's, used, expired, unknown, in another push) by several clients over time"
T0 = 1700000000
NAMES = ["client_1", "client_2"]


def cases(rng, tier):
    while True:
        ops, n = [], 0
        for _ in range(rng.randint(3, 14)):
            k = rng.random()
            who, dt = rng.randrange(2), rng.choice([0, 0, 0, 1, 30, 60, 61, 3600])
            if k < 0.4 or not n:
                ops.append(("push", who, dt, rng.choice(["plain", "plain", "plain", "pkce", "with reference", "long"]), rng.randrange(max(n, 1))))
                n += 1
            else:
                ops.append(("use", who, dt, rng.choice(["the reference"] * 8 + ["unknown", "empty uuid", "case", "spaced"]), rng.randrange(n)))
        yield dict(ops=ops, oauth2=rng.random() < 0.4, ttl=rng.choice([3600, 3600, 60, 1]), whole=rng.random() < 0.3)


def is_bad(r, x):
    return x is not None or r is None or (hasattr(r, "get") and r.get("error") is not None)


def run(case):
    s = Srv(oauth2=case["oauth2"], endpoint__pushed_authorization__kwargs__ttl=case["ttl"])
    par, az = s.ep("pushed_authorization"), s.ep("authorization")
    out, refs, now, seen = [], [], T0, set()
    for i, (op, who, dt, how, which) in enumerate(case["ops"]):
        now += dt
        me = NAMES[who]
        info = s.ec.cdb[me]
        with Clock(now):
            if op == "push":
                d = s.areq(me, state="STATE-%d" % i).to_dict()
                d["client_secret"] = info["client_secret"]
                if how == "pkce":
                    d.update(code_challenge="x" * 43, code_challenge_method="plain")
                if how == "long":
                    d["nonce"] = "n" * 500
                target = refs[which % len(refs)] if (how == "with reference" and refs) else None
                if target:
                    d["request_uri"] = target["ref"]
                p, x = attempt(par.parse_request, d)
                if target:
                    mine = not target["used"] and target["client"] == me and now <= target["until"]
                    if not is_bad(p, x) and not mine:
                        out.append(("foreign reference pushed", "client %s pushes a reference it may not use (pushed by %s, used %s) and gets %s" % (me, target["client"], target["used"], dict(p))))
                    if mine and not is_bad(p, x):
                        target["used"] = True
                if is_bad(p, x):
                    if not target:
                        out.append(("push refused", "the push of a good request by %s is refused: %s" % (me, x or p)))
                    continue
                said = {k: v for k, v in p.to_dict().items()}
                if not target:
                    for k in ("state", "redirect_uri", "nonce", "code_challenge"):
                        if d.get(k) != said.get(k):
                            out.append(("altered", "the pushed request's %s became %r" % (k, said.get(k))))
                r, x = attempt(par.process_request, p)
                if is_bad(r, x):
                    out.append(("push failed", "processing the push fails: %s" % (x or r)))
                    continue
                ref = r["http_response"]["request_uri"]
                if ref in seen:
                    out.append(("same reference", "two pushes got the reference %s" % ref))
                seen.add(ref)
                refs.append(dict(ref=ref, client=me, until=now + r["http_response"]["expires_in"], used=False, said=said))
                continue
            if not refs:
                continue
            t = refs[which % len(refs)]
            ref = t["ref"]
            if how == "unknown":
                ref, t = "urn:uuid:00000000-0000-4000-8000-000000000000", None
            elif how == "empty uuid":
                ref, t = "urn:uuid:", None
            elif how == "case":
                ref, t = ref[:-1] + ("g" if ref[-1] != "g" else "h"), None
            elif how == "spaced":
                ref, t = ref + " ", None
            ask = {"client_id": me, "request_uri": ref, "response_type": "code", "scope": "openid", "redirect_uri": info["redirect_uris"][0][0], "state": "OTHER"}
            if case["whole"]:
                ask = {k: ask[k] for k in ("client_id", "request_uri")} if case["oauth2"] else ask
            r, x = attempt(az.parse_request, ask)
            refused = is_bad(r, x)
            may = t is not None and not t["used"] and t["client"] == me and now <= t["until"]
            if not refused and not may:
                why = "unknown" if t is None else "already used" if t["used"] else "another client's" if t["client"] != me else "expired"
                out.append((why, "a reference that is %s resolves for %s to %s" % (why, me, dict(r))))
            if not refused and t is not None:
                t["used"] = True
                got = {k: v for k, v in r.to_dict().items()}
                if may and got != t["said"]:
                    out.append(("another request", "the reference resolves to %s instead of %s" % (got, t["said"])))
            if refused and may and not (case["whole"] and case["oauth2"]):
                out.append(("refused", "the pushing client's unused reference is refused: %s" % (x or r)))
    return out
