"""Random histories of a real server against a shadow model of grants and tokens.  Findings are labelled by property."""
import copy
import random

from harness.srv import CLIENTS, Srv, Clock, attempt, is_err, utc_time_sans_frac
from oidcop.session import MintingNotAllowed

RULESETS = {
    "default": None,
    "short": {"authorization_code": {"expires_in": 20, "supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1},
              "access_token": {"expires_in": 50}, "refresh_token": {"expires_in": 200, "supports_minting": ["access_token", "refresh_token", "id_token"]}},
    "limited": {"authorization_code": {"expires_in": 300, "supports_minting": ["access_token", "refresh_token"], "max_usage": 5},
                "access_token": {"expires_in": 600, "supports_minting": []},
                "refresh_token": {"expires_in": 900, "max_usage": 2, "supports_minting": ["access_token", "refresh_token"]}},
    "nomint": {"authorization_code": {"expires_in": 300, "supports_minting": ["refresh_token"]},
               "access_token": {}, "refresh_token": {"supports_minting": ["access_token"]}},
}
SCOPES = [["openid"], ["openid", "email"], ["openid", "profile", "offline_access"], ["openid", "email", "profile"]]


class Tok:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Hist:
    def __init__(self, case):
        self.c = case
        over = {}
        self.oauth2 = case.get("oauth2", False)
        rules = RULESETS[case.get("rules", "default")]
        kw = {"rules": copy.deepcopy(rules)} if rules is not None else {}
        self.s = Srv(flavour=case.get("flavour", "opaque"), oauth2=self.oauth2, **kw)
        self.s.ep("token").revoke_refresh_on_issue = case.get("rotate", False)
        if case.get("intro"):
            # user claims are released at introspection, under names the answer itself uses
            self.s.ep("introspection").kwargs["base_claims"] = {k: None for k in ("sub", "iss", "aud", "exp", "name", "client_id")}
        self.t0 = utc_time_sans_frac()
        self.now = self.t0
        self.sess = []          # dicts: sid, user, client, scope, grant, redirect, revoked, valid_until
        self.toks = {}          # value -> Tok
        self.out = []
        self.rng = random.Random(case.get("seed", 0))

    def bad(self, prop, text):
        self.out.append((prop, f"{prop}: {text}"))

    # ---- shadow
    def active(self, t):
        g = t.sess
        if t.revoked or g["revoked"]:
            return False
        if t.max_usage is not None and t.used >= t.max_usage:
            return False
        return not (t.expires_at and self.now > t.expires_at)

    def gactive(self, g):
        return not g["revoked"] and not (g["grant"].expires_at and self.now > g["grant"].expires_at)

    def descend(self, value):
        out, work = [], [value]
        while work:
            v = work.pop()
            for t in self.toks.values():
                if t.based_on == v and t not in out:
                    out.append(t)
                    work.append(t.value)
        return out

    def fresh_tokens(self):
        """tokens that appeared in the real grants"""
        new = []
        for g in self.sess:
            for t in g["grant"].issued_token:
                if t.value not in self.toks:
                    new.append((g, t))
        return new

    def adopt(self, g, t, base, expect_scope=None):
        rules = t.usage_rules
        self.toks[t.value] = Tok(value=t.value, cls=t.token_class, sess=g, based_on=t.based_on, revoked=False, used=t.used,
                                 max_usage=rules.get("max_usage"), expires_at=t.expires_at, scope=list(t.scope),
                                 issued_at=t.issued_at, supports=list(rules.get("supports_minting") or []), real=t)
        if base is not None and t.based_on != base.value:
            self.bad("C04", f"a {t.token_class} minted from {base.cls} is recorded as based on something else")
        if base is not None and base.sess is not g:
            self.bad("C04", "a token was recorded under another session than the one of its base token")
        exp = rules.get("expires_in")
        if t.token_class in (g["grant"].usage_rules or {}) and g["grant"].usage_rules[t.token_class].get("expires_in"):
            want = self.now + int(g["grant"].usage_rules[t.token_class]["expires_in"])
            if getattr(t, "via_endpoint", True) and t.expires_at and abs(t.expires_at - want) > 1:
                self.bad("C04", f"{t.token_class} expires at {t.expires_at - self.now} s from now, its rules say {want - self.now}")

    def compare(self, what):
        for t in self.toks.values():
            r = t.real
            if bool(r.is_active(self.now)) != self.active(t):
                p = "C06" if t.sess["revoked"] else ("C03" if t.revoked != bool(r.revoked) else "C01")
                self.bad(p, f"after {what}: {t.cls} of {t.sess['client']} reports active={r.is_active(self.now)}, must be {self.active(t)}")
            if bool(r.revoked) != t.revoked and not t.sess["revoked"]:
                self.bad("C03", f"after {what}: {t.cls} revoked={r.revoked}, must be {t.revoked}")
            if r.used != t.used:
                self.bad("C02" if t.cls == "authorization_code" else "C05", f"after {what}: {t.cls} use count {r.used}, must be {t.used}")
        for g in self.sess:
            if g["removed"]:
                continue
            if bool(g["grant"].revoked) != g["revoked"]:
                self.bad("C06", f"after {what}: grant of {g['user']}/{g['client']} revoked={g['grant'].revoked}, must be {g['revoked']}")

    # ---- operations
    def op_login(self, user, client, scope):
        sid, grant = self.s.login(user, client, authn_time=self.now, valid_until=self.now + 400, scope=scope)
        self.sess.append(dict(sid=sid, user=user, client=client, scope=list(scope), grant=grant, revoked=False, removed=False,
                              redirect=CLIENTS[client]["redirect_uris"][0][0], valid_until=self.now + 400))

    def op_code(self, i, narrow=False):
        g = self.pick(i)
        if g is None:
            return
        n = len(g["grant"].issued_token)
        kw = {"scope": g["scope"][:1]} if narrow else {}
        t, x = attempt(self.s.ep("authorization").mint_token, token_class="authorization_code", grant=g["grant"], session_id=g["sid"], **kw)
        ok = self.gactive(g)
        if t is not None and not ok:
            self.bad("C04", "a code was minted under an inactive grant")
        if (t is None) and len(g["grant"].issued_token) != n:
            self.bad("C04", "a refused minting was recorded")
        for gg, tt in self.fresh_tokens():
            self.adopt(gg, tt, None)

    def pick(self, i):
        live = [g for g in self.sess if not g["removed"]]
        return live[i % len(live)] if live else None

    def tok(self, i, cls=None):
        ts = [t for t in self.toks.values() if cls is None or t.cls in cls]
        return ts[i % len(ts)] if ts else None

    def op_mint(self, i, j, kind):
        """mint directly from any token"""
        base = self.tok(i)
        if base is None or base.sess["removed"]:
            return
        g = base.sess
        n = len(g["grant"].issued_token)
        t, x = attempt(self.s.mint, g["grant"], g["sid"], kind, based_on=base.real)
        allowed = self.gactive(g) and self.active(base) and kind in base.supports
        if t is not None and not allowed:
            self.bad("C04", f"{kind} minted from a {base.cls} that is active={self.active(base)} and supports {base.supports}; grant active={self.gactive(g)}")
        if t is None and len(g["grant"].issued_token) != n:
            self.bad("C04", "a refused minting was recorded")
        if t is not None:
            t.via_endpoint = False
            lifetime = (g["grant"].usage_rules.get(kind) or {}).get("expires_in")
            if lifetime and not t.expires_at:
                t.expires_at = self.now + int(lifetime)      # as the endpoints do; a JWT also expires by itself
            if t not in g["grant"].issued_token:
                self.bad("C04", "a minted token is not recorded under its grant")
        for gg, tt in self.fresh_tokens():
            self.adopt(gg, tt, base)

    def op_redeem(self, i, by, redirect, trick):
        code = self.tok(i, ("authorization_code",)) if trick != "anytoken" else self.tok(i)
        if code is None:
            return
        client = ["client_1", "client_2"][by]
        uri = [CLIENTS[client]["redirect_uris"][0][0], code.sess["redirect"], "https://evil.example.com/cb", None][redirect]
        if trick == "basic":
            import base64
            h = {"headers": {"authorization": "Basic " + base64.b64encode(
                f"{client}:{CLIENTS[client]['client_secret']}".encode()).decode()}}
            req = dict(client_id=code.sess["client"], grant_type="authorization_code", code=code.value)
            f = lambda: self.via_parse(req, uri, h)
        elif trick == "noclient":
            import base64
            h = {"headers": {"authorization": "Basic " + base64.b64encode(
                f"{client}:{CLIENTS[client]['client_secret']}".encode()).decode()}}
            req = dict(grant_type="authorization_code", code=code.value)
            f = lambda: self.via_parse(req, uri, h)
        elif trick == "wrongsecret":
            req = dict(client_id=client, client_secret="x" * 32, grant_type="authorization_code", code=code.value)
            f = lambda: self.via_parse(req, uri, None)
        else:
            v = code.value
            if trick == "space":
                v = v.replace("+", " ")
            req = dict(client_id=client, client_secret=CLIENTS[client]["client_secret"], grant_type="authorization_code", code=v)
            f = lambda: self.via_parse(req, uri, None)
        used_before = code.used
        resp, x = attempt(f)
        refused = x is not None or is_err(resp)
        new = self.fresh_tokens()
        was_code = code.cls == "authorization_code"
        live = not code.sess["removed"]
        allowed = was_code and live and self.active(code) and client == code.sess["client"] and uri == code.sess["redirect"] \
            and trick != "wrongsecret" and req["code"] == code.value and self.gactive(code.sess)
        what = f"redeeming {'a fresh' if not used_before else 'a used'} {code.cls} of {code.sess['client']} as {client} ({trick or 'plain'}, redirect variant {redirect})"
        if not refused:
            if not allowed:
                self.bad("C02", f"{what} was accepted, must be refused")
            code.used += 1
            for g, t in new:
                self.adopt(g, t, code)
            if self.active(code):
                self.bad("C02", f"{what}: the code is still usable")
            ra = resp.get("response_args", {})
            for k in ("access_token", "refresh_token", "id_token"):
                if k in ra and ra[k] not in self.toks:
                    self.bad("C04", f"{what}: the {k} handed out is not recorded under any grant")
                if k in ra and ra[k] in self.toks and k not in code.supports:
                    self.bad("C04", f"{what}: {k} handed out although the code may not mint it")
            for g, t in new:
                if not set(t.scope) <= set(g["scope"]):
                    self.bad("C05", f"{what}: token scope {t.scope} outside the grant's {g['scope']}")
        else:
            if new and not allowed:
                self.bad("C02", f"{what} was refused but {[t.token_class for _, t in new]} got minted")
            for g, t in new:
                self.adopt(g, t, code)
            if was_code and live and used_before and not self.oauth2 and trick != "wrongsecret" and req["code"] == code.value:
                for t in self.descend(code.value):
                    t.revoked = True
            if was_code and allowed and code.real.used != code.used:
                code.used = code.real.used      # inner failure after the checks
        self.compare(what)

    def via_parse(self, req, uri, h):
        if uri is not None:
            req["redirect_uri"] = uri
        ep = self.s.ep("token")
        p = ep.parse_request(dict(req), http_info=h)
        return ep.process_request(p, **({"issue_refresh": True} if self.c.get("issue_refresh", True) else {}))

    def op_refresh(self, i, by, scope, anytoken):
        rt = self.tok(i, None if anytoken else ("refresh_token",))
        if rt is None:
            return
        client = ["client_1", "client_2"][by]
        req = dict(client_id=client, client_secret=CLIENTS[client]["client_secret"], grant_type="refresh_token", refresh_token=rt.value)
        want = None
        if scope == 1:
            want = list(rt.scope[:1])
        elif scope == 2:
            want = list(rt.scope) + ["address"]
        elif scope == 3:
            want = ["phone"]
        elif scope == 4:
            want = list(rt.sess["scope"])
        if want is not None:
            req["scope"] = " ".join(want)
        resp, x = attempt(lambda: self.via_parse(req, None, None))
        refused = x is not None or is_err(resp)
        new = self.fresh_tokens()
        base = self.toks.get(rt.based_on)
        base_scope = set(base.scope if base is not None and base.scope else rt.sess["scope"])
        own = set(rt.scope) if rt.scope else base_scope
        allowed = rt.cls == "refresh_token" and self.active(rt) and not rt.sess["removed"] and client == rt.sess["client"]
        what = f"refreshing with a {rt.cls} of {rt.sess['client']} as {client}, scope {want}"
        if not refused:
            if not allowed:
                self.bad("C05", f"{what} was accepted, must be refused")
            if want is not None and not set(want) <= base_scope:
                self.bad("C05", f"{what} was accepted although the base scope is {sorted(base_scope)}")
            rt.used += 1
            for g, t in new:
                self.adopt(g, t, rt)
                if not set(t.scope) <= set(g["scope"]):
                    self.bad("C05", f"{what}: {t.token_class} carries scope {t.scope}, grant has {g['scope']}")
                if g is not rt.sess:
                    self.bad("C05", f"{what}: minted under another grant")
            if self.c.get("rotate"):
                rt.revoked = True
                if rt.real.is_active(self.now):
                    self.bad("C05", f"{what}: rotated refresh token is still active")
        else:
            if new and not allowed:
                self.bad("C05", f"{what} was refused but {[t.token_class for _, t in new]} got minted")
            for g, t in new:
                self.adopt(g, t, rt)
        self.compare(what)

    def op_revoke(self, i, recursive, via):
        t = self.tok(i)
        if t is None or t.sess["removed"]:
            return
        if via == 0:
            self.s.sm.revoke_token(t.sess["sid"], t.value, recursive=recursive)
            hit = [t] + (self.descend(t.value) if recursive else [])
        elif via == 1:
            t.sess["grant"].revoke_token(value=t.value, recursive=recursive)
            hit = [t] + (self.descend(t.value) if recursive else [])
        elif via == 2:
            t.sess["grant"].revoke_token(based_on=t.value, recursive=recursive)
            hit = self.descend(t.value) if recursive else [u for u in self.toks.values() if u.based_on == t.value]
        elif via == 3:
            t.sess["grant"].revoke_token()
            hit = [u for u in self.toks.values() if u.sess is t.sess]
        else:
            if not t.based_on:
                return
            t.sess["grant"].revoke_token(value=t.value, based_on=t.based_on, recursive=recursive)
            hit = [t] + (self.descend(t.value) if recursive else [])
        for u in hit:
            u.revoked = True
        self.compare(f"revoking a {t.cls} (recursive={recursive}, way {via})")

    def op_revoke_grant(self, i):
        g = self.pick(i)
        if g is None:
            return
        self.s.sm.revoke_grant(g["sid"])
        g["revoked"] = True
        self.compare("revoking a grant")

    def op_revoke_client(self, i):
        g = self.pick(i)
        if g is None:
            return
        self.s.sm.revoke_client_session(g["sid"])
        for h in self.sess:
            if h["user"] == g["user"] and h["client"] == g["client"] and not h["removed"]:
                h["revoked"] = True
        self.compare("revoking a client session")

    def op_clock(self, dt):
        self.now += dt

    def op_remove(self, i):
        g = self.pick(i)
        if g is None:
            return
        self.s.sm.remove_session(g["sid"])
        g["removed"] = True

    def op_userinfo(self, i, junk):
        t = self.tok(i)
        if t is None:
            return
        v = t.value if not junk else self.mangle(t.value, junk)
        resp, x = attempt(self.s.userinfo, v)
        allowed = not junk and t.cls == "access_token" and self.active(t) and not t.sess["removed"] and t.sess["valid_until"] >= self.now
        what = f"userinfo with {'a mangled ' if junk else 'a '}{t.cls}"
        if x is not None and not isinstance(x, (KeyError, ValueError)) and type(x).__module__ == "builtins":
            self.bad("C14", f"{what}: crashed with {type(x).__name__}: {x}")
        if x is None and not is_err(resp):
            if not allowed:
                self.bad("C14", f"{what} (active={self.active(t)}) was answered, must be refused")
            ra = resp["response_args"]
            if ra.get("sub") != t.sess["grant"].sub:
                self.bad("C14", f"{what}: sub {ra.get('sub')} is not the session's {t.sess['grant'].sub}")
            if resp.get("client_id") != t.sess["client"]:
                self.bad("C14", f"{what}: answer for client {resp.get('client_id')}")
            extra = set(ra) - {"sub", "acr"} - set((t.sess["grant"].claims.get("userinfo") or {}))
            if extra:
                self.bad("C14", f"{what}: claims {sorted(extra)} not recorded for userinfo release")
        elif allowed:
            self.bad("C14", f"{what}: refused although the token is active and the login valid ({x or resp})")

    def mangle(self, v, how):
        if how == 1:
            return v[:-2]
        if how == 2:
            k = len(v) // 2
            return v[:k] + ("A" if v[k] != "A" else "B") + v[k + 1:]
        return "no-such-token"

    def op_introspect(self, i, by, junk):
        t = self.tok(i)
        if t is None:
            return
        v = t.value if not junk else self.mangle(t.value, junk)
        resp, x = attempt(self.s.introspect, v, ["client_1", "client_2"][by])
        should = not junk and t.cls in ("access_token", "refresh_token") and self.active(t) and not t.sess["removed"]
        what = f"introspecting {'a mangled ' if junk else 'a '}{t.cls} (removed session={t.sess['removed']}, active={self.active(t)})"
        if x is not None:
            self.bad("C15", f"{what}: no answer but {type(x).__name__}: {x}")
            return
        ra = resp["response_args"] if "response_args" in resp else resp
        if bool(ra.get("active")) != should:
            self.bad("C15", f"{what}: answered active={ra.get('active')}, must be {should}")
        elif not should:
            if set(ra.keys()) - {"active"}:
                self.bad("C15", f"{what}: says more than inactive: {sorted(ra.keys())}")
        else:
            g = t.sess["grant"]
            exp = {"client_id": t.sess["client"], "sub": g.sub, "iss": self.s.ec.issuer,
                   "scope": " ".join(t.scope or g.scope), "iat": t.issued_at}
            if t.expires_at:
                exp["exp"] = t.expires_at
            if "token_class" in ra:
                exp["token_class"] = t.cls
            for k, w in exp.items():
                if ra.get(k) != w and not (k == "scope" and isinstance(ra.get(k), list) and " ".join(ra[k]) == w):
                    self.bad("C15", f"{what}: {k}={ra.get(k)!r}, recorded {w!r}")
            want_aud = list(t.real.resources or g.resources or [])
            if list(ra.get("aud") or []) != want_aud:
                self.bad("C15", f"{what}: aud={ra.get('aud')}, recorded {want_aud}")

    def run(self):
        with Clock(self.now) as clk:
            for op in self.c["ops"]:
                clk.now = self.now
                getattr(self, "op_" + op[0])(*op[1:])
                clk.now = self.now
                if len(self.out) > 20:
                    break
        return self.out


def gen(rng, focus=None, n=None):
    """a random case"""
    c = {"rules": rng.choice(["default", "default", "short", "limited", "nomint"]), "flavour": rng.choice(["opaque", "opaque", "jwt"]),
         "oauth2": rng.random() < 0.25, "rotate": rng.random() < 0.4, "issue_refresh": rng.random() < 0.85, "seed": rng.randint(0, 10 ** 9),
         "intro": rng.random() < 0.3}
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops.append(["login", rng.choice(["diana", "bob"]), rng.choice(["client_1", "client_1", "client_2"]), rng.choice(SCOPES)])
    ops.append(["code", rng.randint(0, 3), rng.random() < 0.3])
    r = lambda k: rng.randint(0, k)
    weights = {"login": 1, "code": 3, "mint": 4, "redeem": 8, "refresh": 6, "revoke": 3, "revoke_grant": 1, "revoke_client": 1,
               "clock": 2, "remove": 0.5, "userinfo": 3, "introspect": 3}
    for k in focus or ():
        weights[k] *= 3
    names, ws = list(weights), list(weights.values())
    for _ in range(n or rng.randint(4, 22)):
        k = rng.choices(names, ws)[0]
        if k == "login":
            ops.append(["login", rng.choice(["diana", "bob"]), rng.choice(["client_1", "client_2"]), rng.choice(SCOPES)])
        elif k == "code":
            ops.append(["code", r(5), rng.random() < 0.3])
        elif k == "mint":
            ops.append(["mint", r(30), 0, rng.choice(["access_token", "refresh_token", "authorization_code"])])
        elif k == "redeem":
            plain = rng.random() < 0.55
            ops.append(["redeem", r(9), None, 1 if plain else rng.choice([0, 1, 2, 3]),
                        "" if plain else rng.choice(["", "basic", "noclient", "wrongsecret", "anytoken", "space"])])
            ops[-1][2] = rng.choice([0, 0, 1])
        elif k == "refresh":
            ops.append(["refresh", r(15), rng.choice([0, 0, 0, 1]), rng.choice([0, 0, 1, 2, 3, 4]), rng.random() < 0.15])
        elif k == "revoke":
            ops.append(["revoke", r(30), rng.random() < 0.6, rng.choice([0, 0, 1, 1, 2, 2, 3, 4])])
        elif k in ("revoke_grant", "revoke_client", "remove"):
            ops.append([k, r(5)])
        elif k == "clock":
            ops.append(["clock", rng.choice([1, 19, 20, 21, 30, 60, 100, 250, 301, 500, 1000])])
        elif k == "userinfo":
            ops.append(["userinfo", r(30), rng.choice([0, 0, 0, 0, 1, 2, 3])])
        elif k == "introspect":
            ops.append(["introspect", r(30), rng.choice([0, 1]), rng.choice([0, 0, 0, 0, 1, 2, 3])])
    c["ops"] = ops
    return c


RULE = "a case is a server configuration and a sequence of operations (login, code, mint, redeem, refresh, revoke, clock, " \
       "removal, userinfo, introspection) with their arguments; distinct by the whole sequence"


def scripted(extra=()):
    base = [["login", "diana", "client_1", ["openid", "email"]], ["code", 0]]
    for fl in ("opaque", "jwt"):
        for o2 in (False, True):
            for ops in extra:
                yield {"flavour": fl, "oauth2": o2, "rules": "default", "rotate": True, "issue_refresh": True, "ops": base + ops}


def run(case, prop):
    return [(k, t) for p, t in Hist(case).run() for k in [t.split(" (")[0][:90]] if p == prop]
