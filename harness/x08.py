"""C08: session handles and tokens of every kind and format, whole and altered and forged, against what they decode to."""
import base64
import json
import time

from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jws.jws import JWS
from oidcop.session.database import Database
from oidcop.token import DefaultToken
from oidcop.util import Crypt, lv_pack, lv_unpack

from harness.srv import *

RULE = "handles and tokens: whole, altered, of other keys, forged by a client, against what they decode to"
PIECES = ["a", "diana", ":", "5:", ";", " ", "\t", "é", "日本", "\U0001f600", "0", "12", "\n", "|", "&", "=", "%3B", "-", "//", "\x00"]
KINDS = ["authorization_code", "access_token", "refresh_token", "id_token"]
SPACE = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def ident(rng, edge=False):
    while True:
        s = "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 6)))
        if ";;" not in s and not s.startswith(";") and not s.endswith(";"):
            return s


def cases(rng, tier):
    while True:
        k = rng.randrange(4)
        if k == 0:
            yield dict(k="sid", parts=[ident(rng), ident(rng), "%032x" % rng.getrandbits(128)], cut=[rng.random(), rng.randrange(256)])
        elif k == 1:
            yield dict(k="opaque", kind=rng.choice(KINDS[:3]), sid=ident(rng), handler=rng.choice(KINDS[:3]), same_pw=rng.random() < 0.5, explicit=rng.random() < 0.4,
                       lifetime=rng.choice([-1, 0, 300]), cut=[rng.random(), rng.randrange(256)])
        elif k == 2:
            yield dict(k="issued", flavour=rng.choice(["opaque", "jwt"]), kind=rng.choice(KINDS), user=rng.choice(["diana", "bob", "carol"]), client=rng.choice(["client_1", "client_2"]),
                       cut=[rng.random(), rng.randrange(256)], resources=rng.choice([None, ["client_1"], ["https://rs.example.org"]]))
        else:
            yield dict(k="forged", kind=rng.choice(KINDS), signer=rng.choice(["client", "client", "unknown", "none", "secret", "rsa"]),
                       iss=rng.choice(["client", "server", "other", None]), label=rng.choice(KINDS + ["A", "T", "R"]), aud=rng.choice([["client_1"], ["client_2"], []]),
                       which=rng.choice(["token_class", "ttype"]))


_S = {}


def srv(flavour):
    if flavour not in _S:
        s = Srv(flavour=flavour)
        for i in ("client_1", "client_2"):
            for n, k in (("client", new_ec_key("P-256", use="sig")), ("rsa", new_rsa_key(2048, use="sig"))):
                k.add_kid()
                s.ec.keyjar.import_jwks({"keys": [k.serialize()]}, i)
                _S[(flavour, i, n)] = k
        _S[(flavour, "unknown")] = new_ec_key("P-256", use="sig")
        _S[flavour] = s
    return _S[flavour]


def alter(txt, cut):
    """one character of it changed (to another one that counts)"""
    i = int(cut[0] * len(txt))
    alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
    c = alphabet[cut[1] % len(alphabet)]
    return txt[:i] + c + txt[i + 1:] if c != txt[i] else None


def meaning(txt):
    """what base64 makes of it"""
    try:
        return base64.b64decode(txt)
    except Exception:
        return txt


def run(c):
    out = []
    if c["k"] == "sid":
        s = srv("opaque")
        sid = s.sm.encrypted_session_id(*c["parts"])
        back, x = attempt(s.sm.decrypt_session_id, sid)
        if back != c["parts"]:
            out.append(("sid", "the handle of %r decodes to %r" % (c["parts"], back if x is None else x)))
        other = Database(key="another key", salt="x") if "salt" in Database.__init__.__code__.co_varnames else Database(key="another key")
        if attempt(other.decrypt_session_id, sid)[1] is None:
            out.append(("sid key", "another key decodes a handle"))
        t = alter(sid, c["cut"])
        if t is not None and meaning(t) != meaning(sid):
            back, x = attempt(s.sm.decrypt_session_id, t)
            try:
                same = base64.urlsafe_b64decode(meaning(t)) == base64.urlsafe_b64decode(meaning(sid))
            except Exception:
                same = False
            if x is None and not same:
                out.append(("sid altered", "an altered handle decodes to %r" % back))
    elif c["k"] == "opaque":
        mk = lambda k: DefaultToken("pw" if c["same_pw"] else "pw " + k, token_class=k, lifetime=c["lifetime"])
        made = mk(c["kind"])
        t = made(session_id=c["sid"], **({"token_class": c["kind"]} if c["explicit"] else {}))
        i, x = attempt(mk(c["handler"]).info, t)
        if c["handler"] == c["kind"]:
            if x is not None:
                out.append(("opaque", "a token of kind %s does not decode: %r" % (c["kind"], x)))
            elif i["sid"] != c["sid"] or i["token_class"] != c["kind"]:
                out.append(("opaque", "a token of %r decodes to %r" % (c["sid"], i["sid"])))
        elif x is None:
            out.append(("opaque kind", "a %s is accepted as a %s" % (c["kind"], c["handler"])))
        a = alter(t, c["cut"])
        if a is not None and meaning(a) != meaning(t):
            i, x = attempt(made.info, a)
            try:
                same = base64.urlsafe_b64decode(meaning(a)) == base64.urlsafe_b64decode(meaning(t))
            except Exception:
                same = False
            if x is None and not same:
                out.append(("opaque altered", "an altered token decodes"))
    elif c["k"] == "issued":
        s = srv(c["flavour"])
        kw = {} if c["resources"] is None else {"resources": list(c["resources"])}
        sid, g = s.login(c["user"], c["client"])
        if c["resources"] is not None:
            g.resources = list(c["resources"])
        code = s.mint(g, sid, "authorization_code")
        tok = code if c["kind"] == "authorization_code" else s.mint(g, sid, c["kind"], based_on=code)
        for k in KINDS:
            i, x = attempt(s.sm.token_handler[k].info, tok.value)
            if k == c["kind"]:
                if x is not None or s.sm.decrypt_session_id(i["sid"]) != s.sm.decrypt_session_id(sid):
                    out.append(("issued", "a %s decodes to %r" % (k, x or i)))
            elif x is None:
                out.append(("issued kind", "%s: a %s is accepted as a %s" % (c["flavour"], c["kind"], k)))
        h, _ = s.sm.token_handler.get_handler(tok.value)
        if h is not s.sm.token_handler[c["kind"]]:
            out.append(("handler", "a %s goes to the handler of %s" % (c["kind"], h and h.token_class)))
        info = s.sm.get_session_info_by_token(tok.value, grant=True)
        if info["grant"] is not g or info["client_id"] != c["client"] or info["user_id"] != c["user"]:
            out.append(("session", "a %s leads to another session" % c["kind"]))
        t = alter(tok.value, c["cut"])
        if t is not None and meaning(t) != meaning(tok.value):
            hd, i = s.sm.token_handler.get_handler(t)
            if hd is not None and c["flavour"] == "opaque":
                try:
                    same = base64.urlsafe_b64decode(meaning(t)) == base64.urlsafe_b64decode(meaning(tok.value))
                except Exception:
                    same = False
                if not same and c["kind"] != "id_token":
                    out.append(("altered", "an altered token decodes"))
    else:
        s = srv("jwt")
        sid, g = s.login("diana", "client_2")
        iss = {"client": "client_1", "server": ISSUER, "other": "https://other.example.org", None: None}[c["iss"]]
        p = {"sid": sid, c["which"]: c["label"], "aud": c["aud"], "exp": int(time.time()) + 600, "iat": int(time.time()), "sub": g.sub}
        if iss:
            p["iss"] = iss
        if c["signer"] == "none":
            b = lambda x: base64.urlsafe_b64encode(x).rstrip(b"=").decode()
            t = b(b'{"alg":"none"}') + "." + b(json.dumps(p).encode()) + "."
        elif c["signer"] == "secret":
            from cryptojwt.jwk.hmac import SYMKey
            t = JWS(json.dumps(p), alg="HS256").sign_compact([SYMKey(key=CLIENTS["client_1"]["client_secret"], use="sig")])
        else:
            key = _S[("jwt", "unknown")] if c["signer"] == "unknown" else _S[("jwt", "client_1", c["signer"])]
            t = JWS(json.dumps(p), alg="RS256" if c["signer"] == "rsa" else "ES256").sign_compact([key])
        for k in KINDS:
            i, x = attempt(s.sm.token_handler[k].info, t)
            if x is None:
                out.append(("forged", "a %s made by a client (signed with %s, as %s) decodes" % (k, c["signer"], c["iss"])))
    return out
