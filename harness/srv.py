"""A real in-memory server for the bounded stand-ins (no files, no network)."""
import copy
import json
import os
import atexit
import shutil
import sys
import tempfile

from cryptojwt.key_jar import init_key_jar
from oidcmsg.oidc import AuthorizationRequest
from oidcmsg.time_util import utc_time_sans_frac

from oidcop.authn_event import create_authn_event
from oidcop.authz import AuthzHandling
from oidcop.client_authn import verify_client
from oidcop.configure import ASConfiguration, OPConfiguration
from oidcop.cookie_handler import CookieHandler
from oidcop.oidc import userinfo
from oidcop.oidc.authorization import Authorization
from oidcop.oidc.registration import Registration
from oidcop.oidc.session import Session
from oidcop.oidc.token import Token
from oidcop.oauth2 import token as oauth2_token
from oidcop.oauth2 import authorization as oauth2_authorization
from oidcop.oauth2.introspection import Introspection
from oidcop.oauth2.pushed_authorization import PushedAuthorization
from oidcop.server import Server
from oidcop.user_authn.authn_context import INTERNETPROTOCOLPASSWORD
from oidcop.user_authn.user import UserAuthnMethod
from oidcop.user_info import UserInfo

ISSUER = "https://op.example.com/"
USERS = {
    "diana": {"name": "Diana Krall", "given_name": "Diana", "family_name": "Krall", "email": "diana@example.org",
              "email_verified": False, "phone_number": "+46 90 7865000", "nickname": "dina", "sub": "u_diana",
              "eduperson_scoped_affiliation": ["staff@example.org"], "age": 0, "address": {"street_address": "U"}},
    "bob": {"name": "Bob Dylan", "given_name": "Bob", "email": "bob@example.org", "nickname": "bobby", "age": 7,
            "iss": "evil", "aud": "evil", "nonce": "evil", "exp": 1, "acr": "evil", "at_hash": "evil"},
    "carol": {},
}
KEYDEFS = [{"type": "RSA", "key": "", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
_KJ = {}
SCRATCH = tempfile.mkdtemp(prefix="verif-srv-")
atexit.register(shutil.rmtree, SCRATCH, True)


def keyjar():
    """a new key jar holding the same keys (checking RSA keys takes long)"""
    from cryptojwt.key_bundle import KeyBundle
    from cryptojwt.key_jar import KeyJar
    if "op" not in _KJ:
        _KJ["op"] = init_key_jar(key_defs=KEYDEFS, issuer_id="")
        _KJ["keys"] = _KJ["op"].get_issuer_keys("")
    kj = KeyJar()
    for owner in ("", ISSUER):
        kb = KeyBundle()
        kb.extend(list(_KJ["keys"]))
        kj.add_kb(owner, kb)
    return kj


class Cookied(UserAuthnMethod):
    """Cookie driven login: reuse of a login is decided by UserAuthnMethod itself."""
    asked = 0

    def __init__(self, server_get=None, **kwargs):
        UserAuthnMethod.__init__(self, server_get=server_get, **kwargs)
        self.action = "verify"

    def __call__(self, **kwargs):
        Cookied.asked += 1
        return "LOGIN-PAGE"


CLIENTS = {
    "client_1": {"client_id": "client_1", "client_secret": "hemligt_1_0123456789abcdef0123456",
                 "redirect_uris": [("https://one.example.com/cb", None)], "client_salt": "salted",
                 "token_endpoint_auth_method": "client_secret_post",
                 "response_types": ["code", "token", "code token", "code id_token", "id_token", "id_token token",
                                    "code id_token token", "none"],
                 "post_logout_redirect_uris": [("https://one.example.com/out", None)]},
    "client_2": {"client_id": "client_2", "client_secret": "hemligt_2_0123456789abcdef0123456",
                 "redirect_uris": [("https://two.example.com/cb", None)], "client_salt": "salted",
                 "token_endpoint_auth_method": "client_secret_post",
                 "response_types": ["code", "code id_token", "id_token"],
                 "post_logout_redirect_uris": [("https://two.example.com/out", None)]},
}
RULES = {
    "authorization_code": {"expires_in": 300, "supports_minting": ["access_token", "refresh_token", "id_token"],
                           "max_usage": 1},
    "access_token": {"expires_in": 600},
    "refresh_token": {"expires_in": 86400, "supports_minting": ["access_token", "refresh_token", "id_token"]},
}


def conf(flavour="opaque", login="noauthn", user="diana", oauth2=False, rules=RULES, grant_expires=43200, **over):
    jwt = {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600, "aud": ["https://rs.example.org"]}}
    opaque = lambda lt: {"kwargs": {"lifetime": lt}, "password": "pw%d" % lt}
    c = {
        "issuer": ISSUER,
        "httpc_params": {"verify": False, "timeout": 1},
        "capabilities": {
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
        },
        "session_params": {"password": "session-password-for-tests", "salt": "a-salt"},
        "cookie_handler": {"class": CookieHandler, "kwargs": {
            "sign_key": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch",
            "name": {"session": "oidc_op", "register": "oidc_op_reg", "session_management": "oidc_op_sman"}}},
        "token_handler_args": {
            "jwks_def": {"private_path": os.path.join(SCRATCH, "token_jwks.json"), "read_only": True, "key_defs": [
                {"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"},
                {"type": "oct", "bytes": "24", "use": ["enc"], "kid": "token"},
                {"type": "oct", "bytes": "24", "use": ["enc"], "kid": "refresh"}]},
            "code": opaque(600),
            "token": opaque(3600) if flavour == "opaque" else copy.deepcopy(jwt),
            "refresh": opaque(86400) if flavour == "opaque" else copy.deepcopy(jwt),
            "id_token": {"class": "oidcop.token.id_token.IDToken", "kwargs": {}},
        },
        "endpoint": {
            "registration": {"path": "registration", "class": Registration, "kwargs": {}},
            "authorization": {"path": "authorization",
                              "class": oauth2_authorization.Authorization if oauth2 else Authorization, "kwargs": {}},
            "pushed_authorization": {"path": "par", "class": PushedAuthorization, "kwargs": {
                "client_authn_method": ["client_secret_post", "client_secret_basic"]}},
            "token": {"path": "token", "class": oauth2_token.Token if oauth2 else Token, "kwargs": {
                "client_authn_method": ["client_secret_basic", "client_secret_post", "client_secret_jwt",
                                        "private_key_jwt"]}},
            "userinfo": {"path": "userinfo", "class": userinfo.UserInfo, "kwargs": {}},
            "introspection": {"path": "introspection", "class": Introspection, "kwargs": {
                "client_authn_method": ["client_secret_post", "client_secret_basic"]}},
            "session": {"path": "end_session", "class": Session, "kwargs": {
                "post_logout_uri_path": "post_logout", "signing_alg": "ES256",
                "logout_verify_url": "https://op.example.com/verify_logout"}},
        },
        "userinfo": {"class": UserInfo, "kwargs": {"db": copy.deepcopy(USERS)}},
        "client_authn": verify_client,
        "authentication": {"anon": {"acr": INTERNETPROTOCOLPASSWORD,
                                    "class": "oidcop.user_authn.user.NoAuthn" if login == "noauthn" else Cookied,
                                    "kwargs": {"user": user} if login == "noauthn" else {}}},
        "authz": {"class": AuthzHandling, "kwargs": {"grant_config": {"usage_rules": copy.deepcopy(rules)}}},
    }
    if rules is None:
        c["authz"]["kwargs"]["grant_config"] = {}
    if grant_expires:
        c["authz"]["kwargs"]["grant_config"]["expires_in"] = grant_expires
    for k, v in over.items():
        cur = c
        parts = k.split("__")
        for p in parts[:-1]:
            cur = cur.setdefault(p, {})
        if v is None:
            cur.pop(parts[-1], None)
        else:
            cur[parts[-1]] = v
    return c


class Srv:
    """server + shorthands"""

    def __init__(self, clients=None, **kw):
        self.conf = conf(**kw)
        cfg = ASConfiguration if kw.get("oauth2") else OPConfiguration
        self.server = Server(cfg(conf=self.conf, base_path=SCRATCH), cwd=SCRATCH, keyjar=keyjar())
        self.ec = self.server.endpoint_context
        for cid, info in copy.deepcopy(CLIENTS if clients is None else clients).items():
            self.ec.cdb[cid] = info
            if info.get("client_secret"):
                self.ec.keyjar.add_symmetric(cid, info["client_secret"], ["sig"])
        self.sm = self.ec.session_manager

    def ep(self, name):
        return self.server.server_get("endpoint", name)

    def areq(self, client_id="client_1", **kw):
        a = dict(client_id=client_id, redirect_uri=CLIENTS.get(client_id, CLIENTS["client_1"])["redirect_uris"][0][0],
                 scope=["openid"], state="STATE", response_type="code", nonce="nonce")
        a.update(kw)
        return AuthorizationRequest(**{k: v for k, v in a.items() if v is not None})

    def authorize(self, http_info=None, **kw):
        req = self.areq(**kw)
        pr = self.ep("authorization").parse_request(req.to_dict(), http_info=http_info)
        return self.ep("authorization").process_request(pr, http_info=http_info)

    def login(self, user, client_id="client_1", authn_time=0, valid_until=0, **kw):
        """A session the way the authorization endpoint makes one, for any user."""
        req = self.areq(client_id, **kw)
        ae = create_authn_event(user, authn_info=INTERNETPROTOCOLPASSWORD, authn_time=authn_time, valid_until=valid_until)
        sid = self.sm.create_session(ae, req, user, client_id=client_id,
                                     token_usage_rules=self.ec.authz.usage_rules(client_id))
        grant = self.ec.authz(sid, request=req)
        return sid, grant

    def mint(self, grant, sid, token_class, based_on=None, **kw):
        rules = grant.usage_rules.get(token_class)
        t = grant.mint_token(session_id=sid, endpoint_context=self.ec, token_class=token_class,
                             token_handler=self.sm.token_handler[token_class], based_on=based_on,
                             usage_rules=copy.deepcopy(rules) if rules is not None else None, **kw)
        return t

    def token_request(self, client_id="client_1", secret=None, http_info=None, **kw):
        ep = self.ep("token")
        req = dict(client_id=client_id, client_secret=secret or self.ec.cdb[client_id]["client_secret"], **kw)
        p = ep.parse_request(dict(req), http_info=http_info)
        return ep.process_request(p, **PROC.get("token", {}))

    def redeem(self, code, client_id="client_1", redirect_uri=None, **kw):
        return self.token_request(client_id, grant_type="authorization_code", code=code,
                                  redirect_uri=redirect_uri or self.ec.cdb[client_id]["redirect_uris"][0][0], **kw)

    def refresh(self, rt, client_id="client_1", **kw):
        return self.token_request(client_id, grant_type="refresh_token", refresh_token=rt, **kw)

    def userinfo(self, at):
        ep = self.ep("userinfo")
        p = ep.parse_request({}, http_info={"headers": {"authorization": "Bearer " + at}})
        return ep.process_request(p)

    def introspect(self, tok, client_id="client_1"):
        ep = self.ep("introspection")
        p = ep.parse_request({"token": tok, "client_id": client_id, "client_secret": self.ec.cdb[client_id]["client_secret"]})
        return ep.process_request(p)


PROC = {}


def is_err(resp):
    """a refused request"""
    if resp is None:
        return True
    try:
        if "error" in resp:
            return True
        ra = resp.get("response_args")
        return bool(ra is not None and "error" in ra)
    except TypeError:
        return False


def attempt(f, *a, **kw):
    """(response, exception)"""
    try:
        return f(*a, **kw), None
    except Exception as x:
        return None, x


class Clock:
    """Sets the clock every oidcop module sees."""

    def __init__(self, now):
        self.now = now

    def __enter__(self):
        self.saved = []
        for n, m in list(sys.modules.items()):
            if n.startswith("oidcop") or n.startswith("harness") or n in ("oidcmsg.oidc", "cryptojwt.jwt", "oidcmsg.time_util"):
                f = getattr(m, "utc_time_sans_frac", None)
                if f is not None:
                    self.saved.append((m, f))
                    m.utc_time_sans_frac = lambda: self.now
        return self

    def __exit__(self, *a):
        for m, f in self.saved:
            m.utc_time_sans_frac = f


def unpack_idtoken(s, tok):
    from cryptojwt.jws.jws import factory
    return factory(tok).jwt.payload()
