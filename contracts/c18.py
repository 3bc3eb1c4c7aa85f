"""C18: logout."""
from .world import *
from pyvc import libmodels as L
from oidcmsg.oidc import IdToken
from oidcmsg.oidc.session import EndSessionRequest
from oidcop.endpoint_context import EndpointContext
from oidcop.oidc.session import Session
from oidcop.session.info import ClientSessionInfo, UserSessionInfo
from oidcop.session.token import IDToken

R = "oidcop.oidc.session:Session"
SM = "oidcop.session.manager:SessionManager"


# ---------------------------------------------------------------- the request
class AskWorld:
    def __init__(self, e):
        self.sub, self.client, self.sid = e.inp("subject", STR), e.inp("session_client", STR), None
        self.grant = sym_obj(e, Grant, "grant", sub=self.sub)
        self.issuer = e.inp("issuer", STR)
        self.infos, self.looked_up, self.verified, self.signed = None, None, None, None
        self.first_sid, self.json_of, self.sm = None, None, sym_obj(e, SessionManager, "manager")
        handler = Opaque("cookie handler")
        self.name = e.inp("cookie_name", STR)
        handler.attrs = {"name": e.born(Dict({"session": self.name})), "parse_cookie": NativeFn(self.parse_cookie, "parse_cookie")}
        self.ctx = sym_obj(e, EndpointContext, "context", cookie_handler=handler, session_manager=self.sm, issuer=self.issuer,
                           keyjar=Opaque("key jar"), cdb=e.inp("cdb", DictOf(DictOf(ANY))))
        self.verify_page, self.own_page = e.inp("logout_verify_url", STR), e.inp("post_logout_uri_path", STR)
        self.ep = sym_obj(e, Session, "session endpoint", server_get=NativeFn(lambda e, *a: self.ctx, "server_get"), kwargs=e.born(Dict({
            "post_logout_uri_path": self.own_page, "signing_alg": "ES256", "logout_verify_url": self.verify_page})))
        e.ghost["w"] = self

    def parse_cookie(self, e, name=None, cookies=None):
        """CookieHandler.parse_cookie (C12): genuine cookies of that name, or a failure"""
        from cryptojwt.exception import VerificationError
        e.prove("only cookies named as session cookies are read", zb(M.eq(e, name, self.name)))
        e.prove("and those presented", cookies is self.cookies)
        k = e.choose(4)
        if k == 0:
            raise PyRaise(Obj(VerificationError, {"args": ()}))
        if k == 1:
            return None
        self.values = [e.inp("cookie_value", STR) for _ in range(k - 1)]
        self.infos = e.born(List([e.born(Dict({"value": v, "type": "", "timestamp": "0"})) for v in self.values]))
        return self.infos


def loads(e, bound):
    """json.loads of a cookie value: what the value says"""
    w = e.ghost["w"]
    s = bound["s"]
    if e.choose(2):
        raise PyRaise(Obj(ValueError, {"args": ()}))
    d = e.born(Dict({}))
    if e.choose(2):
        d = e.born(Dict({"sid": e.inp("sid", STR)}))
        w.first_sid = (s, d.items["sid"])
    return d


def session_info(e, bound):
    """SessionManager.get_session_info (C07): the session of that identifier, or a failure"""
    w = e.ghost["w"]
    if e.choose(2):
        raise PyRaise(Obj([KeyError, ValueError][e.choose(2)], {"args": ()}))
    w.looked_up = bound["session_id"]
    return e.born(Dict({"session_id": bound["session_id"], "user_id": "u", "client_id": w.client, "grant_id": "g", "grant": w.grant}))


def registered_uri(e, bound):
    """verify_uri (C09): it raises unless the parameter of the request is among the client's registered ones"""
    w = e.ghost["w"]
    if e.choose(2):
        raise PyRaise(Obj([ValueError, KeyError][e.choose(2)], {"args": ()}))
    w.verified = bound


def signer(e, bound):
    w = e.ghost["w"]
    o = Opaque("JWT")

    def pack(e, payload=None, recv=None, **k):
        w.signed, w.recv = payload, recv
        return e.inp("sjwt", STR)
    o.attrs = {"pack": NativeFn(pack, "pack"), "with_jti": False}
    return o


ASK = {"json:loads": loads, SM + ".get_session_info": session_info, "oidcop.oauth2.authorization:verify_uri": registered_uri, "cryptojwt.jwt:JWT": signer}


def asked(cookies):
    def f(e):
        w = AskWorld(e)
        hint = e.inp("id_token", DictOf(ANY, {"aud": ListOf(STR), "sub": STR}, cls=IdToken))
        items = {}
        for k in ("post_logout_redirect_uri", "state", "id_token_hint"):
            if e.choose(2):
                items[k] = e.inp(k, STR)
        if "id_token_hint" in items and e.choose(2):
            items["__verified_id_token_hint"] = hint
        req = w.req = e.born(Dict(items, cls=EndSessionRequest))
        w.cookies = e.born(List([e.born(Dict({"name": e.inp("name", STR), "value": e.inp("value", STR)}))])) if cookies else None
        aud0 = e.dec(raw(e, hint, "aud"), ListOf(STR))
        n, el, hsub, haud = M.llen(e, aud0), M.lel(e, aud0), raw(e, hint, "sub"), has(e, hint, "aud")
        r = execute(e, R + ".process_request", w.ep, req, e.born(Dict({"cookie": w.cookies})))
        if not cookies:
            e.prove("refused", not r.ok)
        if not r.ok:
            e.cover("refused")
            return
        e.prove("a session cookie was read", w.infos is not None and w.looked_up is not None and w.first_sid is not None)
        if w.infos is None or w.looked_up is None or w.first_sid is None:
            return
        e.prove("the session is the one the cookie names", And(zb(M.eq(e, w.first_sid[0], w.values[0])), zb(M.eq(e, w.looked_up, w.first_sid[1]))))
        p = w.signed
        e.prove("the logout is for that session", zb(M.eq(e, M.getitem(e, p, "sid"), w.looked_up)) if p is not None else False)
        if "id_token_hint" in items:
            i = z3.Int("i?")
            e.prove("a hint was verified", "__verified_id_token_hint" in items)
            e.prove("its audience has the session's client", Exists([i], And(i >= 0, i < n, Select(el, i) == Val.s(w.client.t))))
            e.prove("its subject is the session's", hsub == Val.s(w.sub.t))
            e.cover("with hint")
        target = items.get("post_logout_redirect_uri")
        where = e.str_term(M.getitem(e, p, "redirect_uri"))
        if target is not None:
            e.prove("a target comes with a hint", "id_token_hint" in items)
            v = w.verified
            e.prove("the target was checked", v is not None)
            if v is not None:
                e.prove("against what that client registered", And(v["endpoint_context"] is w.ctx, v["request"] is req, zb(M.eq(e, v["uri_type"], "post_logout_redirect_uri")),
                                                                   zb(M.eq(e, v["client_id"], w.client))))
            e.prove("the redirect goes there", Or(where == target.t, z3.PrefixOf(z3.Concat(target.t, S("?")), where)))
            e.cover("with target")
        else:
            e.prove("otherwise to the server's own page", z3.PrefixOf(w.issuer.t, where))
        e.prove("by way of the page that verifies it", z3.PrefixOf(w.verify_page.t, e.str_term(M.getitem(e, r.value, "redirect_location"))))
        e.cover("honoured")
    return f


contract("C18", "a logout request is honoured only for the session of its cookie", R + ".process_request", callees=ASK)(asked(True))
contract("C18", "without cookies a logout request is refused", R + ".process_request", callees=ASK)(asked(False))


# ---------------------------------------------------------------- a verified logout
class DoneWorld:
    """A user with client sessions, grants and ID tokens: each given by a function of the client and grant identifiers."""

    def __init__(self, e):
        self.revoked = []
        self.cdb = e.inp("cdb", DictOf(DictOf(ANY)))
        self.clients = e.inp("client_sessions", ListOf(STR))
        self.user, self.sid = e.inp("user", STR), e.inp("sid", STR)
        self.client = e.inp("client", STR)
        self.sm = sym_obj(e, SessionManager, "manager")
        self.ctx = sym_obj(e, EndpointContext, "context", cdb=self.cdb, session_manager=self.sm, issuer=e.inp("issuer", STR))
        self.ep = sym_obj(e, Session, "session endpoint", server_get=NativeFn(lambda e, *a: self.ctx, "server_get"), kwargs=e.born(Dict({})))
        for c in ("LLEN", "LEL", "DDOM", "DVAL"):
            e.comp(c)
        self.h0 = dict(e.heap)
        self.dom = lambda c: Select(self.h0["DDOM"], self.cdb.ref)
        self.known = lambda c: Select(Select(self.h0["DDOM"], self.cdb.ref), c)
        self.has = lambda c, k: Select(Select(self.h0["DDOM"], Val.rv(Select(Select(self.h0["DVAL"], self.cdb.ref), c))), S(k))
        self.n = Select(self.h0["LLEN"], self.clients.ref)
        self.cl = lambda j: Val.sv(Select(Select(self.h0["LEL"], self.clients.ref), j))
        self.m = lambda c: Select(self.h0["LLEN"], GRANTS(c))
        self.gid = lambda c, j: Val.sv(Select(Select(self.h0["LEL"], GRANTS(c)), j))
        self.counts = lambda c, g: And(AUTH(c, g), IDT(c, g))
        self.channel = lambda c: And(self.known(c), Or(self.has(c, "backchannel_logout_uri"), self.has(c, "frontchannel_logout_uri")))
        e.ghost["w"] = self


GRANTS = z3.Function("grants_of", StrS, IntS)                    # client -> the list of its grants' identifiers
AUTH = z3.Function("grant_has_authn_event", StrS, StrS, BoolS)   # client, grant
IDT = z3.Function("grant_has_id_token", StrS, StrS, BoolS)
SID = z3.Function("id_token_session", StrS, StrS, StrS)          # the session identifier of its last ID token
WHOSE = z3.Function("session_client", StrS, StrS)                # the client of a session identifier
WHO = z3.Function("session_user", StrS, StrS)


def whole_session(e, bound):
    """SessionManager.get_session_info (C07)"""
    w = e.ghost["w"]
    e.prove("the session asked about is the caller's", zb(M.eq(e, bound["session_id"], w.sid)))
    us = sym_obj(e, UserSessionInfo, "user session", subordinate=w.clients, user_id=w.user)
    return e.born(Dict({"session_id": w.sid, "user_id": w.user, "client_id": w.client, "grant_id": e.inp("grant_id", STR), "user_session_info": us,
                        "client_session_info": Opaque("client session"), "grant": Opaque("grant")}))


def stored_at(e, bound):
    """SessionManager.get (C07): what is stored under that path; only this user's"""
    w = e.ghost["w"]
    path = e.force(bound["path"])
    items = list(path.items)
    e.prove("only the caller's own user is looked at", zb(M.eq(e, items[0], w.user)))
    c = e.str_term(items[1])
    if len(items) == 2:
        e.assume(And(GRANTS(c) > 0, GRANTS(c) < FRESH_BASE, GRANTS(c) != w.clients.ref, GRANTS(c) != w.cdb.ref))
        return sym_obj(e, ClientSessionInfo, "client session", subordinate=e.dec(Val.r(GRANTS(c)), ListOf(STR)))
    g = e.str_term(items[2])

    def last(e, cls):
        e.prove("the token looked for is the ID token", zb(M.eq(e, cls, "id_token")))
        if not e.branch(IDT(c, g)):
            return None
        e.assume(And(WHOSE(SID(c, g)) == c, WHO(SID(c, g)) == w.user.t))     # C04, C08: minted in the session of that user, client and grant
        return sym_obj(e, IDToken, "id_token", session_id=SStr(SID(c, g)))
    return sym_obj(e, Grant, "grant", last_issued_token_of_type=NativeFn(last, "last"), authentication_event=SBool(AUTH(c, g)))


def revoke_client_session(e, bound):
    """SessionManager.revoke_client_session (C06)"""
    e.ghost["w"].revoked.append(bound["session_id"])


def spec(e, bound):
    return e.inp("spec", Opt(STR))


def cleaned(e, bound):
    """clean_sessions (contract below)"""
    w = e.ghost["w"]
    w.revoked.append(e.force(bound["usids"]))


def all_inv(e, Lp):
    w = e.ghost["w"]
    rel = Lp.frame.locals.get("_rel_sid")
    if Lp.idx is None or not isinstance(rel, List):
        return
    i, j = z3.Ints("i? j?")
    if Lp.src is w.clients:
        n, el = (M.llen(e, rel), M.lel(e, rel)) if not rel.native else (z3.IntVal(len(rel.items)), z3.K(IntS, Val.none))
        at = lambda k: Val.sv(Select(el, k))
        k = z3.Int("k?")
        yield "sessions of this user", ForAll([i], Implies(And(i >= 0, i < n), And(Val.is_s(Select(el, i)), WHO(at(i)) == w.user.t)))
        yield "of clients with a channel", ForAll([i], Implies(And(i >= 0, i < n), w.channel(WHOSE(at(i)))))
        yield "each client with an ID token and a channel", ForAll([j, i], Implies(And(
            j >= 0, j < Lp.idx, w.channel(w.cl(j)), i >= 0, i < w.m(w.cl(j)), w.counts(w.cl(j), w.gid(w.cl(j), i))),
            Exists([k], And(k >= 0, k < n, WHOSE(at(k)) == w.cl(j)))))
    else:
        c = Lp.frame.locals.get("_client_id")
        if c is None:
            return
        c = e.str_term(c)
        yield "none of the grants so far counts", ForAll([i], Implies(And(i >= 0, i < Lp.idx), Not(w.counts(c, w.gid(c, i)))))
        for comp in ("LLEN", "LEL", "DDOM", "DVAL"):
            yield comp + " as before", e.comp(comp) == Lp.heap_at_entry(comp)


ALL = {SM + ".get_session_info": whole_session, "oidcop.session.database:Database.get": stored_at, SM + ".get": stored_at, R + ".do_back_channel_logout": spec,
       "oidcop.oidc.session:do_front_channel_logout_iframe": spec, R + ".clean_sessions": cleaned}


@contract("C18", "logging out from everything covers every client with an ID token and a channel", R + ".logout_all_clients", callees=ALL, inv=all_inv)
def everything(e):
    w = DoneWorld(e)
    r = execute(e, R + ".logout_all_clients", w.ep, w.sid)
    if not r.ok:
        e.cover("failed")
        e.prove("it does not fail", False)
        return
    e.prove("the sessions found are revoked, once", len(w.revoked) == 1)
    rel = w.revoked[0]
    if rel.native:
        e.to_heap_list(rel, STR)
    n, el = M.llen(e, rel), M.lel(e, rel)
    i, k = z3.Ints("i? k?")
    at = lambda k: Val.sv(Select(el, k))
    j, g = e.sint("j").t, e.sint("g").t
    e.prove("only sessions of that user", ForAll([i], Implies(And(i >= 0, i < n), WHO(at(i)) == w.user.t)))
    e.prove("only clients with a logout channel", ForAll([i], Implies(And(i >= 0, i < n), w.channel(WHOSE(at(i))))))
    e.assume(And(j >= 0, j < w.n, w.channel(w.cl(j)), g >= 0, g < w.m(w.cl(j)), w.counts(w.cl(j), w.gid(w.cl(j), g))))
    e.prove("every client with an ID token and a channel", Exists([k], And(k >= 0, k < n, WHOSE(at(k)) == w.cl(j))))
    e.cover("end")


@contract("C18", "logging out from one client revokes that session", R + ".logout_from_client", callees={**ALL, SM + ".revoke_client_session": revoke_client_session, R + ".clean_sessions": cleaned})
def one_client(e):
    w = DoneWorld(e)
    r = execute(e, R + ".logout_from_client", w.ep, w.sid)
    if not r.ok:
        e.cover("failed")
        return
    got = [x for l in w.revoked for x in l.items]
    e.prove("exactly the session given is revoked", And(len(got) == 1, *[zb(M.eq(e, x, w.sid)) for x in got]))
    e.cover("end")


def clean_inv(e, Lp):
    w = e.ghost["w"]
    if Lp.idx is None:
        return
    i = z3.Int("i?")
    s = z3.String("s?")
    dom = M.ddom(e, w.gone)
    yield "those so far", ForAll([i], Implies(And(i >= 0, i < Lp.idx), Select(dom, Val.sv(Select(w.els, i)))))
    yield "no others", ForAll([s], Implies(Select(dom, s), Exists([i], And(i >= 0, i < Lp.idx, Val.sv(Select(w.els, i)) == s))))


def note_revoked(e, bound):
    """SessionManager.revoke_client_session (C06)"""
    M.setitem(e, e.ghost["w"].gone, bound["session_id"], True)


@contract("C18", "the sessions listed are revoked, and no others", R + ".clean_sessions", callees={SM + ".revoke_client_session": note_revoked}, inv=clean_inv)
def cleaning(e):
    w = DoneWorld(e)
    l = e.inp("sids", ListOf(STR))
    w.gone = e.inp("revoked", DictOf(BOOL))
    e.assume(M.ddom(e, w.gone) == z3.K(StrS, z3.BoolVal(False)))
    n, w.els = M.llen(e, l), M.lel(e, l)
    r = execute(e, R + ".clean_sessions", w.ep, l)
    e.prove("it does not fail", r.ok)
    i, s = z3.Int("i?"), e.inp("s", STR).t
    e.prove("all listed", ForAll([i], Implies(And(i >= 0, i < n), Select(M.ddom(e, w.gone), Val.sv(Select(w.els, i))))))
    e.prove("no others", Implies(Select(M.ddom(e, w.gone), s), Exists([i], And(i >= 0, i < n, Val.sv(Select(w.els, i)) == s))))


def last_inv(e, Lp):
    if Lp.idx is None:
        return
    cls, tok = e.ghost["cls"], e.ghost["tok"]
    res = Lp.frame.locals.get("res")
    i = z3.Int("i?")
    v = e.enc(res)
    seen = And(i >= 0, i < Lp.idx)
    yield "nothing found means there is none", Implies(v == Val.none, ForAll([i], Implies(seen, Select(cls, tok(i)) != S("id_token"))))
    yield "what is found is one of them", Implies(v != Val.none, And(Val.is_r(v), Exists([i], And(seen, tok(i) == Val.rv(v), Select(cls, tok(i)) == S("id_token")))))


@contract("C18", "the last ID token of a grant is one of its ID tokens, if it has any", "oidcop.session.grant:Grant.last_issued_token_of_type", schema=SCHEMA, inv=last_inv)
def last_token(e):
    w = World(e, auth_req=e.inp("auth_req", AUTH_REQ))
    l = e.interp.getattr(w.grant, "issued_token")
    t = e.dec(Select(M.lel(e, l), z3.Int("probe")), RefOf(SessionToken))
    e.interp.getattr(t, "token_class"), e.interp.getattr(t, "issued_at")
    n, el = M.llen(e, l), M.lel(e, l)
    e.ghost["cls"] = e.comp("F:token_class")
    tok = e.ghost["tok"] = lambda i: Val.rv(Select(el, i))
    r = execute(e, "oidcop.session.grant:Grant.last_issued_token_of_type", w.grant, "id_token")
    e.prove("returns normally", r.ok)
    i = z3.Int("i?")
    v = e.enc(r.value)
    isid = lambda i: And(i >= 0, i < n, Select(e.ghost["cls"], tok(i)) == S("id_token"))
    e.prove("none only if there is none", Implies(v == Val.none, Not(Exists([i], isid(i)))))
    e.prove("otherwise one of them", Implies(v != Val.none, Exists([i], And(isid(i), tok(i) == Val.rv(v)))))
    e.cover("end")
