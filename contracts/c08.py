"""C08: what session handles and tokens decode to."""
from .world import *
from oidcop.session.database import Database
from oidcop.token import DefaultToken, UnknownToken
from oidcop.token.exception import WrongTokenClass
from oidcop.util import Crypt
from pyvc import libmodels as LM

U = "oidcop.util:"
D = "oidcop.token:DefaultToken"
DB = "oidcop.session.database:Database"
KINDS = ("authorization_code", "access_token", "refresh_token")


def text(e, name, last=False):
    s = e.inp(name, STR)
    if last:
        e.assume(Not(M.ENDS_IN_SPACE(s.t)))
    return s


def lv(n):
    @contract("C08", f"length:value packing of {n} strings reads back as them", U + "lv_unpack", note="the last string does not end in whitespace")
    def _(e):
        parts = [text(e, f"part{i}", i == n - 1) for i in range(n)]
        packed = execute(e, U + "lv_pack", *parts)
        e.prove("packing succeeds", z3.BoolVal(packed.ok))
        out = execute(e, U + "lv_unpack", packed.value)
        e.prove("reading back succeeds", z3.BoolVal(out.ok))
        if out.ok:
            items = M.concrete_items(e, e.force(out.value))
            e.prove("as many strings", z3.BoolVal(items is not None and len(items) == n))
            if items is not None and len(items) == n:
                for i, (a, b) in enumerate(zip(items, parts)):
                    e.prove(f"string {i} is what was packed", zb(M.eq(e, a, b)))
        e.cover("read back")


for n in (1, 2, 3, 4):
    lv(n)


@contract("C08", "what Crypt encrypts it decrypts", U + "Crypt")
def crypt(e):
    pw, t = e.inp("password", STR), text(e, "text", True)
    c = execute(e, Crypt, pw).value
    sealed = execute(e, e.interp.getattr(c, "encrypt"), t)
    e.prove("encrypting succeeds", z3.BoolVal(sealed.ok))
    out = execute(e, e.interp.getattr(c, "decrypt"), sealed.value)
    e.prove("decrypting succeeds", z3.BoolVal(out.ok))
    if out.ok:
        e.prove("to the text", zb(M.eq(e, out.value, t)))
    e.cover("decrypted")


def sid_parts(e):
    """A user, a client and a grant identifier: they do not contain the path separator, nor begin or end with its character."""
    ps = [text(e, "user"), text(e, "client"), text(e, "grant", True)]
    for p in ps:
        e.assume(And(Not(z3.Contains(p.t, S(";;"))), Not(z3.SuffixOf(S(";"), p.t)), Not(z3.PrefixOf(S(";"), p.t)), z3.Length(p.t) > 0))
    return ps


def database(e, tag):
    pw = e.inp("password_" + tag, STR)
    return sym_obj(e, Database, "database_" + tag, key=pw, crypt=execute(e, Crypt, pw).value)


def key(e, o):
    return e.str_term(e.interp.getattr(e.interp.getattr(o, "crypt"), "key"))


@contract("C08", "a handle decodes to the user, client and grant it was made for", DB + ".decrypt_session_id",
          note="identifiers neither contain the path separator nor begin or end with its character")
def handle(e):
    db, parts = database(e, "here"), sid_parts(e)
    h = execute(e, DB + ".encrypted_session_id", db, *parts)
    e.prove("a handle is made", z3.BoolVal(h.ok))
    out = execute(e, DB + ".decrypt_session_id", db, h.value)
    e.prove("it decodes", z3.BoolVal(out.ok))
    if out.ok:
        items = M.concrete_items(e, e.force(out.value))
        e.prove("to three identifiers", z3.BoolVal(items is not None and len(items) == 3))
        for n, a, b in zip(("user", "client", "grant"), items or [], parts):
            e.prove(f"the {n}", zb(M.eq(e, a, b)))
    e.cover("decoded")


@contract("C08", "a handle of another server does not decode", DB + ".decrypt_session_id")
def foreign_handle(e):
    db, other, parts = database(e, "here"), database(e, "there"), sid_parts(e)
    h = execute(e, DB + ".encrypted_session_id", other, *parts)
    e.assume(key(e, db) != key(e, other))
    out = execute(e, DB + ".decrypt_session_id", db, h.value)
    e.prove("refused with ValueError", z3.BoolVal(out.raised(ValueError)))
    e.cover("refused")


def unpacked(e, bound):
    """lv_unpack of any text: some list of strings, or ValueError"""
    if e.choose(2):
        raise PyRaise(Obj(ValueError, {"args": ()}))
    e.ghost["unpacked"] = bound["txt"]
    e.ghost["read"] = [e.inp(f"read{i}", STR) for i in range(e.choose(6))]
    return e.born(List(list(e.ghost["read"])))


def occurs(a, t):
    return a.eq(t) or any(occurs(a, c) for c in t.children())


def authentic(e, k, token):
    """what was decoded is what opened under that key, and it is the text of the string presented"""
    op = e.ghost.get("opened", [])
    ok = len(op) == 1 and op[0][0].eq(k)
    e.prove("it opened under this server's key", z3.BoolVal(ok))
    if ok:
        e.prove("what opened is the string presented", op[0][1] == LM.B64D(M.UTF8(token.t)))
        e.prove("what it decodes to is what was sealed", z3.BoolVal(occurs(LM.OPENED(*op[0]), e.str_term(e.ghost["unpacked"]))))


@contract("C08", "only what was sealed under the server's key decodes to a session", DB + ".decrypt_session_id", callees={U + "lv_unpack": unpacked})
def genuine_handle(e):
    db, h = database(e, "here"), e.inp("string", STR)
    out = execute(e, DB + ".decrypt_session_id", db, h)
    if out.ok:
        authentic(e, key(e, db), h)
        e.cover("decoded")
    else:
        e.cover("refused")


def handler(e, kind, tag="here"):
    return sym_obj(e, DefaultToken, "handler_" + tag, token_class=kind, alt_token_name={"authorization_code": "A", "access_token": "T", "refresh_token": "R"}[kind],
                   lifetime=e.inp("lifetime_" + tag, INT), crypt=execute(e, Crypt, e.inp("password_" + tag, STR)).value, token_type="Bearer", kwargs=e.born(Dict({})))


def minted(e, h, sid, **kw):
    now(e)
    r = execute(e, D + ".__call__", h, session_id=sid, **kw)
    e.prove("a token is made", z3.BoolVal(r.ok))
    return r.value


for kind in KINDS:
    for how in ("default", "explicit"):
        @contract("C08", f"an opaque {kind} decodes to its session and kind ({how} kind)", D + ".info")
        def _(e, kind=kind, how=how):
            h, sid = handler(e, kind), e.inp("sid", STR)
            t = minted(e, h, sid, **({"token_class": kind} if how == "explicit" else {}))
            out = execute(e, D + ".info", h, t)
            e.prove("it decodes", z3.BoolVal(out.ok))
            if out.ok:
                g = lambda k: M.getitem(e, out.value, k)
                e.prove("the session", zb(M.eq(e, g("sid"), sid)))
                e.prove("the kind", zb(M.eq(e, g("token_class"), kind)))
                life, exp = e.int_term(h.fields["lifetime"]), e.force(g("exp"))
                e.prove("the expiry", If(life >= 0, e.str_term(exp) == e.str_term(M.to_str(e, SInt(e.ghost["now"].t + life))), e.str_term(exp) == S("-1")))
            e.cover("decoded")

    @contract("C08", f"a value of another kind is not an opaque {kind}", D + ".info", note="the handlers may even share the key")
    def _(e, kind=kind):
        other = [k for k in KINDS if k != kind][e.choose(2)]
        h, h2 = handler(e, kind), handler(e, other, "there")
        if e.choose(2):
            h2.fields["crypt"] = h.fields["crypt"]
        else:
            e.assume(key(e, h) != key(e, h2))
        t = minted(e, h2, e.inp("sid", STR))
        out = execute(e, D + ".info", h, t)
        e.prove("refused", z3.BoolVal(out.raised(WrongTokenClass) or out.raised(UnknownToken)))
        e.cover("refused")

    @contract("C08", f"only what was sealed under the handler's key decodes as an opaque {kind}", D + ".info", callees={U + "lv_unpack": unpacked, "oidcop.token:lv_unpack": unpacked})
    def _(e, kind=kind):
        h, t = handler(e, kind), e.inp("string", STR)
        out = execute(e, D + ".info", h, t)
        if out.ok:
            authentic(e, key(e, h), t)
            r = e.ghost["read"]
            e.prove("its kind is the handler's", Or(*[r[1].t == S(x) for x in (kind, h.fields["alt_token_name"])]) if len(r) > 1 else z3.BoolVal(False))
            if "sid" in out.value.items:
                e.prove("its session is the sealed one", zb(M.eq(e, M.getitem(e, out.value, "sid"), r[2])))
            e.cover("decoded")
        else:
            e.cover("refused")


# ------------------------------------------------------------ tokens that are JWTs
from oidcop.exception import ToOld
from oidcop.token.jwt_token import JWTToken
from oidcop.token.id_token import IDToken as IDHandler
from cryptojwt.jws.exception import JWSException, NoSuitableSigningKeys
from cryptojwt.exception import BadSignature, Invalid, MissingKey

J = "oidcop.token.jwt_token:JWTToken"
I = "oidcop.token.id_token:IDToken"
CLAIMS = DictOf(ANY, {"iss": STR, "sid": STR, "token_class": STR, "ttype": STR, "exp": INT, "aud": ListOf(STR)})
LETTER = {"authorization_code": "A", "access_token": "T", "refresh_token": "R", "id_token": "I"}


class JwtWorld:
    def __init__(self, e, cls, **fields):
        self.now = now(e)
        self.issuer, self.alg = e.inp("issuer", STR), e.inp("alg", STR)
        self.keyjar = Opaque("keyjar")
        self.cdb = e.inp("cdb", DictOf(DictOf(ANY, CLIENT_KEYS)))
        self.ctx = sym_obj(e, EndpointContext, "context", keyjar=self.keyjar, issuer=self.issuer, cdb=self.cdb)
        self.handler = sym_obj(e, cls, "handler", issuer=self.issuer, alg=self.alg, lifetime=e.inp("lifetime", INT),
                               server_get=NativeFn(lambda e, *a: self.ctx, "server_get"), **fields)
        self.is_signed, self.payload, self.packs, self.asked, self.algs = None, None, [], [], None
        e.ghost["w"] = self


def jws_factory(e, bound):
    """cryptojwt.jws.jws.factory: the JWS which a string is (with whatever payload it has), or None"""
    w = e.ghost["w"]
    L.trust(e, "cryptojwt.jws.jws.factory answers None for what is no JWS")
    w.asked.append(bound["token"])
    w.is_signed = e.choose(2) == 1
    if not w.is_signed:
        return None
    o = Opaque("jws")
    w.unverified = e.inp("unverified", CLAIMS)
    inner = Opaque("jwt")
    inner.attrs = {"payload": NativeFn(lambda e: w.unverified, "payload")}
    o.attrs = {"jwt": inner}
    return o


def jwt(e, bound):
    """cryptojwt JWT: unpack returns only claims signed with a key of their issuer, or those of a JWE without a signature; pack signs"""
    w = e.ghost["w"]
    kw = bound["kwargs"]
    L.trust(e, "cryptojwt.jwt.JWT.unpack returns, for a JWS, only claims whose signature verifies under a key held for their issuer, with one of the allowed "
               "algorithms; JWT.pack signs the payload given with iss and exp as set by it")
    e.prove("this server's key jar is used", z3.BoolVal(kw.get("key_jar") is w.keyjar))
    w.config = kw

    def unpack(e, token):
        w.verified = token
        k = e.choose(5)
        if k:
            raise PyRaise(Obj([BadSignature, MissingKey, NoSuitableSigningKeys, KeyError][k - 1], {"args": ()}))
        w.payload = e.inp("claims", CLAIMS)
        e.assume(And(w.payload.ref != w.cdb.ref))
        return w.payload

    def pack(e, payload=None, **k):
        w.packs.append((payload, k))
        if e.choose(2):
            raise PyRaise(Obj(NoSuitableSigningKeys, {"args": ()}))
        return L.fresh_random(e, "jwt")
    return sym_obj(e, object, "jwt", unpack=NativeFn(unpack, "unpack"), pack=NativeFn(pack, "pack"))


JWTS = {"cryptojwt.jws.jws:factory": jws_factory, "cryptojwt.jwt:JWT": jwt}


def text_of(e, p, k):
    return Val.sv(raw(e, p, k))


for kind in KINDS:
    @contract("C08", f"a JWT states its session and kind ({kind})", J + ".__call__", callees=JWTS)
    def _(e, kind=kind):
        w = JwtWorld(e, JWTToken, token_class=kind, alt_token_name=LETTER[kind])
        sid = e.inp("sid", STR)
        extra = e.inp("extra_sid", STR)
        kw = [{}, {"token_class": kind}, {"usage_rules": e.born(Dict({"expires_in": e.inp("expires_in", INT)}))}, {"sub": e.inp("sub", STR)}][e.choose(4)]
        r = execute(e, J + ".__call__", w.handler, session_id=sid, **kw)
        if r.ok:
            e.prove("one JWT is signed", z3.BoolVal(len(w.packs) == 1))
            p = w.packs[0][0]
            e.prove("its session is the one it is minted for", And(has(e, p, "sid"), raw(e, p, "sid") == Val.s(sid.t)))
            e.prove("its kind is the handler's", raw(e, p, "token_class") == Val.s(S(kind)))
            e.prove("its issuer is this server", zb(M.eq(e, w.config["iss"], w.issuer)))
            life = w.config["lifetime"]
            e.prove("its lifetime is the configured one", zb(M.eq(e, life, M.getitem(e, kw["usage_rules"], "expires_in") if "usage_rules" in kw else w.handler.fields["lifetime"])))
            e.cover("signed")

    @contract("C08", f"a JWT decodes only if this server signed it, as its own kind ({kind})", J + ".info", callees=JWTS)
    def _(e, kind=kind):
        w = JwtWorld(e, JWTToken, token_class=kind, alt_token_name=LETTER[kind])
        t = e.inp("token", STR)
        r = execute(e, J + ".info", w.handler, t)
        if not r.ok:
            e.cover("refused")
            return
        p = w.payload
        e.prove("it is a JWS", z3.BoolVal(w.is_signed is True and len(w.asked) > 0))
        e.prove("the string presented is what was verified", And(*[zb(M.eq(e, x, t)) for x in w.asked + [w.verified]]))
        e.prove("with the server's algorithm only", z3.BoolVal(M.concrete_items(e, w.config["allowed_sign_algs"]) is not None and M.concrete_items(e, w.config["allowed_sign_algs"]) == [w.alg]))
        e.prove("its issuer is this server", And(has(e, p, "iss"), text_of(e, p, "iss") == w.issuer.t))
        tt, tc = has(e, p, "ttype"), has(e, p, "token_class")
        own = lambda k: Or(text_of(e, p, k) == S(kind), text_of(e, p, k) == S(LETTER[kind]))
        e.prove("its kind is the handler's", If(tt, own("ttype"), And(tc, own("token_class"))))
        e.prove("it has not expired", And(has(e, p, "exp"), Or(ival(e, p, "exp") < 0, ival(e, p, "exp") >= w.now)))
        g = lambda k: M.getitem(e, r.value, k)
        e.prove("the session answered is the one it states", e.enc(g("sid")) == raw(e, p, "sid"))
        e.prove("the kind answered is the handler's", zb(M.eq(e, g("token_class"), kind)))
        e.cover("decoded")


@contract("C08", "an ID token decodes only if this server signed it, and never another kind of token as one", I + ".info", callees={
    **JWTS, "oidcop.token.id_token:get_sign_and_encrypt_algorithms": lambda e, b_: algorithms(e, b_)})
def id_token(e):
    w = JwtWorld(e, IDHandler, token_class="id_token", alt_token_name="I")
    t = e.inp("token", STR)
    r = execute(e, I + ".info", w.handler, t)
    if not r.ok:
        e.cover("refused")
        return
    p = w.payload
    e.prove("it is a JWS", z3.BoolVal(w.is_signed is True))
    e.prove("the string presented is what was verified", And(*[zb(M.eq(e, x, t)) for x in w.asked + [w.verified]]))
    e.prove("with the algorithm the client's ID tokens are signed with", z3.BoolVal(w.config.get("allowed_sign_algs") is w.algs and w.algs is not None))
    e.prove("its issuer is this server", And(has(e, p, "iss"), text_of(e, p, "iss") == w.issuer.t))
    e.prove("it is not labelled as another kind", And(Not(has(e, p, "token_class")), Not(has(e, p, "ttype"))))
    e.prove("it has not expired", And(has(e, p, "exp"), Or(ival(e, p, "exp") < 0, ival(e, p, "exp") >= w.now)))
    e.prove("the session answered is the one it states", If(has(e, p, "sid"), e.enc(M.getitem(e, r.value, "sid")) == raw(e, p, "sid"),
                                                            zb(M.eq(e, M.getitem(e, r.value, "sid"), ""))))
    e.cover("decoded")


def algorithms(e, bound):
    """get_sign_and_encrypt_algorithms: the algorithms this client's ID tokens are signed with"""
    w = e.ghost["w"]
    e.prove("asked for the ID tokens of a registered client", And(zb(M.eq(e, bound["payload_type"], "id_token")), z3.BoolVal(bound["sign"] is True)))
    w.algs = e.inp("sign_alg", STR)
    return e.born(Dict({"sign_alg": w.algs}))


# ------------------------------------------------------------ the handlers together
TH = "oidcop.token.handler:TokenHandler"


@contract("C08", "the handler answering for a token is the first to recognise it", TH + ".get_handler")
def first(e):
    order = ["authorization_code", "access_token", "refresh_token", "id_token"]
    excs = [KeyError, IndexError, TypeError, ValueError, AttributeError, UnknownToken, WrongTokenClass, BadSignature]
    asked, who, t = [], [], e.inp("token", STR)

    def info(k):
        def f(e, token):
            asked.append(k)
            e.prove("the token presented is the one asked about", zb(M.eq(e, token, t)))
            c = e.choose(3) if len(asked) < 3 else e.choose(2)
            if c:
                raise PyRaise(Obj(excs[(len(asked) * 3 + c) % len(excs)], {"args": ()}))
            who.append(k)
            return e.born(Dict({"sid": SStr(e.const("sid_" + k, StrS)), "token_class": k}))
        return NativeFn(f, "info")
    hs = {k: sym_obj(e, object, k, info=info(k)) for k in order}
    th = sym_obj(e, TokenHandler, "handlers", handler=e.born(Dict(dict(hs))), handler_order=e.born(List(list(order))))
    which = e.choose(3)
    sub = order if which == 0 else [order[e.choose(4)]] if which == 1 else ["refresh_token", "access_token"]
    r = execute(e, TH + ".get_handler", th, t, *([] if which == 0 else [e.born(List(list(sub)))]))
    e.prove("no refusal by a handler escapes", z3.BoolVal(r.ok))
    if not r.ok:
        return
    e.prove("they are asked in order, until one answers", z3.BoolVal(asked == sub[:len(asked)] and (len(who) == 1 and asked[-1] == who[0] or not who and asked == sub)))
    h, i = r.value
    h, i = e.force(h), e.force(i)
    e.prove("the first that answers", z3.BoolVal(h is None and i is None if not who else h is hs[who[0]] and i is not None and i.items["token_class"] == who[0]))
    e.cover("none") if not who else e.cover("one")


@contract("C08", "what no handler recognises is an unknown token", TH + ".info", callees={TH + ".get_handler": lambda e, bnd: e.ghost["answer"]})
def unknown(e):
    th, t = sym_obj(e, TokenHandler, "handlers"), e.inp("token", STR)
    i = e.born(Dict({"sid": e.inp("sid", STR), "token_class": e.inp("token_class", STR)}))
    known = e.choose(2)
    e.ghost["answer"] = (sym_obj(e, object, "handler"), i) if known else (None, None)
    f = ["info", "sid", "token_class"][e.choose(3)]
    r = execute(e, TH + "." + f, th, t)
    if known:
        e.prove("what the handler said", z3.BoolVal(r.ok and e.force(r.value) is (i if f == "info" else i.items[f])))
        e.cover("known")
    else:
        e.prove("refused", z3.BoolVal(r.raised(UnknownToken)))
        e.cover("unknown")


@contract("C08", "a token's session is the one it decodes to", SM + ".get_session_info_by_token",
          callees={TH + ".info": lambda e, bnd: e.ghost["info"](e, bnd), SM + ".get_session_info": lambda e, bnd: e.ghost["got"].append(bnd) or e.ghost["session"],
                   SM + "._compatible_sid": lambda e, bnd: bnd["sid"]})
def by_token(e):
    t, sid = e.inp("token", STR), e.inp("sid", STR)

    def info(e, bnd):
        e.prove("the token presented is the one decoded", zb(M.eq(e, bnd["item"], t)))
        if e.choose(2):
            raise PyRaise(Obj(UnknownToken, {"args": ()}))
        return e.born(Dict({"sid": sid, "token_class": e.inp("token_class", STR)} if e.choose(2) else {"token_class": e.inp("token_class", STR)}))
    e.ghost.update(info=info, got=[], session=e.born(Dict({"session_id": sid})))
    sm = sym_obj(e, SessionManager, "manager", token_handler=sym_obj(e, TokenHandler, "handlers"))
    r = execute(e, SM + ".get_session_info_by_token", sm, token_value=t, grant=e.choose(2) == 1)
    if r.ok:
        e.prove("the session looked up is the token's", z3.BoolVal(len(e.ghost["got"]) == 1) if len(e.ghost["got"]) != 1 else zb(M.eq(e, e.ghost["got"][0]["session_id"], sid)))
        e.prove("and it is the answer", z3.BoolVal(e.force(r.value) is e.ghost["session"]))
        e.cover("found")
    else:
        e.cover("refused")
