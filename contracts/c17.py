"""C17: client registration."""
from .lib import *
from pyvc import libmodels as L
from oidcmsg.message import Message
from oidcmsg.oauth2 import ResponseMessage
from oidcmsg.oidc import RegistrationRequest
from oidcop.endpoint_context import EndpointContext
from oidcop.exception import CapabilitiesMisMatch, InvalidRedirectURIError
from oidcop.oidc import registration as RG
from oidcop.oidc.registration import Registration

P = "oidcop.oidc.registration:"
R = P + "Registration"
URIS = DictOf(ANY, {"redirect_uris": ListOf(STR), "application_type": STR, "response_types": ListOf(STR)}, cls=RegistrationRequest)


def admissible(e, req, u):
    """the rule for one redirect URI"""
    sch, host = L.URL["scheme"](u), L.URL["hostname"](u)
    native = And(has(e, req, "application_type"), raw(e, req, "application_type") == Val.s(S("native")))
    local = And(sch == S("http"), L.URL_HOST(u), Or(host == S("localhost"), host == S("127.0.0.1")))
    custom = And(sch != S(""), sch != S("http"), sch != S("https"))
    rt = e.dec(raw(e, req, "response_types"), ListOf(STR))
    only_code = And(has(e, req, "response_types"), M.llen(e, rt) == 1, Select(M.lel(e, rt), 0) == Val.s(S("code")))
    other = Or(sch == S("https"), And(sch == S("http"), only_code))
    web = Or(Not(has(e, req, "application_type")), raw(e, req, "application_type") == Val.s(S("web")))
    return And(Not(z3.Contains(u, S("#"))), If(native, Or(custom, local), If(web, other, Or(sch == S("https"), sch == S("http")))))


def redirect_inv(e, Lp):
    req, us = e.ghost["req"], e.ghost["uris"]
    if Lp.idx is None:
        return
    i = z3.Int("i?")
    yield "admissible so far", ForAll([i], Implies(And(i >= 0, i < Lp.idx), admissible(e, req, Val.sv(Select(us, i)))))


@contract("C17", "redirect URIs satisfy the rules for the type of application", R + ".verify_redirect_uris", inv=redirect_inv)
def redirects(e):
    req = e.ghost["req"] = e.inp("request", URIS)
    e.assume(has(e, req, "redirect_uris"))
    l = e.dec(raw(e, req, "redirect_uris"), ListOf(STR))
    e.ghost["uris"] = M.lel(e, l)
    n = M.llen(e, l)
    r = execute(e, R + ".verify_redirect_uris", req)
    if not r.ok:
        e.cover("refused")
        return
    i = z3.Int("i?")
    e.prove("every one is admissible", ForAll([i], Implies(And(i >= 0, i < n), admissible(e, req, Val.sv(Select(e.ghost["uris"], i))))))
    e.cover("accepted")


# ---------------------------------------------------------------- capabilities
SUPPORTED = {
    "request_object_signing_alg": "request_object_signing_alg_values_supported",
    "request_object_encryption_alg": "request_object_encryption_alg_values_supported",
    "request_object_encryption_enc": "request_object_encryption_enc_values_supported",
    "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
    "userinfo_encrypted_response_alg": "userinfo_encryption_alg_values_supported",
    "userinfo_encrypted_response_enc": "userinfo_encryption_enc_values_supported",
    "id_token_signed_response_alg": "id_token_signing_alg_values_supported",
    "id_token_encrypted_response_alg": "id_token_encryption_alg_values_supported",
    "id_token_encrypted_response_enc": "id_token_encryption_enc_values_supported",
    "default_acr_values": "acr_values_supported",
    "subject_type": "subject_types_supported",
    "token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
    "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported",
    "response_types": "response_types_supported",
    "grant_types": "grant_types_supported",
}
SPACED = ["response_types", "default_acr_values"]
SAME_WORDS = z3.Function("each is listed, words in any order", Val, Val, BoolS)


def sp_sep(e, bound):
    """match_sp_sep (contract below)"""
    return SBool(SAME_WORDS(e.enc(bound["first"]), e.enc(bound["second"])))


def fits(e, key, v, sup):
    """value v (str or list of str) of parameter key is covered by the list of supported values"""
    i, j = z3.Ints("i? j?")
    vl, sl = (lambda r: (Select(e.ghost["h0"]["LLEN"], r), Select(e.ghost["h0"]["LEL"], r)))(Val.rv(v)), (
        Select(e.ghost["h0"]["LLEN"], Val.rv(sup)), Select(e.ghost["h0"]["LEL"], Val.rv(sup)))
    listed = lambda x: Exists([j], And(j >= 0, j < sl[0], Select(sl[1], j) == x))
    plain = If(Val.is_s(v), listed(v), ForAll([i], Implies(And(i >= 0, i < vl[0]), listed(Select(vl[1], i)))))
    return If(Or(*[key == S(k) for k in SPACED]), SAME_WORDS(v, sup), plain)


def caps_inv(e, Lp):
    g = e.ghost["caps"]
    if Lp.visited is None:
        return
    k = z3.String("k?")
    yield "all so far are supported", ForAll([k], Implies(Select(Lp.visited, k), g(k)))


def caps_world(e):
    req = e.inp("request", DictOf(Union(STR, ListOf(STR)), cls=RegistrationRequest))
    info = e.inp("provider_info", DictOf(ListOf(STR)))
    e.assume(req.ref != info.ref)
    ctx = sym_obj(e, EndpointContext, "context", provider_info=info)
    reg = sym_obj(e, Registration, "registration", server_get=NativeFn(lambda e, *a: ctx, "server_get"))
    for c in ("LLEN", "LEL", "DDOM", "DVAL"):
        e.comp(c)
    e.ghost["h0"] = dict(e.heap)
    return req, info, reg


@contract("C17", "every requested capability is checked against its list", R + ".match_client_request", inv=caps_inv, callees={P + "match_sp_sep": sp_sep})
def capabilities(e):
    req, info, reg = caps_world(e)
    table = e.inp("PREFERENCE2PROVIDER", DictOf(STR))
    e.assume(And(table.ref != req.ref, table.ref != info.ref))
    e.ghost["globals"] = {("oidcop.oidc.registration", "PREFERENCE2PROVIDER"): table}
    e.ghost["h0"] = dict(e.heap)
    rd, rv, pd, pv, td, tv = M.ddom(e, req), M.dval(e, req), M.ddom(e, info), M.dval(e, info), M.ddom(e, table), M.dval(e, table)
    g = e.ghost["caps"] = lambda k: Implies(Select(rd, k), fits(e, k, Select(rv, k), Select(pv, Val.sv(Select(tv, k)))))
    r = execute(e, R + ".match_client_request", reg, req)
    if not r.ok:
        e.cover("refused")
        return
    k = z3.String("k?")
    e.prove("all are supported", ForAll([k], Implies(Select(td, k), g(k))))
    e.cover("accepted")


def one_capability(lo, hi):
    def f(e):
        req, info, reg = caps_world(e)
        names = sorted(SUPPORTED)[lo:hi]
        name = names[e.choose(len(names))]
        v = [e.inp("value", STR), e.inp("values", ListOf(STR))][e.choose(2)]
        req = e.born(Dict({name: v}, cls=RegistrationRequest))
        e.ghost["h0"] = dict(e.heap)
        ok = fits(e, S(name), e.enc(v), Select(M.dval(e, info), S(SUPPORTED[name])))
        r = execute(e, R + ".match_client_request", reg, req)
        if r.ok:
            e.prove("%s is one of those the server supports" % name, And(Select(M.ddom(e, info), S(SUPPORTED[name])), ok))
        else:
            e.prove("refused only when it is not", Or(Not(Select(M.ddom(e, info), S(SUPPORTED[name]))), Not(ok)))
    return f


for lo in range(0, 15, 3):
    contract("C17", "each capability has its own list (%d)" % (lo // 3 + 1), R + ".match_client_request", callees={P + "match_sp_sep": sp_sep})(one_capability(lo, lo + 3))


# ---------------------------------------------------------------- who is registered
CINFO = DictOf(ANY)


class RegWorld:
    def __init__(self, e, new_id=True):
        self.cdb = e.inp("cdb", DictOf(CINFO))
        self.rat = e.inp("registration_access_token", DictOf(STR))
        e.assume(self.cdb.ref != self.rat.ref)
        self.jar = Opaque("key jar")
        self.jar.attrs = {"add_symmetric": NativeFn(lambda e, *a, **k: None, "add_symmetric")}
        self.ctx = sym_obj(e, EndpointContext, "context", cdb=self.cdb, registration_access_token=self.rat, keyjar=self.jar)
        self.read = [None, True][e.choose(2)]
        ep = Opaque("registration_read")
        ep.attrs = {"full_path": e.inp("full_path", STR)}
        self.eps = e.born(Dict({"registration_read": ep}))
        self.reg = sym_obj(e, Registration, "registration", server_get=NativeFn(self.get, "server_get"), seed=e.inp("seed", BYTES),
                           kwargs=e.born(Dict({})))
        self.req = e.inp("request", DictOf(ANY, {"client_id": STR}, cls=RegistrationRequest))
        e.assume(And(self.req.ref != self.cdb.ref, self.req.ref != self.rat.ref))
        for c in ("DDOM", "DVAL"):
            e.comp(c)
        self.cd, self.cv, self.rd, self.rv = M.ddom(e, self.cdb), M.dval(e, self.cdb), M.ddom(e, self.rat), M.dval(e, self.rat)
        self.cid = None
        e.ghost["w"] = self

    def get(self, e, what, *a):
        return {"endpoint_context": self.ctx, "endpoints": self.eps, "endpoint": self.read}[what]

    def same(self, e):
        return And(same_dict(e, self.cdb, self.cd, self.cv))


def verify_request(e, bound):
    if e.choose(2):
        from oidcmsg.exception import MessageException
        raise PyRaise(Obj([MessageException, ValueError][e.choose(2)], {"args": ("x", e.inp("why", STR))}))
    return True


def matched(e, bound):
    if e.choose(2):
        raise PyRaise(Obj(CapabilitiesMisMatch, {"args": ("x",)}))


def new_id(e, bound):
    """random_client_id (contract below): not one of the reserved"""
    c = e.inp("client_id", STR)
    e.assume(And(z3.Length(c.t) > 0, Not(zb(M.contains(e, bound["reserved"], c)))))
    e.ghost["w"].cid = c
    return c


def completed(e, bound):
    """do_client_registration (contract below): the client's metadata or an error; the database as it was"""
    w = e.ghost["w"]
    w.done = bound["client_id"]
    k = e.choose(3)
    if k == 1:
        return e.born(Dict({"error": "invalid_redirect_uri"}, cls=ResponseMessage))
    if k == 2:
        raise PyRaise(Obj([ValueError, KeyError, InvalidRedirectURIError][e.choose(3)], {"args": ("x",)}))
    return e.born(Dict({"client_id": M.getitem(e, M.getitem(e, w.cdb, bound["client_id"]), "client_id"), "client_salt": "x"}))


WHO = {"oidcmsg.oidc:RegistrationRequest.verify": verify_request, "oidcmsg.message:Message.rm_blanks": lambda e, b: None, R + ".match_client_request": matched,
       P + "random_client_id": new_id, R + ".do_client_registration": completed, P + "secret": lambda e, b: e.inp("secret", STR)}


@contract("C17", "a registration adds one new client or changes nothing", R + ".client_registration_setup", callees=WHO)
def registered(e):
    w = RegWorld(e)
    e.ghost["now"] = e.inp("now", INT)
    r = execute(e, R + ".client_registration_setup", w.reg, w.req)
    if not r.ok or e.branch(zb(M.contains(e, r.value, "error"))):
        x, y = e.inp("x", STR).t, e.inp("y", STR).t
        now, val = Select(M.ddom(e, w.cdb), x), Select(M.dval(e, w.cdb), x)
        e.prove("refused: no client is added or removed", now == Select(w.cd, x))
        e.prove("refused: the clients are as before", Implies(now, val == Select(w.cv, x)))
        e.prove("refused: nor is there a new access token", Implies(Select(M.ddom(e, w.rat), y), Select(w.rd, y)))
        e.cover("refused")
        return
    c = e.str_term(M.getitem(e, r.value, "client_id"))
    e.prove("the identifier was not in use", Not(Select(w.cd, c)))
    e.prove("the client is registered", Select(M.ddom(e, w.cdb), c))
    x = e.inp("x", STR).t
    e.prove("the other clients are as before", Implies(x != c, And(
        Select(M.ddom(e, w.cdb), x) == Select(w.cd, x), Select(M.dval(e, w.cdb), x) == Select(w.cv, x))))
    e.cover("registered")


def id_inv(e, Lp):
    v = Lp.frame.locals.get("client_id")
    if isinstance(v, (SStr, SVal)):
        yield "not empty", z3.Length(e.str_term(v)) > 0


@contract("C17", "a generated client identifier is not one in use", P + "random_client_id", inv=id_inv)
def fresh_id(e):
    cdb = e.inp("cdb", DictOf(CINFO))
    keys = e.interp.call(e.interp.getattr(cdb, "keys"), [], {}) if e.choose(2) else e.inp("reserved", ListOf(STR))
    r = execute(e, P + "random_client_id", reserved=keys)
    e.prove("it is made", r.ok)
    e.prove("it is not reserved", Not(zb(M.contains(e, keys, r.value))))
    e.prove("it is not empty", z3.Length(e.str_term(r.value)) > 0)


# ---------------------------------------------------------------- what is stored for it
class DoWorld(RegWorld):
    def __init__(self, e):
        super().__init__(e)
        req = self.req = e.inp("metadata", DictOf(ANY, {
            "redirect_uris": ListOf(STR), "post_logout_redirect_uri": STR, "request_uris": ListOf(STR), "id_token_signed_response_alg": STR,
            "userinfo_signed_response_alg": STR, "policy_uri": STR, "logo_uri": STR, "tos_uri": STR, "jwks_uri": STR, "jwks": ANY,
            "sector_identifier_uri": STR}, cls=RegistrationRequest))
        e.assume(And(req.ref != self.cdb.ref, req.ref != self.rat.ref))
        self.client = e.inp("client", STR)
        e.assume(Select(self.cd, self.client.t))
        self.info = e.inp("provider_info", DictOf(ListOf(STR)))
        self.ctx.fields.update(provider_info=self.info, issuer=e.inp("issuer", STR))
        self.jar.attrs.update({"load_keys": NativeFn(lambda e, *a, **k: None, "load_keys"), "get": NativeFn(lambda e, *a, **k: e.born(List([])), "get"),
                               "get_signing_key": NativeFn(lambda e, *a, **k: e.inp("keys", ListOf(STR)), "get_signing_key")})
        self.accepted = None
        for c in ("LLEN", "LEL", "DDOM", "DVAL"):
            e.comp(c)
        self.h0 = dict(e.heap)


def verified(e, bound):
    """verify_redirect_uris (contract above)"""
    w = e.ghost["w"]
    if e.choose(2):
        raise PyRaise(Obj(InvalidRedirectURIError, {"args": ("x",)}))
    e.prove("the redirect URIs checked are the ones asked for", bound["registration_request"] is w.req)
    w.accepted = e.inp("verified", ListOf(ANY))
    return w.accepted


def do_inv(e, Lp):
    w = e.ghost["w"]
    yield "the clients' entries", And(M.ddom(e, w.cdb) == w.cd, M.dval(e, w.cdb) == w.cv)


SECTOR = lambda e, b: (e.inp("si", ListOf(STR)), e.inp("si_url", STR))
DO = {R + ".verify_redirect_uris": verified, P + "verify_url": lambda e, b: e.sbool("same host"), "oidcop.util:split_uri": lambda e, b: (e.inp("base", STR), e.inp("query", Opt(DictOf(ANY)))),
      R + "._verify_sector_identifier": SECTOR, "cryptojwt.jws.utils:alg2keytype": lambda e, b: e.inp("key_type", STR)}


OPTIONAL = [["post_logout_redirect_uri", "request_uris", "sector_identifier_uri"], ["policy_uri", "logo_uri", "tos_uri"],
            ["id_token_signed_response_alg", "userinfo_signed_response_alg"], ["jwks_uri", "jwks"]]


def storing(group):
    def f(e):
        w = DoWorld(e)
        for g in OPTIONAL:
            if g is not group:
                for k in g:
                    e.assume(Not(has(e, w.req, k)))
        stored(e, w)
    return f


def stored(e, w):
    had = e.branch(has(e, w.req, "redirect_uris"))
    r = execute(e, R + ".do_client_registration", w.reg, w.req, w.client, e.born(List(["redirect_uris", "policy_uri", "logo_uri", "tos_uri"])))
    x = e.inp("x", STR).t
    e.prove("no client is added or removed", Select(M.ddom(e, w.cdb), x) == Select(w.cd, x))
    e.prove("nor its entry replaced", Select(M.dval(e, w.cdb), x) == Select(w.cv, x))
    if not r.ok or is_error_dict(e, r.value):
        e.cover("refused")
        return
    if had:
        e.prove("stored only with redirect URIs that were verified", w.accepted is not None)
        if w.accepted is not None:
            e.prove("and those are stored", And(has(e, r.value, "redirect_uris"), raw(e, r.value, "redirect_uris") == e.enc(w.accepted)))
    e.cover("stored")


def is_error_dict(e, v):
    v = e.force(v)
    return isinstance(v, Dict) and getattr(v, "cls", None) is not None and v.cls is not dict


for g in OPTIONAL:
    contract("C17", "metadata is stored only with admissible redirect URIs (%s)" % ", ".join(g), R + ".do_client_registration", callees=DO, inv=do_inv,
             note="requests with parameters of one group at a time: other groups absent")(storing(g))
