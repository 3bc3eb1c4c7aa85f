"""C09: redirect URIs: verify_uri and get_uri, and that the endpoints use what they verified."""
from .world import *
from pyvc import libmodels as LM
from oidcop.endpoint_context import EndpointContext

A = "oidcop.oauth2.authorization"
TYPES = ["redirect_uri", "post_logout_redirect_uri"]
QUERY = DictOf(ListOf(STR))
ITEM = Union(STR, TupleOf(STR, Union(NONEK, QUERY)))
CLIENT = DictOf(ANY, {"redirect_uris": ListOf(ITEM), "post_logout_redirect_uris": ListOf(ITEM), "request_uris": ListOf(ITEM)})


class UriWorld:
    def __init__(self, e):
        self.e = e
        self.cdb = e.inp("cdb", DictOf(CLIENT))
        self.ctx = sym_obj(e, EndpointContext, cdb=self.cdb)
        self.before = None

    def registered(self, cid, typ):
        """the list registered by that client for that type of URI: (present, list)"""
        e = self.e
        ci = Select(M.dval(e, self.cdb), cid)
        d = Dict(ref=Val.rv(ci), kind=CLIENT)
        r = Select(M.dval(e, d), S(typ + "s"))
        return And(Select(M.ddom(e, self.cdb), cid), has(e, d, typ + "s")), List(ref=Val.rv(r), kind=ITEM)


def members(e, ref):
    return Select(e.comp("LLEN"), ref), Select(e.comp("LEL"), ref)


def subset(e, a, b):
    """every element of the list with reference a is an element of the one with reference b"""
    j, i = z3.Int("j?"), z3.Int("i?")
    (na, ea), (nb, eb) = members(e, a), members(e, b)
    return ForAll([j], Implies(And(j >= 0, j < na), Exists([i], And(i >= 0, i < nb, Select(ea, j) == Select(eb, i)))))


def covers(e, dom, d, o):
    """every parameter (in dom) of the query d, with each of its values, is one of o"""
    k = z3.Const("k?", StrS)
    (dd, vd), (do, vo) = d, o
    return ForAll([k], Implies(And(Select(dom, k), Select(dd, k)), And(Select(do, k), subset(e, Val.rv(Select(vd, k)), Val.rv(Select(vo, k))))))


def parts(e, d):
    return M.ddom(e, d), M.dval(e, d)


def as_query(e, v):
    """v as a dictionary of lists, when it is one"""
    if isinstance(v, SVal) and isinstance(v.kind, (Union, Opt)) and any(isinstance(k, DictOf) for k in e.kind_options(v.kind)):
        return Dict(ref=Val.rv(v.t), kind=QUERY)
    if isinstance(v, Dict) and not v.native and v.cls is None and isinstance(v.kind.k, ListOf):
        return v


def inv(e, L):
    cand = [d for d in [as_query(e, v) for v in L.frame.locals.values()] if d is not None] + [q[2] for q in e.ghost.get("parsed_qs", [])]
    if L.idx is not None and L.src.kind is ITEM:
        e.ghost["witness"] = L.idx
    refs = {d.ref.get_id(): d for d in cand}
    src = L.src
    if L.visited is not None:
        s = (Select(e.comp("DDOM"), src.ref), Select(e.comp("DVAL"), src.ref))
        for n, d in refs.items():
            if n != src.ref.get_id():
                yield f"visited parameters are in {d.ref}", covers(e, L.visited, s, parts(e, d))
    elif L.idx is not None:
        j, i = z3.Int("j?"), z3.Int("i?")
        ea = Select(e.comp("LEL"), src.ref)
        for name, v in L.frame.locals.items():
            if isinstance(v, SStr) and z3.is_const(v.t) and not any(v is x for x in e.inputs.values()):
                for d in refs.values():
                    nb, eb = members(e, Val.rv(Select(M.dval(e, d), v.t)))
                    yield f"visited values are in {d.ref}[{name}]", ForAll([j], Implies(And(j >= 0, j < L.idx), Exists([i], And(
                        i >= 0, i < nb, Select(ea, j) == Select(eb, i)))))


def accepted(e, w, cid, typ, uri):
    """the statement: uri is one the client registered for this purpose"""
    dec = LM.UNQUOTE(uri)
    u = lambda n: LM.URL[n](dec)
    base = LM.UNSPLIT(u("scheme"), u("netloc"), u("path"), S(""), S(""))
    present, reg = w.registered(cid, typ)
    yield "the client is known and has registered some", present
    yield "there is no fragment", And(u("fragment") == S(""), Not(z3.Contains(dec, S("#"))))
    yield "nothing is stripped when it is split", And(z3.Function("str_isprintable", StrS, BoolS)(dec), Not(z3.PrefixOf(S(" "), dec)))
    i = z3.Int("i?")
    n, el = M.llen(e, reg), M.lel(e, reg)

    def match(i):
        x = Select(el, i)
        it = SVal(x, ITEM)
        t = tuple_parts(e, x)
        same_base = If(Val.is_s(x), Val.sv(x) == base, Val.sv(t[0]) == base)
        q = e.ghost.get("parsed_qs", [])
        rq = t[1]
        no_rq = Or(Val.is_s(x), Not(Val.is_r(rq)), dict_empty(e, Val.rv(rq)))
        if q:
            text, keep, d = q[-1]
            mine = parts(e, d)
            reg_ = (Select(e.comp("DDOM"), Val.rv(rq)), Select(e.comp("DVAL"), Val.rv(rq)))
            full = z3.K(StrS, z3.BoolVal(True))
            none = no_keys(mine[0])
            same = Or(And(no_rq, none), And(Not(Val.is_s(x)), Val.is_r(rq), covers(e, full, mine, reg_), covers(e, full, reg_, mine)))
            return And(same_base, same, text == u("query"), z3.BoolVal(keep))
        return And(same_base, no_rq, u("query") == S(""))
    yield "it is a registered one: same base, same query parameters", (
        Exists([i], And(i >= 0, i < n, match(i))) if (w_ := e.ghost.get("witness")) is None else And(w_ >= 0, w_ < n, match(w_)))


def no_keys(dom):
    k = z3.Const("k?", StrS)
    return ForAll([k], Not(Select(dom, k)))


def dict_empty(e, ref):
    return no_keys(Select(e.comp("DDOM"), ref))


def tuple_parts(e, x):
    r = Val.rv(x)
    arr = Select(e.comp("LEL"), r)
    return Select(arr, 0), Select(arr, 1)


def request(e, typ, with_cid=True, with_uri=True):
    d = {}
    uri = e.inp("uri", STR)
    cid = e.inp("client_id", STR)
    if with_cid:
        d["client_id"] = cid
    if with_uri:
        d[typ] = uri
    return e.born(Dict(d)), cid, uri


def run_verify(e, typ, whose):
    """whose client: the one in the request, or the one the caller names"""
    w = UriWorld(e)
    h0 = dict(e.heap)
    req, cid, uri = request(e, typ, with_cid=whose != "argument")
    if whose == "request":
        who, r = cid, execute(e, A + ":verify_uri", w.ctx, req, typ)
    else:
        who = e.inp("named_client", STR)
        e.assume(who.t != S(""))
        r = execute(e, A + ":verify_uri", w.ctx, req, typ, client_id=who)
    if r.ok:
        for name, f in accepted(e, w, who.t, typ, uri.t):
            e.prove(name, f)
        e.cover("accepted")
    else:
        e.cover("refused")
    e.prove("nothing registered is changed", And(*[e.heap[c] == a for c, a in h0.items()]))


for typ in TYPES:
    for whose in ("request", "argument", "both"):
        contract("C09", f"verify_uri_{typ}_{whose}", A + ":verify_uri", inv=inv)(lambda e, typ=typ, whose=whose: run_verify(e, typ, whose))


# ---------------------------------------------------------------- the callers
def verify_uri(e, bound):
    """verify_uri (discharged above): accepted means registered by the client in question; else a failure."""
    from oidcmsg.exception import ParameterError, URIError
    from oidcop.exception import RedirectURIError, UnknownClient
    e.ghost.setdefault("verified", []).append((bound["endpoint_context"], M.getitem(e, bound["request"], bound["uri_type"]), bound["uri_type"],
                                               bound["client_id"] if bound["client_id"] is not None else M.getitem(e, bound["request"], "client_id")))
    if e.choose(2):
        raise PyRaise(Obj([RedirectURIError, URIError, ValueError, KeyError, UnknownClient][e.choose(5)], {"args": ("refused",)}))
    return None


def uri_facts(e, w, req, cid, typ, given, got):
    """got is the URI asked for, verified; or the only registered one"""
    ver = e.ghost.get("verified", [])
    if given is not None:
        yield "the URI asked for is the one used", e.str_term(got) == given.t
        yield "it was verified for this client and purpose", any(c is w.ctx and t == typ and z3.simplify(e.str_term(u)).eq(z3.simplify(given.t))
                                                                and z3.simplify(e.str_term(k)).eq(z3.simplify(cid.t)) for c, u, t, k in ver)
        return
    present, reg = w.registered(cid.t, typ)
    x = Select(M.lel(e, reg), 0)
    base, rq = tuple_parts(e, x)
    yield "the client registered exactly one", And(present, M.llen(e, reg) == 1)
    enc = e.ghost.get("urlencoded", [])
    if enc:
        q, doseq, s = enc[-1]
        yield "that one is used", And(e.str_term(got) == z3.Concat(Val.sv(base), S("?"), s), e.enc(q) == rq, z3.BoolVal(doseq is True))
    else:
        yield "that one is used", And(e.str_term(got) == Val.sv(base), Or(Not(Val.is_r(rq)), dict_empty(e, Val.rv(rq))))


PAIRS = ListOf(TupleOf(STR, Union(NONEK, QUERY)))


def get_uri(e, typ, given):
    w = UriWorld(e)
    h0 = dict(e.heap)
    req, cid, uri = request(e, typ, with_uri=given)
    r = execute(e, A + ":get_uri", w.ctx, req, typ)
    if r.ok:
        for name, f in uri_facts(e, w, req, cid, typ, uri if given else None, r.value):
            e.prove(name, f)
        e.cover("used")
    else:
        e.cover("refused")
    e.prove("nothing registered is changed", And(*[e.heap[c] == a for c, a in h0.items()]))


PAIR_CLIENT = DictOf(ANY, {"redirect_uris": PAIRS, "post_logout_redirect_uris": PAIRS, "request_uris": PAIRS})


class PairWorld(UriWorld):
    def __init__(self, e):
        self.e = e
        self.cdb = e.inp("cdb", DictOf(PAIR_CLIENT))
        self.ctx = sym_obj(e, EndpointContext, cdb=self.cdb)


def get_uri_default(e, typ):
    """no URI asked for; registered URIs are stored as pairs, as registration stores them"""
    w = PairWorld(e)
    h0 = dict(e.heap)
    req, cid, uri = request(e, typ, with_uri=False)
    r = execute(e, A + ":get_uri", w.ctx, req, typ)
    if r.ok:
        for name, f in uri_facts(e, w, req, cid, typ, None, r.value):
            e.prove(name, f)
        e.cover("used")
    else:
        e.cover("refused")
    e.prove("nothing registered is changed", And(*[e.heap[c] == a for c, a in h0.items()]))


for typ in TYPES:
    contract("C09", f"get_uri_{typ}", A + ":get_uri", callees={A + ":verify_uri": verify_uri})(lambda e, typ=typ: get_uri(e, typ, True))
    contract("C09", f"get_uri_default_{typ}", A + ":get_uri", callees={A + ":verify_uri": verify_uri})(lambda e, typ=typ: get_uri_default(e, typ))


# the authorization endpoint
from oidcmsg.oauth2 import AuthorizationErrorResponse, AuthorizationResponse as OAuth2Response  # noqa: E402
from oidcmsg.exception import ParameterError  # noqa: E402
from oidcop.exception import RedirectURIError, UnknownClient  # noqa: E402


def get_uri_contract(e, bound):
    """get_uri (discharged above): the verified URI for the request's client, or a failure."""
    if e.choose(2):
        raise PyRaise(Obj([RedirectURIError, ParameterError, ValueError, UnknownClient][e.choose(4)], {"args": ("refused",)}))
    e.ghost.setdefault("got", []).append((bound["endpoint_context"], bound["request"], bound["uri_type"]))
    u = e.inp("verified_uri", STR)
    e.ghost["verified_uri"] = u
    return u


class AuthzWorld(World):
    def __init__(self, e, oidc):
        self.req = e.inp("request", AUTH_REQ)
        super().__init__(e, auth_req=self.req)
        self.cid = e.inp("client_id", STR)
        if oidc:
            from oidcop.oidc.authorization import Authorization
        else:
            from oidcop.oauth2.authorization import Authorization
        self.cls = Authorization
        self.make_endpoint(Authorization, error_cls=AuthorizationErrorResponse, response_cls=OAuth2Response)
        self.ctx.fields["issuer"] = e.inp("issuer", STR)
        e.assume(has(e, self.req, "client_id"))
        e.assume(has(e, self.req, "response_type"))


def parse_step(e, oidc):
    """_post_parse_request: the redirect URI of a request that goes on is the verified one"""
    w = AuthzWorld(e, oidc)
    r = execute(e, A + ":Authorization._post_parse_request", w.endpoint, w.req, w.cid, w.ctx)
    if not r.ok:
        e.cover("failed")
        return
    if is_error(r.value):
        e.cover("refused")
        return
    u = e.ghost.get("verified_uri")
    e.prove("a URI was verified", u is not None)
    if u is None:
        return
    ctx, req, typ = e.ghost["got"][-1]
    e.prove("the verified URI is for this request", And(z3.BoolVal(ctx is w.ctx and typ == "redirect_uri"), zb(M.same(e, req, r.value))))
    e.prove("the request goes on with the verified URI", And(has(e, r.value, "redirect_uri"), raw(e, r.value, "redirect_uri") == Val.s(u.t)))
    e.cover("goes on")


def authz_contract(e, bound):
    """AuthzHandling.__call__: the session's grant (C20, C24)"""
    return e.ghost["w"].grant


def authn_response(e, bound):
    """create_authn_response (C24): response arguments; it names no URI"""
    return e.born(Dict({"response_args": e.born(Dict({}, cls=OAuth2Response)), "fragment_enc": e.inp("fragment_enc", BOOL)}))


def mode(e, bound):
    return e.choose(2)


def after_authn(e, oidc):
    """post_authentication: the answer goes to the verified URI, or to no URI at all"""
    w = AuthzWorld(e, oidc)
    w.ctx.fields["authz"] = sym_obj(e, AuthzHandling, "authz")
    w.ctx.fields["cookie_handler"] = sym_obj(e, object, "cookie_handler", name=e.born(Dict({"session": "oidcop"})))
    sid = e.inp("sid", STR)
    r = execute(e, A + ":Authorization.post_authentication", w.endpoint, w.req, sid)
    if not r.ok:
        e.cover("failed")
        return
    v = r.value
    to = [x for x in [M.getitem(e, v, "return_uri") if isinstance(v, Dict) and "return_uri" in v.items else None] if x is not None]
    u = e.ghost.get("verified_uri")
    if to:
        e.prove("the answer goes to the verified URI", e.str_term(to[0]) == u.t if u is not None else False)
        ctx, req, typ = e.ghost["got"][-1]
        e.prove("the verified URI is for this request", z3.BoolVal(ctx is w.ctx and typ == "redirect_uri" and req is w.req))
        e.cover("redirected")
    elif "response_msg" in v.items:
        msg = e.str_term(v.items["response_msg"])
        e.prove("the form is posted to the verified URI", z3.Contains(msg, z3.Concat(S('<form method="post" action="'), L.HTML(u.t), S('">'))) if u is not None else False)
        e.cover("posted")
    else:
        e.cover("no redirect")


from oidcop.authz import AuthzHandling  # noqa: E402

ANSWER = {A + ":get_uri": get_uri_contract, "oidcop.authz:AuthzHandling.__call__": authz_contract, SM + ".set": session_stored,
          SM + ".decrypt_session_id": lambda e, bnd: (e.inp("user", STR), e.inp("client", STR), e.inp("gid", STR)),
          "oidcop.session.database:Database.decrypt_session_id": lambda e, bnd: (e.inp("user", STR), e.inp("client", STR), e.inp("gid", STR)),
          "oidcop.session.database:Database.set": session_stored,
          A + ":Authorization.create_authn_response": authn_response,
          A + ":inputs": lambda e, bnd: e.sstr("inputs"),
          "oidcop.endpoint_context:EndpointContext.new_cookie": lambda e, bnd: e.born(Dict({})), **IS_ACTIVE}
for oidc in (False, True):
    n = "oidc" if oidc else "oauth2"
    contract("C09", f"parse_{n}", A + ":Authorization._post_parse_request", schema=SCHEMA, callees={A + ":get_uri": get_uri_contract,
             A + ":Authorization.verify_response_type": lambda e, bnd: e.sbool("response_type_ok")})(
        lambda e, oidc=oidc: parse_step(e, oidc))
    contract("C09", f"answer_{n}", A + ":Authorization.post_authentication", schema=SCHEMA, callees=ANSWER)(lambda e, oidc=oidc: after_authn(e, oidc))
