"""C24: what an authorization response carries."""
from .c09 import AuthzWorld, get_uri_contract, A
from .world import *
from oidcop.authz import AuthzHandling
from oidcmsg.oauth2 import AuthorizationErrorResponse, AuthorizationResponse as OAuth2Response

ARTEFACT = {"authorization_code": ("code", "code"), "access_token": ("token", "access_token"), "id_token": ("id_token", "id_token")}


def minted(e, bound):
    """Authorization.mint_token (below): a new token of that kind of the session's grant, or nothing, or a failure."""
    w = e.ghost["w"]
    e.prove("it is minted in this session, under its grant", M.zand(bound["grant"] is w.grant, zb(M.eq(e, bound["session_id"], w.sid))))
    k = e.choose(3)
    if k == 2:
        return None
    if k == 1:
        from cryptojwt.jwe.exception import JWEException
        raise PyRaise(Obj([JWEException, AttributeError][e.choose(2)], {"args": ()}))
    tc = bound["token_class"]
    t = sym_obj(e, CLASS_OF[tc], "minted_" + tc, value=L.fresh_random(e, tc), expires_at=e.inp("expires_at", INT), token_class=tc)
    w.minted.append((tc, t, bound["kwargs"]))
    return t


def session_info(e, bound):
    """SessionManager.get_session_info (C07): the session of that identifier."""
    w = e.ghost["w"]
    e.prove("the session looked up is the one of the response", zb(M.eq(e, bound["session_id"], w.sid)))
    return e.born(Dict({"session_id": w.sid, "client_id": w.cid, "grant": w.grant}))


def filtered(e, bound):
    """Scopes.filter_scopes: those of the scopes the client is allowed (C25)."""
    w = e.ghost["w"]
    l = e.fresh("filtered", ListOf(STR))
    w.filtered.append((bound["scopes"], bound["client_id"], l))
    return l


class RespWorld(AuthzWorld):
    def __init__(self, e, oidc):
        super().__init__(e, oidc)
        self.sid, self.filtered = e.inp("sid", STR), []
        self.rt = List(ref=Val.rv(raw(e, self.req, "response_type")), kind=STR)
        from oidcop.scopes import Scopes
        self.ctx.fields["scopes_handler"] = sym_obj(e, Scopes, "scopes_handler")
        self.ctx.fields["authz"] = sym_obj(e, AuthzHandling, "authz")
        self.ctx.fields["cookie_handler"] = sym_obj(e, object, "cookie_handler", name=e.born(Dict({"session": "oidcop", "session_management": "oidcop_sman"})))
        self.req0 = (M.ddom(e, self.req), M.dval(e, self.req))

    def names(self, e, x):
        """the response type names x"""
        i = z3.Int("i?")
        n, el = Select(self.ll0, self.rt.ref), Select(self.le0, self.rt.ref)
        return Exists([i], And(i >= 0, i < n, Select(el, i) == Val.s(x if not isinstance(x, str) else S(x))))

    def freeze(self, e):
        self.ll0, self.le0 = e.comp("LLEN"), e.comp("LEL")


def respond(e, oidc):
    w = RespWorld(e, oidc)
    w.freeze(e)
    i = z3.Int("i?")
    n, el = Select(w.ll0, w.rt.ref), Select(w.le0, w.rt.ref)
    e.assume(ForAll([i], Implies(And(i >= 0, i < n), Val.is_s(Select(el, i)))))
    r = execute(e, A + ":Authorization.create_authn_response", w.endpoint, w.req, w.sid)
    if not r.ok:
        e.cover("failed")
        return
    args = M.getitem(e, r.value, "response_args")
    e.prove("the request is not changed", same_dict(e, w.req, *w.req0))
    if is_error(args):
        e.prove("an error carries no artefact", not [k for _, k in ARTEFACT.values() if k in args.items])
        e.cover("error")
        return
    items = args.items
    for tc, (name, key) in ARTEFACT.items():
        got = [t for c, t, _ in w.minted if c == tc]
        e.prove("at most one of a kind is minted", len(got) <= 1)
        e.prove("the response carries it exactly if the response type names it", z3.BoolVal(key in items) == w.names(e, name))
        if key in items:
            e.prove("what it carries is what was minted for it", zb(M.eq(e, items[key], got[0].fields["value"])) if got else False)
        else:
            e.prove("none is minted without being carried", not got)
    x = e.inp("type", STR).t
    known = [c for c, _ in ARTEFACT.values()]
    only_none = And(n == 1, Select(el, 0) == Val.s(S("none")))
    e.prove("every type it names is one of them, or none is asked for", Implies(w.names(e, x), Or(only_none, *[x == S(k) for k in known])))
    st = And(has(e, w.req, "state"), Val.sv(raw(e, w.req, "state")) != S(""))
    e.prove("the state is echoed, unchanged", z3.BoolVal("state" in items) == st if "state" not in items else And(
        st, zb(M.eq(e, items["state"], SStr(Val.sv(raw(e, w.req, "state")))))))
    if "scope" in items:
        f = w.filtered[-1] if w.filtered else None
        e.prove("the scopes named are those requested and allowed to the session's client", M.zand(
            e.force(items["scope"]) is f[2], e.force(f[0]).ref == Val.rv(raw(e, w.req, "scope")), zb(M.eq(e, f[1], w.cid))) if f else False)
    rest = set(items) - {k for _, k in ARTEFACT.values()} - {"state", "scope", "token_type", "expires_in"}
    e.prove("it carries nothing else", not rest)
    for tc, t, kw in w.minted:
        if tc == "id_token":
            kw = e.force(kw).items if kw is not None else {}
            for key, cls in (("code", "authorization_code"), ("access_token", "access_token")):
                al = [t2 for c, t2, _ in w.minted if c == cls]
                e.prove("an ID token is hashed with exactly what it goes with", zb(M.eq(e, kw[key], al[0].fields["value"])) if al and key in kw else not al and key not in kw)
    e.cover("answered" + str(len(w.minted)))


from oidcop.scopes import Scopes  # noqa: E402
RESP = {A + ":Authorization.mint_token": minted, SM + ".get_session_info": session_info, "oidcop.scopes:Scopes.filter_scopes": filtered}
for oidc_ in (False, True):
    n_ = "oidc" if oidc_ else "oauth2"
    contract("C24", f"response_{n_}", A + ":Authorization.create_authn_response", schema=SCHEMA, callees=RESP)(lambda e, o=oidc_: respond(e, o))


@contract("C24", "mint", A + ":Authorization.mint_token", schema=SCHEMA, callees={G + ".mint_token": mint, SM + ".__setitem__": session_stored, **IS_ACTIVE})
def mint_token(e):
    """what is issued is one token of that kind, minted under the grant; nothing when the grant is not active"""
    w = RespWorld(e, True)
    tc = list(ARTEFACT)[e.choose(3)]
    on = active(e, w.grant, w.now)
    r = execute(e, A + ":Authorization.mint_token", w.endpoint, tc, w.grant, w.sid)
    if not r.ok:
        e.cover("failed")
        return
    if r.value is None:
        e.prove("nothing is minted under a grant that is not active", And(Not(on), z3.BoolVal(not w.minted)))
        e.cover("not active")
        return
    e.prove("only under an active grant", on)
    e.prove("one token is minted, of the kind asked for", And(len(w.minted) == 1, zb(M.eq(e, e.interp.getattr(w.minted[0], "token_class"), tc))) if w.minted else False)
    e.prove("that one is returned", zb(M.same(e, r.value, w.minted[0])) if w.minted else False)
    e.cover("minted")


def created(e, bound):
    """create_authn_response (above): recorded"""
    w = e.ghost["w"]
    w.created.append(bound)
    w.made = {"code": e.inp("code", STR), "state": e.inp("state", STR)}
    w.args = e.born(Dict(dict(w.made), cls=OAuth2Response))
    return e.born(Dict({"response_args": w.args, "fragment_enc": e.inp("fragment_enc", BOOL)}))


def inputs(e, bound):
    """inputs: the form fields of the arguments (form below)"""
    w = e.ghost["w"]
    w.forms.append(bound["form_args"])
    return e.sstr("inputs")


def grant_of(e, bound):
    w = e.ghost["w"]
    e.prove("the grant is the session's", zb(M.eq(e, bound["session_id"], w.sid)))
    return w.grant


ANSWER = {A + ":get_uri": get_uri_contract, "oidcop.authz:AuthzHandling.__call__": grant_of, SM + ".set": session_stored,
          "oidcop.session.database:Database.decrypt_session_id": lambda e, bnd: (e.inp("user", STR), e.inp("client", STR), e.inp("gid", STR)),
          "oidcop.session.database:Database.set": session_stored, A + ":Authorization.create_authn_response": created, A + ":inputs": inputs,
          "oidcop.endpoint_context:EndpointContext.new_cookie": lambda e, bnd: e.born(Dict({"value": e.sstr("cookie")})), **IS_ACTIVE}


def answer(e, oidc, part2=False):
    """after authentication: nothing is issued unless the grant is active; what is answered is what was made for the request"""
    w = RespWorld(e, oidc)
    w.created, w.forms = [], []
    on = active(e, w.grant, w.now)
    if part2:
        e.assume(Not(has(e, w.provider_info, "check_session_iframe")))
    r = execute(e, A + ":Authorization." + ("authz_part2" if part2 else "post_authentication"), w.endpoint, w.req, w.sid)
    if w.created:
        e.prove("issued only under an active grant", on)
        e.prove("once, for this request and session", M.zand(len(w.created) == 1, zb(M.same(e, w.created[0]["request"], w.req)),
                                                           zb(M.eq(e, w.created[0]["sid"], w.sid))))
    if not r.ok:
        e.cover("failed")
        return
    v = r.value
    args = v.items.get("response_args")
    if args is not None and is_error(args):
        e.prove("an error carries no artefact", not [k for _, k in ARTEFACT.values() if k in args.items])
        e.cover("error")
    elif args is not None:
        e.prove("the response carries what was made for the request", args is w.args if w.created else False)
        e.prove("unchanged", M.zand(set(args.items) - {"iss", "client_id"} == {"code", "state"}, args.items["state"] is w.made["state"],
                                    args.items["code"] is w.made["code"]))
        if part2:
            e.prove("naming this server and the client", And(zb(M.eq(e, args.items["iss"], w.ctx.fields["issuer"])),
                                                             zb(M.eq(e, args.items["client_id"], SStr(Val.sv(raw(e, w.req, "client_id"))))))
                    if "iss" in args.items and "client_id" in args.items else False)
        e.cover("answered")
    elif "response_msg" in v.items:
        f = w.forms[-1] if w.forms else None
        e.prove("the form holds what was made for the request", f is w.args or f is not None and is_error(f))
        e.cover("form")


for oidc_ in (False, True):
    n_ = "oidc" if oidc_ else "oauth2"
    contract("C24", f"answer_{n_}", A + ":Authorization.post_authentication", schema=SCHEMA, callees=ANSWER)(lambda e, o=oidc_: answer(e, o))
    contract("C24", f"part2_{n_}", A + ":Authorization.authz_part2", schema=SCHEMA, callees=ANSWER)(lambda e, o=oidc_: answer(e, o, True))


def words(e, tag, n):
    """n words (no blanks) and the string they make"""
    ws = [e.inp(f"{tag}{i}", STR) for i in range(n)]
    for x in ws:
        e.assume(Not(z3.Contains(x.t, S(" "))))
    return ws, M.concat(e, [p for i, x in enumerate(ws) for p in ((" ", x) if i else (x,))])


def same_words(xs, ys):
    return And(*[Or(*[x.t == y.t for y in ys]) for x in xs], *[Or(*[x.t == y.t for x in xs]) for y in ys])


def registered(shape, nreq):
    def fn(e):
        w = RespWorld(e, True)
        regs = [words(e, f"registered{i}_", n) for i, n in enumerate(shape or ())]
        info = e.born(Dict({} if shape is None else {"response_types": e.born(List([s for _, s in regs]))}))
        req, _ = words(e, "requested", nreq)
        r = execute(e, A + ":Authorization.verify_response_type", w.endpoint, e.born(Dict({"response_type": e.born(List(list(req)))})), info)
        e.prove("returns normally", r.ok)
        want = Or(*[same_words(req, ws) for ws, _ in regs]) if regs else And(*[x.t == S("code") for x in req])
        e.prove("accepted exactly if it is one of those registered, as a set", b(e, r.value) == want)
        e.cover("end")
    contract("C24", "registered_%s_%d" % ("none" if shape is None else "_".join(map(str, shape)) or "empty", nreq),
             A + ":Authorization.verify_response_type", budget=60)(fn)


for shape_ in (None, (), (1,), (2,), (3,), (1, 2), (2, 2), (1, 3)):
    for n_ in (1, 2, 3):
        registered(shape_, n_)


@contract("C24", "parse", A + ":Authorization._post_parse_request", schema=SCHEMA, callees={A + ":get_uri": get_uri_contract,
          A + ":Authorization.verify_response_type": lambda e, bnd: e.ghost.setdefault("asked", []).append(bnd) or e.ghost["type_ok"]})
def parse(e):
    """a request with a response type the client did not register does not go on"""
    w = RespWorld(e, e.choose(2))
    raw0, cdb0 = raw(e, w.req, "response_type"), M.dval(e, w.cdb)
    ok = e.ghost["type_ok"] = e.sbool("registered")
    r = execute(e, A + ":Authorization._post_parse_request", w.endpoint, w.req, w.cid, w.ctx)
    if not r.ok:
        e.cover("failed")
        return
    if is_error(r.value):
        e.cover("refused")
        return
    e.prove("its response type is registered", ok.t)
    a = e.ghost.get("asked", [])
    e.prove("by the client it is for", M.zand(len(a) == 1, zb(M.same(e, a[0]["request"], r.value)),
                                             e.force(a[0]["cinfo"]).ref == Val.rv(Select(cdb0, w.cid.t))) if a else False)
    e.prove("and is the one the request asked for", raw(e, r.value, "response_type") == raw0)
    e.cover("goes on")


@contract("C24", "form", A + ":inputs")
def form(e):
    """a form field for every argument: its value as HTML text"""
    names = ["code", "state", "access_token", "id_token"]
    have = {k: e.inp(k, STR) for k in names if e.choose(2)}
    fields = dict(have)
    if e.choose(2):
        fields["expires_in"] = have["expires_in"] = e.inp("expires_in", INT)
    if e.choose(2):
        fields["scope"] = e.born(List(["openid", e.inp("scope", STR)]))
        have["scope"] = SStr(M.concat(e, ["openid ", fields["scope"].items[1]]).t)
    r = execute(e, A + ":inputs", e.born(Dict(fields, cls=OAuth2Response)))
    e.prove("returns normally", r.ok)
    out = e.str_term(r.value)
    for k, v in have.items():
        e.prove("each argument is a field, its value escaped", z3.Contains(out, z3.Concat(S('name="%s" value="' % k), L.HTML(e.str_term(M.to_str(e, v))), S('"'))))
    e.cover("end")
