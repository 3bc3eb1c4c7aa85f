"""C13: what authorises the release of user claims."""
from .world import *
from oidcop.scopes import Scopes
from oidcop.session import claims as CL

P = "oidcop.session.claims:"
CI = P + "ClaimsInterface."
CLAIMS = DictOf(ANY)
MODULE = [DictOf(ANY, {"base_claims": CLAIMS, "add_claims_by_scope": BOOL, "enable_claims_per_client": BOOL, "always_add_claims": k})
          for k in (CLAIMS, ListOf(STR))]
INFO = DictOf(ANY, {"add_claims": DictOf(ANY, {"by_scope": DictOf(BOOL), "always": DictOf(ListOf(STR))})})
REQ = DictOf(ANY, {"client_id": STR, "scope": ListOf(STR), "claims": DictOf(CLAIMS)})
COMPS = ("LLEN", "LEL", "DDOM", "DVAL")
POINTS = ("userinfo", "introspection", "id_token", "access_token")
POINT = {"userinfo": ("endpoint", "userinfo"), "introspection": ("endpoint", "introspection"),
         "id_token": ("token", "id_token"), "access_token": ("token", "access_token")}


class ClaimWorld:
    """modules of every release point, any client configuration, any request"""

    def __init__(self, e, points=POINTS, missing=None, cls=CL.ClaimsInterface, request=True, as_list=False):
        self.as_list = as_list
        self.cdb = e.inp("cdb", DictOf(INFO))
        self.modules = {p: sym_obj(e, object, p, kwargs=e.inp("kwargs_" + p, MODULE[self.as_list])) for p in points if p != missing}
        th = e.born(Dict({n: self.modules[p] for p, (k, n) in POINT.items() if k == "token" and p in self.modules}))
        eps = e.born(Dict({n: self.modules[p] for p, (k, n) in POINT.items() if k == "endpoint" and p in self.modules}))
        self.sm = sym_obj(e, SessionManager, "sm", token_handler=th)
        self.ctx = sym_obj(e, EndpointContext, "context", cdb=self.cdb, session_manager=self.sm)

        def server_get(e, what, *a):
            if what == "endpoint_context":
                return self.ctx
            return eps.items.get(a[0])
        self.scopes_handler = sym_obj(e, Scopes, "scopes")
        self.ctx.fields["scopes_handler"] = self.scopes_handler
        self.ci = sym_obj(e, cls, "ci", server_get=NativeFn(server_get, "server_get"))
        self.ctx.fields["claims_interface"] = self.ci
        self.req = e.inp("auth_req", REQ) if request else None
        if self.req is not None:                            # a request is none of the configuration's dictionaries
            e.assume(self.req.ref != self.cdb.ref)
        for c in COMPS:
            e.comp(c)
        self.h0 = dict(e.heap)
        e.ghost["w"] = self

    def freeze(self, e):
        for c in COMPS:
            e.comp(c)
        self.h0 = dict(e.heap)

    def unchanged(self, e):
        r = z3.Int("r?")
        return M.zand(*[ForAll([r], Implies(And(r > 0, r < FRESH_BASE), Select(e.heap[c], r) == Select(self.h0[c], r)))
                        for c in COMPS if e.heap[c] is not self.h0[c]])

    # the configuration, as it was
    def dom(self, r):
        return Select(self.h0["DDOM"], r)

    def val(self, r):
        return Select(self.h0["DVAL"], r)

    def has(self, r, k):
        return Select(self.dom(r), S(k) if isinstance(k, str) else k)

    def ref(self, r, k):
        return Val.rv(Select(self.val(r), S(k) if isinstance(k, str) else k))

    def true(self, r, k):
        """entry k of r is a true boolean"""
        return And(self.has(r, k), Val.bv(Select(self.val(r), S(k) if isinstance(k, str) else k)))

    def listed(self, r, x):
        i = z3.Int("i?")
        return Exists([i], And(i >= 0, i < Select(self.h0["LLEN"], r), Select(Select(self.h0["LEL"], r), i) == Val.s(x)))

    def client_rules(self, cid):
        """formulas over the client's own rules: (by scope at point, always at point)"""
        info = self.ref(self.cdb.ref, cid)
        add = self.ref(info, "add_claims")
        has_add = And(self.has(self.cdb.ref, cid), self.has(info, "add_claims"))
        bs, al = self.ref(add, "by_scope"), self.ref(add, "always")
        by = lambda p: And(has_add, self.has(add, "by_scope"), self.true(bs, p))
        always = lambda p, x: And(has_add, self.has(add, "always"), self.has(al, p), self.listed(self.ref(al, p), x))
        return by, always

    def rules(self, p, cid, second):
        """(claims by scope?, key -> always released?, key -> with which value)"""
        kw = self.modules[p].fields["kwargs"].ref
        per = And(self.true(kw, "enable_claims_per_client"), self.has(self.cdb.ref, cid))
        by, always = self.client_rules(cid)
        mine = self.true(kw, "add_claims_by_scope")
        two = second != S("")
        by_scope = If(per, Or(by(S(p)), And(two, by(second)), mine), mine)
        own = self.ref(kw, "always_add_claims")
        in_own = (lambda x: self.listed(own, x)) if self.as_list else (lambda x: self.has(own, x))
        own_value = (lambda x: Val.none) if self.as_list else (lambda x: Select(self.val(own), x))
        return (by_scope, lambda x: If(per, Or(always(S(p), x), And(two, always(second, x))), And(self.has(kw, "always_add_claims"), in_own(x))),
                lambda x: If(per, Val.none, own_value(x)))

    def requested(self, p):
        """the claims the request asks for at p: (key -> asked for?, key -> with which value)"""
        if self.req is None:
            return (lambda x: z3.BoolVal(False)), (lambda x: Val.none)
        r = self.req.ref
        c = self.ref(r, "claims")
        at = self.ref(c, p)
        return (lambda x: And(self.has(r, "claims"), self.has(c, p), self.has(at, x))), (lambda x: Select(self.val(at), x))


def scope_claims(e, bound):
    """scopes_to_claims: some map of claims, one for these scopes and this client (C25)."""
    c = e.fresh("scope_claims", CLAIMS)
    e.ghost.setdefault("scope_calls", []).append((bound, c))
    return c


def prove_release(e, w, got, p, cid, second, scopes_given, call):
    """got holds exactly the authorised claims, with what the request asks of them"""
    got = e.force(got)
    if got.native:
        e.to_heap_dict(got)
    gd, gv = M.ddom(e, got), M.dval(e, got)
    by_scope, always, always_value = w.rules(p, cid, second)
    asked, asked_value = w.requested(p)
    base = w.ref(w.modules[p].fields["kwargs"].ref, "base_claims")
    has_base = lambda x: And(w.has(w.modules[p].fields["kwargs"].ref, "base_claims"), w.has(base, x))
    if call is not None:
        b, sc = call
        e.prove("claims of scopes are added only where release by scope is on", by_scope)
        e.prove("for the client of the session", zb(M.eq(e, b["client_id"], SStr(cid))))
        sd, sv = M.ddom(e, sc), M.dval(e, sc)
    else:
        e.prove("claims of the scopes are left out only where release by scope is off, or there is none",
                Or(Not(by_scope), scopes_given == 0) if scopes_given is not None else True)
        sd, sv = z3.K(StrS, z3.BoolVal(False)), z3.K(StrS, Val.none)
    x = e.inp("claim", STR).t
    e.prove("a claim is released exactly if something authorises it",
            Select(gd, x) == Or(asked(x), Select(sd, x), always(x), has_base(x)))
    e.prove("with what the request, or else the scopes or the configuration, ask of it", Implies(Select(gd, x), Select(gv, x) == If(
        asked(x), asked_value(x), If(Select(sd, x), Select(sv, x), If(always(x), always_value(x), Select(w.val(base), x))))))


def release(p, request, second, as_list, given):
    def fn(e):
        w = ClaimWorld(e, points=(p,), request=request, as_list=as_list)
        cid = e.inp("client_id", STR)
        e.assume(cid.t != S(""))
        scopes = e.inp("scopes", ListOf(STR)) if given else None
        w.freeze(e)
        sec = e.inp("second", STR) if second else ""
        req = w.req if request else e.born(Dict({}))
        r = execute(e, CI + "get_claims_from_request", w.ci, req, p, scopes=scopes, client_id=cid, secondary_identifier=sec)
        if not r.ok:
            e.prove("returns normally", False)
            return
        e.prove("nothing is changed", w.unchanged(e))
        calls = e.ghost.get("scope_calls", [])
        e.prove("the scopes are looked up at most once", len(calls) <= 1)
        eff = scopes.ref if scopes is not None else w.ref(w.req.ref, "scope")
        n = Select(w.h0["LLEN"], eff) if scopes is not None else If(w.has(w.req.ref, "scope"), Select(w.h0["LLEN"], eff), 0)
        if calls:
            e.prove("they are the scopes given, or else the request's", e.force(calls[0][0]["scopes"]).ref == eff)
        prove_release(e, w, r.value, p, cid.t, sec.t if second else S(""), n, calls[0] if calls else None)
        e.cover("end")
    contract("C13", "release_%s%s%s%s%s" % (p, "" if request else "_no_request", "_second" if second else "", "_list" if as_list else "", "" if given else "_own_scopes"), CI + "get_claims_from_request",
             callees={"oidcop.scopes:Scopes.scopes_to_claims": scope_claims}, budget=120)(fn)


for p_, more in (("userinfo", (False, False)), ("id_token", (True, True)), ("access_token", (False, False)), ("introspection", (True, False))):
    release(p_, True, False, False, True)
    release(p_, True, False, *more)
release("id_token", False, True, False, True)
release("userinfo", False, False, False, True)


def asked_of(e, bound):
    """get_claims_from_request: some map of claims (its arguments are checked)."""
    r = e.fresh("claims", CLAIMS)
    e.ghost.setdefault("asked", []).append((bound, r))
    return r


@contract("C13", "get_claims", CI + "get_claims", schema=SCHEMA, callees={CI + "get_claims_from_request": asked_of,
          SM + ".get_session_info": lambda e, bnd: e.born(Dict({"grant": e.ghost["grant"], "client_id": e.ghost["cid"], "user_id": e.inp("uid", STR)}))})
def get_claims(e):
    """the claims of a session are computed from its own grant's request, for its own client"""
    w = ClaimWorld(e)
    w.req.cls = None
    grant = e.ghost["grant"] = sym_obj(e, Grant, "grant", authorization_request=w.req if e.choose(2) else None)
    e.ghost["cid"] = cid = e.inp("client_id", STR)
    p = POINTS[e.choose(4)]
    scopes, second = e.inp("scopes", ListOf(STR)), ("", "userinfo")[e.choose(2)]
    w.freeze(e)
    r = execute(e, CI + "get_claims", w.ci, "sid", scopes, p, second)
    e.prove("returns normally", r.ok)
    asked = e.ghost.get("asked", [])
    e.prove("computed once", len(asked) == 1)
    b = asked[0][0]
    req = e.force(b["auth_req"])
    empty = isinstance(req, Dict) and req.native and not req.items
    own = isinstance(req, Dict) and not req.native and grant.fields["authorization_request"] is not None
    e.prove("from the grant's request, if it has any", M.zand(req.ref == w.req.ref) if own else And(
        empty, z3.BoolVal(True) if grant.fields["authorization_request"] is None else M.ddom(e, w.req) == z3.K(StrS, z3.BoolVal(False))))
    e.prove("for that release point", b["claims_release_point"] == p and b["secondary_identifier"] == second)
    e.prove("for the session's client and the given scopes", And(zb(M.eq(e, b["client_id"], cid)), e.force(b["scopes"]).ref == scopes.ref))
    e.prove("the answer is what is computed", e.force(r.value).ref == asked[0][1].ref)
    e.prove("nothing is changed", w.unchanged(e))
    e.cover("end")


def all_usage(cls, name):
    q = P + cls.__name__ + "."

    def fn(e):
        w = ClaimWorld(e, cls=cls)
        scopes = e.inp("scopes", ListOf(STR))
        w.sm.fields["get_grant"] = None
        grant = e.ghost["grant"] = sym_obj(e, Grant, "grant", authorization_request=w.req)
        w.freeze(e)
        cid = e.inp("client_id", STR)
        r = execute(e, CI + "get_claims_all_usage_from_request", w.ci, w.req, scopes, cid)
        e.prove("returns normally", r.ok)
        asked = e.ghost.get("asked", [])
        points = cls.claims_release_points
        e.prove("computed for each release point", [b["claims_release_point"] for b, _ in asked] == list(points))
        for b, m in asked:
            e.prove("from the request", e.force(b["auth_req"]).ref == w.req.ref)
            e.prove("for the given scopes and the request's client", M.zand(e.force(b["scopes"]).ref == scopes.ref, zb(M.eq(e, b["client_id"], cid))))
            e.prove("under no other point's rules", b["secondary_identifier"] == "")
        got = e.force(r.value)
        e.prove("and stored under that point", isinstance(got, Dict) and got.native and list(got.items) == list(points)
                and all(e.force(got.items[b["claims_release_point"]]) is m for b, m in asked))
        e.prove("nothing is changed", w.unchanged(e))
        e.cover("end")
    contract("C13", name, CI + "get_claims_all_usage_from_request", callees={CI + "get_claims_from_request": asked_of})(fn)


all_usage(CL.ClaimsInterface, "all_points")
all_usage(CL.OAuth2ClaimsInterface, "all_points_oauth2")


def shape_spec(e, keys):
    """a claims request: its keys in any order, with any values"""
    d = {}
    for k in keys:
        d[k] = {"value": lambda: e.inp("value", SPECVAL), "values": lambda: e.inp("values", ListOf(SPECVAL)),
                "essential": lambda: e.inp("essential", BOOL), "other": lambda: e.inp("other", SPECVAL)}[k]()
    return e.born(Dict(d))


SPECVAL = Union(STR, INT)


def satisfied(e, value, items):
    """what a claims request with these keys asks (OIDC Core 5.5.1): one of the value and values it names, if it names any"""
    named = []
    if "value" in items:
        named.append(zb(M.eq(e, value, items["value"])))
    if "values" in items:
        named.append(zb(M.contains(e, items["values"], value)))
    return Or(*named) if named else None


def match(name, keys, vk):
    def fn(e):
        value = e.inp("users_value", vk)
        spec = shape_spec(e, keys) if keys is not None else None
        r = execute(e, P + "claims_match", value, spec)
        e.prove("returns normally", r.ok)
        want = satisfied(e, value, spec.items) if spec is not None else z3.BoolVal(True)
        if want is None:                    # names no value: essential or not does not matter
            want = z3.BoolVal(list(keys) == ["essential"])
            if list(keys) != ["essential"]:
                return
        e.prove("it is matched exactly if it is the value, or among the values, asked for", b(e, r.value) == want)
        e.cover("end")
    contract("C13", name, P + "claims_match")(fn)


for n_, ks_ in enumerate((None, ("value",), ("values",), ("value", "values"), ("values", "value"), ("essential",), ("essential", "value"),
                          ("value", "essential"), ("essential", "values"), ("values", "essential"), ("essential", "value", "values"),
                          ("value", "values", "essential"), ("values", "essential", "value"), ("other", "value"), ("values", "other"))):
    match("match_%s" % ("any" if ks_ is None else "_".join(ks_)), ks_, (STR, INT)[n_ % 2] if n_ > 2 else STR)


@contract("C13", "match_none", P + "claims_match")
def match_none(e):
    r = execute(e, P + "claims_match", None, e.inp("spec", CLAIMS) if e.choose(2) else None)
    e.prove("a claim without a value is never released", And(r.ok, Not(b(e, r.value)) if r.ok else False))
    e.cover("end")


MATCH = z3.Function("matches", Val, Val, BoolS)


def matches(e, bound):
    """claims_match: never for a claim without a value (match_none), else some predicate of value and what is asked (match_...)."""
    v, s = bound["value"], bound["claimspec"]
    if v is None:
        return False
    tv, ts = e.enc(v), e.enc(s)
    return SBool(And(tv != Val.none, MATCH(tv, ts)))


@contract("C13", "user_claims", CI + "get_user_claims", callees={P + "claims_match": matches})
def user_claims(e):
    """of the user's claims, those allowed and matching, with the user's values"""
    w = ClaimWorld(e)
    info = e.inp("user_info", CLAIMS)
    uid = e.inp("user_id", STR)
    asked = []

    def userinfo(e, user_id, client_id=None, **kw):
        asked.append(user_id)
        return info
    w.ctx.fields["userinfo"] = NativeFn(userinfo, "userinfo")
    allowed = e.inp("restriction", CLAIMS) if e.choose(2) else e.born(Dict({}))
    w.freeze(e)
    r = execute(e, CI + "get_user_claims", w.ci, uid, allowed)
    e.prove("returns normally", r.ok)
    e.prove("nothing is changed", w.unchanged(e))
    got = e.force(r.value)
    none = z3.K(StrS, z3.BoolVal(False))
    gd, gv = (none, None) if got.native and not got.items else (M.ddom(e, got), M.dval(e, got))
    ad, av = (none, None) if allowed.native else (M.ddom(e, allowed), M.dval(e, allowed))
    x = e.inp("claim", STR).t
    iv = If(w.has(info.ref, x), Select(w.val(info.ref), x), Val.none)
    if gv is None:
        e.prove("nothing is released only if nothing is allowed", Not(Select(ad, x)))
        e.cover("nothing")
        return
    e.prove("the user's own claims are looked up", M.zand(len(asked) == 1, zb(M.eq(e, asked[0], uid))) if asked else False)
    e.prove("a claim is released exactly if it is allowed, has a value and that matches what is asked",
            Select(gd, x) == And(Select(ad, x), iv != Val.none, MATCH(iv, Select(av, x))))
    e.prove("with the user's value", Implies(Select(gd, x), Select(gv, x) == iv))
    e.cover("end")
