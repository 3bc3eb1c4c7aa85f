"""C20: usage rules."""
from .world import *
from oidcop.authz import AuthzHandling

A = "oidcop.authz:AuthzHandling"
KINDS = ("authorization_code", "access_token", "refresh_token", "id_token")
COMPS = ("DDOM", "DVAL", "LLEN", "LEL")


class Rules:
    """the server's and the client's rules (each with any of the kinds), in the configuration"""

    def __init__(self, e, server, client, kinds=KINDS):
        self.e = e
        inner = lambda n: {k: e.inp(f"{n}_{k}", RULES) for k in kinds if e.choose(2)}
        self.server = e.born(Dict(inner("server"))) if server else None
        self.client = e.born(Dict(inner("client"))) if client else None
        allr = [d.ref for c in (self.server, self.client) if c is not None for d in c.items.values()]
        if len(allr) > 1:
            e.assume(z3.Distinct(*allr))                    # no two rules are one object
        gc = {"expires_in": e.inp("grant_expires_in", INT)}
        if self.server is not None:
            gc["usage_rules"] = self.server
        self.gc = e.born(Dict(gc))
        self.cid = "the client"
        self.info = e.born(Dict({"client_id": self.cid}))
        if self.client is not None:
            self.info.items["token_usage_rules"] = self.client
        self.other = e.born(Dict({"client_id": "another", "token_usage_rules": e.inp("other_rules", DictOf(RULES))}))
        self.cdb = e.born(Dict({self.cid: self.info, "another": self.other}))
        self.ctx = sym_obj(e, EndpointContext, "context", cdb=self.cdb)
        self.authz = sym_obj(e, AuthzHandling, "authz", server_get=NativeFn(lambda e, *a: self.ctx, "server_get"), grant_config=self.gc)
        self.ctx.fields["authz"] = self.authz
        for c in COMPS:
            e.comp(c)
        self.h0 = {c: e.heap[c] for c in COMPS}
        self.shape = self.snapshot()

    def snapshot(self):
        return {n: (dict(d.items) if d is not None and d.native else None) for n, d in
                (("gc", self.gc), ("server", self.server), ("client", self.client), ("info", self.info), ("other", self.other), ("cdb", self.cdb))}

    def prove_unchanged(self, e, what="the configuration is not changed"):
        s = self.snapshot()
        shape = all((s[n] is None) == (self.shape[n] is None) and (s[n] is None or (list(s[n]) == list(self.shape[n]) and all(
            s[n][k] is self.shape[n][k] for k in s[n]))) for n in s)
        r = z3.Int("r?")
        e.prove(what, M.zand(shape, *[ForAll([r], Implies(And(r > 0, r < FRESH_BASE), Select(e.heap[c], r) == Select(self.h0[c], r)))
                                      for c in COMPS if e.heap[c] is not self.h0[c]]))

    def rule(self, which, kind):
        return which.items.get(kind) if which is not None else None


def same_entry(off_ok, v, orig):
    """v is orig, or the copy of it"""
    return Or(And(Not(Val.is_r(orig)), v == orig), And(Val.is_r(orig), Val.is_r(v), Or(*[Val.rv(v) == Val.rv(orig) + o for o in off_ok])))


def is_merged(e, w, got, srv, cli):
    """got (a rule) holds the entries of cli over those of srv, or nothing if cli is empty"""
    x = z3.Const("x?", StrS)
    offs = [0] + e.ghost.get("copies", [])
    h0 = w.h0
    dom0 = lambda d: Select(h0["DDOM"], d.ref)
    val0 = lambda d: Select(h0["DVAL"], d.ref)
    gd, gv = (lambda: M.ddom(e, got))(), M.dval(e, got)
    none = z3.K(StrS, z3.BoolVal(False))
    cd, cv = (dom0(cli), val0(cli)) if cli is not None else (none, z3.K(StrS, Val.none))
    sd, sv = (dom0(srv), val0(srv)) if srv is not None else (none, z3.K(StrS, Val.none))
    cleared = And(cli is not None, ForAll([x], Not(Select(cd, x)))) if cli is not None else z3.BoolVal(False)
    entry = Implies(Select(gd, x), If(Select(cd, x), same_entry(offs, Select(gv, x), Select(cv, x)), same_entry(offs, Select(gv, x), Select(sv, x))))
    return If(cleared, ForAll([x], Not(Select(gd, x))), ForAll([x], And(Select(gd, x) == Or(Select(cd, x), Select(sd, x)), entry)))


def as_dict(e, v):
    v = e.force(v)
    if isinstance(v, Dict) and v.native:
        e.to_heap_dict(v)
    return v


def prove_effective(e, w, got, kinds=KINDS):
    got = e.force(got)
    e.prove("the answer is a set of rules", isinstance(got, Dict) and got.native)
    want = [k for k in kinds if w.rule(w.server, k) is not None or w.rule(w.client, k) is not None]
    e.prove("there are rules for exactly the kinds that have some", sorted(got.items) == sorted(want))
    e.prove("they are no part of the configuration", all(got is not c for c in (w.server, w.client, w.gc, w.info)))
    for k in want:
        if k not in got.items:
            continue
        d = as_dict(e, got.items[k])
        e.prove("the rules of a kind are the client's over the server's, or none", is_merged(e, w, d, w.rule(w.server, k), w.rule(w.client, k)))
        e.prove("nor are the rules of a kind", d.ref >= FRESH_BASE)


def effective(server, client, kinds, name):
    def fn(e):
        w = Rules(e, server, client, kinds)
        r = execute(e, A + ".usage_rules", w.authz, w.cid)
        e.prove("returns normally", r.ok)
        w.prove_unchanged(e)
        prove_effective(e, w, r.value, kinds)
        w.prove_unchanged(e, "nor afterwards")
        e.cover("end")
    contract("C20", name, A + ".usage_rules", budget=60)(fn)


effective(False, False, KINDS, "usage_rules_none")
effective(True, False, KINDS, "usage_rules_server")
effective(False, True, KINDS, "usage_rules_client")
effective(True, True, ("authorization_code", "access_token"), "usage_rules_both_1")
effective(True, True, ("refresh_token", "id_token"), "usage_rules_both_2")


@contract("C20", "usage_rules_for", A + ".usage_rules_for", budget=60)
def rules_for(e):
    w = Rules(e, True, True, ("access_token", "id_token"))
    kind = ("access_token", "id_token", "other")[e.choose(3)]
    r = execute(e, A + ".usage_rules_for", w.authz, w.cid, kind)
    e.prove("returns normally", r.ok)
    w.prove_unchanged(e)
    d = as_dict(e, r.value)
    e.prove("the rules of the kind", is_merged(e, w, d, w.rule(w.server, kind), w.rule(w.client, kind)))
    e.prove("they are no part of the configuration", d.ref >= FRESH_BASE)
    e.cover("end")


def unknown_client(name, cid):
    def fn(e):
        w = Rules(e, True, True, ("access_token", "id_token"))
        r = execute(e, A + ".usage_rules", w.authz, *cid)
        e.prove("returns normally", r.ok)
        w.prove_unchanged(e)
        e.prove("the rules are no part of the configuration", r.value is not w.server)
        for k in ("access_token", "id_token"):
            s = w.rule(w.server, k)
            e.prove("only the server's kinds", (k in r.value.items) == (s is not None))
            if s is not None:
                e.prove("the server's rules", is_merged(e, w, as_dict(e, r.value.items[k]), s, None))
        e.cover("end")
    contract("C20", name, A + ".usage_rules", budget=60)(fn)


unknown_client("usage_rules_unknown_client", ("nobody",))
unknown_client("usage_rules_no_client", ())


@contract("C20", "get_usage_rules", "oidcop.session.grant:get_usage_rules", schema=SCHEMA, budget=120)
def get_rules(e):
    """rules with a grant's own rules on top: neither the configuration nor the defaults change"""
    import oidcop.session.grant as GR
    w = Rules(e, e.choose(2), e.choose(2), ("access_token",))
    dflt = e.lift(GR.DEFAULT_USAGE)
    own = e.inp("grant_rules_access_token", RULES)
    gr = e.born(Dict({"access_token": own} if e.choose(2) else {}))
    grant = sym_obj(e, Grant, "grant", usage_rules=gr)
    for k in ("access_token",):
        for which in (w.server, w.client):
            d = w.rule(which, k)
            if d is not None:
                e.assume(d.ref != own.ref)
    before = {k: dict(v.items) for k, v in dflt.items.items()}
    r = execute(e, "oidcop.session.grant:get_usage_rules", "access_token", w.ctx, grant, w.cid)
    e.prove("returns normally", r.ok)
    w.prove_unchanged(e)
    e.prove("the defaults are not changed", all(dflt.items[k].native and dflt.items[k].items == before[k] for k in before))
    e.prove("the rules are no part of configuration or defaults", all(r.value is not dflt.items[k] for k in before) and r.value is not own)
    e.cover("end")


@contract("C20", "in_force", A + ".__call__", schema=SCHEMA, budget=120,
          callees={SM + ".get_session_info": lambda e, bnd: e.born(Dict({"grant": e.ghost["grant"], "client_id": "the client"}))})
def in_force(e):
    """the rules a grant gets are those of the client its request names"""
    w = Rules(e, True, e.choose(2), ("access_token", "refresh_token"))
    grant = e.ghost["grant"] = sym_obj(e, Grant, "grant", usage_rules=e.born(Dict({})), scope=e.inp("scope", ListOf(STR)), expires_at=0)
    e.ghost["now"] = e.sint("now")
    w.ctx.fields["session_manager"] = sym_obj(e, SessionManager, "sm")
    w.ctx.fields["claims_interface"] = sym_obj(e, object, "ci", get_claims_all_usage=NativeFn(lambda e, *a, **k: e.fresh("claims", DictOf(ANY)), "claims"))
    req = e.inp("request", AUTH_REQ)
    e.assume(And(has(e, req, "client_id"), Val.sv(raw(e, req, "client_id")) == S("the client")))
    r = execute(e, A + ".__call__", w.authz, "sid", req)
    if not r.ok:
        e.cover("failure")
        return
    e.prove("the answer is the session's grant", r.value is grant)
    w.prove_unchanged(e)
    prove_effective(e, w, grant.fields["usage_rules"], ("access_token", "refresh_token"))
    e.cover("end")


def made(cls, tag):
    def fn(e):
        """a token changes no rules but those handed to it"""
        rules = e.inp("rules", RULES) if e.choose(2) else None
        o = e.inp("other_rules", RULES)
        if rules is not None:
            e.assume(o.ref != rules.ref)
        e.ghost["now"] = e.sint("now")
        for c in COMPS:
            e.comp(c)
        h0 = {c: e.heap[c] for c in COMPS}
        r = execute(e, cls, token_class=tag, value=e.inp("value", STR), usage_rules=rules)
        e.prove("returns normally", r.ok)
        x = z3.Int("r?")
        mine = rules.ref if rules is not None else z3.IntVal(-1)
        e.prove("no other rules change", And(*[ForAll([x], Implies(And(x > 0, x < FRESH_BASE, x != mine), Select(e.heap[c], x) == Select(h0[c], x)))
                                               for c in COMPS]))
        e.prove("lists in them neither", And(*[ForAll([x], Implies(And(x > 0, x < FRESH_BASE), Select(e.heap[c], x) == Select(h0[c], x)))
                                               for c in ("LLEN", "LEL")]))
        e.cover("end")
    contract("C20", "made_" + tag, f"oidcop.session.token:{cls.__name__}.__init__", schema={}, budget=60)(fn)


for _c, _t in ((AuthorizationCode, "authorization_code"), (RefreshToken, "refresh_token"), (AccessToken, "access_token"), (IDToken, "id_token")):
    made(_c, _t)


@contract("C20", "new_session", "oidcop.oauth2.authorization:Authorization.create_session", schema=SCHEMA, budget=120,
          callees={SM + ".create_session": lambda e, bnd: e.ghost["given"].append(bnd) or e.sstr("sid"),
                   "oidcop.authn_event:create_authn_event": lambda e, bnd: e.born(Dict({"valid_until": e.sint("until")} if e.choose(2) else {}))})
def new_session(e):
    """a new session gets the rules of its own client"""
    from oidcop.oauth2.authorization import Authorization
    w = Rules(e, True, True, ("access_token", "refresh_token"))
    e.ghost["given"] = []
    e.ghost["now"] = e.sint("now")
    w.ctx.fields["session_manager"] = sym_obj(e, SessionManager, "sm")
    ep = sym_obj(e, Authorization, "endpoint", server_get=NativeFn(lambda e, *a: w.ctx, "server_get"))
    req = e.inp("request", AUTH_REQ)
    e.assume(And(has(e, req, "client_id"), Val.sv(raw(e, req, "client_id")) == S("the client")))
    method = sym_obj(e, object, "method", kwargs=e.inp("method_args", DictOf(ANY, {"expires_in": INT})))
    r = execute(e, "oidcop.oauth2.authorization:Authorization.create_session", ep, req, e.inp("user", STR), "acr", e.sint("ts"), method)
    if not r.ok:
        e.cover("failure")
        return
    w.prove_unchanged(e)
    e.prove("one session is made", len(e.ghost["given"]) == 1)
    prove_effective(e, w, e.ghost["given"][0]["token_usage_rules"], ("access_token", "refresh_token"))
    e.cover("end")
