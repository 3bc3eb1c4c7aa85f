"""C22: pushed authorization requests."""
from .world import *
from pyvc import libmodels as L
from oidcmsg.oauth2 import AuthorizationRequest as ARequest
from oidcmsg.oauth2 import PushedAuthorizationRequest
from oidcmsg.oidc import AuthorizationRequest
from oidcop.endpoint_context import EndpointContext
from oidcop.oauth2.authorization import Authorization as OAuthAuthorization
from oidcop.oauth2.pushed_authorization import PushedAuthorization
from oidcop.oidc.authorization import Authorization

A = "oidcop.oauth2.authorization:Authorization"
P = "oidcop.oauth2.pushed_authorization:PushedAuthorization"


class ParWorld:
    def __init__(self, e, oidc):
        self.par_db = e.born(Dict({}))
        self.ctx = sym_obj(e, EndpointContext, "context", par_db=self.par_db, provider_info=e.born(Dict({})), cdb=e.born(Dict({})), httpc=Opaque("http client"))
        self.par = sym_obj(e, PushedAuthorization, "pushed_authorization", server_get=NativeFn(self.server_get, "server_get"))
        self.par.fields["ttl"] = self.ttl = e.inp("ttl", INT)
        e.assume(self.ttl.t >= 0)
        self.az = sym_obj(e, Authorization if oidc else OAuthAuthorization, "authorization", server_get=NativeFn(self.server_get, "server_get"))
        e.ghost["w"] = self

    def server_get(self, e, what, *a):
        return self.par if what == "endpoint" and a and a[0] == "pushed_authorization" else self.ctx

    def at(self, e, name, after=None):
        t = e.ghost["now"] = e.inp(name, INT)
        e.assume(t.t > (after.t if after is not None else 0) - (1 if after is not None else 0))
        return t

    def request(self, e, name):
        """a parsed, checked request, of the client pushing it (C10)"""
        c = e.inp(name + " client", STR)
        e.assume(z3.Length(c.t) > 0)
        return c, e.born(Dict({"client_id": c, "redirect_uri": e.inp(name + " redirect_uri", STR), "state": e.inp(name + " state", STR)}, cls=PushedAuthorizationRequest))

    def push(self, e, req):
        keys = ("client_id", "redirect_uri", "state")
        before = [M.getitem(e, req, k) for k in keys]
        r = execute(e, P + ".process_request", self.par, req)
        e.prove("the push succeeds", r.ok)
        if not r.ok:
            return None
        e.prove("the request pushed is left as it was", And(*[zb(M.eq(e, M.getitem(e, req, k), v)) for k, v in zip(keys, before)]))
        hr = r.value.items["http_response"]
        e.prove("the lifetime is told", zb(M.eq(e, hr.items["expires_in"], self.ttl)))
        return hr.items["request_uri"]

    def use(self, e, ref, who, cls):
        """an authorization request of that client with that reference"""
        ask = e.born(Dict({"client_id": who, "request_uri": ref, "state": "other"}, cls=cls))
        return execute(e, A + "._do_request_uri", self.az, ask, who, self.ctx)


def histories(oidc):
    cls = AuthorizationRequest if oidc else ARequest

    def f(e):
        w = ParWorld(e, oidc)
        t0 = w.at(e, "first push")
        c1, r1 = w.request(e, "first")
        keys = ("client_id", "redirect_uri", "state")
        said1 = {k: M.getitem(e, r1, k) for k in keys}
        ref1 = w.push(e, r1)
        t1 = w.at(e, "second push", t0)
        c2, r2 = w.request(e, "second")
        said2 = {k: M.getitem(e, r2, k) for k in keys}
        ref2 = w.push(e, r2)
        e.prove("distinct pushes get distinct references", Not(zb(M.eq(e, ref1, ref2))))
        now = w.at(e, "use", t1)
        who, uuid = e.inp("asking client", STR), e.inp("reference", STR)
        e.assume(z3.PrefixOf(z3.StringVal("urn:uuid:"), uuid.t))
        r = w.use(e, uuid, who, cls)
        first = And(zb(M.eq(e, uuid, ref1)), who.t == c1.t, now.t <= t0.t + w.ttl.t)
        second = And(zb(M.eq(e, uuid, ref2)), who.t == c2.t, now.t <= t1.t + w.ttl.t)
        if not r.ok:
            e.prove("it is refused", r.raised(ValueError))
            e.prove("a live reference of the asking client is not refused", Not(Or(first, second)))
            e.cover("refused")
            later = w.at(e, "again", now)
            r = w.use(e, ref1, c1, cls)
            e.prove("a refused use uses nothing up", Or(r.ok, later.t > t0.t + w.ttl.t))
            return
        is1, is2 = zb(M.is_(e, r.value, r1)), zb(M.is_(e, r.value, r2))
        e.prove("it resolves to a request that was pushed", Or(is1, is2))
        e.prove("only for the client that pushed it, with its reference, in its time", And(Implies(is1, first), Implies(is2, second)))
        for k in keys:
            e.prove("it is what was pushed", And(zb(M.eq(e, M.getitem(e, r1, k), said1[k])), zb(M.eq(e, M.getitem(e, r2, k), said2[k]))))
        e.cover("resolved")
        later = w.at(e, "again", now)
        again = w.use(e, uuid, e.inp("asking client again", STR), cls)
        e.prove("a reference used is refused from then on", again.raised(ValueError))
        if e.branch(is1):
            o = w.use(e, ref2, c2, cls)
            e.prove("the other reference still resolves", Or(zb(M.is_(e, o.value, r2)) if o.ok else False, later.t > t1.t + w.ttl.t))
        else:
            o = w.use(e, ref1, c1, cls)
            e.prove("the other reference still resolves", Or(zb(M.is_(e, o.value, r1)) if o.ok else False, later.t > t0.t + w.ttl.t))
    return f


for nm, oidc in (("oidc", True), ("oauth2", False)):
    contract("C22", "a reference is good once, for its client, in its time (%s)" % nm, A + "._do_request_uri")(histories(oidc))


# one operation on any state: what else is there stays
ENTRY = DictOf(ANY, {"client_id": STR, "expires_at": INT, "request": DictOf(ANY, cls=PushedAuthorizationRequest)})


def any_state(e, w):
    """whatever was pushed and not yet used"""
    w.par_db = w.ctx.fields["par_db"] = e.inp("par_db", DictOf(ENTRY))


@contract("C22", "a push adds its own reference and touches no other", P + ".process_request")
def _(e):
    w = ParWorld(e, False)
    any_state(e, w)
    now = w.at(e, "push")
    c, req = w.request(e, "pushed")
    k = e.inp("some reference", STR)
    had = zb(M.contains(e, w.par_db, k))
    ref = w.push(e, req)
    if ref is None:
        return
    e.prove("the reference handed out is there now", zb(M.contains(e, w.par_db, ref)))
    e.prove("every other reference is as before", Or(zb(M.eq(e, k, ref)), zb(M.contains(e, w.par_db, k)) == had))
    e.cover("pushed")


@contract("C22", "a use takes its own reference and touches no other", A + "._do_request_uri")
def _(e):
    w = ParWorld(e, True)
    any_state(e, w)
    w.at(e, "use")
    who, ref, k = e.inp("asking client", STR), e.inp("reference", STR), e.inp("some reference", STR)
    e.assume(z3.PrefixOf(z3.StringVal("urn:uuid:"), ref.t))
    had, had_k = zb(M.contains(e, w.par_db, ref)), zb(M.contains(e, w.par_db, k))
    if e.branch(had):
        entry = M.getitem(e, w.par_db, ref)  # what a push puts there (above)
        e.assume(And(*[has(e, entry, x) for x in ("client_id", "expires_at", "request")]))
    r = w.use(e, ref, who, AuthorizationRequest)
    if r.ok:
        e.prove("only a reference that is there resolves", had)
        e.prove("it is gone afterwards", Not(zb(M.contains(e, w.par_db, ref))))
        e.cover("resolved")
    else:
        e.prove("nothing is used up by a refusal", zb(M.contains(e, w.par_db, ref)) == had)
        e.cover("refused")
    e.prove("every other reference is as before", Or(k.t == ref.t, zb(M.contains(e, w.par_db, k)) == had_k))
