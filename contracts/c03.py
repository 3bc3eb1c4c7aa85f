"""C03: recursive revocation."""
from .lib import *
from oidcop.session.grant import Grant
from oidcop.session.manager import SessionManager
from oidcop.session.token import AccessToken, AuthorizationCode, IDToken, RefreshToken, SessionToken

G = "oidcop.session.grant:Grant"
SM = "oidcop.session.manager:SessionManager"
SCHEMA = {"classes": {SessionToken: [SessionToken, AccessToken, AuthorizationCode, RefreshToken, IDToken]},
          SessionToken: {"value": STR, "based_on": Opt(STR), "revoked": BOOL, "used": INT, "token_class": STR}}

Desc = z3.Function("derived", StrS, IntS, BoolS)      # token number j derives (through any number of tokens) from the token with this value
via = z3.Function("via", StrS, IntS, IntS)
rank = z3.Function("rank", StrS, IntS)


class Tokens:
    """The tokens of a grant when the contract's operation starts; derivation is well founded."""

    def __init__(self, e):
        self.e = e
        self.list = e.inp("issued", ListOf(RefOf(SessionToken)))
        self.grant = sym_obj(e, Grant, "self", issued_token=self.list)
        self.n, self.el = M.llen(e, self.list), M.lel(e, self.list)
        self.val0, self.base0, self.rev0 = (e.comp("F:" + a) for a in ("value", "based_on", "revoked"))
        i, j, v = z3.Int("i?"), z3.Int("j?"), z3.Const("v?", StrS)
        e.assume(ForAll([i], Implies(self.in_(i), And(Val.is_r(Select(self.el, i)), z3.Length(self.V(i)) > 0))))
        e.assume(ForAll([i, j], Implies(And(self.in_(i), self.in_(j), i != j), self.ref(i) != self.ref(j))))
        # Desc is the (only, as derivation is well founded) solution of: j derives from v iff it was based on v or on something derived from v
        e.assume(ForAll([v, i], Implies(And(self.in_(i), self.based(i, v)), Desc(v, i))))
        e.assume(ForAll([v, i, j], Implies(And(self.in_(i), self.in_(j), self.based(i, v), Desc(self.V(i), j)), Desc(v, j))))
        u = via(v, j)
        e.assume(ForAll([v, j], Implies(And(self.in_(j), Desc(v, j)), Or(
            self.based(j, v), And(self.in_(u), self.based(u, v), Desc(self.V(u), j))))))
        e.assume(ForAll([v, i], Implies(And(self.in_(i), self.based(i, v)), And(rank(v) < rank(self.V(i)), rank(self.V(i)) <= self.n))))
        self.heap0 = dict(e.heap)

    def in_(self, i):
        return And(i >= 0, i < self.n)

    def ref(self, i):
        return Val.rv(Select(self.el, i))

    def V(self, i):
        return Select(self.val0, self.ref(i))

    def based(self, i, v):
        x = Select(self.base0, self.ref(i))
        return And(Val.is_s(x), Val.sv(x) == v) if x.sort() == Val else x == v

    def Rev0(self, i, rev=None):
        return Select(self.rev0 if rev is None else rev, self.ref(i))

    def frame(self, e, rev0=None):
        """nothing but the revoked attribute of tokens of this grant changes"""
        o, i = z3.Int("o?"), z3.Int("t?")
        mine = Exists([i], And(self.in_(i), self.ref(i) == o))
        return And(ForAll([o], Implies(Not(mine), Select(e.comp("F:revoked"), o) == Select(self.rev0 if rev0 is None else rev0, o))),
                   *[e.heap[c] == self.heap0[c] for c in self.heap0 if c != "F:revoked"])

    def post(self, e, hit, rev0=None):
        """revoked exactly: what was revoked before and what `hit` says"""
        j = z3.Int("k?")
        return ForAll([j], Implies(self.in_(j), Select(e.comp("F:revoked"), self.ref(j)) == Or(self.Rev0(j, rev0), hit(j))))


def nonempty(e, v):
    return z3.Length(e.str_term(v)) > 0


def revoke_derived(e, bound):
    """Callee contract of revoke_token(based_on=v): exactly the tokens derived from v become revoked (proved below)."""
    st = e.ghost["st"]
    e.prove("recursive call: by base, recursive", And(M.eq(e, bound["value"], ""), b(e, bound["recursive"]), nonempty(e, bound["based_on"]))
            if "based_on" in bound else True)
    v = e.str_term(bound["based_on"])
    return havoc_revoked(e, st, v)


def revoke_dependent(e, bound):
    st = e.ghost["st"]
    v = e.str_term(e.interp.getattr(bound["token"], "value"))
    return havoc_revoked(e, st, v)


def havoc_revoked(e, st, v):
    if e.ghost.get("measure") is not None:
        e.prove("recursion descends", rank(v) > e.ghost["measure"])
    old = e.comp("F:revoked")
    new = z3.Const(e.fresh_name("revoked"), old.sort())
    o, i, j = z3.Int("o?"), z3.Int("t?"), z3.Int("k?")
    mine = Exists([i], And(st.in_(i), st.ref(i) == o))
    e.heap["F:revoked"] = new
    e.assume(ForAll([o], Implies(Not(mine), Select(new, o) == Select(old, o))))
    e.assume(ForAll([j], Implies(st.in_(j), Select(new, st.ref(j)) == Or(Select(old, st.ref(j)), Desc(v, j)))))
    return None


def inv(e, L):
    st = e.ghost.get("st")
    if st is None or L.idx is None:
        return
    v, first = e.ghost["v"], e.ghost["first"]
    i, j, o = z3.Int("i?"), z3.Int("j?"), z3.Int("o?")
    reached = Exists([i], And(i >= 0, i < L.idx, first(i), Or(j == i, Desc(st.V(i), j))))
    r = e.comp("F:revoked")
    yield "revoked so far", ForAll([j], Implies(st.in_(j), Select(r, st.ref(j)) == Or(Select(e.ghost["rev0"], st.ref(j)), reached)))
    yield "frame", ForAll([o], Implies(Not(Exists([i], And(st.in_(i), st.ref(i) == o))), Select(r, o) == Select(e.ghost["rev0"], o)))


def start(e, st, v, first):
    e.ghost.update(st=st, v=v, first=first, rev0=e.comp("F:revoked"))


@contract("C03", "revoke_by_base", G + ".revoke_token", schema=SCHEMA, inv=inv, callees={G + ".revoke_token": revoke_derived})
def by_base(e):
    """everything derived from the given value, and nothing else (this is the contract the recursion uses)"""
    st = Tokens(e)
    v = e.inp("base", STR)
    e.assume(z3.Length(v.t) > 0)
    start(e, st, v.t, lambda i: st.based(i, v.t))
    e.ghost["measure"] = rank(v.t)
    how = e.choose(2)
    r = execute(e, G + ".revoke_token", st.grant, based_on=v) if how else execute(e, G + ".revoke_token", st.grant, based_on=v, recursive=True)
    e.prove("returns normally", r.ok)
    e.prove("exactly the derived tokens become revoked", st.post(e, lambda j: Desc(v.t, j)))
    e.prove("nothing else changes", st.frame(e))
    e.cover("end")


@contract("C03", "revoke_by_value", G + ".revoke_token", schema=SCHEMA, inv=inv, callees={G + ".revoke_token": revoke_derived})
def by_value(e):
    st = Tokens(e)
    v = e.inp("value", STR)
    e.assume(z3.Length(v.t) > 0)
    if e.choose(2):
        kw = {}
        first = lambda i: st.V(i) == v.t
    else:
        bs = e.inp("base", STR)
        e.assume(z3.Length(bs.t) > 0)
        kw = {"based_on": bs}
        first = lambda i: And(st.V(i) == v.t, st.based(i, bs.t))
    start(e, st, v.t, first)
    r = execute(e, G + ".revoke_token", st.grant, value=v, **kw)
    e.prove("returns normally", r.ok)
    i = z3.Int("i?")
    e.prove("exactly the token and its derivatives become revoked", st.post(e, lambda j: Or(first(j), And(
        Desc(v.t, j), Exists([i], And(st.in_(i), first(i)))))))
    e.prove("nothing else changes", st.frame(e))
    e.cover("end")


def inv_plain(e, L):
    st = e.ghost.get("st")
    if st is None or L.idx is None:
        return
    first = e.ghost["first"]
    j, o, i = z3.Int("j?"), z3.Int("o?"), z3.Int("i?")
    r = e.comp("F:revoked")
    yield "revoked so far", ForAll([j], Implies(st.in_(j), Select(r, st.ref(j)) == Or(Select(e.ghost["rev0"], st.ref(j)), And(j < L.idx, first(j)))))
    yield "frame", ForAll([o], Implies(Not(Exists([i], And(st.in_(i), st.ref(i) == o))), Select(r, o) == Select(e.ghost["rev0"], o)))


@contract("C03", "revoke_all", G + ".revoke_token", schema=SCHEMA, inv=inv_plain)
def revoke_all(e):
    st = Tokens(e)
    start(e, st, S(""), lambda i: z3.BoolVal(True))
    r = execute(e, G + ".revoke_token", st.grant)
    e.prove("returns normally", r.ok)
    e.prove("every token is revoked", st.post(e, lambda j: z3.BoolVal(True)))
    e.prove("nothing else changes", st.frame(e))
    e.cover("end")


@contract("C03", "revoke_one_level", G + ".revoke_token", schema=SCHEMA, inv=inv_plain)
def one_level(e):
    """without recursion only the named tokens"""
    st = Tokens(e)
    v, bs = e.inp("value", STR), e.inp("base", STR)
    e.assume(Or(z3.Length(v.t) > 0, z3.Length(bs.t) > 0))
    first = lambda i: And(Or(v.t == S(""), st.V(i) == v.t), Or(bs.t == S(""), st.based(i, bs.t)))
    start(e, st, v.t, first)
    r = execute(e, G + ".revoke_token", st.grant, value=v, based_on=bs, recursive=False)
    e.prove("returns normally", r.ok)
    e.prove("exactly the named tokens become revoked", st.post(e, first))
    e.prove("nothing else changes", st.frame(e))
    e.cover("end")


@contract("C03", "_revoke_dependent", SM + "._revoke_dependent", schema=SCHEMA, inv=inv, callees={SM + "._revoke_dependent": revoke_dependent})
def dependent(e):
    """the session manager's own recursion (its contract is the one used below)"""
    st = Tokens(e)
    sm = sym_obj(e, SessionManager, "manager")
    t = Ref(e.ref_const("token"), SessionToken)
    e.assume_class(t)
    v = Select(st.val0, t.ref)
    e.assume(z3.Length(v) > 0)
    start(e, st, v, lambda i: st.based(i, v))
    e.ghost["measure"] = rank(v)
    r = execute(e, SM + "._revoke_dependent", sm, st.grant, t)
    e.prove("returns normally", r.ok)
    e.prove("exactly the derived tokens become revoked", st.post(e, lambda j: Desc(v, j)))
    e.prove("nothing else changes", st.frame(e))
    e.cover("end")


def inv_find(e, L):
    st = e.ghost.get("st")
    if st is None or L.idx is None:
        return
    i = z3.Int("i?")
    yield "not found yet", ForAll([i], Implies(And(i >= 0, i < L.idx), st.V(i) != e.ghost["v"]))


def the_grant(e, bound):
    """the session's grant (C07, C08)"""
    return e.ghost["st"].grant


@contract("C03", "session_revoke_token", SM + ".revoke_token", schema=SCHEMA, inv=inv_find,
          callees={SM + "._revoke_dependent": revoke_dependent, "oidcop.session.database:Database.get": the_grant,
                   "oidcop.session.database:Database.decrypt_session_id": lambda e, bound: e.born(List(["u", "c", "g"]))})
def session_revoke(e):
    st = Tokens(e)
    sm = sym_obj(e, SessionManager, "manager")
    v = e.inp("token_value", STR)
    e.assume(z3.Length(v.t) > 0)
    i, k = z3.Ints("i? k?")
    e.assume(ForAll([i, k], Implies(And(st.in_(i), st.in_(k), i != k), st.V(i) != st.V(k))))
    start(e, st, v.t, None)
    rec = e.inp("recursive", BOOL)
    r = execute(e, SM + ".revoke_token", sm, e.inp("sid", STR), v, rec)
    known = Exists([i], And(st.in_(i), st.V(i) == v.t))
    if r.ok:
        e.prove("the token is known", known)
        e.prove("the token and, if asked, exactly its derivatives become revoked", st.post(e, lambda j: Or(
            st.V(j) == v.t, And(rec.t, Desc(v.t, j)))))
        e.prove("nothing else changes", st.frame(e))
        e.cover("end")
    else:
        e.prove("refused only for an unknown token", Not(known))
        e.prove("a refusal changes nothing", And(*[e.heap[c] == st.heap0[c] for c in st.heap0]))


from . import world as W  # noqa: E402


@contract("C03", "used_code", "oidcop.oidc.token:AccessTokenHelper.post_parse_request", schema=W.SCHEMA, callees=W.TOKEN_CALLEES)
def used_code(e):
    """a used code at the OpenID Connect token endpoint: refused, and everything derived from it revoked (revoke_by_base)"""
    w = W.TokenWorld(e, True)
    e.assume(w.rstr(e, "grant_type") == S("authorization_code"))
    code = w.rstr(e, "code")
    e.assume(has(e, w.req, "code"))
    used0 = e.comp("F:used")
    allowed0 = e.comp("DDOM")
    p = execute(e, "oidcop.oauth2.token:Token._post_parse_request", w.endpoint, w.req, w.client_id, endpoint_context=w.ctx)
    t = w.found.get(code.sexpr())
    if t is None:
        e.prove("an unknown code is not accepted", not p.ok or W.is_error(p.value))
        return
    used = And(CLS(t.ref) == e.run.class_id(AuthorizationCode), Select(used0, t.ref) != 0)
    if e.branch(used):
        e.prove("the used code is refused", p.ok and W.is_error(p.value))
        e.prove("everything derived from it is revoked", len(w.revoked) == 1)
        if len(w.revoked) == 1:
            c = w.revoked[0]
            e.prove("by a recursive revocation of what the code was the base of", And(
                e.str_term(c["based_on"]) == code, M.eq(e, c["value"], ""), b(e, c["recursive"]), c["self"] is w.grant))
        e.cover("reused")
    else:
        e.prove("nothing is revoked otherwise", not w.revoked)
        e.cover("first use")
