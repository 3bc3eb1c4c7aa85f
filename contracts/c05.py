"""C05: refresh."""
from .world import *

ALLOWED = z3.Function("in_grant_scope", StrS, BoolS)     # any property all scopes of the grant have (such as being one of them)


IN_BASE = z3.Function("in_base_scope", StrS, BoolS)      # any property all scopes of the token's base have


def all_allowed(e, l, ALLOWED=ALLOWED):
    l = e.force(l)
    if l.native:
        return And(*[ALLOWED(e.str_term(x)) for x in l.items]) if l.items else z3.BoolVal(True)
    i = z3.Int("s?")
    return ForAll([i], Implies(And(i >= 0, i < M.llen(e, l)), ALLOWED(Val.sv(Select(M.lel(e, l), i)))))


def scope_invariant(e, w):
    """every token of the grant has scopes of the grant only (kept by minting, below)"""
    i, j = z3.Ints("t? s?")
    sc = Select(e.comp("F:scope"), w.ref(i))
    el = Val.sv(Select(Select(e.comp("LEL"), sc), j))
    e.assume(ForAll([i, j], Implies(And(w.in_(i), j >= 0, j < Select(e.comp("LLEN"), sc)), ALLOWED(el))))
    e.assume(all_allowed(e, w.scope))


def find_scope(e, bound):
    """Grant.find_scope: scopes of the grant only (discharged below)."""
    w = e.ghost["w"]
    l = e.ghost.get("found_scope")
    if l is None:
        l = e.ghost["found_scope"] = w.own(e.fresh("found", ListOf(STR)))
        e.assume(all_allowed(e, l))
        e.assume(all_allowed(e, l, IN_BASE))
    e.ghost.setdefault("found_for", []).append(bound["based_on"])
    return l


@contract("C05", "find_scope", G + ".find_scope", schema=SCHEMA, callees={G + ".get_token": get_token, G + ".find_scope": find_scope})
def find_scope_(e):
    w = World(e)
    w.found = {}
    scope_invariant(e, w)
    how = e.choose(3)
    if how == 0:
        arg = w.token("base")
    elif how == 1:
        arg = e.inp("value", STR)
    else:
        arg = None
    h0 = dict(e.heap)
    r = execute(e, G + ".find_scope", w.grant, arg)
    e.prove("returns normally", r.ok)
    e.prove("only scopes of the grant", all_allowed(e, r.value))
    if how == 0:
        own = e.interp.getattr(arg, "scope")
        e.prove("a token's own scope decides if it has one", Implies(M.llen(e, own) > 0, r.value.ref == own.ref))
    if how == 2:
        e.prove("without a base it is the grant's scope", same_strings(e, r.value, w.scope))
    e.prove("reading changes nothing", And(*[e.heap[c] == h0[c] for c in h0]))
    e.cover("end")


def refresh(e, oidc, scoped, rotating, issuing):
    w = TokenWorld(e, oidc)
    scope_invariant(e, w)
    w.was_active = None
    e.assume(w.rstr(e, "grant_type") == S("refresh_token"))
    e.assume(has(e, w.req, "refresh_token"))
    tv = w.rstr(e, "refresh_token")
    e.assume(And(has(e, w.req, "client_id"), w.rstr(e, "client_id") == w.client_id.t, z3.Length(w.client_id.t) > 0))
    has_scope = has(e, w.req, "scope")
    e.assume(has_scope if scoped else Not(has_scope))
    client = e.dec(Select(M.dval(e, w.cdb), w.client_id.t), DictOf(ANY, CLIENT_KEYS))
    if e.branch(has(e, client, "revoke_refresh_on_issue")):
        rotate = e.branch(Val.bv(raw(e, client, "revoke_refresh_on_issue")))
    else:
        rotate = e.branch(e.bool_term(w.endpoint.fields["revoke_refresh_on_issue"]))
    if rotate != rotating:
        return
    used0 = e.comp("F:used")
    issue = {"issue_refresh": True} if issuing else {}
    p, r = w.run(e, issue)
    t = w.found.get(tv.sexpr())
    if r is None:
        e.prove("a refused request mints nothing", w.untouched(e))
        if p.ok and t is not None and w.was_active is not None and e.ghost.get("found_scope") is not None:
            e.cover("refused for its scope")
        e.cover("refused")
        return
    if w.minted:
        e.prove("tokens come from a known refresh token", t is not None)
        if t is None:
            return
        e.prove("it is a refresh token with that value", And(CLS(t.ref) == e.run.class_id(RefreshToken),
                                                             e.str_term(e.interp.getattr(t, "value")) == tv))
        e.prove("it was active", w.was_active if w.was_active is not None else False)
        e.prove("it belongs to the client making the request", w.owner.t == w.client_id.t)
        for m in w.minted:
            e.prove("everything is minted from that token", M.eq(e, e.interp.getattr(m, "based_on"), SStr(tv)))
            sc = e.interp.getattr(m, "scope")
            e.prove("no scope outside the grant", all_allowed(e, sc))
            e.prove("no scope outside that of the token it derives from", all_allowed(e, sc, IN_BASE))
            base = e.interp.getattr(t, "based_on")
            e.prove("which is the one it was based on", And(*[M.eq(e, x, base) for x in e.ghost.get("found_for", [])]))
            found = e.ghost.get("found_scope")
            e.prove("without a scope in the request, that of the base", Implies(Not(has_scope), sc.ref == found.ref if found is not None else False))
    if r.ok and not is_error(r.value):
        e.prove("tokens are handed out only for a known token", t is not None)
        e.prove("the refresh token is marked used", e.int_term(e.interp.getattr(t, "used")) == Select(used0, t.ref) + 1)
        e.prove("rotation leaves it inactive", b(e, e.interp.getattr(t, "revoked")) if rotate else True)
        later = e.sint("later")
        e.prove("at any time", Not(active(e, t, later.t)) if rotate else True)
        e.cover("refreshed")


def watch_active(e, bound):
    w = e.ghost["w"]
    r = is_active(e, bound)
    if isinstance(bound["self"], Ref) and w.was_active is None:
        w.was_active = r.t
    return r


for _o in ("oidc", "oauth2"):
    for _s in (True, False):
        for _r in (True, False):
            for _i in (True, False):
                contract("C05", f"refresh_{_o}_{'scope' if _s else 'noscope'}_{'rotate' if _r else 'keep'}{'_issue' if _i else ''}",
                         f"oidcop.{_o}.token:RefreshTokenHelper.process_request", schema=SCHEMA,
                         callees={**TOKEN_CALLEES, G + ".find_scope": find_scope, "oidcop.session.token:Item.is_active": watch_active})(
                    lambda e, o=_o, s=_s, r=_r, i=_i: refresh(e, o == "oidc", s, r, i))


def minted_scope(e, tc, with_base):
    """minting keeps the invariant: a token minted with scopes of the grant (or none given) has scopes of the grant only"""
    w = World(e)
    w.found = {}
    scope_invariant(e, w)
    base = w.token("base") if with_base else None
    scope = None
    if e.choose(2):
        scope = w.own(e.inp("scope", ListOf(STR)))
        e.assume(all_allowed(e, scope))
    r = execute(e, G + ".mint_token", w.grant, "session", w.ctx, tc, based_on=base, scope=scope)
    if r.ok and r.value is not None:
        e.prove("the minted token has scopes of the grant only", all_allowed(e, e.interp.getattr(r.value, "scope")))
        e.cover("minted")


for _tc in CLASS_OF:
    for _wb in (0, 1):
        contract("C05", f"minted_scope_{_tc}_{'derived' if _wb else 'first'}", G + ".mint_token", schema=SCHEMA, callees={
            G + ".payload_arguments": payload, G + ".find_scope": find_scope, **IS_ACTIVE})(
            lambda e, tc=_tc, wb=_wb: minted_scope(e, tc, wb))
