"""C25: scopes."""
from .world import *
from oidcop import scopes as SC
from oidcop.oauth2.authorization import UnAuthorizedClientScope

P = "oidcop.scopes:"
INFO = DictOf(ANY, {"allowed_scopes": ListOf(STR), "scopes_to_claims": DictOf(ListOf(STR))})


def keys_of(dom):
    return lambda x: Select(dom, x)


class ScopeWorld:
    def __init__(self, e):
        self.list = e.inp("server_scopes", ListOf(STR))
        self.map = e.inp("server_map", DictOf(ListOf(STR)))
        self.cdb = e.inp("cdb", DictOf(INFO))
        self.conf = e.inp("capabilities", DictOf(ANY, {"deny_unknown_scopes": BOOL}))
        self.ctx = sym_obj(e, EndpointContext, "context", cdb=self.cdb, conf=e.born(Dict({"capabilities": self.conf})))
        self.sc = sym_obj(e, SC.Scopes, "scopes", server_get=NativeFn(lambda e, *a: self.ctx, "server_get"), allowed_scopes=self.list,
                          _scopes_to_claims=self.map)
        self.ctx.fields["scopes_handler"] = self.sc
        self.cid = e.inp("client_id", STR)
        e.ghost["w"] = self
        for c in ("LLEN", "LEL", "DDOM", "DVAL"):
            e.comp(c)
        self.h0 = dict(e.heap)
        d, v = self.h0["DDOM"], self.h0["DVAL"]
        info = Val.rv(Select(Select(v, self.cdb.ref), self.cid.t))
        known = And(self.cid.t != S(""), Select(Select(d, self.cdb.ref), self.cid.t))
        own = lambda k: And(known, Select(Select(d, info), S(k)))
        ref = lambda k: Val.rv(Select(Select(v, info), S(k)))
        self.has_list, self.has_map = own("allowed_scopes"), own("scopes_to_claims")
        self.map_ref = If(self.has_map, ref("scopes_to_claims"), self.map.ref)
        self.n = lambda r: Select(self.h0["LLEN"], r)
        self.el = lambda r: Select(self.h0["LEL"], r)
        i = z3.Int("i?")

        def in_list(r, x):
            return Exists([i], And(i >= 0, i < self.n(r), Select(self.el(r), i) == Val.s(x)))
        self.in_list = in_list
        self.allowed = lambda x: If(self.has_list, in_list(ref("allowed_scopes"), x),
                                    If(self.has_map, Select(Select(d, ref("scopes_to_claims")), x), in_list(self.list.ref, x)))
        # the lists a claim map holds
        self.lists = lambda r, s: Select(Select(d, r), s)
        self.listed = lambda r, s, c: And(Select(Select(d, r), s), in_list(Val.rv(Select(Select(v, r), s)), c))

    def unchanged(self, e):
        r = z3.Int("r?")
        return M.zand(*[ForAll([r], Implies(And(r > 0, r < FRESH_BASE), Select(e.heap[c], r) == Select(self.h0[c], r)))
                        for c in ("LLEN", "LEL", "DDOM", "DVAL") if e.heap[c] is not self.h0[c]])


def prove_selection(e, w, scopes, got, keep, what):
    """got: the elements of scopes with keep(), in order"""
    got = e.force(got)
    if isinstance(got, List) and got.native:
        e.to_heap_list(got, ListOf(STR).k)
    n, a = w.n(scopes.ref), lambda i: Val.sv(Select(w.el(scopes.ref), i))
    m, r = M.llen(e, got), M.lel(e, got)
    i, j, k = z3.Ints("i? j? k?")
    if e.ghost.get("filters"):
        src, pos = e.ghost["filters"][-1]
    else:
        src = pos = None
    if src is not None:
        e.prove(what + ": each is a requested one", ForAll([j], Implies(And(j >= 0, j < m), And(
            src(j) >= 0, src(j) < n, Select(r, j) == Val.s(a(src(j)))))))
        j0 = e.sint("j")
        e.assume(And(j0.t >= 0, j0.t < m))
        e.assume(Val.is_s(Select(w.el(scopes.ref), src(j0.t))))     # a list of strings
        e.prove(what + ": each is allowed", keep(a(src(j0.t))))
        i0 = e.sint("i")
        e.assume(And(i0.t >= 0, i0.t < n, Val.is_s(Select(w.el(scopes.ref), i0.t)), keep(a(i0.t))))     # a list of strings
        e.prove(what + ": none that is allowed is missing", And(pos(i0.t) >= 0, pos(i0.t) < m, Select(r, pos(i0.t)) == Select(w.el(scopes.ref), i0.t)))
        e.prove(what + ": in request order", ForAll([j, k], Implies(And(j >= 0, j < k, k < m), src(j) < src(k))))
    else:
        f = count(e, lambda i: keep(a(i)), lambda i: Select(w.el(scopes.ref), i))
        e.prove(what + ": as many as are allowed", m == f(n))
        i0 = e.sint("i")
        e.assume(And(i0.t >= 0, i0.t < n, Val.is_s(Select(w.el(scopes.ref), i0.t)), keep(a(i0.t))))     # a list of strings
        e.prove(what + ": each allowed one in its place", Select(r, f(i0.t)) == Select(w.el(scopes.ref), i0.t))


def count(e, keep, at):
    """number of kept positions below i"""
    if "count" not in e.ghost:
        f = z3.Function("kept_below", IntS, IntS)
        i = z3.Int("i?")
        e.assume(f(0) == 0)
        e.assume(ForAll([i], Implies(i >= 0, f(i + 1) == f(i) + If(keep(i), 1, 0)), patterns=[at(i)]))
        e.assume(ForAll([i], Implies(i >= 0, f(i) >= 0), patterns=[f(i)]))
        e.ghost["count"] = f
    return e.ghost["count"]


def inv_filter(e, L):
    w = e.ghost.get("w")
    if w is None or L.idx is None or "scopes" not in e.ghost or L.src.ref.get_id() != e.ghost["scopes"].ref.get_id():
        return
    sc = e.ghost["scopes"]
    a = lambda i: Val.sv(Select(w.el(sc.ref), i))
    f = count(e, lambda i: w.allowed(a(i)), lambda i: Select(w.el(sc.ref), i))
    i = z3.Int("i?")
    for n, v in L.frame.locals.items():
        if isinstance(v, List) and not v.native and v.ref.get_id() not in (sc.ref.get_id(), w.list.ref.get_id()):
            yield f"{n} has the allowed ones", M.llen(e, v) == f(L.idx)
            yield f"{n} in their places", ForAll([i], Implies(And(i >= 0, i < L.idx, w.allowed(a(i))), And(
                f(i) < M.llen(e, v), Select(M.lel(e, v), f(i)) == Val.s(a(i)))))


def allowed_list(e, bound):
    """get_allowed_scopes: a list holding exactly the allowed scopes (allowed_scopes below)."""
    w = e.ghost["w"]
    e.prove("it is asked for the client of the request", zb(M.eq(e, bound["client_id"], w.cid)))
    l = e.fresh("allowed", ListOf(STR))
    w.allowed = lambda x: zb(M.contains(e, l, SStr(x)))
    return l


def filtered_list(e, bound):
    """filter_scopes: exactly the scopes that are allowed (filter_scopes below)."""
    w = e.ghost["w"]
    e.prove("it is asked for the client of the request", zb(M.eq(e, bound["client_id"], w.cid)))
    scopes = e.force(bound["scopes"])
    l = e.fresh("filtered", ListOf(STR))
    x, i, j = z3.Const("x?", StrS), z3.Int("i?"), z3.Int("j?")
    OKAY = z3.Function("allowed", StrS, BoolS)
    w.allowed = OKAY
    n, el, m, r = w.n(scopes.ref), w.el(scopes.ref), M.llen(e, l), M.lel(e, l)
    src, pos = z3.Function("filtered.src", IntS, IntS), z3.Function("filtered.pos", IntS, IntS)
    e.assume(ForAll([j], Implies(And(j >= 0, j < m), And(src(j) >= 0, src(j) < n, Select(r, j) == Select(el, src(j)), OKAY(Val.sv(Select(r, j))))),
                    patterns=[Select(r, j)]))
    e.assume(ForAll([i], Implies(And(i >= 0, i < n, OKAY(Val.sv(Select(el, i)))), And(pos(i) >= 0, pos(i) < m, Select(r, pos(i)) == Select(el, i))),
                    patterns=[Select(el, i)]))
    return l


@contract("C25", "filter_scopes", P + "Scopes.filter_scopes", inv=inv_filter, callees={P + "Scopes.get_allowed_scopes": allowed_list})
def filter_scopes(e):
    w = ScopeWorld(e)
    scopes = e.ghost["scopes"] = e.inp("scopes", ListOf(STR))
    r = execute(e, P + "Scopes.filter_scopes", w.sc, scopes, w.cid)
    e.prove("returns normally", r.ok)
    e.prove("nothing is changed", w.unchanged(e))
    prove_selection(e, w, scopes, r.value, w.allowed, "the scopes taken into account")
    e.cover("end")


@contract("C25", "allowed_scopes", P + "Scopes.get_allowed_scopes")
def allowed_scopes(e):
    w = ScopeWorld(e)
    r = execute(e, P + "Scopes.get_allowed_scopes", w.sc, w.cid)
    e.prove("returns normally", r.ok)
    e.prove("nothing is changed", w.unchanged(e))
    x = e.inp("scope", STR)
    got = e.force(r.value)
    e.prove("they are the client's list, or its map's, or else the server's", zb(M.contains(e, got, x)) == w.allowed(x.t))
    e.cover("end")


@contract("C25", "scope_map", P + "Scopes.get_scopes_mapping")
def scope_map(e):
    w = ScopeWorld(e)
    r = execute(e, P + "Scopes.get_scopes_mapping", w.sc, w.cid)
    e.prove("returns normally", r.ok)
    e.prove("it is the client's map, or else the server's", e.force(r.value).ref == w.map_ref)
    e.prove("nothing is changed", w.unchanged(e))
    e.cover("end")


def inv_claims(e, L):
    """claims so far: those of the scopes seen"""
    st = e.ghost.get("claims")
    if st is None or L.idx is None:
        return
    i, c = z3.Int("i?"), z3.Const("c?", StrS)
    sc = e.ghost["scopes"]
    if L.src.ref.get_id() != sc.ref.get_id():
        return
    e.ghost["witness"] = L.idx
    a = lambda i: Val.sv(Select(st.el, i))
    for n, v in L.frame.locals.items():
        if isinstance(v, Dict) and not v.native and v.ref.get_id() != st.map.ref.get_id():
            dom, val = M.ddom(e, v), M.dval(e, v)
            yield f"{n} has claims of scopes seen", ForAll([c], Implies(Select(dom, c), And(
                st.by(c) >= 0, st.by(c) < L.idx, st.gives(a(st.by(c)), c))) if False else Implies(Select(dom, c), Exists([i], And(
                    i >= 0, i < L.idx, st.gives(a(i), c)))))
            yield f"{n} has every claim of scopes seen", ForAll([i, c], Implies(And(i >= 0, i < L.idx, st.gives(a(i), c)), Select(dom, c)))
            yield f"{n} has no values", ForAll([c], Implies(Select(dom, c), Select(val, c) == Val.none))


class Claims:
    def __init__(self, e, scopes, mp, allowed=None):
        self.map, self.n, self.el = mp, M.llen(e, scopes), M.lel(e, scopes)
        d, v, ll, le = M.ddom(e, mp), M.dval(e, mp), e.comp("LLEN"), e.comp("LEL")
        k = z3.Int("k?")

        def in_list(r, c):
            return Exists([k], And(k >= 0, k < Select(ll, r), Select(Select(le, r), k) == Val.s(c)))
        # membership in the lists of the map, as a predicate
        self.gives = lambda s, c: And(Select(d, s), in_list(Val.rv(Select(v, s)), c),
                                      in_list(allowed.ref, c) if allowed is not None else True)


def convert(name, allowed):
    def fn(e):
        scopes = e.ghost["scopes"] = e.inp("scopes", ListOf(STR))
        mp = e.inp("map", DictOf(ListOf(STR)))
        al = e.inp("allowed_claims", ListOf(STR)) if allowed else None
        if al is not None:
            e.assume(al.ref != scopes.ref)
        for c in ("LLEN", "LEL", "DDOM", "DVAL"):
            e.comp(c)
        st = e.ghost["claims"] = Claims(e, scopes, mp, al)
        h0 = dict(e.heap)
        r = execute(e, P + "convert_scopes2claims", scopes, al, mp)
        e.prove("returns normally", r.ok)
        got = e.force(r.value)
        if got.native:
            e.to_heap_dict(got)
        dom, val = M.ddom(e, got), M.dval(e, got)
        c, i = z3.Const("c?", StrS), z3.Int("i?")
        a = lambda i: Val.sv(Select(st.el, i))
        e.prove("every claim is listed for one of the scopes", ForAll([c], Implies(Select(dom, c), Exists([i], And(
            i >= 0, i < st.n, st.gives(a(i), c))))))
        e.prove("every claim listed for one of them is there", ForAll([i, c], Implies(And(i >= 0, i < st.n, st.gives(a(i), c)), Select(dom, c))))
        e.prove("without a value asked for", ForAll([c], Implies(Select(dom, c), Select(val, c) == Val.none)))
        x = z3.Int("r?")
        e.prove("nothing is changed", M.zand(*[ForAll([x], Implies(And(x > 0, x < FRESH_BASE), Select(e.heap[k], x) == Select(h0[k], x)))
                                               for k in ("LLEN", "LEL", "DDOM", "DVAL") if e.heap[k] is not h0[k]]))
        e.cover("end")
    contract("C25", name, P + "convert_scopes2claims", inv=inv_claims)(fn)


convert("claims_of_scopes", False)
convert("claims_of_scopes_restricted", True)


def called(what):
    def f(e, bound):
        """recorded (each is discharged here)"""
        r = e.fresh(what, ListOf(STR) if what == "filtered" else DictOf(NONEK))
        e.ghost.setdefault("calls", []).append((what, bound, r))
        return r
    return f


@contract("C25", "scopes_to_claims", P + "Scopes.scopes_to_claims",
          callees={P + "Scopes.filter_scopes": called("filtered"), P + "convert_scopes2claims": called("converted")})
def scopes_to_claims(e):
    """the claims are those of the filtered scopes under the client's map"""
    w = ScopeWorld(e)
    scopes = e.inp("scopes", ListOf(STR))
    r = execute(e, P + "Scopes.scopes_to_claims", w.sc, scopes, client_id=w.cid)
    e.prove("returns normally", r.ok)
    calls = e.ghost.get("calls", [])
    ok = [c[0] for c in calls] == ["filtered", "converted"]
    e.prove("the scopes are filtered, then converted", ok)
    if not ok:
        return
    (_, f, fr), (_, c, cr) = calls
    e.prove("those filtered are the ones asked for, for this client", M.zand(e.force(f["scopes"]).ref == scopes.ref, zb(M.eq(e, f["client_id"], w.cid))))
    e.prove("those converted are the filtered ones", e.force(c["scopes"]).ref == fr.ref)
    e.prove("under the client's map, or else the server's", e.force(c["scope2claim_map"]).ref == w.map_ref)
    e.prove("with no further restriction", c["allowed_claims"] is None)
    e.prove("the answer is what they convert to", e.force(r.value).ref == cr.ref)
    e.cover("end")


@contract("C25", "deny_unknown", "oidcop.oauth2.authorization:check_unknown_scopes_policy",
          callees={P + "Scopes.filter_scopes": filtered_list})
def deny(e):
    w = ScopeWorld(e)
    scopes = e.inp("scopes", ListOf(STR))
    req = e.born(Dict({"scope": scopes}))
    denied = And(has(e, w.conf, "deny_unknown_scopes"), Val.bv(raw(e, w.conf, "deny_unknown_scopes")))
    r = execute(e, "oidcop.oauth2.authorization:check_unknown_scopes_policy", req, w.cid, w.ctx)
    i = z3.Int("i?")
    at = lambda i: Val.sv(Select(w.el(scopes.ref), i))
    if r.ok:
        i0 = e.sint("i")
        e.assume(And(i0.t >= 0, i0.t < w.n(scopes.ref)))
        e.prove("every scope is allowed, or the policy is off", Or(Not(denied), w.allowed(at(i0.t))))
        e.cover("goes on")
    else:
        e.prove("it is refused", r.raised(UnAuthorizedClientScope))
        e.prove("only with the policy on", denied)
        e.prove("only for a scope outside", Exists([i], And(i >= 0, i < w.n(scopes.ref), Not(w.allowed(at(i))))))
        e.cover("refused")
