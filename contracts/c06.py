"""C06: revoking grants and client sessions."""
from . import c07
from .world import *
from oidcop.session.info import ClientSessionInfo, SessionInfo, UserSessionInfo
from oidcmsg.impexp import ImpExp

OWNS = z3.Function("token_of", IntS, IntS, BoolS)      # (grant, object): the object is one of the tokens issued under the grant
SCH = {**SCHEMA, **c07.SCHEMA, "classes": {**SCHEMA["classes"], **c07.SCHEMA["classes"]},
       Grant: {"issued_token": ListOf(RefOf(SessionToken)), "revoked": BOOL, "used": INT, "usage_rules": RULES, "not_before": INT,
               "expires_at": INT}}


def owns_is_membership(e):
    """token_of is membership in the list of issued tokens (which nothing here changes)"""
    g, o, i = z3.Ints("g? o? i?")
    l = Select(e.comp("F:issued_token"), g)
    at = Select(Select(e.comp("LEL"), l), i)
    n = Select(e.comp("LLEN"), l)
    e.assume(ForAll([g, i], Implies(And(i >= 0, i < n), And(Val.is_r(at), OWNS(g, Val.rv(at))))))
    w = z3.Function("position_of", IntS, IntS, IntS)
    at2 = Select(Select(e.comp("LEL"), l), w(g, o))
    e.assume(ForAll([g, o], Implies(OWNS(g, o), And(w(g, o) >= 0, w(g, o) < n, Val.rv(at2) == o))))


def revoked_with(old, g):
    """state of the revoked marks after the grant g was revoked"""
    return lambda o: Or(Select(old, o), o == g, OWNS(g, o))


def grant_revoke(e, bound):
    """Grant.revoke: exactly the grant and the tokens issued under it become revoked (discharged below)."""
    g = bound["self"].ref
    old = e.comp("F:revoked")
    new = z3.Const(e.fresh_name("revoked"), old.sort())
    o = z3.Int("o?")
    e.assume(ForAll([o], Select(new, o) == revoked_with(old, g)(o)))
    e.heap["F:revoked"] = new
    return None


def decrypt(n):
    def f(e, bound):
        """decrypt_session_id: the path the handle was made for, or a failure (C08)."""
        if e.choose(2):
            e.ghost["undecodable"] = True
            raise PyRaise(Obj(ValueError, {"args": ()}))
        st = e.ghost["st"]
        return e.born(List([st.uid, st.cid, st.gid][:n]))
    return f


def frame(e, st, but=("F:revoked",)):
    return And(*[e.heap[c] == a for c, a in st.heap0.items() if c not in but])


def inv_plain(e, L):
    st = e.ghost["st"]
    i, o = z3.Ints("i? o?")
    rev = e.comp("F:revoked")
    if L.idx is None:
        return
    tok = lambda k: Val.rv(Select(Select(st.heap0["LEL"], st.list), k))
    yield "the tokens visited are revoked", ForAll([i], Implies(And(i >= 0, i < L.idx), Select(rev, tok(i))))
    yield "nothing else", ForAll([o], Implies(And(Select(rev, o), Not(Select(st.rev0, o)), o != st.g), Exists([i], And(
        i >= 0, i < L.idx, tok(i) == o))))
    yield "revoked stays", ForAll([o], Implies(Or(Select(st.rev0, o), o == st.g), Select(rev, o)))


class GrantState:
    def __init__(self, e):
        self.grant = Ref(e.ref_const("grant"), Grant)
        e.assume_class(self.grant)
        self.g = self.grant.ref
        e.inputs["grant"] = self.grant
        e.interp.getattr(self.grant, "issued_token")
        self.rev0 = e.comp("F:revoked")
        self.list = Select(e.comp("F:issued_token"), self.g)
        e.comp("LLEN"), e.comp("LEL")
        owns_is_membership(e)
        e.ghost["st"] = self
        self.heap0 = dict(e.heap)


@contract("C06", "grant_revoke", G + ".revoke", schema=SCH, inv=inv_plain)
def grant_revoke_(e):
    st = GrantState(e)
    n = Select(e.comp("LLEN"), st.list)
    r = execute(e, G + ".revoke", st.grant)
    e.prove("returns normally", r.ok)
    o = z3.Int("o?")
    e.prove("exactly the grant and its tokens become revoked", ForAll([o], Select(e.comp("F:revoked"), o) == revoked_with(st.rev0, st.g)(o)))
    e.prove("nothing else changes", frame(e, st))
    i = e.sint("i")
    e.assume(And(i.t >= 0, i.t < n))
    t = e.dec(Select(Select(e.comp("LEL"), st.list), i.t), RefOf(SessionToken))
    later = e.sint("later")
    e.assume(later.t > 0)
    r = execute(e, "oidcop.session.token:Item.is_active", t, now=later)
    e.prove("no token of it is active at any time", Not(b(e, r.value)) if r.ok else False)
    r = execute(e, "oidcop.session.token:Item.is_active", st.grant, now=later)
    e.prove("nor is the grant", Not(b(e, r.value)) if r.ok else False)
    e.cover("end")


class Sessions(c07.Store_):
    """the session store, with grants under the client session in question"""

    def __init__(self, e):
        super().__init__(e)
        e.assume(self.own())
        self.sm = sym_obj(e, SessionManager, "manager", db=self.dl, key="key")
        i = z3.Int("i?")
        self.gref = lambda k: Val.rv(Select(self.val0, c07.join(self.kc, self.sub_at(self.kc, k))))
        key = c07.join(self.kc, self.sub_at(self.kc, i))
        # C07: every grant named by the client session is stored
        e.assume(ForAll([i], Implies(And(i >= 0, i < self.n0(self.kc)), And(
            Select(self.dom0, key), Val.is_r(Select(self.val0, key)), CLS(self.gref(i)) == e.run.class_id(Grant),
            self.sub_at(self.kc, i) != S("")))))
        self.info = Val.rv(Select(self.val0, self.kc))
        self.rev0 = e.comp("F:revoked")
        e.comp("F:issued_token")
        e.ghost["st"] = self
        self.heap0 = dict(e.heap)


def inv_client(e, L):
    st = e.ghost["st"]
    if L.idx is None:
        return
    i, o = z3.Ints("i? o?")
    rev = e.comp("F:revoked")
    seen = And(i >= 0, i < L.idx)
    yield "the grants visited are revoked", ForAll([i], Implies(seen, Select(rev, st.gref(i))))
    yield "and their tokens", ForAll([i, o], Implies(And(seen, OWNS(st.gref(i), o)), Select(rev, o)))
    yield "nothing else", ForAll([o], Implies(And(Select(rev, o), Not(Select(st.rev0, o)), o != st.info), Exists([i], And(
        seen, Or(st.gref(i) == o, OWNS(st.gref(i), o))))))
    yield "revoked stays", ForAll([o], Implies(Or(Select(st.rev0, o), o == st.info), Select(rev, o)))


def client_session(n):
    def fn(e):
        st = Sessions(e)
        r = execute(e, SM + ".revoke_client_session", st.sm, e.sstr("session_id"))
        i, o = z3.Ints("i? o?")
        rev = e.comp("F:revoked")
        if not r.ok:
            e.prove("refused only if there is no such client session", Or(
                e.ghost.get("undecodable", False), Not(Select(st.dom0, st.ku)), Not(st.linked(st.ku, st.cid.t)), Not(Select(st.dom0, st.kc))))
            e.prove("a refused call changes nothing", And(rev == st.rev0, frame(e, st)))
            e.cover("refused")
            return
        under = And(i >= 0, i < st.n0(st.kc))
        e.prove("the client session is revoked", Select(rev, st.info))
        e.prove("every grant of it is revoked", ForAll([i], Implies(under, Select(rev, st.gref(i)))))
        e.prove("every token of these grants is revoked", ForAll([i, o], Implies(And(under, OWNS(st.gref(i), o)), Select(rev, o))))
        e.prove("nothing else becomes revoked", ForAll([o], Implies(And(Select(rev, o), Not(Select(st.rev0, o))), Or(
            o == st.info, Exists([i], And(under, Or(st.gref(i) == o, OWNS(st.gref(i), o))))))))
        e.prove("nothing becomes valid again", ForAll([o], Implies(Select(st.rev0, o), Select(rev, o))))
        e.prove("the store holds the same entries", And(M.ddom(e, st.db) == st.dom0, M.dval(e, st.db) == st.val0))
        e.prove("nothing else changes", frame(e, st, ("F:revoked", "DDOM", "DVAL")))
        e.cover("revoked")
    return fn


for _n in (2, 3):
    contract("C06", f"revoke_client_session_{_n}", SM + ".revoke_client_session", schema=SCH, inv=inv_client,
             callees={G + ".revoke": grant_revoke, SM + ".decrypt_session_id": decrypt(_n),
                      "oidcop.session.database:Database.decrypt_session_id": decrypt(_n)})(client_session(_n))


@contract("C06", "revoke_grant", SM + ".revoke_grant", schema=SCH,
          callees={G + ".revoke": grant_revoke, "oidcop.session.database:Database.decrypt_session_id": decrypt(3)})
def revoke_grant(e):
    st = Sessions(e)
    kg = Select(st.val0, st.kg)
    e.assume(Implies(And(Select(st.dom0, st.kg)), And(Val.is_r(kg), CLS(Val.rv(kg)) == e.run.class_id(Grant))))
    g = Val.rv(kg)
    r = execute(e, SM + ".revoke_grant", st.sm, e.sstr("session_id"))
    o = z3.Int("o?")
    rev = e.comp("F:revoked")
    if not r.ok:
        e.prove("a refused call changes nothing", And(rev == st.rev0, frame(e, st)))
        e.cover("refused")
        return
    e.prove("exactly the grant and its tokens become revoked", ForAll([o], Select(rev, o) == revoked_with(st.rev0, g)(o)))
    e.prove("the store holds the same entries", And(M.ddom(e, st.db) == st.dom0, M.dval(e, st.db) == st.val0))
    e.prove("nothing else changes", frame(e, st, ("F:revoked", "DDOM", "DVAL")))
    e.cover("revoked")


# what refuses an inactive grant or token
from . import c01, c14, c15  # noqa: E402,F401
also("C06", "C01.is_active", "C01.is_active_default_clock", "C14.process_request", "C15.process_request")
