"""C07: the session database."""
from .lib import *
from oidcmsg.impexp import ImpExp
from oidcmsg.item import DLDict
from oidcop.constant import DIVIDER
from oidcop.session import database as D
from oidcop.session.grant import Grant
from oidcop.session.info import ClientSessionInfo, SessionInfo, UserSessionInfo

P = "oidcop.session.database:Database"
SCHEMA = {"classes": {ImpExp: [UserSessionInfo, ClientSessionInfo, Grant], SessionInfo: [UserSessionInfo, ClientSessionInfo]},
          SessionInfo: {"subordinate": ListOf(STR), "revoked": BOOL, "type": STR, "extra_args": DictOf(ANY),
                        "user_id": STR, "client_id": STR}}


def join(*xs):
    t = xs[0]
    for x in xs[1:]:
        t = z3.Concat(t, S(DIVIDER), x)
    return t


def clean(x):
    """An identifier: not empty and without the divider."""
    return And(z3.Length(x) > 0, Not(z3.Contains(x, S(";"))))


class Store_:
    """A database and its state when the contract's operation starts."""

    def __init__(self, e):
        self.e = e
        self.db = e.inp("db", DictOf(RefOf(ImpExp)))
        self.dl = sym_obj(e, DLDict, db=self.db)
        self.o = sym_obj(e, D.Database, "self", db=self.dl, key="key")
        self.uid, self.cid, self.gid = (e.inp(n, STR) for n in ("uid", "cid", "gid"))
        for x in (self.uid, self.cid, self.gid):
            e.assume(clean(x.t))
        self.ku, self.kc, self.kg = self.uid.t, join(self.uid.t, self.cid.t), join(self.uid.t, self.cid.t, self.gid.t)
        self.dom0, self.val0 = M.ddom(e, self.db), M.dval(e, self.db)
        self.sub0 = e.comp("F:subordinate")
        self.len0, self.el0 = e.comp("LLEN"), e.comp("LEL")
        tag = lambda k, c: CLS(Val.rv(Select(self.val0, k))) == e.run.class_id(c)
        # representation: the entry of a user is a user entry, below it client entries; every entry has its own list of ids
        e.assume(Implies(Select(self.dom0, self.ku), And(Val.is_r(Select(self.val0, self.ku)), tag(self.ku, UserSessionInfo))))
        e.assume(Implies(Select(self.dom0, self.kc), And(Val.is_r(Select(self.val0, self.kc)), tag(self.kc, ClientSessionInfo))))
        i = z3.Int("i?")
        lu = self.lref(self.ku)
        c = Val.sv(Select(Select(self.el0, lu), i))
        kx = join(self.ku, c)
        e.assume(ForAll([i], Implies(And(i >= 0, i < Select(self.len0, lu)), And(
            Val.is_s(Select(Select(self.el0, lu), i)),
            Implies(Select(self.dom0, kx), And(Val.is_r(Select(self.val0, kx)), tag(kx, ClientSessionInfo)))))))
        lc = self.lref(self.kc)
        e.assume(ForAll([i], Implies(And(i >= 0, i < Select(self.len0, lc)), Val.is_s(Select(Select(self.el0, lc), i)))))
        self.heap0 = dict(e.heap)
        self.refs = {}

    def lref(self, k):
        """the list of subordinates of the entry at key k (at the start)"""
        return Select(self.sub0, Val.rv(Select(self.val0, k)))

    def n0(self, k):
        return Select(self.len0, self.lref(k))

    def sub_at(self, k, i):
        return Val.sv(Select(Select(self.el0, self.lref(k)), i))

    def linked(self, k, x):
        i = z3.Int("j?")
        return Exists([i], And(i >= 0, i < self.n0(k), self.sub_at(k, i) == x))

    def own(self):
        """distinct entries have distinct lists"""
        a, b_ = z3.Consts("a? b?", StrS)
        return ForAll([a, b_], Implies(And(Select(self.dom0, a), Select(self.dom0, b_), a != b_),
                                       And(self.lref(a) != self.lref(b_), Select(self.val0, a) != Select(self.val0, b_))))


def linked_now(e, st, k, x):
    """is x in the list of the entry now at key k"""
    lr = Select(e.comp("F:subordinate"), Val.rv(Select(M.dval(e, st.db), k)))
    i = z3.Int("j!")
    return Exists([i], And(i >= 0, i < Select(e.comp("LLEN"), lr), Val.sv(Select(Select(e.comp("LEL"), lr), i)) == x))


def value_for(e, depth):
    cls = (UserSessionInfo, ClientSessionInfo, Grant)[depth - 1]
    r = Ref(e.ref_const("value"), cls)
    e.assume_class(r)
    e.inputs["value"] = r
    return r


def _set(depth):
    def fn(e):
        st = Store_(e)
        e.assume(st.own())
        v = value_for(e, depth)
        path = e.born(List([st.uid, st.cid, st.gid][:depth]))
        key = (st.ku, st.kc, st.kg)[depth - 1]
        r = execute(e, P + ".set", st.o, path, v)
        e.prove("returns normally", r.ok)
        dom, val = M.ddom(e, st.db), M.dval(e, st.db)
        k = z3.Const("k?", StrS)
        keys = [st.ku, st.kc, st.kg][:depth]
        e.prove("nothing but the path and its parents is touched", ForAll([k], Implies(And(*[k != x for x in keys]), And(
            Select(dom, k) == Select(st.dom0, k), Select(val, k) == Select(st.val0, k)))))
        e.prove("the value is stored under its path", And(Select(dom, key), Select(val, key) == Val.r(v.ref)))
        for p, c in zip(keys, [st.cid.t, st.gid.t]):
            if p is key:
                break
            e.prove("parents keep their entry if they had one", And(Select(dom, p), Implies(
                Select(st.dom0, p), Select(val, p) == Select(st.val0, p))))
            e.prove("linked under its parent", linked_now(e, st, p, c))
            x = z3.Const("x?", StrS)
            e.prove("no other id is linked or unlinked", Implies(Select(st.dom0, p), ForAll([x], Implies(
                x != c, linked_now(e, st, p, x) == st.linked(p, x)))))
        e.cover("end")
    contract("C07", f"set_{depth}", P + ".set", schema=SCHEMA)(fn)


def _get(depth):
    def fn(e):
        st = Store_(e)
        path = e.born(List([st.uid, st.cid, st.gid][:depth]))
        key = (st.ku, st.kc, st.kg)[depth - 1]
        r = execute(e, P + ".get", st.o, path)
        there = And(*([Select(st.dom0, k) for k in (st.ku, st.kc, st.kg)[:depth]] +
                      [st.linked(p, c) for p, c in ((st.ku, st.cid.t), (st.kc, st.gid.t))[:depth - 1]]))
        if r.ok:
            e.prove("found only when stored and linked", there)
            e.prove("the stored entry is returned", isinstance(r.value, Cell) and e.publish(r.value) == Val.rv(Select(st.val0, key)))
            e.cover("found")
        else:
            e.prove("a missing path is a lookup error", r.raised(KeyError, ValueError))
            e.prove("refused only when something is missing", Not(there))
            e.cover("missing")
        e.prove("reading changes nothing", And(M.ddom(e, st.db) == st.dom0, M.dval(e, st.db) == st.val0,
                                               *[e.heap[c] == st.heap0[c] for c in st.heap0]))
    contract("C07", f"get_{depth}", P + ".get", schema=SCHEMA)(fn)


def get_after_set(e, depth):
    st = Store_(e)
    e.assume(st.own())
    v = value_for(e, depth)
    path = e.born(List([st.uid, st.cid, st.gid][:depth]))
    r = execute(e, P + ".set", st.o, path, v)
    e.prove("set returns", r.ok)
    path2 = e.born(List([st.uid, st.cid, st.gid][:depth]))
    r = execute(e, P + ".get", st.o, path2)
    e.prove("what was stored is found again", r.ok)
    if r.ok:
        e.prove("and is the same object", isinstance(r.value, Cell) and e.publish(r.value) == v.ref)
        e.cover("end")


for _n in (3, 2, 1):
    contract("C07", f"get_after_set_{_n}", P + ".get", schema=SCHEMA)(lambda e, n=_n: get_after_set(e, n))


def gone(st, k, ck, upto=None):
    """k is the key of a grant linked under the client entry at ck"""
    i = z3.Int("g?")
    n = st.n0(ck) if upto is None else upto
    return Exists([i], And(i >= 0, i < n, k == z3.Concat(ck, S(DIVIDER), st.sub_at(ck, i))))


def same_rest(e, st):
    """entries that stay keep their value"""
    k = z3.Const("k?", StrS)
    return ForAll([k], Implies(Select(M.ddom(e, st.db), k), Select(M.dval(e, st.db), k) == Select(st.val0, k)))


def inv_client(e, L):
    st = e.ghost["store"]
    ck = e.ghost["ck"]
    if L.idx is None:
        return
    k = z3.Const("k?", StrS)
    d0 = Select(L.heap_at_entry("DDOM"), st.db.ref)
    v0 = Select(L.heap_at_entry("DVAL"), st.db.ref)
    yield "dom minus visited grants", ForAll([k], Select(M.ddom(e, st.db), k) == And(Select(d0, k), Not(gone(st, k, ck, L.idx))))
    yield "values stay", M.dval(e, st.db) == v0
    yield "other dictionaries stay", ForAll([z3.Int("o?")], Implies(z3.Int("o?") != st.db.ref, And(
        Select(e.comp("DDOM"), z3.Int("o?")) == Select(L.heap_at_entry("DDOM"), z3.Int("o?")))))


@contract("C07", "delete_missing", P + ".delete", schema=SCHEMA)
def delete_missing(e):
    """a path that is not stored: deleting it changes nothing"""
    st = Store_(e)
    depth = e.choose(3) + 1
    path = e.born(List([st.uid, st.cid, st.gid][:depth]))
    miss = [Not(Select(st.dom0, st.ku))]
    if depth > 1:
        miss.append(Not(st.linked(st.ku, st.cid.t)))
    if depth > 2:
        miss.append(Not(Select(st.dom0, st.kc)))
        miss.append(Not(st.linked(st.kc, st.gid.t)))
    e.assume(Or(*miss))
    r = execute(e, P + ".delete", st.o, path)
    e.prove("returns normally", r.ok)
    e.prove("nothing changes", And(M.ddom(e, st.db) == st.dom0, M.dval(e, st.db) == st.val0,
                                   *[e.heap[c] == st.heap0[c] for c in st.heap0]))
    e.cover("end")


@contract("C07", "delete_client", P + ".delete", schema=SCHEMA, inv=inv_client)
def delete_client(e):
    st = Store_(e)
    e.assume(st.own())
    e.ghost["store"], e.ghost["ck"] = st, st.kc
    e.assume(Select(st.dom0, st.ku))
    e.assume(st.linked(st.ku, st.cid.t))
    path = e.born(List([st.uid, st.cid]))
    r = execute(e, P + ".delete", st.o, path)
    e.prove("returns normally", r.ok)
    k = z3.Const("k?", StrS)
    childless = st.n0(st.ku) == 1
    e.prove("the client entry, its grants and a childless user go, nothing else", ForAll([k], Select(M.ddom(e, st.db), k) == And(
        Select(st.dom0, k), k != st.kc, Not(And(Select(st.dom0, st.kc), gone(st, k, st.kc))), Not(And(k == st.ku, childless)))))
    e.prove("what stays keeps its value", same_rest(e, st))
    e.cover("end")


@contract("C07", "delete_grant", P + ".delete", schema=SCHEMA, inv=inv_client)
def delete_grant(e):
    st = Store_(e)
    e.assume(st.own())
    e.ghost["store"], e.ghost["ck"] = st, st.kc
    e.assume(And(Select(st.dom0, st.ku), Select(st.dom0, st.kc)))
    e.assume(st.linked(st.ku, st.cid.t))
    e.assume(st.linked(st.kc, st.gid.t))
    path = e.born(List([st.uid, st.cid, st.gid]))
    r = execute(e, P + ".delete", st.o, path)
    e.prove("returns normally", r.ok)
    k = z3.Const("k?", StrS)
    last, only = st.n0(st.kc) == 1, st.n0(st.ku) == 1
    e.prove("the grant and parents left childless go, nothing else", ForAll([k], Select(M.ddom(e, st.db), k) == And(
        Select(st.dom0, k), k != st.kg, Not(And(k == st.kc, last)), Not(And(k == st.ku, last, only)))))
    e.prove("what stays keeps its value", same_rest(e, st))
    e.cover("end")


def delete_client_contract(e, bound):
    """Callee contract of Database._delete_client: that client entry and its grants go (proved below)."""
    st = e.ghost["store"]
    key = join(e.str_term(bound["uid"]), e.str_term(bound["client_id"]))
    d, v = M.ddom(e, st.db), M.dval(e, st.db)
    nd = z3.Const(e.fresh_name("dom"), z3.ArraySort(StrS, BoolS))
    k = z3.Const("k?", StrS)
    e.assume(ForAll([k], Select(nd, k) == And(Select(d, k), k != key, Not(And(Select(d, key), gone(st, k, key))))))
    e.hwrite("DDOM", st.db.ref, nd)
    return None


@contract("C07", "_delete_client", P + "._delete_client", schema=SCHEMA, inv=inv_client)
def helper(e):
    """the callee contract used by delete_user"""
    st = Store_(e)
    e.ghost["store"], e.ghost["ck"] = st, st.kc
    r = execute(e, P + "._delete_client", st.o, st.uid, st.cid)
    e.prove("returns normally", r.ok)
    k = z3.Const("k?", StrS)
    e.prove("the client entry and its grants go, nothing else", ForAll([k], Select(M.ddom(e, st.db), k) == And(
        Select(st.dom0, k), k != st.kc, Not(And(Select(st.dom0, st.kc), gone(st, k, st.kc))))))
    e.prove("values stay", M.dval(e, st.db) == st.val0)
    e.cover("end")


def below(st, k, n=None):
    """k is the key of a client linked under the user, or of a grant linked under such a client"""
    i, j = z3.Ints("c? g?")
    ck = join(st.ku, st.sub_at(st.ku, i))
    return Exists([i], And(i >= 0, i < (st.n0(st.ku) if n is None else n), Or(
        k == ck, And(Select(st.dom0, ck), Exists([j], And(j >= 0, j < st.n0(ck), k == z3.Concat(ck, S(DIVIDER), st.sub_at(ck, j))))))))


def separate(e, st):
    """No client key is a grant key: identifiers do not contain the divider (lemma keys_separate)."""
    i, j, m = z3.Ints("c1? c2? g2?")
    k1, k2 = join(st.ku, st.sub_at(st.ku, i)), join(st.ku, st.sub_at(st.ku, j))
    e.assume(ForAll([i, j, m], Implies(And(i >= 0, i < st.n0(st.ku), j >= 0, j < st.n0(st.ku), m >= 0, m < st.n0(k2)),
                                       And(k1 != z3.Concat(k2, S(DIVIDER), st.sub_at(k2, m)), k1 != st.ku,
                                           z3.Concat(k2, S(DIVIDER), st.sub_at(k2, m)) != st.ku))))


def inv_user(e, L):
    st = e.ghost["store"]
    if L.idx is None:
        return
    k = z3.Const("k?", StrS)
    yield "dom minus visited clients", ForAll([k], Select(M.ddom(e, st.db), k) == And(Select(st.dom0, k), Not(below(st, k, L.idx))))
    yield "values stay", M.dval(e, st.db) == st.val0


@contract("C07", "delete_user", P + ".delete", schema=SCHEMA, inv=inv_user,
          callees={P + "._delete_client": delete_client_contract})
def delete_user(e):
    st = Store_(e)
    e.assume(st.own())
    e.ghost["store"] = st
    separate(e, st)
    e.assume(Select(st.dom0, st.ku))
    path = e.born(List([st.uid]))
    r = execute(e, P + ".delete", st.o, path)
    e.prove("returns normally", r.ok)
    k = z3.Const("k?", StrS)
    e.prove("the user entry and everything below it go, nothing else", ForAll([k], Select(M.ddom(e, st.db), k) == And(
        Select(st.dom0, k), k != st.ku, Not(below(st, k)))))
    e.prove("what stays keeps its value", same_rest(e, st))
    e.cover("end")


@contract("C07", "session_key", P + ".session_key")
def session_key(e):
    """the key of a path is its identifiers joined by the divider"""
    xs = [e.inp(n, STR) for n in ("u", "c", "g")]
    o = sym_obj(e, D.Database)
    n = e.choose(3) + 1
    r = execute(e, P + ".session_key", o, *xs[:n])
    e.prove("returns normally", r.ok)
    e.prove("the key is the joined path", e.str_term(r.value) == join(*[x.t for x in xs[:n]]))
    e.cover("end")


@contract("C07", "keys_separate", P + ".session_key")
def keys_separate(e):
    """different paths have different keys (identifiers are clean); by peeling off the first identifier"""
    x, y, r, s = (e.inp(n, STR).t for n in ("x", "y", "r", "s"))
    e.assume(And(clean(x), clean(y)))
    o = sym_obj(e, D.Database)
    which = e.choose(2)
    if which == 0:
        k1 = execute(e, P + ".session_key", o, SStr(x), SStr(r))
        k2 = execute(e, P + ".session_key", o, SStr(y), SStr(s))
        e.prove("returns normally", And(k1.ok, k2.ok))
        a, b_ = e.str_term(k1.value), e.str_term(k2.value)
        lemma(e, "first divider of the first", z3.IndexOf(a, S(";"), 0) == z3.Length(x))
        lemma(e, "first divider of the second", z3.IndexOf(b_, S(";"), 0) == z3.Length(y))
        e.assume(a == b_)
        lemma(e, "same first identifier", And(z3.Length(x) == z3.Length(y), x == y))
        e.prove("same rest of the path", r == s)
    else:
        k1 = execute(e, P + ".session_key", o, SStr(x))
        k2 = execute(e, P + ".session_key", o, SStr(y), SStr(s))
        e.prove("a single identifier is no longer path's key", e.str_term(k1.value) != e.str_term(k2.value))
    e.cover("end")


for _d in (1, 2, 3):
    _set(_d)
    _get(_d)
