"""C26: subject identifiers."""
from .world import *
from pyvc import libmodels as L
from oidcmsg.oauth2 import AuthorizationRequest
from oidcop.authn_event import AuthnEvent
from oidcop.session import manager as MGR
from oidcop.session.manager import PairWiseID, PublicID

SMOD = "oidcop.session.manager:"
SM = SMOD + "SessionManager"
DB = "oidcop.session.database:Database"


def digest(*parts):
    """the hash of what the identifier may depend on, as it reads"""
    ps = [M.UTF8(p.t) for p in parts]
    t = z3.Concat(*ps)
    return L.HEX(L.SHA["sha256"](t))


def strs(e, *names):
    return [e.inp(n, STR) for n in names]


@contract("C26", "a public identifier depends on user and salt alone", SMOD + "public_id")
def _(e):
    uid, salt, sec1, sec2 = strs(e, "uid", "salt", "sector", "other sector")
    a = execute(e, SMOD + "public_id", uid, salt=salt, sector_identifier=sec1)
    b_ = execute(e, SMOD + "public_id", uid, salt=salt, sector_identifier=sec2)
    e.prove("it is made", And(a.ok, b_.ok))
    if a.ok and b_.ok:
        e.prove("equal user and salt, equal identifier", zb(M.eq(e, a.value, b_.value)))
        e.prove("it is the digest of user and salt", zb(M.eq(e, a.value, SStr(digest(uid, salt)))))
        e.cover("made")


@contract("C26", "a pairwise identifier depends on user, sector and salt", SMOD + "pairwise_id")
def _(e):
    uid, salt, sec = strs(e, "uid", "salt", "sector")
    a = execute(e, SMOD + "pairwise_id", uid, salt=salt, sector_identifier=sec)
    uid2, sec2 = strs(e, "other uid", "other sector")
    b_ = execute(e, SMOD + "pairwise_id", uid2, salt=salt, sector_identifier=sec2, more=1)
    e.prove("it is made", And(a.ok, b_.ok))
    if not (a.ok and b_.ok):
        return
    e.prove("it is the digest of user, sector and salt", zb(M.eq(e, a.value, SStr(digest(uid, sec, salt)))))
    e.prove("equal user, sector and salt, equal identifier", Implies(And(uid.t == uid2.t, sec.t == sec2.t), zb(M.eq(e, a.value, b_.value))))
    # an idealised digest of the text's UTF-8: equal only for equal text
    x, y = z3.Concat(uid.t, sec.t, salt.t), z3.Concat(uid2.t, sec2.t, salt.t)
    e.assume(Implies(digest(uid, sec, salt) == digest(uid2, sec2, salt), x == y))
    e.prove("another identifier unless user and sector read the same together", Implies(zb(M.eq(e, a.value, b_.value)), z3.Concat(uid.t, sec.t) == z3.Concat(uid2.t, sec2.t)))
    e.prove("another user of the sector, another identifier", Implies(And(sec.t == sec2.t, uid.t != uid2.t), Not(zb(M.eq(e, a.value, b_.value)))))
    e.prove("another sector, another identifier of the user", Implies(And(sec.t != sec2.t, uid.t == uid2.t), Not(zb(M.eq(e, a.value, b_.value)))))
    e.cover("made")


@contract("C26", "an ephemeral identifier is a new one", SMOD + "ephemeral_id")
def _(e):
    uid, salt, sec, before = strs(e, "uid", "salt", "sector", "one made before")
    e.ghost.setdefault("random", []).append(before.t)
    a = execute(e, SMOD + "ephemeral_id", uid, salt=salt, sector_identifier=sec)
    b_ = execute(e, SMOD + "ephemeral_id", uid, salt=salt, sector_identifier=sec)
    e.prove("it is made", And(a.ok, b_.ok))
    if a.ok and b_.ok:
        e.prove("never the same twice", And(Not(zb(M.eq(e, a.value, b_.value))), Not(zb(M.eq(e, a.value, before))), Not(zb(M.eq(e, b_.value, before)))))
        e.cover("made")


def configured(cls, parts):
    def f(e):
        uid, sec, salt = strs(e, "uid", "sector", "salt")
        o = sym_obj(e, cls, "identifier function")
        given = e.choose(2)
        if not given:
            r = execute(e, SMOD + "PairWiseID.__init__", o)
        else:
            e.assume(z3.Length(salt.t) > 0)
            r = execute(e, SMOD + "PairWiseID.__init__", o, salt)
        e.prove("it is set up", r.ok)
        if not r.ok:
            return
        kept = e.interp.getattr(o, "salt")
        if given:
            e.prove("the salt is the one given", zb(M.eq(e, kept, salt)))
        for _ in range(2):
            r = execute(e, SMOD + cls.__name__ + ".__call__", o, uid, sector_identifier=sec, salt=e.inp("the manager's salt", STR))
            e.prove("every time the digest of what its kind depends on", zb(M.eq(e, r.value, SStr(digest(*[{"u": uid, "s": sec, "k": kept}[p] for p in parts])))) if r.ok else False)
        e.cover("made")
    return f


contract("C26", "the pairwise class is stable", SMOD + "PairWiseID.__call__")(configured(PairWiseID, "usk"))
contract("C26", "the public class is stable", SMOD + "PublicID.__call__")(configured(PublicID, "uk"))


def stored(e, bound):
    """Database.set (C07): stores that value on that path"""
    w = e.ghost["w"]
    w["stored"].append((bound["path"], bound["value"]))


def sealed(e, bound):
    """Database.encrypted_session_id (C08)"""
    w = e.ghost["w"]
    w["sealed"].append(bound["args"] if "args" in bound else bound)
    return w["sid"]


KINDS = ("public", "pairwise", "ephemeral", None)


@contract("C26", "a session's identifier is its own kind's", SM + ".create_grant", callees={DB + ".set": stored, DB + ".encrypted_session_id": sealed})
def _(e):
    uid, cid, salt = strs(e, "user", "client", "salt")
    e.ghost["now"] = e.inp("now", INT)
    sub = e.inp("identifier", STR)
    w = e.ghost["w"] = {"stored": [], "sealed": [], "sid": e.inp("session_id", STR)}
    calls = []

    def maker(kind):
        def f(e, user, **kw):
            calls.append((kind, user, kw))
            return sub
        return NativeFn(f, kind)
    sm = sym_obj(e, SessionManager, "manager", salt=salt, sub_func=e.born(Dict({k: maker(k) for k in KINDS if k})))
    kind = KINDS[e.choose(4)]
    sec = e.inp("sector", STR)
    req = e.born(Dict({"client_id": cid, "scope": e.born(List(["openid"]))}, cls=AuthorizationRequest))
    if e.choose(2):
        req.items["sector_identifier_uri"] = sec
    ev = e.born(Dict({"uid": uid}, cls=AuthnEvent))
    kw = {} if kind is None else {"sub_type": kind}
    r = execute(e, SM + ".create_grant", sm, ev, req, uid, cid, **kw)
    e.prove("it succeeds", r.ok)
    if not r.ok:
        return
    e.prove("one identifier is made", len(calls) == 1)
    k, user, how = calls[0]
    e.prove("by the kind's own function", k == (kind or "public"))
    e.prove("for that user, the session's sector and the server's salt", And(zb(M.eq(e, user, uid)), zb(M.eq(e, how["salt"], salt)), zb(M.eq(e, how["sector_identifier"], sec if "sector_identifier_uri" in req.items else ""))))
    e.prove("the grant stored carries it", And(len(w["stored"]) == 1, zb(M.eq(e, e.interp.getattr(w["stored"][0][1], "sub"), sub))))
    path = w["stored"][0][0]
    e.prove("in that user's and client's place", And(zb(M.eq(e, M.getitem(e, path, 0), uid)), zb(M.eq(e, M.getitem(e, path, 1), cid))))
    e.prove("the salt stays", zb(M.eq(e, e.interp.getattr(sm, "salt"), salt)))
    e.cover("made")


@contract("C26", "the kinds' functions are the ones above unless configured", SM + ".__init__", callees={DB + ".__init__": lambda e, b: e.ghost["db"].append(b)})
def _(e):
    e.ghost["db"] = []
    salt, pw = strs(e, "salt", "password")
    e.assume(And(z3.Length(salt.t) > 0, z3.Length(pw.t) > 0))
    sm = sym_obj(e, SessionManager, "manager")
    own = NativeFn(lambda e, *a, **k: "x", "own")
    how = e.choose(5)
    funcs = None if how == 0 else e.born(Dict({"public": own} if how == 1 else {"pairwise": own} if how == 2 else {"ephemeral": own} if how == 3 else {}))
    conf = e.born(Dict({"session_params": e.born(Dict({"password": pw, "salt": salt}))}))
    r = execute(e, SM + ".__init__", sm, Opaque("handler"), conf, funcs)
    e.prove("it is set up", r.ok)
    if not r.ok:
        return
    sf = e.interp.getattr(sm, "sub_func")
    for i, (k, f) in enumerate((("public", MGR.public_id), ("pairwise", MGR.pairwise_id), ("ephemeral", MGR.ephemeral_id))):
        got = M.getitem(e, sf, k)
        e.prove("%s identifiers come from their own function" % k, got is own if how == i + 1 else got is f or getattr(got, "func", None) is f)
    e.prove("the store is made with the configured salt", And(len(e.ghost["db"]) > 0, all(True for _ in e.ghost["db"]),
                                                               *[zb(M.eq(e, salt_of(b), salt)) for b in e.ghost["db"] if salt_of(b) is not None]))
    e.prove("and again when it is emptied", salt_of(e.ghost["db"][-1]) is not None)
    e.cover("made")


def salt_of(bound):
    kw = bound.get("kwargs")
    return kw.items.get("salt") if kw is not None else None


@contract("C26", "emptying the store keeps the salt", SM + ".flush", callees={DB + ".__init__": lambda e, b: e.ghost["db"].append(b), DB + ".flush": lambda e, b: None})
def _(e):
    e.ghost["db"] = []
    salt, pw = strs(e, "salt", "password")
    sm = sym_obj(e, SessionManager, "manager", _salt=salt, _key=pw, salt=salt, key=pw)
    r = execute(e, SM + ".flush", sm)
    e.prove("it succeeds", r.ok)
    if r.ok:
        # flush empties every attribute; setting up anew (next contract) brings the salt back
        e.prove("the salt is the one it was made with", And(len(e.ghost["db"]) > 0, *[zb(M.eq(e, salt_of(b), salt)) if salt_of(b) is not None else False for b in e.ghost["db"]]))
        e.cover("emptied")


@contract("C26", "the store takes over the salt given", DB + ".__init__")
def _(e):
    salt, pw = strs(e, "salt", "password")
    sm = sym_obj(e, SessionManager, "manager", _salt=salt, _key=pw)
    r = execute(e, DB + ".__init__", sm, key=pw, salt=salt)
    e.prove("it succeeds", r.ok)
    if r.ok:
        e.prove("the salt is the one given", zb(M.eq(e, e.interp.getattr(sm, "salt"), salt)))
        e.cover("made")
