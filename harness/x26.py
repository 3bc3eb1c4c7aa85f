"""C26: subject identifiers over histories of sessions, against a table of what they may depend on."""
import hashlib

from harness.srv import *
from oidcop.session.manager import PairWiseID, PublicID, RawID, SessionManager, ephemeral_id, pairwise_id, public_id

RULE = "histories of sessions of all kinds, users and sectors at one or two servers (own or shared salt; flushed, exported and restored in between), all kinds of identifier functions"
USERS_ = ["diana", "dian", "a", "diana ", "Diana", "d" * 60, "ürsula", "", "dianahttps://a.example.com"]
SECTORS = ["", "https://a.example.com", "https://a.example.co", "m", "https://b.example.com/x"]


def cases(rng, tier):
    while True:
        ops = [rng.choice([("new", rng.choice(["public", "pairwise", "pairwise", "ephemeral", None]), rng.randrange(len(USERS_)), rng.randrange(len(SECTORS)), rng.randrange(2), rng.randrange(2))] * 8
                          + [("flush", rng.randrange(2)), ("restore", rng.randrange(2)), ("mint", rng.randrange(2))]) for _ in range(rng.randint(3, 14))]
        yield dict(ops=ops, salts=rng.choice([("s1", "s1"), ("s1", "s2"), ("", "s1"), ("1", "")]), classes=rng.random() < 0.3, shared=rng.random() < 0.5)


def run(case):
    out, tbl, rev, eph, own = [], {}, {}, set(), {}
    mans, srvs = [], []
    for i, salt in enumerate(case["salts"]):
        s = Srv(session_params={"password": "pw%d" % i, "salt": salt} if salt else {"password": "pw%d" % i})
        srvs.append(s)
        sm = s.sm
        if case["classes"]:
            sm.sub_func = {"public": PublicID("salt" + salt if salt else ""), "pairwise": PairWiseID("salt" + salt if salt else ""), "ephemeral": ephemeral_id}
        mans.append(sm)
        own[i] = salt or "own salt of %d" % i
    for op in case["ops"]:
        k = op[0]
        if k == "flush":
            srvs[op[1]].sm.flush()
            continue
        if k == "restore":
            s = srvs[op[1]]
            dump = s.sm.dump()
            s.sm.flush()
            s.sm.load(dump, init_args={"handler": s.sm.token_handler})
            continue
        if k == "mint":
            continue
        _, kind, u, sec, n, c = op
        uid, sector, s = USERS_[u], SECTORS[sec], srvs[n]
        if not uid:
            continue
        client = ["client_1", "client_2"][c]
        req = s.areq(client)
        if sector:
            req["sector_identifier_uri"] = sector
        kw = {} if kind is None else {"sub_type": kind}
        sid, x = attempt(s.sm.create_session, authn_event=create_authn_event(uid), auth_req=req, user_id=uid, client_id=client, **kw)
        if x:
            out.append(("failed", "a session for %r of kind %s fails: %r" % (uid, kind, x)))
            continue
        sub = s.sm.get_grant(sid).sub
        salt = own[n]
        kind = kind or "public"
        if len(uid) > 3 and uid in sub:
            out.append(("disclosed", "the %s identifier %r holds the user identifier" % (kind, sub)))
        if kind == "ephemeral":
            if sub in eph or sub in rev:
                out.append(("ephemeral repeated", "an ephemeral identifier is used again: %s" % sub))
            eph.add(sub)
            continue
        key = (kind, uid, salt) if kind == "public" else (kind, uid, sector, salt)
        if tbl.setdefault(key, sub) != sub:
            out.append(("unstable", "%s has two identifiers: %s and %s" % (key, tbl[key], sub)))
        # the concatenation of what the identifier depends on
        mat = uid + (sector if kind == "pairwise" else "") + salt
        if rev.setdefault(sub, mat) != mat or sub in eph:
            out.append(("shared", "%r and %r share the identifier %s" % (rev.get(sub), mat, sub)))
    return out
