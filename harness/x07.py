"""C07: the session database against a path-tree model; and the paths the server itself stores under."""
from oidcop.session.database import Database
from oidcop.session.grant import Grant
from oidcop.session.info import ClientSessionInfo, UserSessionInfo
from harness.srv import Srv

RULE = "a case is a sequence of set/get/delete/update calls over small id alphabets; distinct by the sequence"
U, C, G = ["u1", "u2", "c1", "g1"], ["c1", "c2", "u1"], ["g1", "g2", "g3", "c1"]


def rnd_path(rng):
    n = rng.choice([1, 2, 3, 3])
    return [rng.choice(U), rng.choice(C), rng.choice(G)][:n]


def cases(rng, tier):
    # exhaustive small shapes first: build a tree, delete one path
    trees = [[["u1"]], [["u1"], ["u1", "c1"]], [["u1"], ["u1", "c1"], ["u1", "c1", "g1"]],
             [["u1"], ["u1", "c1"], ["u1", "c1", "g1"], ["u1", "c1", "g2"]],
             [["u1"], ["u1", "c1"], ["u1", "c1", "g1"], ["u1", "c2"], ["u1", "c2", "g1"], ["u2"], ["u2", "c1"], ["u2", "c1", "g1"]],
             [["u1", "c1", "g1"]], [["c1"], ["c1", "c1"], ["c1", "c1", "g1"], ["u1"], ["u1", "c2"], ["u1", "c2", "g1"]]]
    for t in trees:
        for p in [["u1"], ["u1", "c1"], ["u1", "c1", "g1"], ["u1", "c1", "g3"], ["u1", "c2"], ["u9"], ["u1", "c9"], ["u2", "c1", "g1"],
                  ["u9", "c1"], ["u1", "c1", "c1"]]:
            yield {"ops": [["set", x] for x in t] + [["delete", p]]}
    for k in range(3):
        yield {"server": k}
    while True:
        ops = []
        for _ in range(rng.randint(1, 14)):
            ops.append([rng.choice(["set", "set", "set", "delete", "get", "update"]), rnd_path(rng)])
        yield {"ops": ops}


def norm(p):
    return tuple(p)


def run(c):
    if "server" in c:
        return server(c["server"])
    db = Database("key")
    model = {}      # path -> value object; parents are implied
    kids = lambda p: [q for q in model if len(q) == len(p) + 1 and q[:len(p)] == p]
    out = []
    n = 0

    def store(p, v):
        model[p] = v
        for i in range(1, len(p)):
            model.setdefault(p[:i], None)
        if len(p) < 3:      # a fresh info object links nothing: keep what it names
            pass

    for op, path in c["ops"]:
        p = norm(path)
        if op == "set":
            n += 1
            if len(p) == 1:
                v = UserSessionInfo(user_id="n%d" % n, subordinate=[q[1] for q in kids(p)])
            elif len(p) == 2:
                v = ClientSessionInfo(client_id="n%d" % n, subordinate=[q[2] for q in kids(p)])
            else:
                v = Grant(sub="n%d" % n)
            db.set(list(p), v)
            store(p, v)
        elif op == "update":
            n += 1
            attr = {1: "user_id", 2: "client_id", 3: "sub"}[len(p)]
            try:
                db.update(list(p), {attr: "n%d" % n})
                ok = True
            except (KeyError, ValueError):
                ok = False
            if ok != (p in model):
                out.append(("update", f"update({p}) {'succeeded' if ok else 'failed'} in {sorted(model)}"))
        elif op == "delete":
            try:
                db.delete(list(p))
            except Exception as x:
                out.append(("delete-raises", f"delete({p}) raised {type(x).__name__}: {x} with {sorted(model)}"))
                return out
            if p in model:
                for q in [q for q in model if q[:len(p)] == p]:
                    del model[q]
                for i in range(len(p) - 1, 0, -1):
                    if not kids(p[:i]):
                        model.pop(p[:i], None)
                    else:
                        break
        # compare
        for q in sorted(set(model) | {(a,) for a in U} | {(a, b) for a in U for b in C} |
                        {(a, b, g) for a in U for b in C for g in G}):
            try:
                got = db.get(list(q))
                miss = False
            except (KeyError, ValueError):
                miss = True
            except Exception as x:
                out.append(("get-raises", f"get({q}) raised {type(x).__name__}: {x} after {op} {p}"))
                return out
            if miss != (q not in model):
                out.append((f"{op}-lookup", f"after {op} {p} get({q}) {'fails' if miss else 'succeeds'}; stored: {sorted(model)}"))
                return out
            if not miss and model[q] is not None and got is not model[q]:
                out.append((f"{op}-value", f"after {op} {p} get({q}) gives another entry than was stored"))
                return out
            if not miss and len(q) < 3 and sorted(got.subordinate) != sorted(x[-1] for x in kids(q)):
                out.append((f"{op}-links", f"after {op} {p} entry {q} links {got.subordinate}, stored below: {kids(q)}"))
                return out
        want = {";;".join(q) for q in model}
        have = set(db.db.keys())
        if want != have:
            out.append((f"{op}-extra", f"after {op} {p} the store holds {sorted(have - want)} beyond and lacks {sorted(want - have)}"))
            return out
    return out


def server(k):
    """Everything the endpoints store lands under a user, client or grant path."""
    s = Srv(flavour="jwt" if k == 1 else "opaque", oauth2=(k == 2))
    r = s.authorize()
    s.redeem(r["response_args"]["code"])
    s.login("bob", "client_2")
    g = s.sm.add_grant("bob", "client_2", sub="x")
    out = []
    subs = s.sm.get(["bob", "client_2"]).subordinate
    if len(subs) != len(set(subs)):
        out.append(("duplicate-link", f"grant linked twice under its client: {subs}"))
    want = set()
    for u in ("diana", "bob"):
        want.add(u)
        for c in s.sm.get([u]).subordinate:
            want.add(u + ";;" + c)
            for g in s.sm.get([u, c]).subordinate:
                want.add(";;".join([u, c, g]))
    extra = set(s.sm.db.keys()) - want
    if extra:
        out.append(("stray-entry", f"the store holds entries under no path: {[e[:40] for e in sorted(extra)]}"))
    for u, c in (("diana", "client_1"), ("bob", "client_2")):
        s.sm.delete([u, c])
    left = [k for k in s.sm.db.keys()]
    if left:
        out.append(("left-over", f"after deleting every client session the store still holds {[e[:40] for e in left]}"))
    return out
