"""C12: what cookies carry."""
from .lib import *
from pyvc import libmodels as L
from cryptography.exceptions import InvalidTag
from oidcop.cookie_handler import CookieHandler

C = "oidcop.cookie_handler:CookieHandler"
MAC = z3.Function("hmac", StrS, StrS, StrS, StrS)              # algorithm, key, message
GCM = z3.Function("aes_gcm", StrS, StrS, StrS, StrS)           # key, iv, message
CTX, TAG = z3.Function("without_tag", StrS, StrS), z3.Function("tag", StrS, StrS)
DEC = z3.Function("aes_gcm_opened", StrS, StrS, StrS, StrS, StrS)
OPENS = z3.Function("aes_gcm_opens", StrS, StrS, StrS, StrS, BoolS)
CONFIGS = ("signed", "encrypted", "signed and encrypted")


def hmac(e, bound):
    """cryptojwt HMACSigner: sign(message, key) is the MAC; verify raises unless the signature is that MAC (nobody else makes it)"""
    L.trust(e, "cryptojwt HMACSigner: verify(message, signature, key) succeeds only for the MAC of that very message under that key, else raises BadSignature")
    from cryptojwt.exception import BadSignature
    alg = e.str_term(bound["kwargs"].get("algorithm", bound["args"][0] if bound["args"] else "SHA256"))

    def sign(e, msg, key):
        return SBytes(MAC(alg, e.str_term(key), e.str_term(msg)))

    def verify(e, msg, sig, key):
        m, k, g = e.str_term(msg), e.str_term(key), e.str_term(sig)
        if g.eq(MAC(alg, k, m)):
            return True
        if z3.is_app(g) and g.decl().eq(MAC) and (e.valid(g.arg(1) != k) or e.valid(g.arg(2) != m)):
            raise PyRaise(Obj(BadSignature, {"args": ()}))
        if not e.branch(g == MAC(alg, k, m)):
            raise PyRaise(Obj(BadSignature, {"args": ()}))
        e.ghost.setdefault("vouched", []).append(("mac", k, m))
        return True
    return sym_obj(e, object, "hmac", sign=NativeFn(sign, "sign"), verify=NativeFn(verify, "verify"))


def aes(e, bound):
    """cryptojwt AES_GCMEncrypter: decrypt gives back what was encrypted under the same key and nonce, or raises InvalidTag"""
    L.trust(e, "cryptojwt AES_GCMEncrypter: decrypt(ciphertext, iv, tag) gives what was encrypted with that key and iv, and raises InvalidTag for anything else")
    k = e.str_term(bound["kwargs"]["key"])

    def encrypt(e, msg, iv):
        return SBytes(GCM(k, e.str_term(iv), e.str_term(msg)))

    def decrypt(e, ctx, iv, tag=b""):
        c, v, t = e.str_term(ctx), e.str_term(iv), e.str_term(tag)
        x = c.arg(0) if z3.is_app(c) and c.decl().eq(CTX) and t.eq(TAG(c.arg(0))) else None
        if x is not None and x.decl().eq(GCM):
            if x.arg(0).eq(k) and x.arg(1).eq(v):
                return SBytes(x.arg(2))
            if e.valid(x.arg(0) != k):
                raise PyRaise(Obj(InvalidTag, {"args": ()}))
        if not e.branch(OPENS(k, v, c, t)):
            raise PyRaise(Obj(InvalidTag, {"args": ()}))
        r = DEC(k, v, c, t)
        e.ghost.setdefault("vouched", []).append(("aes", k, r))
        return SBytes(r)
    return sym_obj(e, object, "aes", encrypt=NativeFn(encrypt, "encrypt"), decrypt=NativeFn(decrypt, "decrypt"))


def split_tag(e, bound):
    """cryptojwt split_ctx_and_tag: the encrypted bytes and their tag"""
    L.trust(e, "cryptojwt split_ctx_and_tag cuts the tag off")
    x = e.str_term(bound["ctext"])
    return (SBytes(CTX(x)), SBytes(TAG(x)))


CRYPTO = {"cryptojwt.jws.hmac:HMACSigner": hmac, "cryptojwt.jwe.aes:AES_GCMEncrypter": aes, "cryptojwt.jwe.utils:split_ctx_and_tag": split_tag}


def handler(e, config, tag=""):
    def k(name):
        key = e.inp(name + tag, BYTES)
        return sym_obj(e, object, name + tag, key=key)
    h = sym_obj(e, CookieHandler, "handler" + tag, sign_key=k("sign_key") if config != "encrypted" else None,
                enc_key=k("enc_key") if config != "signed" else None, sign_alg="SHA256", flags=e.born(Dict({"secure": True})))
    if h.fields["enc_key"] is not None:
        n = z3.Length(h.fields["enc_key"].fields["key"].t)
        e.assume(Or(n == 16, n == 24, n == 32))
    return h


def content(e, tag=""):
    v, t, ts = e.inp("value" + tag, STR), e.inp("type" + tag, STR), e.inp("timestamp" + tag, STR)
    e.assume(And(Not(z3.Contains(t.t, S(":"))), Not(z3.Contains(ts.t, S("|"))), z3.Length(ts.t) > 0, Not(M.ENDS_IN_SPACE(ts.t)), Not(M.ENDS_IN_SPACE(v.t))))
    return v, t, ts


def item(e, name, value):
    return e.born(Dict({"name": name, "value": value}))


def entry(e, r):
    l = e.force(r.value)
    return M.concrete_items(e, l)


for config in CONFIGS:
    @contract("C12", f"a {config} cookie reads back as what was put in it", C + ".parse_cookie", callees=CRYPTO,
              note="the type contains no colon, the timestamp no vertical bar, and neither ends in whitespace")
    def _(e, config=config):
        h, (v, t, ts), name = handler(e, config), content(e), e.inp("name", STR)
        given = e.choose(2)
        if not given:
            e.ghost["now"] = SInt(e.const("now", IntS))
            e.assume(e.ghost["now"].t > 0)
            ts = M.to_str(e, e.ghost["now"])
        made = execute(e, C + ".make_cookie_content", h, name, v, t, **({"timestamp": ts} if given else {}))
        e.prove("the cookie is made", z3.BoolVal(made.ok))
        if not made.ok:
            return
        e.prove("under its name", zb(M.eq(e, M.getitem(e, made.value, "name"), name)))
        cv = M.getitem(e, made.value, "value")
        empty = And(v.t == S(""), t.t == S(""))
        r = execute(e, C + ".parse_cookie", h, name, e.born(List([item(e, name, cv)])))
        e.prove("it can be read", z3.BoolVal(r.ok))
        if r.ok:
            es = entry(e, r)
            if isinstance(cv, str) and cv == "":
                e.prove("the empty cookie holds nothing", And(empty, z3.BoolVal(es == [])))
                e.cover("empty")
                return
            e.prove("once", z3.BoolVal(es is not None and len(es) == 1))
            if es and len(es) == 1:
                for k, x in (("value", v), ("type", t), ("timestamp", ts)):
                    e.prove(f"with the same {k}", zb(M.eq(e, M.getitem(e, es[0], k), x)))
                e.cover("read")

    @contract("C12", f"a {config} cookie made with other keys is not accepted", C + ".parse_cookie", callees=CRYPTO)
    def _(e, config=config):
        h, h2, (v, t, ts), name = handler(e, config), handler(e, config, "2"), content(e), e.inp("name", STR)
        for k in ("sign_key", "enc_key"):
            if h.fields[k] is not None:
                e.assume(h.fields[k].fields["key"].t != h2.fields[k].fields["key"].t)
        e.assume(Or(v.t != S(""), t.t != S("")))
        made = execute(e, C + ".make_cookie_content", h2, name, v, t, timestamp=ts)
        r = execute(e, C + ".parse_cookie", h, name, e.born(List([item(e, name, M.getitem(e, made.value, "value"))])))
        e.prove("not accepted", z3.BoolVal(not r.ok or entry(e, r) == []))
        e.cover("refused")


def unpacked(e, bound):
    """lv_unpack of any text: some list of strings, or ValueError (C08)"""
    if e.choose(2):
        raise PyRaise(Obj(ValueError, {"args": ()}))
    e.ghost["text"] = bound["txt"]
    e.ghost["read"] = [e.inp(f"read{i}", STR) for i in range(e.choose(5))]
    return e.born(List(list(e.ghost["read"])))


for config in CONFIGS:
    @contract("C12", f"nothing is read from a {config} cookie but what was sealed with the handler's keys", C + ".parse_cookie",
              callees={**CRYPTO, "oidcop.util:lv_unpack": unpacked})
    def _(e, config=config):
        h, s, name, cname = handler(e, config), e.inp("cookie", STR), e.inp("name", STR), e.inp("cookie_name", STR)
        r = execute(e, C + ".parse_cookie", h, name, e.born(List([item(e, cname, s)])))
        es = entry(e, r) if r.ok and r.value is not None else []
        if not es:
            e.cover("refused")
            return
        e.prove("one entry at most", z3.BoolVal(len(es) == 1))
        e.prove("the cookie has the name asked for", zb(M.eq(e, name, cname)))
        v, t, ts = [e.str_term(M.getitem(e, es[0], k)) for k in ("value", "type", "timestamp")]
        vs = {k: (key, m) for k, key, m in e.ghost.get("vouched", [])}
        whole = z3.Concat(v, S("::"), t)
        mac = z3.Concat(M.UTF8(ts), S("|"), M.UTF8(e.ghost["payload"])) if "payload" in e.ghost else None

        def signed():
            """the message the MAC vouches for is the time and the content answered"""
            key, m = vs["mac"]
            e.prove("the MAC is made with the handler's key", key == h.fields["sign_key"].fields["key"].t)
            p = z3.Const(e.fresh_name("payload"), StrS)
            ps = M.pieces(m)
            parts = [q for q in ps if z3.is_app(q) and q.decl().eq(M.UTF8)]
            e.prove("it vouches for a time and a content", z3.BoolVal(len(parts) == 2 and len(ps) == 3 and z3.is_string_value(ps[1]) and zstr(ps[1]) == "|"))
            if len(parts) == 2:
                e.prove("the time answered is the one vouched for", parts[0].arg(0) == ts)
                e.prove("the content answered is the one vouched for", Or(parts[1].arg(0) == whole, And(parts[1].arg(0) == t, v == S(""))))
        if config == "signed":
            e.prove("a MAC vouches for it", z3.BoolVal("mac" in vs))
            if "mac" in vs:
                signed()
        else:
            e.prove("encryption or a MAC vouches for it", z3.BoolVal("aes" in vs or "mac" in vs))
            if "aes" in vs:
                key, plain = vs["aes"]
                e.prove("it was encrypted with the handler's key", key == h.fields["enc_key"].fields["key"].t)
                e.prove("what was read is what was encrypted", zb(e.str_term(e.ghost["text"]) == M.UTF8_DEC(plain)))
                rd = e.ghost["read"]
                e.prove("the time answered is the one encrypted", rd[1].t == ts)
                e.prove("the content answered is the one encrypted", Or(rd[0].t == whole, And(rd[0].t == t, v == S(""))))
            if "mac" in vs:
                signed()
        e.cover("accepted")


@contract("C12", "what a MAC vouches for names one time and one content", C + ".parse_cookie", note="a lemma about the texts put together")
def injective(e):
    v, t, ts = content(e)
    ts2 = e.inp("ts", STR)
    p, q = e.inp("p", STR), e.inp("q", STR)
    e.assume(And(Not(z3.Contains(ts2.t, S("|")))))
    e.assume(z3.Concat(ts.t, S("|"), p.t) == z3.Concat(ts2.t, S("|"), q.t))
    e.prove("the same time", ts.t == ts2.t)
    e.assume(ts.t == ts2.t)
    e.prove("the same content", p.t == q.t)
    e.cover("equal texts")


@contract("C12", "cookies of other names are ignored, wherever they stand", C + ".parse_cookie", callees=CRYPTO)
def others(e):
    config = CONFIGS[e.choose(3)]
    h, (v, t, ts), name, other = handler(e, config), content(e), e.inp("name", STR), e.inp("other", STR)
    e.assume(And(name.t != other.t, Or(v.t != S(""), t.t != S(""))))
    made = execute(e, C + ".make_cookie_content", h, name, v, t, timestamp=ts)
    own = item(e, name, M.getitem(e, made.value, "value"))
    noise = [item(e, other, e.inp("anything", STR)), item(e, other, M.getitem(e, made.value, "value"))][e.choose(2)]
    r = execute(e, C + ".parse_cookie", h, name, e.born(List([[noise, own], [own, noise], [noise]][(k := e.choose(3))])))
    es = entry(e, r) if r.ok else None
    e.prove("only the named cookie is read", z3.BoolVal(es is not None and len(es) == (0 if k == 2 else 1)))
    if es:
        e.prove("it holds what was put in", zb(M.eq(e, M.getitem(e, es[0], "value"), v)))
    e.cover("ignored")
