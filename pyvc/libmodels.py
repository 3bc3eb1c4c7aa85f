"""Trusted models of library functions (each use is reported as an assumption)."""
import z3
from .values import *
from .core import *
from .models import model, CLASSES, raise_, to_str, concretize, unconcretize, strsort, bytesort, is_conc, zb, zand, \
    truth, eq, concrete_items, must_items, list_copy, dict_copy, UTF8, UTF8_DEC, UTF8_OK, NOKEYS
from . import models as M


def trust(e, what):
    e.run.trusted.add(what)


# ---------------------------------------------------------------- clock and randomness
def clock(e):
    """One reading of the clock: an arbitrary positive time, not before earlier readings on this path."""
    trust(e, "clock: utc_time_sans_frac() is a positive integer that never decreases")
    fr = e.ghost.get("now")
    if fr is not None:
        return fr
    t = e.sint("clock")
    last = e.ghost.get("last_now")
    e.assume(t.t > 0)
    if last is not None:
        e.assume(t.t >= last)
    e.ghost["last_now"] = t.t
    return t


@model(("oidcmsg.time_util", "utc_time_sans_frac"), ("cryptojwt.jwt", "utc_time_sans_frac"))
def m_now(e):
    return clock(e)


@model(("oidcmsg.time_util", "epoch_in_a_while"))
def m_in_a_while(e, **kw):
    secs = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800}
    t = e.int_term(clock(e))
    for k, v in kw.items():
        if k not in secs:
            raise Unsupported("epoch_in_a_while")
        t = t + e.int_term(v) * secs[k]
    return SInt(t)


def fresh_random(e, name="rnd"):
    """Unpredictable value: different from every string that existed before (idealised randomness)."""
    trust(e, "rndstr/uuid1/uuid4/secrets: each call returns a new non-empty string, different from all earlier ones")
    s = e.sstr(name)
    e.assume(z3.Length(s.t) > 0)
    for old in e.ghost.setdefault("random", []):
        e.assume(s.t != old)
    e.ghost["random"].append(s.t)
    return s


@model(("oidcop", "rndstr"))
def m_rndstr(e, size=16):
    s = fresh_random(e)
    safe_alphabet(e, s)
    return s


def safe_alphabet(e, s):
    """token_urlsafe / hex alphabets have no ':' ';' '|' etc."""
    for c in (":", ";", "|", "/", "&", "?", "#", " ", "."):
        e.assume(z3.Not(z3.Contains(s.t, z3.StringVal(c))))


@model(("uuid", "uuid1"), ("uuid", "uuid4"))
def m_uuid(e, *a, **k):
    s = fresh_random(e, "uuid")
    safe_alphabet(e, s)
    o = Opaque("uuid")
    dashed = fresh_random(e, "uuid text")
    safe_alphabet(e, dashed)
    o.attrs = {"hex": s, "__text__": dashed}
    return o


@model(("secrets", "token_urlsafe"), ("secrets", "token_hex"))
def m_token(e, *a):
    s = fresh_random(e)
    safe_alphabet(e, s)
    return s


# ---------------------------------------------------------------- copy
@model(("copy", "copy"))
def m_copy(e, o):
    o = e.force(o)
    if isinstance(o, List):
        return list_copy(e, o)
    if isinstance(o, Dict):
        return dict_copy(e, o, o.cls)
    if is_conc(o) or isinstance(o, (SStr, SInt, SBool, SBytes, tuple)):
        return o
    raise Unsupported("copy.copy")


@model(("copy", "deepcopy"))
def m_deepcopy(e, o):
    o = e.force(o)
    if is_conc(o) or isinstance(o, (SStr, SInt, SBool, SBytes)):
        return o
    if isinstance(o, tuple):
        return tuple(m_deepcopy(e, x) for x in o)
    if isinstance(o, List) and o.native:
        return e.born(List([m_deepcopy(e, x) for x in o.items], is_set=o.is_set))
    if isinstance(o, Dict) and o.native:
        return e.born(Dict({k: m_deepcopy(e, x) for k, x in o.items.items()}, cls=o.cls))
    if isinstance(o, List):
        if all(k in (STR, INT, BOOL, NONEK, BYTES) for k in e.kind_options(o.kind)):
            return list_copy(e, o)
    if isinstance(o, Dict):
        if all(k in (STR, INT, BOOL, NONEK, BYTES) for kk in [o.kind.k] + list(o.kind.keys.values())
               for k in e.kind_options(kk)):
            return dict_copy(e, o, o.cls)
    f = e.run.contract.deepcopy
    if f is not None:
        return f(e, o)
    if isinstance(o, (List, Dict)):
        return deep_copy(e, o)
    raise Unsupported("deepcopy of symbolic objects")


def only_data(k):
    """values of the kind are plain data: containers, strings, numbers (unknown values are taken to be data as well)"""
    if isinstance(k, (Opt, ListOf)):
        return only_data(k.k)
    if isinstance(k, (Union, TupleOf)):
        return all(only_data(x) for x in k.ks)
    if isinstance(k, DictOf):
        return only_data(k.k) and all(only_data(x) for x in k.keys.values())
    return not isinstance(k, RefOf) and k is not OPAQUE


def deep_copy(e, o):
    """A copy of everything: the copy of the container r is the container r + OFF, for an OFF above every reference so far.
    (The same container met twice is copied once, as copy.deepcopy does.)"""
    if e.sub is not None:
        raise Unsupported("allocation inside a quantified expression")
    if e.loops:
        raise Unsupported("deepcopy of nested symbolic data in a loop")
    if not only_data(ListOf(o.kind) if isinstance(o, List) else o.kind):
        raise Unsupported("deepcopy of symbolic objects")
    trust(e, "copy.deepcopy makes a structurally equal copy that shares no container with the original")
    off = e.ghost.get("copy_base", 10 * FRESH_BASE)
    e.ghost["copy_base"] = 2 * off
    e.ghost.setdefault("copies", []).append(off)
    r, i, k = z3.Int("r?"), z3.Int("i?"), z3.Const("k?", StrS)
    new = z3.And(r >= off, r < 2 * off)
    cp = lambda v: z3.If(Val.is_r(v), Val.r(Val.rv(v) + off), v)
    old = {c: e.comp(c) for c in ("LLEN", "LEL", "DDOM", "DVAL")}
    at = lambda c: z3.Select(old[c], r - off)
    val = {"LLEN": at("LLEN"), "DDOM": at("DDOM"), "LEL": z3.Lambda([i], cp(z3.Select(at("LEL"), i))),
           "DVAL": z3.Lambda([k], cp(z3.Select(at("DVAL"), k)))}
    for c in old:
        e.heap[c] = z3.Lambda([r], z3.If(new, val[c], z3.Select(old[c], r)))
    if isinstance(o, List):
        return e.born(List(ref=z3.simplify(o.ref + off), kind=o.kind, is_set=o.is_set))
    return e.born(Dict(ref=z3.simplify(o.ref + off), kind=o.kind, cls=o.cls))


# ---------------------------------------------------------------- bytes / unicode helpers
@model(("cryptojwt.utils", "as_bytes"))
def m_as_bytes(e, s):
    s = e.force(s)
    if strsort(s):
        return M.str_method(e, s, "encode", [], {})
    return s


@model(("cryptojwt.utils", "as_unicode"))
def m_as_unicode(e, s):
    s = e.force(s)
    if bytesort(s):
        return M.str_method(e, s, "decode", [], {})
    return s


B64E = z3.Function("b64e", StrS, StrS)
B64D = z3.Function("b64d", StrS, StrS)
B64OK = z3.Function("b64_ok", StrS, BoolS)


def b64enc(e, v, f=B64E, g=B64D, ok=B64OK):
    v = e.force(v, BYTES)
    if strsort(v):
        raise_(e, TypeError, "a bytes-like object is required")
    trust(e, "base64: decode(encode(x)) = x; encodings are ASCII; decoding of other strings fails or is arbitrary")
    if is_conc(v):
        import base64
        return base64.b64encode(v)
    t = e.str_term(v)
    r = f(t)
    e.assume(z3.And(ok(r), g(r) == t, UTF8_OK(r), z3.Function("str_isascii", StrS, BoolS)(UTF8_DEC(r))))
    return SBytes(r)


def b64dec(e, v, g=B64D, ok=B64OK):
    import binascii
    v = e.force(v)
    if isinstance(v, str):
        v = v.encode()
    if not (strsort(v) or bytesort(v)):
        raise_(e, TypeError, "argument should be a bytes-like object or ASCII string")
    t = e.str_term(v)
    if isinstance(v, SStr):
        # text argument: must be ASCII; decoding works on its bytes
        t = z3.simplify(UTF8(t)) if not (z3.is_app(t) and t.decl().eq(UTF8_DEC)) else t.arg(0)
        e.assume(z3.Implies(UTF8_OK(t), UTF8(UTF8_DEC(t)) == t))
    if z3.is_app(t) and t.num_args() == 1 and any(t.decl().eq(f) for f in ENCODERS[g.name()]):
        return SBytes(t.arg(0))
    if not e.branch(ok(t)):
        raise_(e, binascii.Error, "Incorrect padding")
    return SBytes(g(t))


@model(("base64", "b64encode"))
def m_b64encode(e, v):
    return b64enc(e, v)


@model(("base64", "b64decode"))
def m_b64decode(e, v):
    return b64dec(e, v)


B64UE = z3.Function("b64url_e", StrS, StrS)
ENCODERS = {"b64d": [B64E], "b64url_d": [B64UE, z3.Function("b64url_padded_e", StrS, StrS)]}
B64UD = z3.Function("b64url_d", StrS, StrS)
B64UOK = z3.Function("b64url_ok", StrS, BoolS)


@model(("base64", "urlsafe_b64encode"))
def m_b64e_padded(e, v):
    return b64enc(e, v, z3.Function("b64url_padded_e", StrS, StrS), B64UD, B64UOK)


@model(("cryptojwt.utils", "b64e"))
def m_b64e(e, v):
    return b64enc(e, v, B64UE, B64UD, B64UOK)


@model(("cryptojwt.utils", "b64d"), ("base64", "urlsafe_b64decode"))
def m_b64d(e, v):
    return b64dec(e, v, B64UD, B64UOK)


# ---------------------------------------------------------------- hashes
SHA = {n: z3.Function(n, StrS, StrS) for n in ("sha256", "sha384", "sha512", "sha1", "md5")}
HEX = z3.Function("hex", StrS, StrS)


def hash_model(name):
    def f(e, data=b""):
        trust(e, f"hashlib.{name} is a function of its input (uninterpreted)")
        t = e.str_term(e.force(data, BYTES))
        if strsort(data):
            raise_(e, TypeError, "Strings must be encoded before hashing")
        d = SHA[name](t)
        o = Opaque(name)
        o.attrs = {"hexdigest": NativeFn(lambda e: SStr(HEX(d))), "digest": NativeFn(lambda e: SBytes(d))}
        return o
    return f


for _n in SHA:
    model(("_hashlib", f"openssl_{_n}"), ("hashlib", _n))(hash_model(_n))


# ---------------------------------------------------------------- URLs
URL = {n: z3.Function("url_" + n, StrS, StrS) for n in ("scheme", "netloc", "path", "query", "fragment", "ppath", "params", "hostname")}
URL_OK = z3.Function("url_ok", StrS, BoolS)
URL_HOST = z3.Function("url_has_host", StrS, BoolS)
UNSPLIT = z3.Function("urlunsplit", StrS, StrS, StrS, StrS, StrS, StrS)
UNQUOTE = z3.Function("unquote", StrS, StrS)
UNQUOTE_PLUS = z3.Function("unquote_plus", StrS, StrS)


def urlparts(e, u, names):
    u = e.force(u, STR)
    if not strsort(u):
        raise Unsupported("urlsplit of something else than a string")
    trust(e, "urllib.parse: urlsplit/urlparse/urlunsplit/unquote are (uninterpreted) functions of their string argument; urlsplit may raise ValueError")
    t = e.str_term(u)
    if not e.branch(URL_OK(t)):
        raise_(e, ValueError, "Invalid URL")
    parts = {n: SStr(URL["ppath" if n == "path" and "params" in names else n](t)) for n in names}
    return url_result(e, parts, t)


def url_result(e, parts, t=None):
    o = Opaque("SplitResult")
    o.on_call = None
    o.attrs = dict(parts)
    o.parts = parts
    if t is not None:
        o.url = t
        o.attrs["hostname"] = SVal(z3.If(URL_HOST(t), Val.s(URL["hostname"](t)), Val.none), Opt(STR))

    def replace(e, **kw):
        new = dict(parts)
        for k, v in kw.items():
            if k not in new:
                raise_(e, ValueError, "unexpected field name")
            new[k] = v
        return url_result(e, new)
    o.attrs["_replace"] = NativeFn(replace, "_replace")
    o.attrs["geturl"] = NativeFn(lambda e: m_urlunsplit(e, o), "geturl")
    return o


@model(("urllib.parse", "urlsplit"))
def m_urlsplit(e, u, *a, **k):
    return urlparts(e, u, ["scheme", "netloc", "path", "query", "fragment"])


@model(("urllib.parse", "urlparse"))
def m_urlparse(e, u, *a, **k):
    return urlparts(e, u, ["scheme", "netloc", "path", "params", "query", "fragment"])


@model(("urllib.parse", "urlunsplit"))
def m_urlunsplit(e, p):
    p = list(p.parts.values()) if isinstance(p, Opaque) and hasattr(p, "parts") else must_items(e, p)
    if len(p) != 5:
        raise Unsupported("urlunsplit")
    return SStr(UNSPLIT(*[e.str_term(e.force(x, STR)) for x in p]))


@model(("urllib.parse", "unquote"))
def m_unquote(e, s, *a, **k):
    trust(e, "urllib.parse.unquote is an (uninterpreted) function of its string argument")
    return SStr(UNQUOTE(e.str_term(e.force(s, STR))))


@model(("urllib.parse", "unquote_plus"))
def m_unquote_plus(e, s, *a, **k):
    return SStr(UNQUOTE_PLUS(e.str_term(e.force(s, STR))))


@model(("urllib.parse", "parse_qs"))
def m_parse_qs(e, q, keep_blank_values=False, *a, **k):
    """a new dictionary of non-empty lists of strings, determined by the query string; the call is noted for the contract"""
    trust(e, "urllib.parse.parse_qs returns a new dictionary of non-empty lists of strings (with keep_blank_values: of all parameters)")
    q = e.force(q, STR)
    d = e.inp(e.fresh_name("qs"), DictOf(ListOf(STR)))
    kk = z3.Const(e.fresh_name("k?"), StrS)
    e.assume(z3.ForAll([kk], z3.Implies(z3.Select(M.ddom(e, d), kk), z3.Select(e.comp("LLEN"), Val.rv(z3.Select(M.dval(e, d), kk))) > 0)))
    e.ghost.setdefault("parsed_qs", []).append((e.str_term(q), keep_blank_values is True or isinstance(keep_blank_values, int) and keep_blank_values != 0, d))
    return d


@model(("urllib.parse", "urlencode"))
def m_urlencode(e, q, doseq=False, *a, **k):
    s = e.sstr("urlencoded")
    e.ghost.setdefault("urlencoded", []).append((q, doseq, s.t))
    trust(e, "urllib.parse.urlencode returns some string (recorded with its argument)")
    return s


@model(("oidcmsg", "verified_claim_name"))
def m_verified_claim_name(e, claim):
    """a constant prefix"""
    if not isinstance(claim, str):
        raise Unsupported("verified_claim_name")
    import oidcmsg
    return oidcmsg.verified_claim_name(claim)


HTML = z3.Function("html_escaped", StrS, StrS)


@model(("html", "escape"))
def m_html_escape(e, s, quote=True):
    trust(e, "html.escape is a function of its string, whose result holds no quotation mark or angle bracket and reads back as that string")
    s = e.force(s, STR)
    if isinstance(s, str):
        import html
        return html.escape(s, bool(quote))
    if quote is not True:
        raise Unsupported("html.escape without quotes")
    t = HTML(e.str_term(s))
    for c in '"<>':
        e.assume(z3.Not(z3.Contains(t, z3.StringVal(c))))
    return SStr(t)


LEFT_HASH = z3.Function("left_hash", M.BytesS if hasattr(M, "BytesS") else UTF8(z3.StringVal("")).sort(), StrS, StrS)


@model(("cryptojwt.jws.utils", "left_hash"))
def m_left_hash(e, msg, func="HS256"):
    trust(e, "cryptojwt.jws.utils.left_hash is a function of the bytes and of the algorithm (the left half of their hash)")
    return SStr(LEFT_HASH(e.bytes_term(msg) if hasattr(e, "bytes_term") else e.force(msg).t, e.str_term(e.force(func, STR))))


# ---------------------------------------------------------------- Fernet
SEAL = z3.Function("fernet_sealed", StrS, StrS, IntS, StrS)      # key, plain text, nonce
OPENS = z3.Function("fernet_opens", StrS, StrS, BoolS)           # key, token
OPENED = z3.Function("fernet_opened", StrS, StrS, StrS)
FERNET = "cryptography.fernet: what a key sealed opens with that key, to the same bytes; whatever else fails to open (InvalidToken)"


def fernet(e, key):
    import cryptography.fernet as cf
    trust(e, FERNET)
    k = e.str_term(e.force(key, BYTES))
    o = Opaque("Fernet")

    def encrypt(e, data):
        d = e.force(data)
        if strsort(d):
            raise_(e, TypeError, "data must be bytes")
        d = e.str_term(d)
        n = e.fresh_int("nonce") if hasattr(e, "fresh_int") else e.sint("nonce").t
        r = SEAL(k, d, n)
        e.assume(z3.And(OPENS(k, r), OPENED(k, r) == d, UTF8_OK(r), z3.Length(r) > 0))
        return SBytes(r)

    def decrypt(e, token, ttl=None):
        t = e.force(token)
        if not (strsort(t) or bytesort(t)):
            raise_(e, TypeError, "token must be bytes or str")
        if ttl is not None:
            raise Unsupported("Fernet.decrypt with ttl")
        x = e.str_term(t) if bytesort(t) else UTF8(e.str_term(t))
        if z3.is_app(x) and x.decl().eq(SEAL):
            if x.arg(0).eq(k) or e.branch(x.arg(0) == k):
                return SBytes(x.arg(1))
            raise_(e, cf.InvalidToken)
        if not e.branch(OPENS(k, x)):
            raise_(e, cf.InvalidToken)
        e.ghost.setdefault("opened", []).append((k, x))
        return SBytes(OPENED(k, x))
    o.attrs = {"encrypt": NativeFn(encrypt), "decrypt": NativeFn(decrypt)}
    return o


CLASSES[("cryptography.fernet", "Fernet")] = fernet


@model(("os", "urandom"), ("posix", "urandom"))
def m_urandom(e, n):
    """n unpredictable bytes"""
    trust(e, "os.urandom returns that many bytes")
    r = SBytes(e.const("urandom", StrS))
    e.assume(z3.Length(r.t) == e.int_term(n))
    return r


@model(("importlib", "import_module"))
def import_module(e, name, package=None):
    import importlib
    if not isinstance(name, str) or package is not None:
        raise Unsupported("importing a module by a name that is not known")
    return importlib.import_module(name)
