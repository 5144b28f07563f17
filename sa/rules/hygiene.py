"""Rules about every function of the package: shared state, secrets in logs
and messages."""
import ast

from ..terms import T, C, NONE, is_const, cval, children, show
from ..query import callee, method_of
from ..runs import KEYCLASSES, JWE_KERNELS, run, param
from ..project import AnalysisBroken
from ..report import parallel
from .token import const_in

SKIP = ("PBKDF2", "elliptic", "curves")
HEAVY = ("jwkest.jwe.JWE.", "jwkest.jws.JWS.")
MUTATORS = ("append", "extend", "insert", "pop", "remove", "sort", "reverse",
            "clear", "update", "setdefault", "popitem", "add", "discard")


def functions(W):
    I = W.interp()
    for q, f in sorted(I.funcs.items()):
        p = q.split(".")
        if p[0] == "jwkest" and p[1] not in SKIP and \
                not p[-1].startswith(("test_", "_test")):
            yield q, f


def analyse(W, q, f):
    heavy = q.startswith(HEAVY) or q == "jwkest.jwe.JWE"
    opq = set(k for k in JWE_KERNELS
              if q != k and not q.startswith(k + "."))
    if heavy:
        opq |= set(KEYCLASSES) | set(["jwkest.jws.JWx._get_keys"])
    if q.endswith("_json"):
        opq |= set("jwkest.jws.JWS." + x for x in (
            "verify_compact", "verify_compact_verbose", "sign_compact"))
    I = W.interp(opq)
    names = [a.arg for a in f.node.args.args]
    names += [a.arg for a in f.node.args.kwonlyargs]
    static = any(getattr(d, "id", None) == "staticmethod"
                 for d in f.node.decorator_list)
    if f.cls and not static and not I.is_exc_class(f.cls) \
            and not I.has_ext_base(f.cls):
        return run(I, f.cls, q.rsplit(".", 1)[1], names[1:])
    return run(I, None, q, names)


def sweep(W, rep, fn, chunk=12):
    """fn(rep, run, name) for every function of the package"""
    W.key_attrs()
    jobs = []
    fs = list(functions(W))
    slow = [x for x in fs if x[0].startswith(HEAVY) or
            x[0].rsplit(".", 1)[0] in ("jwkest.jws.JWS", "jwkest.jwk.ECKey")]
    rest = [x for x in fs if x not in slow]
    groups = [[x] for x in slow]
    groups += [rest[i::8] for i in range(8)]

    def make(g):
        def job(rp):
            for q, f in g:
                r = analyse(W, q, f)
                rp.stat(r.I)
                fn(rp, r, q)
        return job
    for g in groups:
        if g:
            jobs.append(make(g))
    parallel(rep, jobs)
    return len(fs)


# -- C18 ---------------------------------------------------------------------------
def shared_writes(r):
    """writes to objects that existed before the call: module level tables,
    class attributes, default arguments"""
    base = r.I.init.heap
    for e in r.events:
        if e.kind in ("mutate", "setitem", "delitem", "setattr"):
            d = e.data[0]
            if d.op == "ref" and d.args[0] in base:
                yield e, "an object made when the module was loaded"
            elif d.op == "class":
                yield e, "class attribute %s" % e.data[1]
        elif e.kind == "call" and e.data[0].op == "attr" and \
                e.data[0].args[1] in MUTATORS:
            t = e.data[0].args[0]
            if t.op == "ref" and t.args[0] in base:
                yield e, "an object made when the module was loaded"


def rebound(r):
    """module level names and class attributes that were assigned anew"""
    base = r.I.init.frames
    out = set()
    for st in [s for s, _ in r.res] + [s for s, _ in r.raised]:
        for fid, fr in st.frames.items():
            if isinstance(fid, tuple) and fid in base and \
                    base[fid] is not fr:
                for k in set(fr) | set(base[fid]):
                    if fr.get(k) is not base[fid].get(k):
                        out.add("%s.%s" % (fid[1], k))
    return out


def c18(W, rep):
    def check(rep, r, q):
        n = 0
        for e, what in shared_writes(r):
            n += 1
            rep.ob("shared-state", e.func or q, False, what,
                   "%s changes %s: %s" % (
                       e.func, what, [show(x, 3)[:60] if hasattr(x, "op")
                                      else str(x)[:60] for x in e.data]))
        for x in sorted(rebound(r)):
            n += 1
            rep.ob("shared-state", q, False, x, "assigns %s" % x)
        if not n:
            rep.ob("shared-state", q, True, "no shared object is changed")
        f = r.I.funcs[q].node
        names = mutable_defaults(f)
        for e, t in writes(r) if names else ():
            if rooted(t, names):
                rep.ob("shared-default", e.func or q, False, show(t, 3)[:60],
                       "changes its default argument")
        if names:
            rep.ob("shared-default", q, True, ", ".join(sorted(names)))
    n = sweep(W, rep, check)
    if n < 100:
        raise AnalysisBroken("only %d functions found" % n)
    c18_alias(W, rep)
    c18_args(W, rep)
    c18_load(W, rep)


OBJECTS = ("jwkest.jwk.Key", "jwkest.jwk.RSAKey", "jwkest.jwk.ECKey",
           "jwkest.jwk.SYMKey", "jwkest.jwk.KEYS", "jwkest.jws.JWx",
           "jwkest.jws.JWS", "jwkest.jws.JWSig", "jwkest.jwt.JWT",
           "jwkest.jwe.JWE", "jwkest.jwe.JWE_RSA", "jwkest.jwe.JWE_SYM",
           "jwkest.jwe.JWE_EC", "jwkest.jwe.JWEnc")


def c18_alias(W, rep):
    """no two objects share a mutable container they did not get"""
    I = W.interp()
    base = I.init.heap
    for q in OBJECTS:
        if q not in I.classes:
            raise AnalysisBroken("class %s has vanished" % q)
        I.record = False
        made = I.instantiate(T("class", q), [], {}, [], I.init,
                             I.classes[q]["node"], I.entry_frame())
        I.record = True
        rep.ob("own-state", q, len(made) > 0, "constructor",
               "cannot be made without arguments")
        for st, ref in made:
            o = I.obj(st, ref)
            for k, v in sorted(o.fields.items()):
                b = v.op == "ref" and base.get(v.args[0])
                if b and b.kind in ("list", "dict", "set"):
                    rep.ob("own-state", q, False, k,
                           "every object shares one %s as %s" % (b.kind, k))
                else:
                    rep.ob("own-state", q, True, k)


def mutable_defaults(f):
    """parameters whose default value is one object made once"""
    a = f.args
    ps = a.posonlyargs + a.args
    pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + \
        [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return set(p.arg for p, d in pairs if not isinstance(
        d, (ast.Constant, ast.UnaryOp, ast.Lambda, ast.Tuple)))


def writes(r):
    """changes of objects that stand for unknown values: (event, value)"""
    for e in r.events:
        if e.kind in ("mutate", "setitem", "delitem", "setattr"):
            if e.root is not None:
                yield e, e.root
        elif e.kind == "call" and e.data[0].op == "attr" and \
                e.data[0].args[1] in MUTATORS:
            yield e, e.data[0].args[0]


def c18_load(W, rep):
    """tables of different classes are different objects if any is changed
    while the modules are loaded"""
    I = W.interp()
    changed = set(e.data[0] for e in I.load_events if e.kind in (
        "mutate", "setitem", "delitem") and e.data[0].op == "ref")
    own = {}
    n = 0
    for fid, fr in I.init.frames.items():
        if isinstance(fid, tuple) and fid[0] == "cls":
            for k, v in fr.items():
                if v.op == "ref" and I.obj(I.init, v).kind in (
                        "list", "dict", "set"):
                    own.setdefault(v, set()).add("%s.%s" % (fid[1], k))
    for v, names in sorted(own.items(), key=lambda x: sorted(x[1])):
        rep.ob("own-table", sorted(names)[0], v not in changed or
               len(names) == 1, ", ".join(sorted(names)),
               "one table serves %s, and it is changed while the module is "
               "loaded" % " and ".join(sorted(names)))
        n += 1
    if n < 8:
        raise AnalysisBroken("only %d class tables found" % n)


# entry points whose arguments stay as they are: (function, parameters)
ARGUMENTS = (
    ("jwkest.jws.JWS.sign_compact", ("keys", "protected")),
    ("jwkest.jws.JWS.verify_compact", ("keys",)),
    ("jwkest.jws.JWS.verify_compact_verbose", ("keys",)),
    ("jwkest.jws.JWS.verify_json", ("keys",)),
    ("jwkest.jws.JWx.pick_keys", ("keys",)),
    ("jwkest.jwe.JWE.encrypt", ("keys",)),
    ("jwkest.jwe.JWE.decrypt", ("keys",)),
    ("jwkest.jwt.JWT.pack", ("parts", "headers")),
    ("jwkest.jwk.keyrep", ("kspec",)),
    ("jwkest.jwk.KEYS.load_dict", ("dikt",)),
    ("jwkest.jwk.KEYS.add", ("item",)),
    ("jwkest.jwk.keyitems2keyreps", ("keyitems",)),
    ("jwkest.jwk.Key.thumbprint", ("members",)),
    ("jwkest.jwk.key_from_jwk_dict", ("jwk_dict",)),
    ("jwkest.jwt.b2s_conv", ("item",)),
)


def rooted(t, names):
    """t is (a part of) one of the parameters"""
    while True:
        if t.op == "param":
            return t.args[0] in names
        if t.op == "elem":
            t = t.args[1]
            continue
        if t.op in ("item", "attr", "key", "val"):
            t = t.args[0]
            continue
        if t.op in ("alt", "listv", "tuple"):
            return any(rooted(x, names) for x in t.args[0]
                       if isinstance(x, T)) if t.op != "tuple" else \
                any(rooted(x, names) for x in t.args)
        return False


def c18_args(W, rep):
    fs = dict(functions(W))
    jobs = []

    def make(q, names):
        def job(rep):
            if q not in fs:
                raise AnalysisBroken("%s has vanished" % q)
            r = analyse(W, q, fs[q])
            rep.stat(r.I)
            n = 0
            for e, t in writes(r):
                if rooted(t, names):
                    n += 1
                    rep.ob("caller-state", e.func or q, False,
                           show(t, 3)[:60],
                           "changes the caller's %s" % show(t, 4)[:100])
            if not n:
                rep.ob("caller-state", q, True, ", ".join(names))
        return job
    for q, names in ARGUMENTS:
        jobs.append(make(q, names))
    parallel(rep, jobs)


# -- C14 ---------------------------------------------------------------------------
SECRET_NAMES = frozenset((
    "d", "p", "q", "dp", "dq", "di", "qi", "k", "key", "_key", "mtrl", "cek",
    "kek", "priv", "passphrase", "password", "_master_key", "master_key",
    "_keys", "keys", "eprivk", "mac_key", "enc_key", "secret", "_auth_key"))
KEY_CLASSES = ("jwkest.jwk.Key", "jwkest.jwk.RSAKey", "jwkest.jwk.ECKey",
               "jwkest.jwk.SYMKey", "jwkest.jwk.KEYS")
PUBLIC_MEMBERS = frozenset(("apu", "apv", "iv", "epk", "alg", "enc", "kid"))
# what these give away is public (or no more than a size or a verdict)
PUBLIC_METHODS = frozenset((
    "encrypt", "sign", "verify", "keys", "name", "publickey", "public_key",
    "startswith", "endswith", "count", "find", "index", "has_key",
    "status_code", "key_types", "kids", "is_jwe", "is_jws"))
PUBLIC_BUILTINS = frozenset(("len", "type", "isinstance", "bool", "id",
                             "hash", "callable", "hasattr", "sum"))
PUBLIC_FUNCS = frozenset((
    "jwkest.aes_key_wrap.aes_wrap_key", "jwkest.jwk.Key.serialize",
    "jwkest.jwk.RSAKey.serialize", "jwkest.jwk.ECKey.serialize",
    "jwkest.elliptic.mulp", "jwkest.jws.alg2keytype"))
SECRET_CALLS = frozenset((
    "encryption_key", "decryption_key", "get_key", "to_dict", "exportKey",
    "export_key", "decrypt", "_decrypt", "dh_z", "private_key"))
SECRET_FUNCS = frozenset((
    "jwkest.aes_key_wrap.aes_unwrap_key", "jwkest.extra.ecdh_derive_key",
    "jwkest.jwk.keyrep", "jwkest.jwk.KEYS", "jwkest.jwk.RSAKey",
    "jwkest.jwk.ECKey", "jwkest.jwk.SYMKey", "jwkest.jwk.Key",
    "jwkest.jws.JWx.pick_keys", "jwkest.jws.JWx._get_keys"))


def secret(t, jwe, seen=None):
    """a secret the value would show when it is turned into text"""
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    op = t.op

    def first(ts):
        for x in ts:
            if isinstance(x, T):
                s = secret(x, jwe, seen)
                if s is not None:
                    return s
        return None
    if op in ("const", "isinst", "truthy", "cmp", "ext", "builtin", "func",
              "class", "mod", "not", "in", "absent", "ref"):
        return None
    if op == "param":
        n = t.args[0].rsplit(".", 1)[-1]
        return t if n in SECRET_NAMES or (jwe and n in (
            "msg", "plaintext", "_dict", "__dict__")) else None
    if op == "attr":
        n = t.args[1]
        if n == "__dict__" and not (t.args[0].op == "param" and
                                    t.args[0].args[0] == "self"):
            return t
        return t if n in SECRET_NAMES or (jwe and n in (
            "msg", "_dict", "__dict__")) else None
    if op == "item":
        i = t.args[1]
        if is_const(i) and isinstance(cval(i), (str, bytes)):
            n = cval(i)
            n = n.decode("latin-1") if isinstance(n, bytes) else n
            return t if n in SECRET_NAMES else None
        return first(t.args[:1])
    if op == "slice" and jwe == "wrap" and const_in(
            t.args[1], (None, 0)) and const_in(t.args[2], (8,)):
        return None        # the integrity register, not the key
    if op == "objv":
        return t if t.args[0] in KEY_CLASSES else None
    if op == "dictv":
        for x in t.args[0]:
            if isinstance(x, tuple) and len(x) == 2:
                n = x[0] if isinstance(x[0], str) else (
                    cval(x[0]) if isinstance(x[0], T) and is_const(x[0])
                    else "")
                if n in PUBLIC_MEMBERS:
                    continue
                if n in SECRET_NAMES and isinstance(x[1], T) and \
                        not is_const(x[1]):
                    return x[1]
                s = first([y for y in x if isinstance(y, T)])
                if s is not None:
                    return s
        return None
    if op in ("call", "fresh"):
        q = callee(t)
        r, n = method_of(t)
        c = t.args[0] if op == "fresh" else t
        if c.op != "call":
            return first([c])
        if q in SECRET_FUNCS:
            return t
        if q in PUBLIC_FUNCS or (q is not None and q.rsplit(".", 1)[-1] in
                                 PUBLIC_METHODS):
            return None
        if q is not None and q.rsplit(".", 1)[-1] in SECRET_CALLS:
            return t
        if n in SECRET_CALLS:
            return t
        if n == "serialize":
            a = list(c.args[1]) + [v for k, v in c.args[2]]
            return t if a and not (is_const(a[0]) and not cval(a[0])) \
                else None
        if n in PUBLIC_METHODS:
            return None
        f = c.args[0]
        if f.op == "builtin" and f.args[0] in PUBLIC_BUILTINS:
            return None
        if f.op == "ext" and f.args[0].startswith((
                "Cryptodome.Random", "os.urandom", "secrets.")):
            return t if jwe else None
        ts = list(c.args[1]) + [v for k, v in c.args[2]]
        if r is not None:
            ts.append(r)
        return first(ts)
    return first(children(t))


def c14(W, rep):
    total = [0]

    def check(rep, r, q):
        jwe = q.startswith(("jwkest.jwe.", "jwkest.aes_", "jwkest.extra."))
        n = 0
        for e in r.events:
            if e.func and e.func.rsplit(".", 1)[-1].startswith("test"):
                continue
            if e.kind == "log":
                ts, what = e.data[1], "log message"
            elif e.kind == "raise":
                ts, what = e.data[:1], "exception"
            else:
                continue
            mode = "wrap" if (e.func or q).startswith(
                "jwkest.aes_key_wrap.") else jwe
            n += 1
            s = None
            for t in ts:
                s = s or secret(t, mode)
            rep.ob("no-secret", "%s (%s)" % (e.func or q, what), s is None,
                   what, "shows a secret: %s" % (s and show(s, 4)[:120]))
        rep.ob("analysed", q, True, "every path")
    n = sweep(W, rep, check)
    if n < 100:
        raise AnalysisBroken("only %d functions found" % n)
    if rep.kinds.get("no-secret", (0,))[0] < 100:
        raise AnalysisBroken("no log or raise statements found")


CARRIERS = ("jwkest.jws.JWS", "jwkest.jws.JWx", "jwkest.jwe.JWE",
            "jwkest.jwe.JWE_RSA", "jwkest.jwe.JWE_SYM", "jwkest.jwe.JWE_EC")


def dict_entries(t):
    """(names, value, certain) of a dictionary value; None: not known"""
    if t.op == "alt":
        out = []
        for x in t.args[0]:
            e = dict_entries(x)
            if e is None:
                return None
            out.extend(e)
        return out
    if t.op == "call" and t.args[0].op == "builtin" and \
            t.args[0].args[0] == "dict" and len(t.args[1]) == 1:
        return dict_entries(t.args[1][0])
    if t.op != "dictv" or t.args[2] is not NONE:
        return None
    out = []
    for i in (0, 1):
        for e in t.args[i]:
            k = e[0]
            if isinstance(k, T) and k.op == "elem":
                # one of a fixed set of names
                ns = k.args[1].args[0] if k.args[1].op == "listv" else \
                    k.args[1].args
                if k.args[1].op not in ("tuple", "listv") or not all(
                        isinstance(n, T) and is_const(n) for n in ns):
                    return None
                k = [cval(n) for n in ns]
            elif isinstance(k, T):
                if not is_const(k):
                    return None
                k = [cval(k)]
            else:
                k = [k]
            out.append((k, e[1], i == 0))
    return out


def c14_headers(W, rep):
    """no header parameter carries a secret"""
    W.key_attrs()

    def make(c):
        def job(rep):
            I = W.interp(KEYCLASSES)
            r = run(I, c, "headers", ["extra"])
            rep.stat(I)
            n = 0
            for st, v in r.values():
                es = dict_entries(v)
                rep.ob("recognised", r.entry, es is not None, c,
                       "the header parameters are not a fixed set")
                sure = [x for k, x, f in es or () if f and k == ["jwk"]]
                for ks, x, f in es or ():
                    for k in ks:
                        n += 1
                        if k != "jwk":
                            ok = k not in SECRET_NAMES
                        elif f:
                            ok = private_export(x) is None
                        else:
                            ok = bool(sure) or absent(st.facts, "jwk", x)
                        rep.ob("no-secret-header", r.entry, ok,
                               "%s %s" % (c, k), "the header parameter %s "
                               "of %s can carry a secret: %s" % (
                                   k, c, show(x, 4)[:100]))
            rep.ob("recognised", r.entry, n > 0, c, "no header parameters")
        return job
    parallel(rep, [make(c) for c in CARRIERS])


def absent(facts, name, value):
    """the dictionary the value is taken from has no entry of this name"""
    if value.op != "item":
        return False
    d = value.args[0]
    return any(a.op == "cmp" and a.args[0] == "in" and not p and
               const_in(a.args[1], (name,)) and a.args[2] is d
               for a, p in facts) or (T("truthy", d), False) in facts


def private_export(t):
    """the exported key t may contain private members"""
    for x in (t.args[0] if t.op == "alt" else (t,)):
        c = x.args[0] if x.op == "fresh" else x
        if c.op != "call":
            return x
        r, n = method_of(x)
        q = callee(x)
        if n != "serialize" and not (q or "").endswith(".serialize"):
            return x
        a = list(c.args[1]) + [v for k, v in c.args[2]]
        if q is not None:
            a = a[1:] if a else a
        if a and not (is_const(a[0]) and not cval(a[0])):
            return x
    return None
